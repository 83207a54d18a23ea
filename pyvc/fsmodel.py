"""Model of files: a path holds a content; text files, gzipped files, XML documents.
Trusted: writing then reading a file gives what was written; gzip.open refuses to read what is
not gzipped; an XML document printed by minidom parses to the tree it was printed from (text of
elements that hold only text is kept); parsing gzipped bytes as XML is an error."""
import z3
from .vals import *
from . import engine as E_
from . import lib


class Gz(object):
    noloop = True

    def __init__(self, c): self.c = c


class Xml(object):
    """The serialised form of a tree (an Element made by copying it)."""
    noloop = True

    def __init__(self, root): self.root = root


class Handle(object):
    noloop = True


class FileS(object):
    """State of an open file."""
    def __init__(self, path, mode, gz, parts, pos=0, closed=False):
        self.path, self.mode, self.gz, self.parts, self.pos, self.closed = path, mode, gz, tuple(parts), pos, closed

    def with_(self, **k):
        d = dict(path=self.path, mode=self.mode, gz=self.gz, parts=self.parts, pos=self.pos, closed=self.closed)
        d.update(k)
        return FileS(**d)

    def loop(self, en, i, n, p, res, pre, facts):
        """A loop that writes a text per iteration."""
        from . import loops
        k = len(self.parts)
        bodies = []
        for r in res:
            st = r.heap[i]
            if st.pos != self.pos or st.closed or st.parts[:k] != self.parts: raise Unsupported('file in a loop')
            bodies.append(mktext([x for x in st.parts[k:]]))
        body = bodies[0] if len(bodies) == 1 else text_tree(res, bodies)
        return self.with_(parts=self.parts + (LoopText(n, lambda q: subst(body, [(p.e, zi(q))])),))


def text_tree(res, texts):
    """The texts of the paths of an iteration as one text that depends on their conditions."""
    from . import loops

    def merge(nd):
        if nd.leaf is not None: return texts[nd.leaf]
        x, y = merge(nd.a), merge(nd.b)
        return x if loops.identical(x, y) else mktext([Alt(mkbool(nd.cond), x, y)])
    t = loops.tree_of(res)
    if t is not None: return merge(t)
    v = texts[-1]
    for r, w in list(zip(res, texts))[-2::-1]:
        v = mktext([Alt(mkbool(z3.And(*r.branches)) if r.branches else B(z3.BoolVal(True)), w, v)])
    return v


class FS(object):
    """exists: path -> bool or None (ask the table of contents)."""

    def __init__(self, en, oracle=None):
        self.files = en.alloc('dict', E_.DictS({}))
        self.log = en.alloc('list', E_.ListS(()))
        self.oracle = oracle

    def content(self, en): return en.st(self.files).d

    def put(self, en, path, c):
        d = dict(self.content(en))
        d[path] = c
        en.put(self.files, E_.DictS(d))

    def note(self, en, what, path): en.put(self.log, E_.ListS(en.st(self.log).items + ((what, path),)))
    def noted(self, en): return en.st(self.log).items

    def exists(self, en, path):
        if path in self.content(en): return True
        if self.oracle is not None: return self.oracle(en, path)
        return False

    def fail(self, en, name='IOError'): en.pyraise(name if name in en.builtins else 'IOError')

    def _open(self, en, path, mode, gz):
        if not isinstance(path, str): raise Unsupported('open of a symbolic path')
        self.note(en, 'open ' + mode[0] + (' gz' if gz else ''), path)
        if mode[0] == 'w': 
            self.put(en, path, None)
            return self.handle(en, FileS(path, mode, gz, ()))
        if mode[0] in 'ax':
            # there may be a file already
            here = self.content(en)
            old = here[path] if path in here else 'what the file held' if en.choose([False, True], '%s exists' % path) else None
            if mode[0] == 'x' and old is not None: self.fail(en)
            if gz and isinstance(old, Gz): old = old.c
            self.put(en, path, old)
            return self.handle(en, FileS(path, 'w' + mode[1:], gz, () if old is None else (old,)))
        if mode[0] != 'r' or '+' in mode: raise Unsupported('file mode ' + mode)
        if not en.truth(self.exists(en, path)): self.fail(en)
        c = self.content(en).get(path)
        if isinstance(c, Gz) != gz and not (not gz and 'b' in mode):
            # the error comes with the first read
            return self.handle(en, FileS(path, mode, gz, ('bad',)))
        return self.handle(en, FileS(path, mode, gz, (c.c if gz else c,)))

    def open(self, en, a, k): return self._open(en, a[0], a[1] if len(a) > 1 else k.get('mode', 'r'), False)
    def gzopen(self, en, a, k): return self._open(en, a[0], a[1] if len(a) > 1 else k.get('mode', 'rb'), True)

    def handle(self, en, st):
        cls = en.__dict__.get('_fileclass')
        if cls is None: cls = en._fileclass = self.make_class(en)
        h = en.alloc('file', st)
        return en.alloc('inst', E_.InstS(cls, {'_h': h, 'name': st.path}))

    def make_class(self, en):
        cls = E_.ExtClass('file')

        def meth(name, f):
            x = E_.Ext('file.' + name, f)
            x.method = True
            cls.attrs[name] = x

        def st(e, o): return e.heap[e.st(o).attrs['_h'].id]

        def put(e, o, s): e.heap[e.st(o).attrs['_h'].id] = s

        def write(e, a, k):
            s = st(e, a[0])
            if s.mode[0] != 'w' or s.closed: e.pyraise('ValueError')
            put(e, a[0], s.with_(parts=s.parts + (a[1],)))

        def close(e, a, k):
            s = st(e, a[0])
            if s.mode[0] == 'w' and not s.closed:
                c = s.parts[0] if len(s.parts) == 1 else mktext(s.parts) if all(isinstance(x, (str, S, T, LoopText)) for x in s.parts) else s.parts
                e.fs.put(e, s.path, Gz(c) if s.gz else c)
            put(e, a[0], s.with_(closed=True))

        def text(e, a):
            s = st(e, a[0])
            if s.closed: e.pyraise('ValueError')
            if s.parts == ('bad',): e.fs.fail(e)
            c = s.parts[0] if s.parts else ''
            if not isinstance(c, (str, T)): raise Unsupported('reading a file')
            return c

        def read(e, a, k):
            s = st(e, a[0])
            if s.pos: return ''
            c = text(e, a)
            put(e, a[0], s.with_(pos=1))
            return c

        def lines(e, a): return lib.file_lines(e, text(e, a))

        def readlines(e, a, k):
            s = st(e, a[0])
            ls = lines(e, a)[s.pos:]
            put(e, a[0], s.with_(pos=s.pos + len(ls)))
            return e.mklist(ls)

        def readline(e, a, k):
            s = st(e, a[0])
            ls = lines(e, a)
            if s.pos >= len(ls): return ''
            put(e, a[0], s.with_(pos=s.pos + 1))
            return ls[s.pos]
        meth('write', write)
        meth('writelines', lambda e, a, k: [write(e, [a[0], x], {}) for x in e.items(a[1])] and None)
        meth('close', close)
        meth('flush', lambda e, a, k: None)
        meth('read', read)
        meth('readlines', readlines)
        meth('readline', readline)
        meth('__enter__', lambda e, a, k: a[0])
        meth('__exit__', lambda e, a, k: close(e, a, k))
        meth('__iter__', lambda e, a, k: readlines(e, a, k))
        return cls

    # -------------------------------------------------------- XML
    def copy(self, en, el):
        st = en.st(el)
        a = dict(st.attrs)
        a['attrib'] = en.mkdict(en.st(a['attrib']).d)
        ch = en.st(a['_children'])
        if isinstance(ch, E_.ListS):
            a['_children'] = en.mklist([self.copy(en, x) for x in ch.items])
            if ch.items: a['text'] = E_.Poison('white space of a printed element', ('xml', 'text'))
            elif isinstance(a['text'], str) and a['text'] == '': a['text'] = None
        a['tail'] = E_.Poison('white space after a printed element', ('xml', 'tail'))
        return en.alloc('inst', E_.InstS(st.cls, a))

    def xml_of(self, en, root): return Xml(self.copy(en, root))

    def minidom(self, en, x):
        if not isinstance(x, Xml): raise Unsupported('minidom.parseString')
        cls = en.__dict__.get('_domclass')
        if cls is None:
            cls = en._domclass = E_.ExtClass('Document')
            for nm in ('toprettyxml', 'toxml'):
                f = E_.Ext(nm, lambda e, a, k: e.st(a[0]).attrs['_x'])
                f.method = True
                cls.attrs[nm] = f
        return en.alloc('inst', E_.InstS(cls, {'_x': x}))

    def xml_parse(self, en, src):
        if isinstance(src, str):
            self.note(en, 'parse', src)
            if not en.truth(self.exists(en, src)): self.fail(en)
            c = self.content(en).get(src)
        elif isinstance(src, E_.Ref) and src.kind == 'inst':
            s = en.heap[en.st(src).attrs['_h'].id]
            if s.closed: en.pyraise('ValueError')
            if s.parts == ('bad',): self.fail(en)
            c = s.parts[0]
        else: raise Unsupported('etree.parse')
        if isinstance(c, Xml): return self.copy(en, c.root)
        en.pyraise('SyntaxError')     # ParseError is a SyntaxError


def attach(en, oracle=None):
    en.fs = FS(en, oracle)
    return en.fs
