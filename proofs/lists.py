"""Proof scenarios of process lists, groups and references (C13-C16): lists of any length whose
nodes are known only by what they are asked."""
import z3
from pyvc import lib
from pyvc import engine as E_
from pyvc.vals import *
from pyvc.sym import Sym, Ctx, DEPTHS, oblige
from pyvc import contracts as K
from pyvc import fsmodel
from pyvc.contracts import RESCALE, depth_term

I, O = z3.IntSort(), AbSort
SCEN = {}
NODE = z3.Function('NODE', I, O)
APP = z3.Function('APP', O, I, O, O)              # node, stride, values
F32, ALIAS = z3.Function('F32', O, O), z3.Function('ALIAS', O, O)
BYP, IN, OUT, NAME, KIND = [z3.Function(x, O, I) for x in ('BYP', 'IN', 'OUT', 'NAME', 'KIND')]


def scenario(pid, name, uses=('Range.Range.process',)):
    def deco(fn):
        for p in pid.split(): SCEN.setdefault(p, []).append((name, fn, tuple(uses)))
        return fn
    return deco


def ext(name, fn): return E_.Ext(name, lambda e, a, k: fn(*a, **k))


class Fold(object):
    """The state of a loop that carries one abstract value: init, then step(i, x) for i in [0,n)."""
    def __init__(self, init, step, x, p, n, facts):
        self.init, self.step, self.x, self.p, self.n, self.facts = init, step, x, p, n, facts


class ValModel(object):
    """A buffer of values known only through what was applied to it."""
    def np_array(self, en, v, dtype): return Ab(F32(v.e), self) if dtype == 'f' else Ab(z3.Function('ARR', O, O)(v.e), self)
    def np_asarray(self, en, v, dtype):
        # may be the caller's own array: a new object only once it is copied
        return Ab(ALIAS(v.e), self) if dtype == 'f' else self.np_array(en, v, dtype)

    def carry(self, en, v0): return Ab(en.fresh('values', 'o').e, self)

    def solve(self, en, f, res, vals, p, n, carry, tok):
        from pyvc import loops
        v = loops.merge_results(en, res, vals)
        if not isinstance(v, Ab): raise Unsupported('values carried through a loop')
        f['fold'] = Fold(f['init'], v, f['x'], p, n, loops.iteration_facts(en, res, p, n))
        f['done'] = True
        return False

    def final(self, en, f, n):
        en.counter += 1
        t = z3.Const('FOLD!%d' % en.counter, O)
        en.__dict__.setdefault('folds', {})[str(t)] = f['fold']
        return Ab(t, self)

    def getattr(self, en, v, name):
        if name in ('copy', 'astype'):
            def copy(dtype=None):
                w = F32(v.e.arg(0)) if v.e.num_args() and v.e.decl().name() == 'ALIAS' else v.e
                return self.np_array(en, Ab(w, self), 'f') if name == 'astype' else Ab(w, self)
            return ext(name, copy)
        raise Unsupported('%s of a buffer' % name)


VAL = ValModel()


class NodeModel(object):
    """A node known only by its attributes and by what process does."""
    def isinstance(self, en, v, cls):
        nm = en.st(cls).name if isinstance(cls, E_.Ref) else cls.name
        if nm == 'Reference': return mkbool(KIND(v.e) == 1)
        if nm == 'Group': return mkbool(KIND(v.e) == 2)
        if nm in ('ProcessNode', 'object'): return True
        raise Unsupported('isinstance of an abstract node')

    def attr(self, en, v, key):
        if key == 'bypass':
            if en.decide(mkbool(BYP(v.e) == 0)): return None
            return not en.decide(mkbool(BYP(v.e) == 1))
        if key in ('inBitDepth', 'outBitDepth', 'name'):
            return S({'inBitDepth': IN, 'outBitDepth': OUT, 'name': NAME}[key](v.e))
        raise Unsupported('attribute %s of an abstract node' % key)

    def getattr(self, en, v, name):
        if name == 'process':
            def process(values, stride=0, verbose=False):
                if not isinstance(values, Ab) or values.model is not VAL: raise Unsupported('values of an abstract node')
                return Ab(APP(v.e, zi(stride), values.e), VAL)
            return ext(name, process)
        if name == 'getAttribute': return ext(name, lambda key: self.attr(en, v, key))
        if name == 'getInBitDepth': return ext(name, lambda: self.attr(en, v, 'inBitDepth'))
        if name == 'getOutBitDepth': return ext(name, lambda: self.attr(en, v, 'outBitDepth'))
        if name == 'getNodeType': return ext(name, lambda: S(z3.Function('TYPE', O, I)(v.e)))
        if name == 'write': return ext(name, lambda tree, sc=None: self.write(en, v, tree, sc))
        if name == 'setWriteReferencedNodes':
            def setw(flag):
                if not en.decide(mkbool(KIND(v.e) == 1)): en.pyraise('AttributeError')
                en.heap[en.flags.id] = en.heap[en.flags.id].set(v.e, flag)
            return ext(name, setw)
        raise Unsupported('%s of an abstract node' % name)

    def write(self, en, v, tree, sc):
        """Writing appends what stands for the node: WR(node, self-contained?)."""
        if en.decide(mkbool(KIND(v.e) == 1)):
            if sc is not None: en.pyraise('TypeError')
            flag = en.heap[en.flags.id].get(v.e)
        elif en.decide(mkbool(KIND(v.e) == 2)): flag = False if sc is None else en.truthval(sc)
        elif sc is not None: en.pyraise('TypeError')
        else: flag = False
        ch = en.st(tree).attrs['_children']
        en.call(en.getattr(ch, 'append'), [Ab(WR(v.e, zb(flag)), WRITTEN)], {})
        return None


class Written(object):
    def getattr(self, en, v, name): raise Unsupported('%s of a written node' % name)


WRITTEN = Written()
WR = z3.Function('WR', O, z3.BoolSort(), O)
OLD = z3.Function('OLDFLAG', O, z3.BoolSort())


class FileS(object):
    """The write flags of abstract references (named FileS for the loop rule: it has its own)."""
    def __init__(self, d=()): self.d = tuple(d)
    def set(self, node, flag): return FileS(((node, flag),) + self.d)

    def get(self, node):
        for n, f in self.d:
            if n.eq(node): return f
        return B(OLD(node))

    def loop(self, en, i, n, p, res, pre, facts): return FileS()


NODES = NodeModel()


def node_list(en, m):
    p = z3.Int('nd')
    return en.mkcells((m,), lambda ix: Ab(NODE(zi(ix[0])), NODES))


def spec_step(autodesk, m, stride, i, x):
    """What the property says node i does to x."""
    app = APP(NODE(i), stride, x)
    if not autodesk: return app
    a, b = OUT(NODE(i - 1)), IN(NODE(i + 1))
    adapt = z3.If(z3.And(i > 0, i < zi(m) - 1, a != b), RESCALE(a, b, x), x)
    return z3.If(BYP(NODE(i)) == 2, adapt, app)


def domain(en, m):
    q = z3.Int('q')
    en.assume(B(z3.ForAll([q], z3.And(BYP(NODE(q)) >= 0, BYP(NODE(q)) <= 2), patterns=[BYP(NODE(q))])))


def oblige_fold(en, what, r, init, m, step):
    """r is the fold of step over [0,m) from init: base case, step case (any i, any x)."""
    if not (isinstance(r, Ab) and str(r.e) in en.__dict__.get('folds', {})):
        # no loop was needed: the list is empty or its length was decided
        k = lib.conc_len(en, m)
        if k is None: raise Unsupported('the result is not a fold over the nodes')
        t = init
        for i in range(k): t = step(z3.IntVal(i), t)
        oblige(en, '%s: all nodes applied (%s nodes)' % (what, k), mkbool(r.e == t) if isinstance(r, Ab) else K.opaque(en, r))
        return
    f = en.folds[str(r.e)]
    oblige(en, '%s: starts from the values' % what, mkbool(f.init.e == init) if isinstance(f.init, Ab) else K.opaque(en, f.init))
    oblige(en, '%s: one step per node' % what, eq(f.n, m))
    hyp = z3.And(f.p.e >= 0, f.p.e < zi(m), *f.facts)
    oblige(en, '%s: step i is what node i does' % what, B(z3.Implies(hyp, f.step.e == step(f.p.e, f.x.e))))


def autodesk_on(en, c, which):
    c.features(which)
    fs = en.st(c['featureSets']).d
    v = fs[which]
    return bool(v & fs['Autodesk'])


FEATURES = ['Academy', 'Autodesk', 'Duiker Research', 'All']


def setup(en, cls):
    c = Ctx(en)
    names = [k for k in en.st(c['featureSets']).d]
    on = autodesk_on(en, c, en.choose(names, 'feature set'))
    obj = c.call(cls)
    m = en.const('m', 'i')
    en.assume(le(0, m))
    domain(en, m)
    K.set_private(en, obj, '_processes', node_list(en, m))
    v = Ab(z3.Const('values', O), VAL)
    s = en.const('stride', 'i')
    en.assume(le(0, s))
    return c, on, obj, m, v, s


@scenario('C14 C15', 'list of any length')
def c14(en):
    c, on, pl, m, v, s = setup(en, 'ProcessList')
    r = K.pure(en, lambda: c.m(pl, 'process', v, s))
    oblige_fold(en, 'ProcessList.process', r, F32(v.e), m, lambda i, x: spec_step(on, m, s.e, i, x))


@scenario('C15 C16', 'group of any length')
def c16(en):
    c, on, g, m, v, s = setup(en, 'Group')
    r = K.pure(en, lambda: c.m(g, 'process', v, s))
    oblige_fold(en, 'Group.process', r, v.e, m, lambda i, x: spec_step(on, m, s.e, i, x))


def abstract_children(en, root):
    return en.st(root).attrs['_children']


@scenario('C16', 'writing a list or a group', ())
def c16_write(en):
    cls = en.choose(['ProcessList', 'Group'], 'class')
    c, on, obj, m, v, s = setup(en, cls)
    en.flags = en.alloc('flags', FileS())
    sc = en.choose([False, True], 'self-contained')
    if cls == 'ProcessList':
        form = en.choose(['document', 'into an element'], 'form') 
        if form == 'document':
            doc = c.m(obj, 'write', writeSelfContained=sc)
            root = c.m(doc, 'getroot')
        else:
            up = en.call(en.elementClass, ['up'], {})
            c.m(obj, 'write', up, sc)
            root = en.getitem(abstract_children(en, up), 0)
    else:
        up = en.call(en.elementClass, ['up'], {})
        c.m(obj, 'write', up, sc)
        oblige(en, 'one element', eq(lib.seq_len(en, abstract_children(en, up)), 1))
        root = en.getitem(abstract_children(en, up), 0)
    ch = abstract_children(en, root)
    oblige(en, 'the element has the name of the class', en.equal(en.st(root).attrs['tag'], cls))
    oblige(en, 'as many children as nodes', eq(lib.seq_len(en, ch), m))
    j = en.const('j', 'i')
    en.assume(band(le(0, j), lt(j, m)))
    nd = NODE(j.e)
    want = WR(nd, z3.And(z3.BoolVal(sc), z3.Or(KIND(nd) == 1, KIND(nd) == 2)))
    oblige(en, 'child j is node j, its references replaced exactly when self-contained', mkbool(en.getitem(ch, j).e == want))


@scenario('C16', 'writing a reference', ())
def c16_ref_write(en):
    c, on, pl, m, v, s = setup(en, 'ProcessList')
    en.flags = en.alloc('flags', FileS())
    fsmodel.attach(en)
    have, flag = en.choose([(a, b) for a in (0, 1) for b in (False, True)], 'file read, flag')
    ref = c.call('Reference', 'in', 'out', 'i', 'n')
    c.m(ref, 'setAttribute', 'path', 'some.clf')
    c.m(ref, 'setWriteReferencedNodes', flag)
    K.set_private(en, ref, '_processList', pl if have else None)
    up = en.call(en.elementClass, ['up'], {})
    c.m(ref, 'write', up)
    ch = abstract_children(en, up)
    if have and flag:
        oblige(en, 'the nodes of the list instead of the reference', eq(lib.seq_len(en, ch), m))
        j = en.const('j', 'i')
        en.assume(band(le(0, j), lt(j, m)))
        nd = NODE(j.e)
        oblige(en, 'child j is node j, written self-contained too',
               mkbool(en.getitem(ch, j).e == WR(nd, z3.Or(KIND(nd) == 1, KIND(nd) == 2))))
    else:
        oblige(en, 'one element', eq(lib.seq_len(en, ch), 1))
        el = en.getitem(ch, 0)
        oblige(en, 'a Reference', en.equal(en.st(el).attrs['tag'], 'Reference'))
        d = en.st(en.st(el).attrs['attrib']).d
        oblige(en, 'with its path', en.equal(d.get('path'), 'some.clf'))
        oblige(en, 'nothing inside', eq(lib.seq_len(en, abstract_children(en, el)), 0))


@scenario('C16 C13', 'processing a reference')
def c16_ref_process(en):
    c, on, pl, m, v, s = setup(en, 'ProcessList')
    fsmodel.attach(en)
    ref = c.call('Reference')
    have = en.choose([True, False], 'file read')
    K.set_private(en, ref, '_processList', pl if have else None)
    r = K.pure(en, lambda: c.m(ref, 'process', v, s))
    if not have: oblige(en, 'values unchanged', mkbool(r.e == v.e) if isinstance(r, Ab) else K.opaque(en, r))
    else: oblige_fold(en, 'Reference.process', r, F32(v.e), m, lambda i, x: spec_step(on, m, s.e, i, x))


@scenario('C16', 'which file a reference names', ())
def c16_paths(en):
    c = Ctx(en)
    fs = fsmodel.attach(en)
    path, base = en.choose([(p, b) for p in ('', 'a.clf', '/x/a.clf') for b in ('', '/d', '/d/')], 'path, base path')
    how = en.choose(['constructor', 'setPaths', 'read'], 'how')
    full = None if path == '' else path if base == '' or path[0] == '/' else base.rstrip('/') + '/' + path
    there = full is not None and en.choose([True, False], 'file exists')
    if there:
        root = en.call(en.elementClass, ['ProcessList'], {})
        en.call(en.getattr(root, 'append'), [en.call(en.elementClass, ['Range'], {})], {})
        fs.put(en, full, fsmodel.Xml(root))
    if how == 'constructor': ref = c.call('Reference', path=path, basePath=base)
    elif how == 'setPaths':
        ref = c.call('Reference')
        c.m(ref, 'setPaths', path, base)
    else:
        el = en.call(en.elementClass, ['Reference'], {})
        for k_, v_ in (('path', path), ('basePath', base)):
            if v_ != '': c.m(el, 'set', k_, v_)
        ref = c.call('Reference')
        c.m(ref, 'read', el)
    pl = K.private(en, ref, '_processList')
    if there:
        ok = isinstance(pl, E_.Ref) and pl.kind == 'inst'
        oblige(en, 'the list of the file', ok)
        if ok: oblige(en, 'read from the joined path', eq(c.m(pl, '__len__'), 1))
    else: oblige(en, 'no list', pl is None)


@scenario('C14', 'looking up by name', ())
def c14_name(en):
    cls = en.choose(['ProcessList', 'Group'], 'class')
    c, on, pl, m, v, s = setup(en, cls)
    nm = en.const('name', 's')
    r = K.pure(en, lambda: c.m(pl, 'getProcess', nm))
    k, q = z3.Int('k'), z3.Int('q')
    if r is None:
        j = en.const('j', 'i')
        oblige(en, 'nothing found: no node has the name',
               implies(band(le(0, j), lt(j, m)), B(NAME(NODE(j.e)) != nm.e)))
        return
    if not isinstance(r, Ab): raise Unsupported('result of getProcess')
    # r is NODE(w) with the name, and no earlier node has it
    w = r.e.arg(0) if r.e.decl().name() == 'NODE' else None
    if w is None: raise Unsupported('result of getProcess')
    oblige(en, 'the node has the name', B(z3.And(w >= 0, w < zi(m), NAME(r.e) == nm.e)))
    j = en.const('j', 'i')
    oblige(en, 'no earlier node has it', B(z3.Implies(z3.And(j.e >= 0, j.e < w), NAME(NODE(j.e)) != nm.e)))


@scenario('C14', 'adding, indexing and counting', ())
def c14_add(en):
    cls = en.choose(['ProcessList', 'Group'], 'class')
    c, on, pl, m, v, s = setup(en, cls)
    new = Ab(z3.Const('new', O), NODES)
    c.m(pl, 'addProcess', new)
    j = en.const('j', 'i')
    en.assume(band(le(0, j), le(j, m)))
    want = z3.If(j.e == m.e, new.e, NODE(j.e))
    ps = c.m(pl, 'getProcesses')
    oblige(en, 'one more node', eq(lib.seq_len(en, ps), add(m, 1)))
    oblige(en, 'added at the end, the others stay', mkbool(en.getitem(ps, j).e == want))
    if cls == 'ProcessList':
        oblige(en, 'length', eq(c.m(pl, '__len__'), add(m, 1)))
        oblige(en, 'indexing', mkbool(c.m(pl, '__getitem__', j).e == want))
        it = c.m(pl, '__iter__')
        oblige(en, 'iteration: length', eq(lib.seq_len(en, it), add(m, 1)))
        oblige(en, 'iteration: order', mkbool(lib.seq_at(en, it, j).e == want))


PX = z3.Function('PX', O, O)      # the one pixel of a buffer, for a fixed pixel and stride


@scenario('C13', 'lists and groups, given that nodes are')
def c13_list(en):
    """If every node treats pixels independently (the other C13 scenarios, and this one for inner
    lists), so does a list: taking the pixel out commutes with the start and with every step."""
    cls = en.choose(['ProcessList', 'Group'], 'class')
    c, on, pl, m, v, s = setup(en, cls)
    x, nd = z3.Const('x', O), z3.Const('nd', O)
    a, b = z3.Int('a'), z3.Int('b')
    en.assume(B(z3.ForAll([nd, x], PX(APP(nd, s.e, x)) == APP(nd, s.e, PX(x)), patterns=[PX(APP(nd, s.e, x))])))
    en.assume(B(z3.ForAll([a, b, x], PX(RESCALE(a, b, x)) == RESCALE(a, b, PX(x)), patterns=[PX(RESCALE(a, b, x))])))
    en.assume(B(z3.ForAll([x], PX(F32(x)) == F32(PX(x)), patterns=[PX(F32(x))])))
    r = c.m(pl, 'process', v, s)
    r1 = c.m(pl, 'process', Ab(PX(v.e), VAL), s)
    folds = en.__dict__.get('folds', {})
    if not (isinstance(r, Ab) and isinstance(r1, Ab)): raise Unsupported('result of process')
    f, g = folds.get(str(r.e)), folds.get(str(r1.e))
    if f is None or g is None:
        oblige(en, 'the pixel of the result', mkbool(PX(r.e) == r1.e))
        return
    oblige(en, 'start', mkbool(PX(f.init.e) == g.init.e))
    oblige(en, 'as many steps', eq(f.n, g.n))
    gs = z3.substitute(g.step.e, (g.p.e, f.p.e), (g.x.e, PX(f.x.e)))
    hyp = z3.And(f.p.e >= 0, f.p.e < zi(m))
    oblige(en, 'every step', B(z3.Implies(hyp, PX(f.step.e) == gs)))


scenario('C15', 'the adapter', ('ProcessNode.bitDepthToNormalized', 'ProcessNode.normalizedToBitDepth'))(K.p_adapter)
