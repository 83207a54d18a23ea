"""Proof scenarios of the LUT file side: formats and their registry (C26)."""
import z3
from fractions import Fraction
from pyvc import lib
from pyvc import engine as E_
from pyvc.vals import *
from pyvc.sym import Sym, Ctx, oblige
from pyvc import contracts as K
from pyvc import fsmodel

I, O, BO = z3.IntSort(), AbSort, z3.BoolSort()
SCEN = {}


def scenario(pid, name, uses=()):
    def deco(fn):
        fn.modules = ('aces.lutFormats',)
        for p in pid.split(): SCEN.setdefault(p, []).append((name, fn, tuple(uses)))
        return fn
    return deco


def ext(name, fn): return E_.Ext(name, lambda e, a, k: fn(*a, **k))


# ---------------------------------------------------------------- C26: the registry

FMT = z3.Function('FMT', I, O)
HAS = z3.Function('DECLARES', O, I, BO)             # format, extension (lower case)
CAN = z3.Function('CAPABLE', O, I, I, BO)           # format, capability, extension
READ_OK, WROTE = z3.Function('READ_OK', O, BO), z3.Function('WROTE', O, BO)
NREAD, NODEOF = z3.Function('NREAD', O, I), z3.Function('NODEOF', O, I, O)


def sid(x): return z3.IntVal(strid(x)) if isinstance(x, str) else x.e


class Exts(object):
    def contains(self, en, v, x): return mkbool(HAS(v.e, sid(x)))


class Caps(object):
    def __init__(self, x): self.x = x
    def contains(self, en, v, x): return mkbool(CAN(v.e, sid(x), sid(self.x) if self.x is not None else z3.IntVal(-1)))


class OneNode(object):
    pass


class Nodes(object):
    """What reading gave: falsy when it failed, else a list of nodes."""
    def truth(self, en, v): return mkbool(READ_OK(v.e))
    def len(self, en, v): return mkint(NREAD(v.e))
    def seq(self, en, v): return mkint(NREAD(v.e)), lambda i: Ab(NODEOF(v.e, zi(i)), ONE)
    def getitem(self, en, v, i): return Ab(NODEOF(v.e, zi(i)), ONE)


EXTS, NODES, ONE = Exts(), Nodes(), OneNode()
DEFAULT_READ = [False, 'linear', True, True]


class FmtModel(object):
    """A format known only by what it declares and by whether its methods succeed."""
    def __init__(self, want): self.want = want

    def cap(self, en, v, capability, extension=None):
        return mkbool(CAN(v.e, sid(capability), z3.IntVal(-1) if extension is None else sid(extension)))

    def getattr(self, en, v, name):
        if name == 'extensions': return ext(name, lambda: Ab(v.e, EXTS))
        if name == 'capabilities': return ext(name, lambda extension=None: Ab(v.e, Caps(extension)))
        if name == 'isCapable': return ext(name, lambda capability, extension=None: self.cap(en, v, capability, extension))
        for nm, cap in (('canRead', 'read'), ('canWrite1D', 'write1D'), ('canWrite3D', 'write3D'), ('canWrite1D3D1D', 'write1D3D1D')):
            if name == nm: return ext(name, lambda extension=None, cap=cap: self.cap(en, v, cap, extension))
        if name == 'read':
            def read(lutPath, inverse=False, interpolation='linear', inversesUseIndexMaps=True, inversesUseHalfDomain=True):
                self.called(en, v, 'read', [lutPath, inverse, interpolation, inversesUseIndexMaps, inversesUseHalfDomain])
                return Ab(v.e, NODES)
            return ext(name, read)
        if name == 'write':
            def write(processList, lutPath, lutStyle='write1D', lutResolution1d=1024, lutResolution3d=33, lutResolution1d3d1d=None,
                      inputMin=0.0, inputMax=1.0, shaperIn=None, shaperOut=None):
                self.called(en, v, lutStyle, [processList, lutPath, lutStyle, lutResolution1d, lutResolution3d, lutResolution1d3d1d,
                                              inputMin, inputMax, shaperIn, shaperOut])
                return mkbool(WROTE(v.e))
            return ext(name, write)
        if name in ('formatType', '__name__'): return 'a format'
        raise Unsupported('%s of an abstract format' % name)

    def called(self, en, v, cap, args):
        en.lastcall = v.e
        x, c, want = self.want
        oblige(en, 'a format is used only for an extension it declares', mkbool(HAS(v.e, sid(x))))
        oblige(en, 'a format is used only when capable for that extension', mkbool(CAN(v.e, sid(c), sid(x))))
        oblige(en, 'it is asked for what was asked', band(en.equal(cap, c), *[en.equal(a, b) for a, b in zip(args, want)]))


class Table(object):
    """The registered formats, any number of them."""
    def __init__(self, m, model): self.m, self.model = m, model

    def getattr(self, en, v, name):
        fm = lambda i: Ab(FMT(zi(i)), self.model)
        if name == 'values': return ext(name, lambda: en.mkcells((self.m,), lambda ix: fm(ix[0])))
        if name == 'items': return ext(name, lambda: en.mkcells((self.m,), lambda ix: ('format', fm(ix[0]))))
        raise Unsupported('%s of the table of formats' % name)


PATHS = [('dir.csp/some.SPI1D', 'spi1d'), ('a.b.csp', 'csp'), ('x.Clf', 'clf'), ('noextension', ''), ('dir.clf/none', ''), ('x.ZZZ', 'zzz')]


def registry(en, want):
    c = Ctx(en, 'aces.lutFormats')
    m = en.const('m', 'i')
    en.assume(le(0, m))
    en.lastcall = FMT(z3.IntVal(-7))
    model = FmtModel(want)
    en.setattr(c['Registry'], 'lutFormats', Ab(z3.Const('table', O), Table(m, model)))
    return c, m


def first(en, m, good, w):
    """w is the first index of m whose format is good."""
    j = en.const('j', 'i')
    oblige(en, 'the format is good', B(z3.And(w >= 0, w < zi(m), good(FMT(w)))))
    oblige(en, 'no earlier one was', B(z3.Implies(z3.And(j.e >= 0, j.e < w), z3.Not(good(FMT(j.e))))))


@scenario('C26', 'reading')
def read(en):
    path, x = en.choose(PATHS, 'path')
    flags = en.choose([None, (True, 'tetrahedral', False, True), (False, 'linear', True, False)], 'options')
    wrap = en.choose([None, False, True], 'nodes only')
    want = [path] + list(flags or DEFAULT_READ)
    c, m = registry(en, (x, 'read', want))
    q = z3.Const('q', O)
    en.assume(B(z3.ForAll([q], NREAD(q) >= 0, patterns=[NREAD(q)])))
    en.assume(B(z3.ForAll([q], z3.Implies(READ_OK(q), NREAD(q) > 0), patterns=[READ_OK(q)])))
    args = list(flags or ()) if wrap is None else want[1:] + [wrap]
    r = c.m(c['Registry'], 'read', path, *args)
    good = lambda f: z3.And(HAS(f, sid(x)), CAN(f, sid('read'), sid(x)), READ_OK(f))
    if r is None:
        j = en.const('j', 'i')
        oblige(en, 'failure only when no format is good', B(z3.Implies(z3.And(j.e >= 0, j.e < zi(m)), z3.Not(good(FMT(j.e))))))
        return
    if r is False:
        oblige(en, 'failure is reported by None', False)
        return
    j = en.const('jn', 'i')
    if wrap:
        ok = isinstance(r, Ab) and r.model is NODES
        oblige(en, 'the nodes of the format', ok)
        if not ok: return
        f = r.e
        first(en, m, good, f.arg(0))
        return
    ok = isinstance(r, E_.Ref) and r.kind == 'inst'
    oblige(en, 'a process list', ok and en.st(en.st(r).cls).name == 'ProcessList')
    if not ok: return
    ps = c.m(r, 'getProcesses')
    f = en.lastcall
    first(en, m, good, f.arg(0))
    oblige(en, 'as many nodes as were read', eq(lib.seq_len(en, ps), mkint(NREAD(f))))
    en.assume(band(le(0, j), lt(j, mkint(NREAD(f)))))
    nd = en.getitem(ps, j)
    oblige(en, 'in order', mkbool(nd.e == NODEOF(f, j.e)) if isinstance(nd, Ab) else K.opaque(en, nd))


@scenario('C26', 'writing')
def write(en):
    path, x = en.choose(PATHS, 'path')
    style, cap = en.choose([('1D', 'write1D'), ('3D', 'write3D'), ('1D_3D_1D', 'write1D3D1D')], 'data format')
    c, m = registry(en, None)
    pl = c.call(en.getattr(c['clf'], 'ProcessList'))
    r1, r3 = en.const('r1', 'i'), en.const('r3', 'i')
    lo, hi = en.const('lo'), en.const('hi')
    r131 = c.lst([en.const('a', 'i'), en.const('b', 'i'), en.const('d', 'i')])
    si, so = c.lst(['linear', en.const('si0'), en.const('si1')]), c.lst(['log2', en.const('so0'), en.const('so1')])
    model = en.st(en.getattr(c['Registry'], 'lutFormats')) if False else en.getattr(c['Registry'], 'lutFormats').model.model
    model.want = (x, cap, [pl, path, cap, r1, r3, r131, lo, hi, si, so])
    good = lambda f: z3.And(HAS(f, sid(x)), CAN(f, sid(cap), sid(x)), WROTE(f))
    kw = en.choose([False, True], 'by keyword')
    if kw:
        c.m(c['Registry'], 'write', pl, path, lutDataFormat=style, lutResolution1d=r1, lutResolution3d=r3, lutResolution1d3d1d=r131,
            inputMin=lo, inputMax=hi, shaperIn=si, shaperOut=so)
    else: c.m(c['Registry'], 'write', pl, path, style, r1, r3, r131, lo, hi, si, so)
    w = en.lastcall.arg(0)
    j = en.const('j', 'i')
    none = z3.Not(good(FMT(j.e)))
    oblige(en, 'a good format wrote, or there is none', B(z3.Or(z3.And(w >= 0, w < zi(m), good(FMT(w)),
           z3.Implies(z3.And(j.e >= 0, j.e < w), none)), z3.Implies(z3.And(j.e >= 0, j.e < zi(m)), none))))


CAPS = ['read', 'write1D', 'write3D', 'write1D3D1D']


@scenario('C26', 'what a format declares')
def declares(en):
    """A format with up to three rows; the capability asked for is any."""
    c = Ctx(en, 'aces.lutFormats')
    base = en.getattr(c['LutFormat'], 'LutFormat')
    k = en.choose([0, 1, 2, 3], 'rows')
    names = ['spi', 'Csp', 'SPI', 'csp']
    rows, given = [], []
    for i in range(k):
        x = en.choose(names[i:2 + i], 'extension %d' % i)
        cap = en.choose([['read', 'write1D'], ['other']] if i == 0 else [['write1D3D1D', 'read'], ['write3D']], 'capabilities %d' % i)
        given.append((x, cap))
        rows.append(c.lst(['text', x, c.lst(cap)]))
    meta = en.class_attr(base, '__metaclass__instance')
    cls = en.call(en.class_attr(meta, '__new__'), [meta, 'Format', (base,), en.mkdict({'formats': c.lst(rows), '__metaclass__instance': meta})], {})
    table = en.st(en.getattr(c['Registry'], 'lutFormats')).d
    oblige(en, 'registered when it has extensions', ('Format' in table and table['Format'].id == cls.id) == (k > 0))
    exts = en.items(c.m(cls, 'extensions'))
    oblige(en, 'extensions in lower case', [e for e in exts] == [x.lower() for x, _ in given])
    q = en.const('q', 's')
    for ask in ('spi', 'SPI', 'csp', 'zzz', None):
        has = bor(False, *[en.equal(q, t) for x, cap in given if ask is None or x.lower() == ask.lower() for t in cap])
        args = [] if ask is None else [ask]
        got = en.contains(c.m(cls, 'capabilities', *args), q)
        oblige(en, 'capabilities of %s' % ask, iff(got, has))
        oblige(en, 'capable for %s' % ask, iff(en.truthval(c.m(cls, 'isCapable', q, *args)), has))
        for nm, cap in (('canRead', 'read'), ('canWrite1D', 'write1D'), ('canWrite3D', 'write3D'), ('canWrite1D3D1D', 'write1D3D1D')):
            hasc = bor(False, *[en.equal(cap, t) for x, caps in given if ask is None or x.lower() == ask.lower() for t in caps])
            oblige(en, '%s for %s' % (nm, ask), iff(en.truthval(c.m(cls, nm, *args)), hasc))


def iff(a, b): return mkbool(zb(a) == zb(b))


@scenario('C26', 'registration')
def registers(en):
    """Defining a format with extensions registers it, one without does not."""
    c = Ctx(en, 'aces.lutFormats')
    R = c['Registry']
    have = en.st(en.getattr(R, 'lutFormats')).d
    for nm, x, mod in (('LutFormatSPI', 'spi1d', 'LutSPI'), ('LutFormatCSP', 'csp', 'LutCSP'), ('LutFormatCLF', 'clf', 'LutCLF'), ('LutFormatCTL', 'ctl', 'LutCTL')):
        oblige(en, '%s is registered' % nm, nm in have and have[nm].id == c[nm].id)
    oblige(en, 'the base class is not', 'LutFormat' not in have)
    fm = en.items(c.m(R, 'getFormats'))
    oblige(en, 'all of them are given', sorted(f.id for f in fm) == sorted(f.id for f in have.values()))


# ---------------------------------------------------------------- C28: OCIO transforms

NCONV, CONV = z3.Function('NCONV', O, I), z3.Function('CONV', O, I, O)


def ocio_scenario(name, uses=()):
    def deco(fn):
        scenario('C28', name, uses)(fn)
        fn.modules = ('aces.convertOCIOtoCLF',)
        return fn
    return deco


class Transform(object):
    """An OCIO transform of a known class with the given getters."""
    def __init__(self, kind, **get): self.kind, self.get = kind, get
    def isinstance(self, en, v, cls): return getattr(cls, 'name', '') == self.kind

    def getattr(self, en, v, name):
        if name in self.get: return ext(name, lambda: self.get[name])
        raise Unsupported('%s of a transform' % name)


def ocio(en): return Ctx(en, 'aces.convertOCIOtoCLF')


def transform(kind, **get): return Ab(z3.Const('transform', O), Transform(kind, **get))


def clf_name(en, c, node): return en.st(en.st(node).cls).name if isinstance(node, E_.Ref) and node.kind == 'inst' else None


ZERO = [3, 7, 11, 12, 13, 14]


@ocio_scenario('matrix')
def ocio_matrix(en):
    c = ocio(en)
    m, o = [en.const('m%d' % i) for i in range(16)], [en.const('o%d' % i) for i in range(4)]
    ml, ol = c.lst(m), c.lst(o)
    d = en.choose(['forward', 'inverse', 'unknown'], 'direction')
    pns = K.pure(en, lambda: c.call('convertTransformsToProcessNodes', transform('MatrixTransform', getMatrix=ml, getOffset=ol, getDirection=d)))
    nodes = en.items(pns)
    if d != 'forward':
        oblige(en, 'no node for direction %s' % d, len(nodes) == 0)
        return
    ok = len(nodes) == 1 and clf_name(en, c, nodes[0]) == 'Matrix'
    oblige(en, 'one matrix', ok)
    if not ok: return
    node = nodes[0]
    case = matrix_case(m, o)
    dims = [conc(x) for x in en.items(c.m(K.private(en, node, '_array'), 'getDimensions'))]
    plain = band(*[eq(m[k], 0) for k in ZERO] + [eq(m[15], 1), eq(o[3], 0)])
    off = bor(*[bnot(eq(o[k], 0)) for k in range(3)])
    oblige(en, 'three rows exactly when alpha is neither read nor changed', iff(dims[0] == 3, plain), case)
    oblige(en, 'no offset column for a plain matrix without offset', implies(band(plain, bnot(off)), dims[1] == 3), case)
    oblige(en, 'same bit depths', en.equal(c.m(node, 'getAttribute', 'inBitDepth'), c.m(node, 'getAttribute', 'outBitDepth')))
    px = [en.const('v%d' % i) for i in range(4)]
    r = c.m(node, 'process', lib.arr_from(en, px), 4)
    want = [add(o[i], add(add(mul(m[4 * i], px[0]), mul(m[4 * i + 1], px[1])), add(mul(m[4 * i + 2], px[2]), mul(m[4 * i + 3], px[3])))) for i in range(4)]
    oblige(en, 'as many channels', eq(lib.seq_len(en, r), 4))
    for i in range(4): oblige(en, 'channel %d is the OCIO matrix and offset' % i, eq(en.getitem(r, i), want[i]), case)
    if dims[0] == 3:
        r = c.m(node, 'process', lib.arr_from(en, px[:3]), 3)
        for i in range(3):
            w = add(o[i], add(add(mul(m[4 * i], px[0]), mul(m[4 * i + 1], px[1])), mul(m[4 * i + 2], px[2])))
            oblige(en, 'channel %d of a colour without alpha' % i, eq(en.getitem(r, i), w), case)


def matrix_case(m, o):
    def case(ev):
        return {'kind': 'ociomatrix', 'm': [float(ev(x)) for x in m], 'o': [float(ev(x)) for x in o], 'dir': 'forward',
                'px': [[0.3, -0.7, 1.1, 0.9], [1.0, 0.0, 0.0, 0.0], [0.2, 0.5, 0.8, 1.0]]}
    return case


@ocio_scenario('log')
def ocio_log(en):
    from contracts import specs
    c = ocio(en)
    base = en.choose([2, 10, Fraction(2), Fraction(10), 'other', 'other integer'], 'base')
    if base == 'other integer':
        base = en.const('base', 'i')
        en.assume(band(bnot(eq(base, 2)), bnot(eq(base, 10))))
        other = True
    elif base == 'other':
        base = en.const('base')
        en.assume(band(bnot(eq(base, 2)), bnot(eq(base, 10))))
        other = True
    else:
        other = False
        if isinstance(base, Fraction): base = real(base)
    d = en.choose(['forward', 'inverse'], 'direction')
    nodes = en.items(c.call('convertTransformsToProcessNodes', transform('LogTransform', getBase=base, getDirection=d)))
    if other:
        oblige(en, 'no node', len(nodes) == 0)
        return
    ok = len(nodes) == 1 and clf_name(en, c, nodes[0]) == 'Log'
    oblige(en, 'one log', ok)
    if not ok: return
    two = conc(base) == 2
    style = {True: 'log%d', False: 'antiLog%d'}[d == 'forward'] % (2 if two else 10)
    oblige(en, 'style', en.equal(c.m(nodes[0], 'getAttribute', 'style'), style))
    px = [en.const('v%d' % i) for i in range(3)]
    r = c.m(nodes[0], 'process', lib.arr_from(en, px), 3)
    for i in range(3):
        oblige(en, 'channel %d' % i, eq(en.getitem(r, i), specs.log(Sym, px[i], style, [None] * 5, '16f', '16f')))


@ocio_scenario('file')
def ocio_file(en):
    c = ocio(en)
    search, src = en.choose([(a, b) for a in (None, '/d', '/d/e') for b in ('x.csp', '/abs/x.csp')], 'search path, source')
    d, interp = en.choose(['forward', 'inverse'], 'direction'), en.choose(['linear', 'tetrahedral'], 'interpolation')
    maps, half = en.choose([(a, b) for a in (False, True) for b in (False, True)], 'options')
    n = en.const('n', 'i')
    en.assume(le(0, n))
    full = src if search is None or src[0] == '/' else search + '/' + src
    seen = []

    def read(en_, l):
        seen.append(1)
        want = {'lutPath': full, 'inverse': d != 'forward', 'interpolation': interp, 'inversesUseIndexMaps': maps,
                'inversesUseHalfDomain': half, 'returnProcessNodes': True}
        for k, w in want.items(): oblige(en, 'the file is read with %s' % k, en.equal(l[k], w))
        return en.mkcells((n,), lambda ix: Ab(NODEOF(z3.Const('file', O), zi(ix[0])), ONE))
    with_contract(en, 'Registry.Registry.read', read)
    r = c.call('convertTransformsToProcessNodes', transform('FileTransform', getSrc=src, getInterpolation=interp, getDirection=d),
               search, maps, half)
    j = en.const('j', 'i')
    oblige(en, 'the file is read once', len(seen) == 1)
    oblige(en, 'as many nodes', eq(lib.seq_len(en, r), n))
    en.assume(band(le(0, j), lt(j, n)))
    oblige(en, 'in order', mkbool(en.getitem(r, j).e == NODEOF(z3.Const('file', O), j.e)))


def with_contract(en, qual, fn):
    ct = K.Contract(qual, None, None, '')
    ct.apply = lambda en_, loc, f: fn(en_, loc)
    en.contracts = dict(en.contracts)
    en.contracts[qual] = ct


class Child(object):
    """A transform inside a group: only its conversion is known."""
    def isinstance(self, en, v, cls): raise Unsupported('the class of a child')
    def getattr(self, en, v, name): raise Unsupported('%s of a child' % name)


@ocio_scenario('group')
def ocio_group(en):
    """Given that the members convert to CONV(member, .) (the other scenarios, and this one for inner
    groups), a group of any number of members converts to these in order."""
    c = ocio(en)
    m = en.const('m', 'i')
    en.assume(le(0, m))
    q = z3.Const('q', O)
    en.assume(B(z3.ForAll([q], NCONV(q) >= 0, patterns=[NCONV(q)])))
    CH = z3.Function('CHILD', I, O)
    child = Child()
    kids = en.mkcells((m,), lambda ix: Ab(CH(zi(ix[0])), child))
    search, maps, half = en.choose([(a, b, h) for a in (None, '/d') for b in (False, True) for h in (False, True)], 'options')

    def conv(en_, l):
        t = l['ocioTransform']
        if not (isinstance(t, Ab) and t.model is child): return NotImplemented
        for k, w in (('lutSearchPath', search), ('inversesUseIndexMaps', maps), ('inversesUseHalfDomain', half)):
            oblige(en, 'members are converted with %s' % k, en.equal(l[k], w))
        return en.mkcells((mkint(NCONV(t.e)),), lambda ix: Ab(CONV(t.e, zi(ix[0])), ONE))
    with_contract(en, 'convertOCIOtoCLF.convertTransformsToProcessNodes', conv)
    r = c.call('convertTransformsToProcessNodes', transform('GroupTransform', getTransforms=kids), search, maps, half)
    j = en.const('j', 'i')
    st = en.st(r)
    k = lib.conc_len(en, m)
    if not hasattr(st, 'concat'):
        if k is None: raise Unsupported('the nodes of a group')
        tot = mkint(z3.Sum([z3.IntVal(0)] + [NCONV(CH(z3.IntVal(i))) for i in range(k)]))
        oblige(en, 'as many nodes as the members give', eq(lib.seq_len(en, r), tot))
        if k > 1: raise Unsupported('the nodes of a group')
        if k == 1:
            en.assume(band(le(0, j), lt(j, tot)))
            oblige(en, 'in order', mkbool(en.getitem(r, j).e == CONV(CH(z3.IntVal(0)), j.e)))
        return
    cc = st.concat
    p = cc.p
    hyp = z3.And(p.e >= 0, p.e < zi(m), *cc.facts)
    oblige(en, 'every member', eq(cc.n, m))
    oblige(en, 'as many nodes as the member gives', B(z3.Implies(hyp, zi(cc.length) == NCONV(CH(p.e)))))
    oblige(en, 'the nodes of the member, in order', B(z3.Implies(z3.And(hyp, j.e >= 0, j.e < NCONV(CH(p.e))), cc.item(j).e == CONV(CH(p.e), j.e))))


@ocio_scenario('other')
def ocio_other(en):
    c = ocio(en)
    t = en.choose([None, 'other'], 'transform')
    r = c.call('convertTransformsToProcessNodes', t if t is None else transform('CDLTransform'))
    oblige(en, 'no node', eq(lib.seq_len(en, r), 0))
