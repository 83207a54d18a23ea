"""Proof scenarios of sampling process lists (C23) and inverting 1D tables (C24)."""
import z3
from pyvc import lib, half
from pyvc import engine as E_
from pyvc.vals import *
from pyvc.sym import Sym, Ctx, oblige
from pyvc import contracts as K
from contracts import specs
from .numeric import BASE, LUT1
from .tables import R1, same_heap
from pyvc.loops import split_index

SCEN = {}


def scenario(pid, name, uses=()):
    def deco(fn):
        fn.modules = ('aces.lutFormats', 'clf')
        SCEN.setdefault(pid, []).append((name, fn, tuple(uses)))
        return fn
    return deco


def mod(en): return en.import_module('aces.lutFormats.Sampling')
def run(en, name, *a, **k): return en.call(en.getattr(mod(en), name), list(a), k)


# ---------------------------------------------------------------- C23

class Lists(object):
    """A process list known only by what it gives for a pixel: any three functions of three values."""
    def __init__(self, en): self.P = [en.fn('P%d' % j, 3, 'r', 'r') for j in range(3)]

    def getattr(self, en, v, name):
        if name != 'process': raise Unsupported('%s of an abstract process list' % name)
        return E_.Ext('process', lambda e, a, k: self.process(e, *a, **k))

    def process(self, en, values, stride=0, verbose=False):
        its = en.items(values)
        if len(its) != 3: raise Unsupported('pixel of %d values' % len(its))
        return en.mklist(self.at([R1(x) for x in its]))

    def at(self, xs): return [P(*[R1(x) for x in xs]) for P in self.P]


def some_list(en):
    m = Lists(en)
    return Ab(z3.Const('PL', AbSort), m), m


def at1(k, n, lo, hi): return R1(rdiv(k, sub(n, 1))) * (hi - lo) + lo


@scenario('C23', '1D table')
def c23_1d(en):
    pl, m = some_list(en)
    n, lo, hi = en.const('n', 'i'), en.const('lo'), en.const('hi')
    en.assume(le(2, n))
    t = same_heap(en, lambda: run(en, 'sample1D', pl, n, lo, hi))
    k, q = en.const('k', 'i'), en.choose([0, 1, 2], 'channel')
    en.assume(band(le(0, k), lt(k, n)))
    case = lambda ev: {'kind': 'sample1d', 'n': max(2, min(int(ev(n)), 40)), 'range': [-1.0, 2.0], 'seed': 1, 'nodes': None}
    oblige(en, 'three values per position', eq(lib.seq_len(en, t), mul(n, 3)), case)
    oblige(en, 'the output for grey at the position', eq(en.getitem(t, add(mul(k, 3), q)), m.at([at1(k, n, lo, hi)] * 3)[q]), case)


def dims3(en):
    d = [en.const('d%d' % j, 'i') for j in range(3)]
    g = [en.const('g%d' % j, 'i') for j in range(3)]
    for x, y in zip(d, g): en.assume(band(le(2, x), le(0, y), lt(y, x)))
    return d, g


def entry3(en, t, g):
    for x in g: t = en.getitem(t, x)
    its = en.items(t)
    oblige(en, 'three values per colour', len(its) == 3)
    return its


def shape3(en, t, d, g):
    for x, y in zip(d, g):
        oblige(en, 'resolution per axis', eq(lib.seq_len(en, t), x))
        t = en.getitem(t, y)


@scenario('C23', '3D table')
def c23_3d(en):
    pl, m = some_list(en)
    d, g = dims3(en)
    lo, hi = en.const('lo'), en.const('hi')
    t = same_heap(en, lambda: run(en, 'sample3D', pl, en.mklist(d), lo, hi))
    case = lambda ev: {'kind': 'sample3d', 'n': [max(2, min(int(ev(x)), 6)) for x in d], 'range': [-1.0, 2.0], 'seed': 1}
    shape3(en, t, d, g)
    its = entry3(en, t, g)
    want = m.at([at1(x, y, lo, hi) for x, y in zip(g, d)])
    for j in range(3): oblige(en, 'the output for that colour, channel %d' % j, eq(its[j], want[j]), case)


KINDS = ['log2', 'linear', None, 'other']


class Shaper(object):
    """What a shaper of a kind and two limits does, by the specifications of Log and Range."""
    def __init__(self, en, kind, lo, hi):
        self.kind, self.lo, self.hi, self.none = kind, lo, hi, kind not in ('log2', 'linear')
        if kind == 'log2': self.range = lib.spow(real(2), lo), lib.spow(real(2), hi)
        elif kind == 'linear': self.range = lo, hi
        else: self.range = real(0), real(1)

    def fwd(self, x):
        if self.none: return x
        if self.kind == 'log2': x = specs.log(Sym, x, 'log2', [real(v) for v in (0.6, 685, 95, 1, 0)], '16f', '16f')
        return specs.range_(Sym, x, '16f', '16f', (self.lo, self.hi, real(0), real(1)), True, 'clamp')

    def inv(self, x):
        if self.none: return x
        x = specs.range_(Sym, x, '16f', '16f', (real(0), real(1), self.lo, self.hi), True, 'clamp')
        return lib.spow(real(2), x) if self.kind == 'log2' else x


def mkshaper(en, kind, name):
    lo, hi = en.const(name + 'lo'), en.const(name + 'hi')
    en.assume(lt(lo, hi))
    return lo, hi, Shaper(en, kind, lo, hi)


RANGE = ['Range.Range.process']


@scenario('C23', 'shapers', RANGE)
def c23_shaper(en):
    c = Ctx(en, 'clf')
    kind = en.choose(KINDS, 'kind')
    lo, hi, s = mkshaper(en, kind, 's')
    f, g, a, b = en.items(run(en, 'createShaper', kind, lo, hi))
    case = lambda ev: {'kind': 'shaper', 's': [kind, ev(lo), ev(hi)] if kind != 'log2' else [kind, -3.0, 2.0], 'x': [0.0, 0.25, 0.5, 1.0]}
    oblige(en, 'the range of inputs', band(eq(a, s.range[0]), eq(b, s.range[1])), case)
    for pl, fn, nm in ((f, s.fwd, 'shaper'), (g, s.inv, 'inverse shaper')):
        xs = [en.const('%s%d' % (nm[0], j)) for j in range(3)]
        r = en.items(c.m(pl, 'process', en.mklist(xs)))
        oblige(en, '%s: three values' % nm, len(r) == 3)
        for j in range(3): oblige(en, '%s, channel %d' % (nm, j), eq(r[j], fn(xs[j])), case)


@scenario('C23', 'shapers invert each other', RANGE)
def c23_inverse(en):
    """Forward after inverse is the identity on [0,1], given that log2 undoes powers of two."""
    kind = en.choose(KINDS, 'kind')
    lo, hi, s = mkshaper(en, kind, 's')
    x = en.const('x')
    en.assume(band(le(0, x), le(x, 1)))
    if kind == 'log2':
        y = specs.range_(Sym, x, '16f', '16f', (real(0), real(1), lo, hi), True, 'clamp')
        p = lib.spow(real(2), y)
        en.assume(band(eq(lib.log10(p), y * lib.log10(real(2))), le(real(specs.FLT_MIN), p), lt(0, lib.log10(real(2)))))
    oblige(en, 'the identity', eq(s.fwd(s.inv(x)), x))


@scenario('C23', '1D, 3D and 1D tables with shapers', RANGE)
def c23_131(en):
    pl, m = some_list(en)
    ki, ko = en.choose(KINDS[:3], 'input shaper'), en.choose(KINDS[:3], 'output shaper')
    d, g = dims3(en)
    n1, n2 = en.const('n1', 'i'), en.const('n2', 'i')
    en.assume(band(le(2, n1), le(2, n2)))
    lo, hi, si = mkshaper(en, ki, 'i')
    lo2, hi2, so = mkshaper(en, ko, 'o')
    case = lambda ev: {'kind': 'sample131', 'in': [ki, -3.0, 2.0], 'out': [ko, -2.0, 3.0], 'seed': 1,
                       'n': [max(2, min(int(ev(n1)), 9)), [max(2, min(int(ev(x)), 5)) for x in d], max(2, min(int(ev(n2)), 9))]}
    r = en.items(same_heap(en, lambda: run(en, 'sample1D3D1D', pl, en.mklist([n1, en.mklist(d), n2]), en.mklist([ki, lo, hi]), en.mklist([ko, lo2, hi2]))))
    oblige(en, 'seven results', len(r) == 7)
    t1, a1, b1, t3, t2, a2, b2 = r
    oblige(en, 'input range', band(eq(a1, si.range[0]), eq(b1, si.range[1])), case)
    oblige(en, 'output range', band(eq(a2, so.range[0]), eq(b2, so.range[1])), case)
    k, k2, q = en.const('k', 'i'), en.const('k2', 'i'), en.choose([0, 1, 2], 'channel')
    en.assume(band(le(0, k), lt(k, n1), le(0, k2), lt(k2, n2)))
    if si.none: oblige(en, 'no input table', t1 is None, case)
    else:
        oblige(en, 'input table length', eq(lib.seq_len(en, t1), mul(n1, 3)), case)
        oblige(en, 'input table: the shaper', eq(en.getitem(t1, add(mul(k, 3), q)), si.fwd(at1(k, n1, *si.range))), case)
    if so.none: oblige(en, 'no output table', t2 is None, case)
    else:
        oblige(en, 'output table length', eq(lib.seq_len(en, t2), mul(n2, 3)), case)
        oblige(en, 'output table: the inverse shaper', eq(en.getitem(t2, add(mul(k2, 3), q)), so.inv(R1(rdiv(k2, sub(n2, 1))))), case)
    shape3(en, t3, d, g)
    its = entry3(en, t3, g)
    want = m.at([si.inv(R1(rdiv(x, sub(y, 1)))) for x, y in zip(g, d)])
    oblige(en, '3D table: through the inverse input shaper and the output shaper', eq(its[q], so.fwd(want[q])), case)


# ---------------------------------------------------------------- C24

class Table(object):
    """A table of n entries and ch channels, strictly increasing in every channel."""
    def __init__(self, en, ch, kind='list'):
        self.en, self.ch = en, ch
        self.n = n = en.const('n', 'i')
        en.assume(le(2, n))
        self.cols = [en.fn('T%d' % c, 1) for c in range(ch)]
        self.cells = en.mkcells((mul(n, ch),), lambda ix: self.flat(ix[0]))
        for c in range(ch):
            a, b = z3.Ints('a! b!')
            xa, xb = self.at(N('i', a), c).e, self.at(N('i', b), c).e
            en.assume(B(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < n.e), xa < xb), patterns=[z3.MultiPattern(xa, xb)])))

    def at(self, k, c): return self.cols[c](k)

    def flat(self, i):
        """The value at a flat index: entry by entry, the channels together."""
        w, c = split_index(self.en, i, self.ch, 0)
        if isinstance(c, int): return self.at(w, c)
        v = self.at(w, self.ch - 1)
        for q in range(self.ch - 2, -1, -1): v = ite(eq(c, q), self.at(w, q), v)
        return v

    def limits(self):
        mn_, mx_ = self.at(0, 0), self.at(sub(self.n, 1), 0)
        for q in range(1, self.ch):
            mn_, mx_ = specs.mn(Sym, mn_, self.at(0, q)), specs.mx(Sym, mx_, self.at(sub(self.n, 1), q))
        return mn_, mx_

    def point(self, m, size):
        """The m-th of size equally spaced values from the least first entry to the greatest last one."""
        mn_, mx_ = self.limits()
        return R1(rdiv(m, sub(size, 1))) * (mx_ - mn_) + mn_

    def between(self, y, c):
        """A position j of channel c, and that y lies between the entries j and j+1."""
        j = self.en.const('j%d' % c, 'i')
        return j, band(le(0, j), lt(j + 1, self.n), le(self.at(j, c), y), le(y, self.at(j + 1, c)), lt(self.at(j, c), self.at(j + 1, c)))

    def inverse(self, y, j, c):
        """The position (0..1) of y in the table."""
        return N('r', (zr(j) + zr(y - self.at(j, c)) / zr(self.at(j + 1, c) - self.at(j, c))) / zr(sub(self.n, 1)))


def node_names(en, l): return [en.tname(x) for x in en.items(l)]


@scenario('C24', 'index map: table')
def c24_map(en):
    ch = en.choose([1, 3], 'channels')
    en.naming = True
    t = Table(en, ch)
    lo, hi = en.const('lo'), en.const('hi')
    r = same_heap(en, lambda: run(en, 'generateLUT1DInverseIndexMap', en.mklist([t.n, ch]), t.cells, lo, hi))
    its = en.items(r)
    oblige(en, 'nodes', len(its) in (1, 2))


@scenario('C24', 'resampled: table')
def c24_resampled(en):
    ch = en.choose([1, 3], 'channels')
    en.naming = True
    t = Table(en, ch)
    lo, hi = en.const('lo'), en.const('hi')
    r = same_heap(en, lambda: run(en, 'generateLUT1DInverseResampled', en.mklist([t.n, ch]), t.cells, lo, hi))
    its = en.items(r)
    oblige(en, 'nodes', len(its) == 3)
    m = en.const('m', 'i')
    en.assume(band(le(0, m), lt(m, 2 * t.n)))
    y = t.point(m, 2 * t.n)
    vals = en.call(en.getattr(its[1], 'getLUTValues'), [], {})
    oblige(en, 'entries', eq(lib.seq_len(en, vals), 2 * t.n * ch))
    for c in range(ch):
        j, at = t.between(y, c)
        oblige(en, 'entry', implies(at, eq(en.getitem(vals, add(mul(m, ch), c)), t.inverse(y, j, c))))


def seal(en, node, cells, get):
    """From here on the node's table is known only by get and by what is assumed of it: called
    after those assumptions were obligations about the table itself."""
    v = K.private(en, K.private(en, node, '_array'), '_values')
    i = v.base.id if isinstance(v, E_.View) else v.id
    st = en.heap[i]
    en.heap[i] = E_.CellS(st.shape, get, st.arr, (), st.dtype)


def resampled(en, ch):
    t = Table(en, ch)
    lo, hi = en.const('lo'), en.const('hi')
    en.assume(lt(lo, hi))
    r = same_heap(en, lambda: run(en, 'generateLUT1DInverseResampled', en.mklist([t.n, ch]), t.cells, lo, hi))
    return t, lo, hi, en.items(r)


@scenario('C24', 'resampled: nodes', LUT1 + RANGE)
def c24_resampled_nodes(en):
    """Its own sample points through the three nodes, from the entries that 'resampled: table' proves."""
    c = Ctx(en, 'clf')
    ch = en.choose([1, 3], 'channels')
    en.naming = True
    t, lo, hi, its = resampled(en, ch)
    en.naming = False
    size = 2 * t.n
    m = en.const('m', 'i')
    en.assume(band(le(0, m), lt(m, size)))
    E = en.fn('E', 1)
    seal(en, its[1], mul(size, ch), lambda ix: E(ix[0]))
    a, b = t.limits()
    D = en.const('D')
    en.assume(band(eq(D, b - a), lt(0, D)))
    u = en.const('u')
    en.assume(band(le(0, u), le(u, 1), eq(mul(u, sub(size, 1)), R1(m))))
    y = u * (b - a) + a
    q = en.choose([0, 1, 2], 'channel')
    cc = min(q, ch - 1)
    j, at = t.between(y, cc)
    en.assume(at)
    inv = t.inverse(y, j, cc)
    en.assume(eq(E(add(mul(m, ch), cc)), inv))
    en.assume(band(le(0, inv), le(inv, 1)))
    vals = [en.const('v%d' % k) for k in range(3)]
    vals[q] = y
    out = en.mklist(vals)
    for nd in its: out = c.m(nd, 'process', out, 3)
    oblige(en, 'the input that gives it', eq(en.getitem(out, q), lo + (hi - lo) * inv))


@scenario('C24', 'half-domain: table')
def c24_half(en):
    en.half = half.Model()
    ch = en.choose([1, 3], 'channels')
    raw = en.choose([False, True], 'raw halfs')
    en.naming = True
    t = Table(en, ch)
    lo, hi = en.const('lo'), en.const('hi')
    r = same_heap(en, lambda: run(en, 'generateLUT1DInverseHalfDomain', en.mklist([t.n, ch]), t.cells, lo, hi, raw))
    its = en.items(r)
    oblige(en, 'one node', len(its) == 1)
    c = Ctx(en, 'clf')
    oblige(en, 'half domain', c.m(its[0], 'getAttribute', 'halfDomain') is True)
    oblige(en, 'raw halfs', bool(c.m(its[0], 'getAttribute', 'rawHalfs')) == raw)
    vals = en.call(en.getattr(its[0], 'getLUTValues'), [], {})
    oblige(en, 'entries', eq(lib.seq_len(en, vals), 65536 * ch))
    b = en.const('b', 'i')
    en.assume(band(le(0, b), lt(b, 65536)))
    en.half.register(en, 0, half.TOP, half.NEG, half.NTOP, b.e)
    y = N('r', half.HV(b.e))
    for q in range(ch):
        e = lib.thaw(en, en.getitem(vals, add(mul(b, ch), q)))
        j, at = t.between(y, q)
        oblige(en, 'entry of a half', implies(band(half.is_finite(b), at), eq(e, lo + (hi - lo) * t.inverse(y, j, q))))


@scenario('C24', 'half-domain: node', LUT1 + ['Array.Array.lookup1DHalfDomainInterpolated'])
def c24_half_node(en):
    """A half through the node gives its own entry, which 'half-domain: table' says is the inverse."""
    c = Ctx(en, 'clf')
    en.half = half.Model()
    ch = en.choose([1, 3], 'channels')
    raw = en.choose([False, True], 'raw halfs')
    en.naming = True
    t = Table(en, ch)
    lo, hi = en.const('lo'), en.const('hi')
    r = run(en, 'generateLUT1DInverseHalfDomain', en.mklist([t.n, ch]), t.cells, lo, hi, raw)
    node = en.items(r)[0]
    en.naming = False
    E = en.fn('E', 1)
    seal(en, node, 65536 * ch, lambda ix: E(ix[0]))
    b = en.const('b', 'i')
    en.assume(half.is_finite(b))
    en.half.register(en, 0, half.TOP, half.NEG, half.NTOP, b.e, b.e + 1, b.e - 1)
    y = N('r', half.HV(b.e))
    en.assume(bnot(eq(y, 0)))
    q = en.choose([0, 1, 2], 'channel')
    vals = [real(0)] * 3
    vals[q] = y
    out = c.m(node, 'process', en.mklist(vals), 3)
    oblige(en, 'its own entry', eq(en.getitem(out, q), E(add(mul(b, ch), min(q, ch - 1)))))


@scenario('C24', 'index map: nodes', LUT1 + RANGE + ['IndexMap.IndexMap._processRaw'])
def c24_map_nodes(en):
    c = Ctx(en, 'clf')
    ch = en.choose([1, 3], 'channels')
    unit = en.choose([True, False], 'range is 0..1')
    t = Table(en, ch)
    lo, hi = (real(0), real(1)) if unit else (en.const('lo'), en.const('hi'))
    en.assume(lt(lo, hi))
    its = en.items(same_heap(en, lambda: run(en, 'generateLUT1DInverseIndexMap', en.mklist([t.n, ch]), t.cells, lo, hi)))
    q = en.choose([0, 1, 2], 'channel')
    cc = min(q, ch - 1)
    y = en.const('y')
    j, at = t.between(y, cc)
    en.assume(at)
    vals = [en.const('v%d' % k) for k in range(3)]
    vals[q] = y
    f = en.const('f')
    en.assume(band(le(0, f), le(f, 1), eq(f * (t.at(j + 1, cc) - t.at(j, cc)), y - t.at(j, cc))))
    out = en.mklist(vals)
    for nd in its: out = c.m(nd, 'process', out, 3)
    oblige(en, 'the input that gives it', eq(en.getitem(out, q), lo + (hi - lo) * N('r', zr(j + f) / zr(sub(t.n, 1)))))
