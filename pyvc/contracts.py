"""Contracts of the functions the nodes share. Each is proved from the function's own body in
the same run (prove), then used at the call sites in place of the body (apply). Where the
precondition is not met at a call, or the proof of a contract fails, the body is used."""
import z3
from fractions import Fraction
from . import lib
from . import engine as E_
from .vals import *
from .sym import Sym, Ctx, DEPTHS, oblige
from contracts import specs


def plain(*vs):
    """Numbers, none of them NaN or infinite."""
    return all(isnum(v) and not special(v) and not isinstance(v, bool) for v in vs)


class Contract(object):
    def __init__(self, qual, apply, prove, doc):
        self.qual, self._apply, self.prove, self.doc = qual, apply, prove, doc

    def apply(self, en, loc, f):
        try:
            return self._apply(en, loc)
        except (E_.PyRaise, Unsupported, KeyError, AttributeError, TypeError):
            return NotImplemented


ALL = {}


def contract(qual, prove, doc):
    def deco(fn):
        ALL[qual] = Contract(qual, fn, prove, doc)
        return fn
    return deco


def pure(en, thunk):
    """Run thunk and oblige that nothing that existed before was written."""
    nxt, pre = en.next, dict(en.heap)
    r = thunk()
    same = all(en.heap.get(i) is st for i, st in pre.items() if i < nxt)
    oblige(en, 'frame: existing objects are not written', same)
    return r


# ---------------------------------------------------------------- ProcessNode

def any_depth(en): return en.choose(DEPTHS + ['other'], 'depth')


def p_norm(en):
    c = Ctx(en)
    d, v = any_depth(en), en.const('v')
    r = pure(en, lambda: c.call('bitDepthToNormalized', v, d))
    oblige(en, 'result = v / (code values - 1)', eq(r, v / specs.size(d)))


@contract('ProcessNode.bitDepthToNormalized', p_norm, 'v / size(depth)')
def a_norm(en, l):
    d, v = l['bitDepth'], l['value']
    if not isinstance(d, str) or not plain(v) or isint(v): return NotImplemented
    return specs.normalise(Sym, v, d)


def p_denorm(en):
    c = Ctx(en)
    d, v = any_depth(en), en.const('v')
    r = pure(en, lambda: c.call('normalizedToBitDepth', v, d))
    oblige(en, 'result = v * (code values - 1)', eq(r, v * specs.size(d)))


@contract('ProcessNode.normalizedToBitDepth', p_denorm, 'v * size(depth)')
def a_denorm(en, l):
    d, v = l['bitDepth'], l['value']
    if not isinstance(d, str) or not plain(v) or isint(v): return NotImplemented
    return specs.denormalise(Sym, v, d)


# ---------------------------------------------------------------- Common

def p_clamp(en):
    c = Ctx(en)
    v, a, b = en.const('v'), en.const('a'), en.const('b')
    en.assume(le(a, b))
    dflt = en.choose([True, False], 'default bounds')
    cm = en.import_module('aces.clf.Common')
    f = en.getattr(cm, 'clamp')
    r = pure(en, lambda: en.call(f, [v] if dflt else [v, a, b], {}))
    lo, hi = (real(0), real(1)) if dflt else (a, b)
    oblige(en, 'in the interval', band(le(lo, r), le(r, hi)))
    oblige(en, 'identity inside', implies(band(le(lo, v), le(v, hi)), eq(r, v)))
    oblige(en, 'lower end below', implies(lt(v, lo), eq(r, lo)))
    oblige(en, 'upper end above', implies(lt(hi, v), eq(r, hi)))


@contract('Common.clamp', p_clamp, 'min(hi, max(lo, v)) for lo <= hi')
def a_clamp(en, l):
    v, a, b = l['value'], l['minValue'], l['maxValue']
    if not plain(v, a, b) or isint(v) or not en.known(le(a, b)): return NotImplemented
    return specs.mn(Sym, real(b), specs.mx(Sym, real(a), v))


def p_mix(en):
    f = en.getattr(en.import_module('aces.clf.Common'), 'mix')
    kind = en.choose(['list', 'array'])
    x, y, t = [en.const('x%d' % i) for i in range(3)], [en.const('y%d' % i) for i in range(3)], en.const('t')
    mk = en.mklist if kind == 'list' else (lambda its: lib.arr_from(en, its))
    a, b = mk(x), mk(y)
    r = pure(en, lambda: en.call(f, [a, b, t], {}))
    its = en.items(r)
    oblige(en, 'length', len(its) == 3)
    for i in range(3):
        oblige(en, 'element %d is the affine blend' % i, eq(its[i], (1 - t) * x[i] + t * y[i]))


@contract('Common.mix', p_mix, '[(1-t) x_i + t y_i]')
def a_mix(en, l):
    x, y, t = en.items(l['value1']), en.items(l['value2']), l['mixAmount']
    if len(x) != 3 or len(y) != 3 or not plain(t, *(x + y)): return NotImplemented
    return en.mklist([(real(1) - t) * a + t * b for a, b in zip(x, y)])


def private(en, o, name):
    """A field the specifications name; code without it is out of reach, not wrong."""
    try:
        return en.getattr(o, name)
    except E_.PyRaise:
        raise Unsupported('no field %s' % name)


def set_private(en, o, name, v):
    private(en, o, name)
    en.setattr(o, name, v)


# ---------------------------------------------------------------- Array

def mkarray(en, dims, get, kind='list', n=None):
    """An Array of the package with given dimensions and values get(k)."""
    c = Ctx(en)
    vals = en.mkcells((n,), lambda ix: get(ix[0]), arr=kind == 'array', dtype='f' if kind == 'array' else None)
    a = en.call(en.getattr(en.import_module('aces.clf.Array'), 'Array'), [], {})
    c.m(a, 'setDimensions', en.mklist(dims))
    # the fields, as setValues leaves them; setValues itself is under C18/C05
    set_private(en, a, '_values', vals)
    return a


def arr_state(en, self_):
    dims = en.items(private(en, self_, '_dimensions'))
    vals = private(en, self_, '_values')
    return dims, vals


def at(en, vals, k):
    """Element k of a table, where k is known to be in range."""
    return real_(lib.seq_at(en, vals, k))


def real_(v):
    return v if isinstance(v, N) and v.kind == 'r' else N('r', zr(v)) if not special(v) else v


def entry1d(en, dims, vals, i, ch):
    """Entry i (clamped) of the column used for channel ch."""
    n, m = dims
    i = ite(lt(i, 0), 0, ite(lt(i, n), i, sub(n, 1))) if not (isinstance(i, int) and isinstance(n, int)) \
        else max(0, min(n - 1, i))
    if m == 3: return at(en, vals, add(mul(i, 3), max(0, min(2, ch)) if isinstance(ch, int) else ch))
    return at(en, vals, i)


def p_lookup1d(en):
    m = en.choose([1, 3], 'columns')
    kind = en.choose(['list', 'array'])
    n, i = en.const('n', 'i'), en.const('i', 'i')
    en.assume(le(1, n))
    ch = en.choose([0, 1, 2])
    T = en.fn('T', 1)
    a = mkarray(en, [n, m], T, kind, mul(n, m))
    r = pure(en, lambda: en.call(en.getattr(a, 'lookup1D'), [i, ch], {}))
    oblige(en, 'entry of the clamped index in the channel\'s column',
           eq(r, entry1d(en, [n, m], private(en, a, '_values'), i, ch)))


@contract('Array.Array.lookup1D', p_lookup1d, 'values[clamp(i)][column of the channel]')
def a_lookup1d(en, l):
    dims, vals = arr_state(en, l['self'])
    i, ch = l['index'], l['channel']
    if len(dims) != 2 or not isint(i) or not isinstance(ch, int) or dims[1] not in (1, 3): return NotImplemented
    if ch not in (0, 1, 2): return NotImplemented
    return entry1d(en, dims, vals, i, ch)


def lin_spec(en, dims, vals, x, ch):
    n = dims[0]
    return specs.lut1d(Sym, x, n, lambda i: entry1d(en, dims, vals, i, ch))


def p_linear(en):
    m = en.choose([1, 3], 'columns')
    n, x = en.const('n', 'i'), en.const('x')
    en.assume(le(2, n))
    ch = en.choose([0, 1, 2])
    T = en.fn('T', 1)
    a = mkarray(en, [n, m], T, 'list', mul(n, m))
    r = pure(en, lambda: en.call(en.getattr(a, 'lookup1DLinear'), [x, ch], {}))
    oblige(en, 'clamped linear interpolation', eq(r, lin_spec(en, [n, m], private(en, a, '_values'), x, ch)))


@contract('Array.Array.lookup1DLinear', p_linear, 'clamped linear interpolation at x*(n-1)')
def a_linear(en, l):
    dims, vals = arr_state(en, l['self'])
    x, ch = l['position'], l['channel']
    if len(dims) != 2 or not plain(x) or not isinstance(ch, int) or dims[1] not in (1, 3): return NotImplemented
    if ch not in (0, 1, 2) or not en.known(le(2, dims[0])): return NotImplemented
    return lin_spec(en, dims, vals, x, ch)


# ---------------------------------------------------------------- half domain

def opaque(en, v):
    """Something stands where an abstract value was expected: nothing at all, or a constant, is wrong;
    a value built in a way the model cannot compare is for the monitor to judge."""
    if v is None or isinstance(v, (bool, str, int, float)) or isinstance(v, N) and z3.is_rational_value(z3.simplify(zr(v))): return False
    raise Unsupported('%s where an abstract value was expected' % en.tname(v))


LOWER = z3.Function('LOWER', z3.RealSort(), z3.IntSort())


def half_facts(en, x):
    """LOWER(x) names a pattern j such that HV(j) and HV(j+1) bracket x: there is one for every x
    in [-65504, 65504] because HV covers that interval (pyvc/half.py: axioms)."""
    from . import half
    e = z3.simplify(zr(x))
    j = LOWER(e)
    en.half.register(en, j, j + 1)
    en.assume(B(z3.And(z3.Implies(z3.And(e > 0, e <= 65504), z3.And(j >= 0, j < half.TOP, half.HV(j) <= e, e <= half.HV(j + 1))),
                       z3.Implies(z3.And(e < 0, e >= -65504), z3.And(j >= half.NEG, j < half.NTOP, half.HV(j + 1) <= e, e <= half.HV(j))))))
    return j


def half_spec(en, x, col):
    """What the half-domain lookup of a real x gives in the column col(pattern): the linear
    interpolation in the bracketing interval. (The reals do not tell 0 from -0: RND(0) is one of the two.)"""
    from . import half
    j = half_facts(en, x)
    h0, h1 = N('r', half.HV(j)), N('r', half.HV(j + 1))
    lo, hi = col(N('i', j)), col(N('i', j + 1))
    z = half.RND(z3.RealVal(0))
    en.assume(B(z3.Or(z == 0, z == half.NEG)))
    mid = lo + N('r', zr(x - h0) / zr(h1 - h0)) * (hi - lo)
    out = ite(lt(0, x), ite(lt(x, half.OVER), col(half.TOP), col(half.INF)), ite(lt(-half.OVER, x), col(half.NTOP), col(half.NINF)))
    return ite(eq(x, 0), col(N('i', z)), ite(band(le(x, 65504), le(-65504, x)), mid, out))


def half_col(en, dims, vals, ch):
    return lambda i: entry1d(en, dims, vals, i, ch)


def half_table(en, m, kind='list'):
    from . import half
    en.half = half.Model()
    T = en.fn('T', 1)
    return mkarray(en, [65536, m], T, kind, 65536 * m), T


def half_case(m, j, f):
    def case(ev):
        from . import half
        import struct
        u = int(ev(j))
        h = lambda b: struct.unpack('<e', struct.pack('<H', b))[0]
        x = h(u) + (h(u + 1) - h(u)) * float(f(ev))
        return {'kind': 'halfdomain', 'node': {'type': 'LUT1D', 'in': '16f', 'out': '16f', 'interp': 'linear', 'half': True, 'raw': False,
                'columns': m, 'table': 'wave', 'maps': [], 'np': True}, 'values': [x, x, x], 'stride': 3, 'container': 'list'}
    return case


def p_half(en):
    from . import half
    m = en.choose([1, 3], 'columns')
    ch = en.const('ch', 'i')
    en.assume(band(le(0, ch), le(ch, 2)))
    a, T = half_table(en, m)
    col = half_col(en, [65536, m], private(en, a, '_values'), ch)
    x = en.const('x')
    want = half_spec(en, x, col)
    j = LOWER(x.e)
    r = pure(en, lambda: en.call(en.getattr(a, 'lookup1DHalfDomainInterpolated'), [x, ch], {}))
    case = half_case(m, N('i', j), lambda ev: 0.3)
    oblige(en, 'between the entries of the bracketing halfs (finite values)', implies(band(le(x, 65504), le(-65504, x)), eq(r, want)), case)
    oblige(en, 'the end of the sign\'s range beyond the largest half', implies(bnot(band(le(x, 65504), le(-65504, x))), eq(r, want)))


@contract('Array.Array.lookup1DHalfDomainInterpolated', p_half, 'linear interpolation between the entries of the half-floats that bracket the value')
def a_half(en, l):
    if getattr(en, 'half', None) is None: return NotImplemented
    dims, vals = arr_state(en, l['self'])
    x, ch = l['position'], l['channel']
    if len(dims) != 2 or not plain(x) or isinstance(x, lib.Half) or dims[1] not in (1, 3): return NotImplemented
    if not isint(ch) or not en.known(band(le(0, ch), le(ch, 2))) or conc(dims[0]) != 65536: return NotImplemented
    return half_spec(en, x, half_col(en, dims, vals, ch))


# ---------------------------------------------------------------- IndexMap

def increasing(en, X, n, cells=None):
    """The points' inputs are strictly increasing (a precondition)."""
    a, b = z3.Ints('a! b!')
    xa, xb = X(N('i', a)).e, X(N('i', b)).e
    en.assume(B(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < zi(n)), xa < xb), patterns=[z3.MultiPattern(xa, xb)])))
    if cells is not None:
        get = cells_state(en, cells).get
        en.__dict__.setdefault('incr', {})[id(get)] = get


def cells_state(en, v): return en.heap[v.base.id if isinstance(v, E_.View) else v.id]


def segment(en, xs, n, x):
    """A name for a segment s of the map with X(s) <= x <= X(s+1): there is one whenever
    X(0) < x < X(n-1) (n >= 2, induction on n)."""
    st = en.heap[xs.id if isinstance(xs, E_.Ref) else xs.base.id]
    if not hasattr(en, 'segs'): en.segs, en.segkeep = {}, []
    k = id(st.get) if isinstance(st, E_.CellS) else id(st.items)
    if k not in en.segs:
        en.segkeep.append(st)
        en.segs[k] = z3.Function('SEG%d' % len(en.segs), z3.RealSort(), z3.IntSort())
    s = N('i', en.segs[k](z3.simplify(zr(x))))
    X = lambda i: at(en, xs, i)
    inside = band(lt(X(0), x), lt(x, X(sub(n, 1))))
    en.assume(implies(inside, band(le(0, s), lt(add(s, 1), n), le(X(s), x), le(x, X(add(s, 1))), lt(X(s), X(add(s, 1))))))
    return s


def map_spec(en, xs, ys, n, x):
    s = segment(en, xs, n, x)
    X, Y = (lambda i: at(en, xs, i)), (lambda i: at(en, ys, i))
    s1 = add(s, 1)
    mid = Y(s) + N('r', zr(x - X(s)) / zr(X(s1) - X(s))) * (Y(s1) - Y(s))
    return ite(le(x, X(0)), Y(0), ite(le(X(sub(n, 1)), x), Y(sub(n, 1)), mid))


def mkmap(en, kind='list', name='', cached=False):
    c = Ctx(en)
    n = en.const('points' + name, 'i')
    en.assume(le(2, n))
    X, Y = en.fn('X' + name, 1), en.fn('Y' + name, 1)
    cells = lambda f: en.mkcells((n,), lambda ix: f(ix[0]), arr=kind == 'array', dtype='f' if kind == 'array' else None)
    xs, ys = cells(X), cells(Y)
    increasing(en, X, n, xs)
    return n, X, Y, en.mklist([xs, ys])


def map_case(n, X, Y, j, x):
    def case(ev):
        k = max(2, min(int(ev(n)), 12))
        return {'kind': 'indexmap', 'map': [[float(ev(X(i))) for i in range(k)], [float(ev(Y(i))) for i in range(k)]],
                'values': [float(ev(x))], 'set': 'init', 'np': False}
    return case


def p_map(en):
    n, X, Y, v = mkmap(en, en.choose(['list', 'array'], 'points'))
    im = en.call(en.getattr(en.import_module('aces.clf.IndexMap'), 'IndexMap'), [n, v], {})
    x = en.const('x')
    xs, ys = en.items(v)
    case = map_case(n, X, Y, None, x)
    want = map_spec(en, xs, ys, n, x)
    r = pure(en, lambda: en.call(private(en, im, '_processRaw'), [x], {}))
    oblige(en, 'the piecewise linear map through the points', eq(r, want), case)


@contract('IndexMap.IndexMap._processRaw', p_map, 'the piecewise linear map through the points, constant outside')
def a_map(en, l):
    vals = private(en, l['self'], '_values')
    x = l['value']
    its = en.items(vals)
    if not plain(x) or len(its) != 2: return NotImplemented
    n = lib.seq_len(en, its[0])
    if not en.known(band(le(2, n), eq(n, lib.seq_len(en, its[1])))): return NotImplemented
    if not all(isinstance(t, E_.View) or isinstance(t, E_.Ref) and t.kind == 'cells' for t in its): return NotImplemented
    # precondition: the inputs increase (stated of these very cells by the scenario, or proved)
    if not known_increasing(en, its[0], n): return NotImplemented
    return map_spec(en, its[0], its[1], n, R_(x))


def known_increasing(en, cells, n):
    get = cells_state(en, cells).get
    memo = en.__dict__.setdefault('incr', {})
    if id(get) not in memo:
        from .loops import prove
        a, b = en.fresh('first', 'i'), en.fresh('second', 'i')
        nf = len(en.facts)
        X = lambda i: at(en, cells, i)
        ok = prove(en, [zb(band(le(0, a), lt(a, b), lt(b, n)))], lt(X(a), X(b)))
        del en.facts[nf:]
        if not ok: return False
        memo[id(get)] = get
    return True


def R_(x): return N('r', zr(x)) if not isinstance(x, N) or type(x) is not N else x


def entry3d(en, dims, vals, idx, c):
    """The entry of the clamped grid point: blue fastest, then green, then red. Where the
    scenario has named the table's grid function (ghost), the entry is named by it."""
    cl = [ite(lt(i, 0), 0, ite(lt(i, d), i, sub(d, 1))) for i, d in zip(idx, dims)]
    g = ghost3d(en, vals)
    if g is not None: return g(c, *cl)
    return at(en, vals, flat3d(dims, cl, c))


def flat3d(dims, cl, c):
    return add(mul(add(mul(add(mul(cl[0], dims[1]), cl[1]), dims[2]), cl[2]), 3), c)


def ghost3d(en, vals):
    st = en.heap.get(vals.id) if isinstance(vals, E_.Ref) else en.heap.get(vals.base.id)
    return getattr(en, 'grid', {}).get(id(st.get)) if isinstance(st, E_.CellS) else None


def set_ghost3d(en, vals, dims, T, name='G'):
    """G(c,r,g,b) abbreviates T(flat index of r,g,b, channel c): a definition, valid while
    the table is not written (the state object is the key). G is uninterpreted for the
    solver; what it loses (that G comes from one T) is only about equal flat indices."""
    f = en.fn(name, 4)
    st = en.heap[vals.id if isinstance(vals, E_.Ref) else vals.base.id]
    if not hasattr(en, 'grid'): en.grid, en.keep = {}, []
    en.keep.append(st.get)
    en.grid[id(st.get)] = f
    return f


def size3d(en, dims):
    """The number of values of a 3D table, and the facts about the products that the solver
    is not asked to find by itself."""
    return mul(mul(mul(dims[0], dims[1]), dims[2]), 3)


def in3d(en, dims, cl):
    """0 <= ((r*d1+g)*d2+b)*3 and +2 < d0*d1*d2*3 for grid indices: an integer lemma
    (products of non-negative factors), proved as lemma 'grid index' below."""
    k = mul(add(mul(add(mul(cl[0], dims[1]), cl[1]), dims[2]), cl[2]), 3)
    en.assume(band(le(0, k), le(add(k, 3), size3d(en, dims))))


def p_lookup3d(en):
    d = [en.const('d%d' % i, 'i') for i in range(3)]
    for x in d: en.assume(le(1, x))
    i = [en.const('i%d' % k, 'i') for k in range(3)]
    kind = en.choose(['list', 'array'])
    T = en.fn('T', 1)
    a = mkarray(en, d + [3], T, kind, size3d(en, d))
    cl = [ite(lt(x, 0), 0, ite(lt(x, y), x, sub(y, 1))) for x, y in zip(i, d)]
    in3d(en, d, cl)
    r = pure(en, lambda: en.call(en.getattr(a, 'lookup3D'), [en.mklist(i)], {}))
    its = en.items(r)
    oblige(en, 'three values', len(its) == 3)
    for c in range(min(3, len(its))):
        oblige(en, 'blue-fastest entry, channel %d' % c, eq(its[c], entry3d(en, d, private(en, a, '_values'), i, c)))


@contract('Array.Array.lookup3D', p_lookup3d, 'the three values of the clamped grid point, blue fastest')
def a_lookup3d(en, l):
    dims, vals = arr_state(en, l['self'])
    idx = en.items(l['index3'])
    if len(dims) != 4 or dims[3] != 3 or len(idx) != 3 or not all(isint(x) for x in idx): return NotImplemented
    return en.mklist([entry3d(en, dims[:3], vals, idx, c) for c in range(3)])


def unit_facts(en, x, d):
    """Lemma instance: for t = clamp01(x), d >= 1: 0 <= t(d-1) <= d-1 (product of a number in
    [0,1] and a non-negative one), and so for its floor."""
    u = specs.clamp01(Sym, x)
    t = u * sub(d, 1)
    i, f = en.fresh('cell', 'i'), en.fresh('frac')
    en.assume(band(eq(t, i + f), le(0, i), le(i, sub(d, 1)), le(0, f), lt(f, 1), le(i + f, sub(d, 1))))
    if not isinstance(u.e, Fraction) and not isinstance(d, int):
        U = z3.simplify(zr(u), som=True)
        en.defs.append((z3.simplify(z3.ToReal(d.e)), U, z3.ToReal(i.e) + zr(f) + U))


def setup_interp3d(en):
    d = [en.const('d%d' % i, 'i') for i in range(3)]
    for y in d: en.assume(le(2, y))
    T = en.fn('T', 1)
    a = mkarray(en, d + [3], T, 'list', size3d(en, d))
    G = set_ghost3d(en, private(en, a, '_values'), d, T)
    x = [en.const('x%d' % i) for i in range(3)]
    for u, v in zip(x, d): unit_facts(en, u, v)
    return d, a, G, x


def make_interp3d(fname, spec):
    def prove(en):
        d, a, G, x = setup_interp3d(en)
        kind = en.choose(['list', 'array'])
        pos = en.mklist(x) if kind == 'list' else lib.arr_from(en, x)

        def case(ev):
            D = [max(2, min(int(ev(v)), 8)) for v in d]
            tb = [ev(G(c, r, g, b)) for r in range(D[0]) for g in range(D[1]) for b in range(D[2]) for c in range(3)]
            return {'kind': 'lut3d', 'interp': fname[8:].lower(), 'in': '32f', 'out': '32f', 'dims': D,
                    'values': [ev(v) for v in x], 'stride': 3, 'table': tb, 'maps': []}
        r = en.call(en.getattr(a, fname), [pos], {})
        its = en.items(r)
        oblige(en, 'three values', len(its) == 3, case)
        for c in range(min(3, len(its))):
            want = spec(Sym, x, d, lambda r, g, b, c=c: G(c, r, g, b))
            oblige(en, 'blend of the grid entries, channel %d' % c, eq(its[c], want), case)
        its = en.items(pos)
        oblige(en, 'frame: the position is not written', band(*[eq(u, v) for u, v in zip(its, x)]))
    return prove


def a_interp3d(spec):
    def apply(en, l):
        dims, vals = arr_state(en, l['self'])
        pos = l['position']
        if not en.known(le(3, lib.seq_len(en, pos))): return NotImplemented
        x = [lib.seq_at(en, pos, k) for k in range(3)]
        if len(dims) != 4 or dims[3] != 3 or not plain(*x): return NotImplemented
        g = ghost3d(en, vals)
        if g is None or not all(en.known(le(2, v)) for v in dims[:3]): return NotImplemented
        return en.mklist([spec(Sym, x[:3], dims[:3], lambda r, gg, b, c=c: g(c, r, gg, b)) for c in range(3)])
    return apply


for _q, _s in (('lookup3DTrilinear', specs.trilinear), ('lookup3DTetrahedral', specs.tetrahedral)):
    contract('Array.Array.' + _q, make_interp3d(_q, _s), 'specs.%s of the grid entries' % _s.__name__)(a_interp3d(_s))


# ---------------------------------------------------------------- Range as an adapter

RESCALE = z3.Function('RESCALE', z3.IntSort(), z3.IntSort(), AbSort, AbSort)


def depth_term(d): return z3.IntVal(strid(d)) if isinstance(d, str) else d.e


def p_adapter(en):
    c = Ctx(en)
    i, o = en.choose([(a, b) for a in DEPTHS for b in DEPTHS if a in ('8i', '12i', '16f') or b in ('10i', '16i')], 'depths')
    kind = en.choose(['array', 'list'], 'buffer')
    stride = en.choose([0, 3], 'stride')
    node = c.call('Range', i, o, 'adapter', 'adapter', style='noClamp')
    n, V = en.const('n', 'i'), en.fn('V', 1)
    en.assume(le(0, n))
    buf = en.mkcells((n,), lambda ix: V(ix[0]), arr=kind == 'array', dtype='f' if kind == 'array' else None)
    k = en.const('k', 'i')
    en.assume(band(le(0, k), lt(k, n)))
    case = lambda ev: {'kind': 'range', 'in': i, 'out': o, 'style': 'noClamp', 'default': False, 'bounds': [None] * 4,
                       'values': [ev(V(k))], 'stride': stride}
    out = c.m(node, 'process', buf, stride)
    oblige(en, 'length', eq(lib.seq_len(en, out), n), case)
    oblige(en, 'every value goes from the one depth to the other unclamped',
           eq(en.getitem(out, k), specs.denormalise(Sym, specs.normalise(Sym, V(k), i), o)), case)


@contract('Range.Range.process', p_adapter, 'a Range without bounds whose style is not clamp rescales every value '
          'from its input to its output depth')
def a_adapter(en, l):
    v = l['value']
    if not isinstance(v, Ab): return NotImplemented
    a = en.st(l['self']).attrs
    at = en.st(a['_attributes']).d
    if at.get('style', 'clamp') == 'clamp' or 'defaultRange' in at or en.st(a['_valueElements']).d: return NotImplemented
    d = [at.get(x) for x in ('inBitDepth', 'outBitDepth')]
    if not all(isinstance(x, (str, S)) for x in d): return NotImplemented
    return Ab(RESCALE(depth_term(d[0]), depth_term(d[1]), v.e), v.model)


# ---------------------------------------------------------------- bit patterns

BITS = {w: (z3.Function('PATTERN%d' % w, AbSort, z3.IntSort()), z3.Function('FLOAT%d' % w, z3.IntSort(), AbSort),
            z3.Function('ROUND%d' % w, AbSort, AbSort)) for w in (16, 32, 64)}
CODEC = {'halfToUInt16': (16, 'toint'), 'uint16ToHalf': (16, 'fromint'), 'halfToHex': (16, 'tohex'), 'hexToHalf': (16, 'fromhex'),
         'float32ToUInt32': (32, 'toint'), 'uint32ToFloat32': (32, 'fromint'), 'float32ToHex': (32, 'tohex'), 'hexToFloat32': (32, 'fromhex'),
         'doubleToUInt64': (64, 'toint'), 'uint64ToDouble': (64, 'fromint'), 'doubleToHex': (64, 'tohex'), 'hexToDouble': (64, 'fromhex')}


class Scalar(object):
    """A float known only by its identity, exactly representable in w bits."""
    def __init__(self, w): self.w = w
    def stored(self, en, v, w): return v if w >= self.w else Ab(BITS[w][2](v.e), scalars(w))
    def getattr(self, en, v, name): raise Unsupported('%s of a float' % name)


SCALARS = {w: Scalar(w) for w in (16, 32, 64)}
def scalars(w): return SCALARS[w]


def pattern_axioms(en):
    """A float is the one its pattern stands for (the C21 lemmas)."""
    x = z3.Const('x', AbSort)
    for w, (u, f, _) in BITS.items():
        en.assume(B(z3.ForAll([x], z3.And(f(u(x)) == x, u(x) >= 0, u(x) < 2 ** w), patterns=[u(x)])))


def p_codec(name):
    w, how = CODEC[name]

    def prove(en):
        from proofs import bits
        from . import half
        e, b, fs = bits.mk(en, w)
        fn = fs[('toint', 'fromint', 'tohex', 'fromhex').index(how)]
        u = half.Bits('u', w, e)
        if how in ('toint', 'tohex'):
            given = en.choose(['numpy', 'double'] if w < 64 else ['numpy'], 'argument')
            r = pure(en, lambda: fn(b if given == 'numpy' else half.widen(en, b, 64)))
            oblige(en, 'the pattern of the float', bits.int_is(r, e, w) if how == 'toint' else bits.hex_is(r, e, w))
            return
        given = en.choose(['number', 'text'] if how == 'fromint' else ['text', 'padded text'], 'argument')
        if how == 'fromint': a = u if given == 'number' else T((Piece('%s', u),))
        else: a = bits.hexof(e, w) if given == 'text' else T((Piece('%hex', bits.hexof(e, w)),))
        r = pure(en, lambda: fn(a))
        oblige(en, 'the float of the pattern', bits.value_is(r, e, w))
    return prove


def a_codec(name):
    w, how = CODEC[name]
    u, f, rnd = BITS[w]

    def apply(en, l):
        v = list(l.values())[0]
        if getattr(en, 'half', None) is not None: return NotImplemented      # the scenario looks at the bits
        if how in ('toint', 'tohex'):
            if not (isinstance(v, Ab) and isinstance(v.model, Scalar)): return NotImplemented
            n = N('i', u(v.e if v.model.w <= w else rnd(v.e)))
            return n if how == 'toint' else T((Piece('%hex', n),))
        if isinstance(v, T):
            core = [p for p in v.parts if not isinstance(p, lib.Pad)]
            if len(core) != 1 or not isinstance(core[0], Piece) or (core[0].spec == '%hex') != (how == 'fromhex'): return NotImplemented
            v = core[0].val
        elif how == 'fromhex': return NotImplemented
        if not isint(v) or isinstance(v, int): return NotImplemented
        if not en.known(band(le(0, v), lt(v, 2 ** w))): return NotImplemented
        return Ab(f(zi(v)), scalars(w))
    return apply


for _n in CODEC: contract('Common.' + _n, p_codec(_n), 'bit pattern and float of %d bits' % CODEC[_n][0])(a_codec(_n))
CODECS = tuple('Common.' + _n for _n in CODEC)


# ---------------------------------------------------------------- running the proofs

ORDER = list(CODECS) + ['ProcessNode.bitDepthToNormalized', 'ProcessNode.normalizedToBitDepth', 'Common.clamp', 'Common.mix',
         'Array.Array.lookup1D', 'Array.Array.lookup1DLinear', 'Array.Array.lookup1DHalfDomainInterpolated', 'IndexMap.IndexMap._processRaw', 'Array.Array.lookup3D',
         'Array.Array.lookup3DTrilinear', 'Array.Array.lookup3DTetrahedral', 'Range.Range.process']


def available(names, broken=()):
    return {q: ALL[q] for q in names if q not in broken}
