"""Proof scenarios of half-domain tables (C06), index maps (C07), builders (C22), sampling (C23) and inverses (C24)."""
import z3
from pyvc import lib, half
from pyvc import engine as E_
from pyvc.vals import *
from pyvc.sym import Sym, Ctx, Pixels, channels, oblige
from pyvc import contracts as K
from contracts import specs
from .numeric import BASE, LUT1

SCEN = {}


def scenario(pid, name, uses=BASE):
    def deco(fn):
        SCEN.setdefault(pid, []).append((name, fn, tuple(uses)))
        return fn
    return deco


HALF = LUT1 + ['Array.Array.lookup1DHalfDomainInterpolated']


# ---------------------------------------------------------------- C06

def finite_pattern(en, name='b'):
    b = en.const(name, 'i')
    en.assume(half.is_finite(b))
    return b


def lookups(en, a):
    return {'interpolated': lambda x, ch: en.call(en.getattr(a, 'lookup1DHalfDomain'), [x, ch], {'interpolate': True}),
            'default': lambda x, ch: en.call(en.getattr(a, 'lookup1DHalfDomain'), [x, ch], {}),
            'nearest': lambda x, ch: en.call(en.getattr(a, 'lookup1DHalfDomain'), [x, ch], {'interpolate': False})}


@scenario('C06', 'halfs map to their own entries', ['Array.Array.lookup1D'])
def c06_exact(en):
    m = en.choose([1, 3], 'columns')
    ch = en.choose([0, 1, 2], 'channel')
    how = en.choose(['interpolated', 'default', 'nearest'], 'lookup')
    a, T = K.half_table(en, m, en.choose(['list', 'array'], 'table'))
    col = K.half_col(en, [65536, m], K.private(en, a, '_values'), ch)
    b = finite_pattern(en)
    case = K.half_case(m, b, lambda ev: 0)
    en.half.register(en, 0, half.TOP, half.NEG, half.NTOP, b.e, b.e + 1, b.e - 1)
    x = lib.Half(half.HV(b.e), b)
    r = K.pure(en, lambda: lookups(en, a)[how](x, ch))
    oblige(en, 'a half-float gives its own entry', eq(r, col(b)), case)


@scenario('C06', 'infinities and NaN', ['Array.Array.lookup1D'])
def c06_special(en):
    m = en.choose([1, 3], 'columns')
    ch = en.choose([0, 1, 2], 'channel')
    a, T = K.half_table(en, m)
    col = K.half_col(en, [65536, m], K.private(en, a, '_values'), ch)
    v, want = en.choose([('nan', 31745), ('inf', 31744), ('-inf', 64512)], 'value')
    how = en.choose(['interpolated', 'default'] + (['nearest'] if v != 'nan' else []), 'lookup')
    as_half = en.choose([False, True], 'half')
    x = N('r', v)
    if as_half: x = en.half.cast(en, x)
    r = lookups(en, a)[how](x, ch)
    oblige(en, '%s maps to entry %d' % (v, want), eq(r, col(want)))


@scenario('C06', 'nearest', ['Array.Array.lookup1D'])
def c06_nearest(en):
    m = en.choose([1, 3], 'columns')
    ch = en.choose([0, 1, 2], 'channel')
    a, T = K.half_table(en, m)
    col = K.half_col(en, [65536, m], K.private(en, a, '_values'), ch)
    x = en.const('x')
    case = lambda ev: None
    r = K.pure(en, lambda: lookups(en, a)['nearest'](x, ch))
    e = half.RND(x.e)
    want = ite(le(half.OVER, x), col(half.INF), ite(le(x, -half.OVER), col(half.NINF), col(N('i', e))))
    oblige(en, 'the entry of the nearest half', eq(r, want))


@scenario('C06', 'between halfs', HALF)
def c06_between(en):
    """The lookup entry point, from the contract of the interpolated lookup, at any bracketing pair."""
    m = en.choose([1, 3], 'columns')
    ch = en.choose([0, 1, 2], 'channel')
    a, T = K.half_table(en, m)
    col = K.half_col(en, [65536, m], K.private(en, a, '_values'), ch)
    x = en.const('x')
    sign = en.choose([1, -1], 'sign')
    j = en.const('j', 'i')
    en.assume(band(le(0, j), lt(j, half.TOP)) if sign > 0 else band(le(half.NEG, j), lt(j, half.NTOP)))
    en.half.register(en, 0, half.TOP, half.NEG, half.NTOP, j.e, j.e + 1)
    h0, h1 = N('r', half.HV(j.e)), N('r', half.HV(j.e + 1))
    en.assume(bnot(eq(x, 0)))
    en.assume(band(le(h0, x), le(x, h1)) if sign > 0 else band(le(h1, x), le(x, h0)))
    f = N('r', zr(x - h0) / zr(h1 - h0))
    case = K.half_case(m, j, lambda ev: ev(f))
    r = lookups(en, a)[en.choose(['interpolated', 'default'], 'lookup')](x, ch)
    lo, hi = col(j), col(j + 1)
    oblige(en, 'linear between the two entries', eq(r, lo + f * (hi - lo)), case)
    # the result lies between the two entries, so no other half-float takes part
    oblige(en, 'within the two entries', band(implies(le(lo, hi), band(le(lo, r), le(r, hi))), implies(le(hi, lo), band(le(hi, r), le(r, lo)))), case)


@scenario('C06', 'node', HALF)
def c06_node(en):
    c = Ctx(en)
    m = en.choose([1, 3], 'columns')
    i, o = en.choose([('10i', '16f'), ('16f', '12i')], 'depths')
    interp = en.choose(['linear', ''], 'interpolation')
    raw = en.choose([True, False, ''], 'raw halfs')
    en.half = half.Model()
    T = en.fn('T', 1)
    vals = en.mkcells((65536 * m,), lambda ix: T(ix[0]))
    node = c.call('LUT1D', i, o, '', '', interp, rawHalfs=raw, halfDomain=True)
    c.m(node, 'setArray', m, vals)
    px = Pixels(en, 'array', 1)
    spec = []
    for ch in range(3):
        col = (lambda k, ch=ch: T(add(mul(k, 3), ch))) if m == 3 else (lambda k: T(k))
        spec.append(K.half_spec(en, specs.normalise(Sym, px.px(ch), i), col))
    out = c.m(node, 'process', px.buf, px.S)
    channels(en, px, out, spec, 3, 'channel')


# ---------------------------------------------------------------- C07

RAW = ['IndexMap.IndexMap._processRaw']


def new_map(en, n, v, cached=False):
    return en.call(en.getattr(en.import_module('aces.clf.IndexMap'), 'IndexMap'), [n, v], {'useCachedProcess': True} if cached else {})


@scenario('C07', 'piecewise linear', RAW)
def c07_map(en):
    """At any point, between any two neighbouring points, and outside."""
    n, X, Y, v = K.mkmap(en, en.choose(['list', 'array'], 'points'))
    how = en.choose(['init', 'set'], 'set by')
    if how == 'init': im = new_map(en, n, v)
    else:
        im = new_map(en, 0, en.mklist([]))
        en.call(en.getattr(im, 'setDimension'), [n], {})
        en.call(en.getattr(im, 'setValues'), [v], {})
    where = en.choose(['at a point', 'between', 'below', 'above'], 'where')
    j = en.const('j', 'i')
    x = en.const('x')
    case = K.map_case(n, X, Y, j, x)
    if where == 'at a point': en.assume(band(le(0, j), lt(j, n), eq(x, X(j))))
    elif where == 'between': en.assume(band(le(0, j), lt(j + 1, n), le(X(j), x), le(x, X(j + 1)), lt(X(j), X(j + 1))))
    elif where == 'below': en.assume(le(x, X(0)))
    else: en.assume(le(X(sub(n, 1)), x))
    r = K.pure(en, lambda: en.call(en.getattr(im, 'process'), [x], {}))
    want = {'at a point': lambda: Y(j), 'below': lambda: Y(0), 'above': lambda: Y(sub(n, 1)),
            'between': lambda: Y(j) + N('r', zr(x - X(j)) / zr(X(j + 1) - X(j))) * (Y(j + 1) - Y(j))}[where]()
    oblige(en, where, eq(r, want), case)
    its = en.items(en.call(en.getattr(im, 'getValues'), [], {}))
    k = en.const('k', 'i')
    en.assume(band(le(0, k), lt(k, n)))
    oblige(en, 'the points are kept', band(eq(en.call(en.getattr(im, 'getDimension'), [], {}), n), eq(en.getitem(its[0], k), X(k)), eq(en.getitem(its[1], k), Y(k))))


@scenario('C07', 'NaN and infinities')
def c07_special(en):
    n, X, Y, v = K.mkmap(en)
    en.half = half.Model()
    im = new_map(en, n, v)
    w = en.choose(['nan', 'inf', '-inf'], 'value')
    r = en.call(en.getattr(im, 'process'), [N('r', w)], {})
    oblige(en, 'passes through', special(r) and r.e == w)


CACHED = LUT1 + ['Array.Array.lookup1DHalfDomainInterpolated'] + RAW


@scenario('C07', 'cache', CACHED)
def c07_cache(en):
    """At every half-float the cached evaluation is the direct one."""
    n, X, Y, v = K.mkmap(en)
    en.half = half.Model()
    how = en.choose(['init', 'set', 'replace'], 'how')
    if how == 'init': im = new_map(en, n, v, True)
    else:
        im = new_map(en, 0, en.mklist([]), True)
        if how == 'replace':
            en.call(en.getattr(im, 'setDimension'), [2], {})
            en.call(en.getattr(im, 'setValues'), [en.mklist([en.mklist([real(0), real(1)]), en.mklist([real(3), real(4)])])], {})
        en.call(en.getattr(im, 'setDimension'), [n], {})
        en.call(en.getattr(im, 'setValues'), [v], {})
    b = finite_pattern(en)
    en.half.register(en, 0, half.TOP, half.NEG, half.NTOP, b.e, b.e + 1, b.e - 1)
    x = lib.Half(half.HV(b.e), b)
    its = en.items(v)
    r = en.call(en.getattr(im, 'process'), [x], {})
    oblige(en, 'the value of the direct evaluation', eq(r, K.map_spec(en, its[0], its[1], n, N('r', half.HV(b.e)))))


@scenario('C07', 'cache, infinities and NaN', CACHED)
def c07_cache_special(en):
    n, X, Y, v = K.mkmap(en)
    en.half = half.Model()
    im = new_map(en, n, v, True)
    w = en.choose(['nan', 'inf', '-inf'], 'value')
    x = N('r', w)
    if en.choose([False, True], 'half'): x = en.half.cast(en, x)
    r = en.call(en.getattr(im, 'process'), [x], {})
    oblige(en, 'passes through', special(r) and r.e == w)


def mapped(en, c, node, count):
    """Index maps set on a node: one or three."""
    maps = [K.mkmap(en, 'list', str(q)) for q in range(count)]
    c.m(node, 'setIndexMaps', *[m[3] for m in maps])
    specs_ = []
    for q in range(3):
        n, X, Y, v = maps[q if count == 3 else 0]
        xs, ys = en.items(v)
        specs_.append(lambda x, n=n, xs=xs, ys=ys: K.map_spec(en, xs, ys, n, x))
    return specs_


def c07_lut1d(en, count, m):
    c = Ctx(en)
    i, o = ('10i', '16f') if count == m else ('16f', '12i')
    n, T = en.const('entries', 'i'), en.fn('T', 1)
    en.assume(le(2, n))
    node = c.call('LUT1D', i, o, '', '', 'linear')
    before = en.choose([True, False], 'maps set first')
    if before: maps = mapped(en, c, node, count)
    c.m(node, 'setArray', m, en.mkcells((mul(n, m),), lambda ix: T(ix[0])))
    if not before: maps = mapped(en, c, node, count)
    px = Pixels(en, 'array', 1)
    out = c.m(node, 'process', px.buf, px.S)
    spec = []
    for ch in range(3):
        col = (lambda k, ch=ch: T(add(mul(k, 3), ch))) if m == 3 else (lambda k: T(k))
        cl = lambda k, col=col: col(ite(lt(k, 0), 0, ite(lt(k, n), k, sub(n, 1))) if isinstance(k, N) else k)
        x = maps[ch](px.px(ch))
        spec.append(specs.lut1d(Sym, N('r', zr(x) / zr(sub(n, 1))), n, cl))
    channels(en, px, out, spec, 3, 'channel')


for _c in (1, 3):
    for _m in (1, 3):
        scenario('C07', '1D LUT of %d columns with %d index maps' % (_m, _c), LUT1 + RAW)(lambda en, c=_c, m=_m: c07_lut1d(en, c, m))


@scenario('C07', '3D LUT with index maps', BASE + ['Array.Array.lookup3D', 'Array.Array.lookup3DTrilinear', 'Array.Array.lookup3DTetrahedral'] + RAW)
def c07_lut3d(en):
    c = Ctx(en)
    count = en.choose([1, 3], 'maps')
    interp = en.choose(['trilinear', 'tetrahedral'], 'interpolation')
    fn = specs.trilinear if interp == 'trilinear' else specs.tetrahedral
    dims = [en.const('d%d' % k, 'i') for k in range(3)]
    for d in dims: en.assume(le(2, d))
    T = en.fn('T', 1)
    node = c.call('LUT3D', '10i', '12i', '', '', interp)
    c.m(node, 'setArray', en.mklist(dims), en.mkcells((K.size3d(en, dims),), lambda ix: T(ix[0])))
    maps = mapped(en, c, node, count)
    G = K.set_ghost3d(en, K.private(en, K.private(en, node, '_array'), '_values'), dims, T)
    px = Pixels(en, 'array', 3)
    x = [N('r', zr(maps[j](px.px(j))) / zr(sub(dims[j], 1))) for j in range(3)]
    for u, v in zip(x, dims): K.unit_facts(en, u, v)
    out = c.m(node, 'process', px.buf, px.S)
    spec = [fn(Sym, x, dims, lambda r, g, b, ch=ch: G(ch, r, g, b)) for ch in range(3)]
    channels(en, px, out, spec, 3, 'channel')


# ---------------------------------------------------------------- C22

def opaque(en, name='F', args=1):
    """The caller's function: nothing is known about it but that it is one."""
    F = en.fn(name, args, 'r', 'r')
    sp = {w: en.const(name + w.replace('-', 'm')) for w in ('nan', 'inf', '-inf')}

    def f(e, a, k):
        if len(a) != args or k: e.pyraise('TypeError')
        if args == 1 and special(a[0]): return sp[a[0].e]
        return F(*[R1(x) for x in a])
    return E_.Ext('f', f), F, sp


def R1(x): return N('r', zr(x))


def same_heap(en, thunk):
    """thunk's result, obliging that no object made before is written."""
    return K.pure(en, thunk)


@scenario('C22', '1D builder')
def c22_1d(en):
    c = Ctx(en)
    ch = en.choose([1, 2, 3, 4], 'channels')
    n = en.const('n', 'i')
    en.assume(le(2, n))
    i, o = en.choose([('10i', '16f'), ('16f', '12i')], 'depths')
    f, F, _ = opaque(en)
    node = same_heap(en, lambda: c.call('simpleSampledLUT', 'a', 'b', ch, n, f, i, o))
    k, q = en.const('k', 'i'), en.const('q', 'i')
    en.assume(band(le(0, k), lt(k, n), le(0, q), lt(q, ch)))
    case = lambda ev: {'kind': 'build1d', 'f': 'sq', 'n': max(2, min(int(ev(n)), 70)), 'ch': ch, 'in': i, 'out': o}
    vals = c.m(node, 'getLUTValues')
    oblige(en, 'entries', eq(lib.seq_len(en, vals), mul(n, ch)), case)
    dims = en.items(c.m(node, 'getLUTDimensions'))
    oblige(en, 'dimensions', band(len(dims) == 2, eq(dims[0], n), eq(dims[1], ch)), case)
    en.assume(band(le(0, add(mul(k, ch), q)), lt(add(mul(k, ch), q), mul(n, ch))))
    oblige(en, 'entry k of every channel is f(k/(n-1))', eq(en.getitem(vals, add(mul(k, ch), q)), F(R1(rdiv(k, sub(n, 1))))), case)
    oblige(en, 'depths', c.m(node, 'getAttribute', 'inBitDepth') == i and c.m(node, 'getAttribute', 'outBitDepth') == o, case)


@scenario('C22', 'half-domain builder')
def c22_half(en):
    c = Ctx(en)
    en.half = half.Model()
    ch = en.choose([1, 3], 'channels')
    raw = en.choose([True, False], 'raw halfs')
    f, F, sp = opaque(en)
    node = same_heap(en, lambda: c.call('simpleSampledLUTHalfDomain', 'a', 'b', ch, f, raw))
    b, q = en.const('b', 'i'), en.const('q', 'i')
    en.assume(band(le(0, b), lt(b, 65536), le(0, q), lt(q, ch)))
    en.half.register(en, 0, half.TOP, half.NEG, half.NTOP, b.e)
    case = lambda ev: {'kind': 'buildhalf', 'f': 'sq', 'ch': ch, 'raw': raw, 'in': '16f', 'out': '16f'}
    vals = c.m(node, 'getLUTValues')
    oblige(en, 'entries', eq(lib.seq_len(en, vals), 65536 * ch), case)
    r = en.getitem(vals, add(mul(b, ch), q))
    fin = half.is_finite(b)
    want = ite(fin, F(N('r', half.HV(b.e))), ite(eq(b, half.INF), sp['inf'], ite(eq(b, half.NINF), sp['-inf'], sp['nan'])))
    oblige(en, 'entry of every channel is f of the half with that pattern', eq(r, want), case)
    oblige(en, 'half domain', c.m(node, 'getAttribute', 'halfDomain') is True, case)
    rh = c.m(node, 'getAttribute', 'rawHalfs')
    oblige(en, 'raw halfs', rh is True if raw else rh in (None, False), case)


def grid_dims(en, d):
    """For every loop index p < n: (p+1)*m <= n*m for the strides m of a table (m > 0)."""
    for m in (d[2], mul(d[1], d[2])):
        en.assume(lt(0, m))
        en.dims.append(m)


def on_grid(en, d, g):
    """g is a grid point; the products of its coordinates with the strides are in range."""
    for x, y in zip(g, d): en.assume(band(le(0, x), lt(x, y)))
    for x, y, m in ((g[1], d[1], d[2]), (g[0], d[0], mul(d[1], d[2]))):
        en.assume(band(le(0, mul(x, m)), le(mul(add(x, 1), m), mul(y, m))))
    K.in3d(en, d, g)


@scenario('C22', '3D builder')
def c22_3d(en):
    c = Ctx(en)
    d = [en.const('d%d' % j, 'i') for j in range(3)]
    for x in d: en.assume(le(2, x))
    fs = [opaque(en, 'F%d' % j, 3) for j in range(3)]
    grid_dims(en, d)
    f = E_.Ext('f', lambda e, a, k: e.mklist([x[0].fn(e, a, k) for x in fs]))
    res = en.mklist(d)
    node = same_heap(en, lambda: c.call('simple3DLUT', 'a', 'b', res, f))
    g = [en.const('g%d' % j, 'i') for j in range(3)]
    q = en.choose([0, 1, 2], 'channel')
    for x, y in zip(g, d): en.assume(band(le(0, x), lt(x, y)))
    on_grid(en, d, g)
    vals = c.m(node, 'getLUTValues')
    case = lambda ev: {'kind': 'build3d', 'n': [max(2, min(int(ev(x)), 9)) for x in d], 'a': [.5, -.25, 1, .75, 1, -1, .125, 2, .5, .1, .2, .3],
                       'in': '16f', 'out': '16f', 'interp': 'trilinear'}
    oblige(en, 'entries', eq(lib.seq_len(en, vals), K.size3d(en, d)), case)
    dims = en.items(c.m(node, 'getLUTDimensions'))
    oblige(en, 'dimensions', band(len(dims) == 4, *[eq(x, y) for x, y in zip(dims, d + [3])]), case)
    want = fs[q][1](*[R1(rdiv(x, sub(y, 1))) for x, y in zip(g, d)])
    oblige(en, 'grid entry, blue fastest', eq(en.getitem(vals, K.flat3d(d, g, q)), want), case)


@scenario('C22', '1D grid point', LUT1)
def c22_1d_process(en):
    """A grid point through a built LUT gives the function's value there."""
    c = Ctx(en)
    ch = en.choose([1, 3], 'channels')
    n = en.const('n', 'i')
    en.assume(le(2, n))
    i, o = en.choose([('10i', '16f'), ('16f', '12i')], 'depths')
    f, F, _ = opaque(en)
    node = c.call('simpleSampledLUT', 'a', 'b', ch, n, f, i, o)
    k = en.const('k', 'i')
    en.assume(band(le(0, k), lt(k, n)))
    t = en.const('t')
    en.assume(band(le(0, t), le(t, 1), eq(mul(t, sub(n, 1)), R1(k))))
    en.defs.append((z3.simplify(z3.ToReal(n.e)), t.e, z3.ToReal(k.e) + t.e))
    q = en.choose([0, 1, 2], 'channel')
    vals = [en.const('v%d' % j) for j in range(3)]
    vals[q] = specs.denormalise(Sym, t, i)
    out = c.m(node, 'process', en.mklist(vals), 3)
    case = lambda ev: {'kind': 'build1d', 'f': 'sq', 'n': max(2, min(int(ev(n)), 70)), 'ch': ch, 'in': i, 'out': o}
    en.assume(eq(R1(rdiv(k, sub(n, 1))), t))
    oblige(en, 'the value of the function at the grid point', eq(en.getitem(out, q), F(t)), case)


@scenario('C22', 'half-domain grid point', HALF)
def c22_half_process(en):
    c = Ctx(en)
    en.half = half.Model()
    ch = en.choose([1, 3], 'channels')
    f, F, sp = opaque(en)
    node = c.call('simpleSampledLUTHalfDomain', 'a', 'b', ch, f)
    b = finite_pattern(en)
    en.assume(bnot(eq(R1(N('r', half.HV(b.e))), 0)))
    en.half.register(en, 0, half.TOP, half.NEG, half.NTOP, b.e, b.e + 1, b.e - 1)
    q = en.choose([0, 1, 2], 'channel')
    vals = [real(0)] * 3
    vals[q] = N('r', half.HV(b.e))
    out = c.m(node, 'process', en.mklist(vals), 3)
    oblige(en, 'the value of the function at the half', eq(en.getitem(out, q), F(N('r', half.HV(b.e)))),
           lambda ev: {'kind': 'buildhalf', 'f': 'sq', 'ch': ch, 'raw': False, 'in': '16f', 'out': '16f'})


TRI = BASE + ['Array.Array.lookup3D', 'Array.Array.lookup3DTrilinear', 'Array.Array.lookup3DTetrahedral']


@scenario('C22', '3D grid point', TRI)
def c22_3d_process(en):
    c = Ctx(en)
    interp = en.choose(['trilinear', 'tetrahedral'], 'interpolation')
    d = [en.const('d%d' % j, 'i') for j in range(3)]
    for x in d: en.assume(le(2, x))
    T = en.fn('T', 1)
    node = c.call('LUT3D', '10i', '16f', '', '', interp)
    c.m(node, 'setArray', en.mklist(d), en.mkcells((K.size3d(en, d),), lambda ix: T(ix[0])))
    G = K.set_ghost3d(en, K.private(en, K.private(en, node, '_array'), '_values'), d, T)
    g = [en.const('g%d' % j, 'i') for j in range(3)]
    t = [en.const('t%d' % j) for j in range(3)]
    for u, x, y in zip(t, g, d):
        # u = x/(y-1) is in [0,1]; u*(y-1) = x
        en.assume(band(le(0, x), lt(x, y), le(0, u), le(u, 1), eq(mul(u, sub(y, 1)), R1(x))))
        en.defs.append((z3.simplify(z3.ToReal(y.e)), u.e, z3.ToReal(x.e) + u.e))
    vals = [specs.denormalise(Sym, u, '10i') for u in t]
    out = c.m(node, 'process', en.mklist(vals), 3)
    for q in range(3):
        oblige(en, 'the entry of the grid point, channel %d' % q, eq(en.getitem(out, q), G(q, *g)),
               lambda ev: {'kind': 'build3d', 'n': [max(2, min(int(ev(x)), 9)) for x in d], 'a': [.5, -.25, 1, .75, 1, -1, .125, 2, .5, .1, .2, .3],
                           'in': '10i', 'out': '16f', 'interp': interp})


@scenario('C22', 'setting a table keeps the caller\'s lists')
def c22_frame(en):
    c = Ctx(en)
    kind = en.choose(['LUT1D', 'LUT3D', 'Matrix'], 'node')
    n = en.const('n', 'i')
    en.assume(le(1, n))
    T = en.fn('T', 1)
    held = en.choose(['list', 'array'], 'values')
    if kind == 'LUT3D':
        d = [en.const('d%d' % j, 'i') for j in range(3)]
        for x in d: en.assume(le(1, x))
        dims, L = en.mklist(d), K.size3d(en, d)
    elif kind == 'LUT1D': dims, L = 3, mul(n, 3)
    else: d, dims, L = [3, 3], en.mklist([3, 3]), 9
    vals = en.mkcells((L,), lambda ix: T(ix[0]), arr=held == 'array', dtype='f' if held == 'array' else None) if kind != 'Matrix' else \
        (en.mklist if held == 'list' else lambda its: lib.arr_from(en, its))([T(j) for j in range(9)])
    node = c.call(kind, '10i', '16f', 'a', 'b')
    before = dict(en.heap)
    nxt = en.next
    c.m(node, 'setMatrix' if kind == 'Matrix' else 'setArray', dims, vals)
    lists = [vals] + ([dims] if isinstance(dims, E_.Ref) else [])
    for l in lists:
        i = l.base.id if isinstance(l, E_.View) else l.id
        oblige(en, 'the caller\'s list is not written', en.heap[i] is before[i])
    w = c.m(node, 'getLUTValues') if kind != 'Matrix' else c.m(K.private(en, node, '_array'), 'getValues')
    k = en.const('k', 'i')
    if kind == 'Matrix':
        for j in range(9): oblige(en, 'value %d' % j, eq(en.getitem(w, j), T(j)))
    else:
        en.assume(band(le(0, k), lt(k, L)))
        oblige(en, 'the node holds the values', band(eq(lib.seq_len(en, w), L), eq(en.getitem(w, k), T(k))))
    gd = en.items(c.m(node, 'getLUTDimensions') if kind != 'Matrix' else c.m(K.private(en, node, '_array'), 'getDimensions'))
    want = {'Matrix': [3, 3], 'LUT1D': [n, 3]}.get(kind) or d + [3]
    oblige(en, 'dimensions', band(len(gd) == len(want), *[eq(x, y) for x, y in zip(gd, want)]))


for _p in ('C08', 'C09'): scenario(_p, 'grid point', TRI)(c22_3d_process)
