"""Proof scenarios of the numeric nodes (C01-C05, C08-C12)."""
from pyvc import lib
from pyvc.vals import *
from pyvc.sym import Sym, Ctx, Pixels, channels, DEPTHS, oblige
from pyvc import contracts as K
from contracts import specs

BASE = ['ProcessNode.bitDepthToNormalized', 'ProcessNode.normalizedToBitDepth', 'Common.clamp', 'Common.mix']
SCEN = {}


def scenario(pid, name, uses=BASE):
    def deco(fn):
        SCEN.setdefault(pid, []).append((name, fn, tuple(uses)))
        return fn
    return deco


def depths(en, both=True):
    """Symmetric choice of depths: every depth occurs on each side."""
    return en.choose([('8i', '16f'), ('10i', '12i'), ('12i', '10i'), ('16i', '8i'), ('16f', '16i'), ('32f', '32f'),
                      ('16f', '16f')], 'depths')


# ---------------------------------------------------------------- C01

@scenario('C01', 'scaling', ())
def c01(en):
    c = Ctx(en)
    d = en.choose(DEPTHS + ['float', '', '8I', '16'], 'depth')
    v = en.const('v')
    case = lambda ev: {'kind': 'depth', 'depth': d, 'v': ev(v)}
    n = K.pure(en, lambda: c.call('bitDepthToNormalized', v, d))
    b = K.pure(en, lambda: c.call('normalizedToBitDepth', v, d))
    s = specs.size(d)
    oblige(en, 'normalising divides by %d' % s, eq(n, v / s), case)
    oblige(en, 'denormalising multiplies by %d' % s, eq(b, v * s), case)
    oblige(en, 'denormalise after normalise', eq(c.call('normalizedToBitDepth', n, d), v), case)
    oblige(en, 'normalise after denormalise', eq(c.call('bitDepthToNormalized', b, d), v), case)
    i = c.en.truthval(en.call(en.getattr(en.import_module('aces.clf.ProcessNode'), 'bitDepthIsInteger'), [d], {}))
    f = c.en.truthval(en.call(en.getattr(en.import_module('aces.clf.ProcessNode'), 'bitDepthIsFloatingPoint'), [d], {}))
    oblige(en, 'integer exactly for 8i 10i 12i 16i', en.equal(i, d in specs.SIZES), case)
    oblige(en, 'floating point exactly when not integer', en.equal(f, bnot(i)), case)
    z = en.call(en.getattr(en.import_module('aces.clf.ProcessNode'), 'bitDepthSize'), [d], {})
    oblige(en, 'size', eq(z, s), case)


@scenario('C01', 'any name', ())
def c01_any(en):
    """Every other name, whatever it is: an opaque string different from the four."""
    c = Ctx(en)
    d = en.const('name', 's')
    for x in specs.SIZES: en.assume(bnot(en.equal(d, x)))
    v = en.const('v')
    oblige(en, 'unchanged by normalising', eq(c.call('bitDepthToNormalized', v, d), v))
    oblige(en, 'unchanged by denormalising', eq(c.call('normalizedToBitDepth', v, d), v))
    pn = en.import_module('aces.clf.ProcessNode')
    oblige(en, 'not integer', bnot(en.truthval(en.call(en.getattr(pn, 'bitDepthIsInteger'), [d], {}))))
    oblige(en, 'floating point', en.truthval(en.call(en.getattr(pn, 'bitDepthIsFloatingPoint'), [d], {})))


# ---------------------------------------------------------------- C02

@scenario('C02', 'range')
def c02(en):
    c = Ctx(en)
    kind, i, o, stride = en.choose([('array', '10i', '16f', 3), ('list', '16f', '12i', 0), ('array', '16f', '16f', 0)],
                                   'buffer, depths, stride')
    style = en.choose([None, 'clamp', 'noClamp', 'other'], 'style')
    default = en.choose([False, True], 'defaultRange')
    which = en.choose(range(16), 'bounds set')
    names = ['minIn', 'maxIn', 'minOut', 'maxOut']
    b = [en.const(nm) if which >> k & 1 else None for k, nm in enumerate(names)]
    kw = {} if style is None else {'style': style}
    if default: kw['defaultRange'] = True
    node = c.call('Range', i, o, '', '', **kw)
    for nm, v in zip(names, b):
        if v is not None: c.m(node, 'set' + nm[0].upper() + nm[1:] + 'Value', v)
    lo, hi = b[0], b[1]
    if default:
        lo, hi = (lo if lo is not None else real(0)), (hi if hi is not None else real(specs.size(i)))
    if lo is not None and hi is not None: en.assume(bnot(eq(lo, hi)))
    n, V = en.const('n', 'i'), en.fn('V', 1)
    en.assume(le(0, n))
    buf = en.mkcells((n,), lambda ix: V(ix[0]), arr=kind == 'array', dtype='f' if kind == 'array' else None)
    k = en.const('k', 'i')
    en.assume(band(le(0, k), lt(k, n)))

    def case(ev):
        return {'kind': 'range', 'in': i, 'out': o, 'style': style, 'default': default,
                'bounds': [None if x is None else ev(x) for x in b], 'values': [ev(V(k))], 'stride': 0}
    out = c.m(node, 'process', buf, stride)
    oblige(en, 'length', eq(lib.seq_len(en, out), n), case)
    want = specs.range_(Sym, V(k), i, o, b, default, 'clamp' if style is None else style)
    oblige(en, 'every value is mapped', eq(en.getitem(out, k), want), case)


# ---------------------------------------------------------------- C03

@scenario('C03', 'matrix')
def c03(en):
    c = Ctx(en)
    R = en.choose([1, 2, 3, 4], 'rows')
    off = en.choose([0, 1], 'offset column')
    C = R + off
    M = en.fn('M', 1)
    kind, single, ds = en.choose([('array', False, ('10i', '16f')), ('list', False, ('16f', '12i')),
                                  ('list', True, ('16i', '8i'))], 'buffer, single pixel, depths')
    node = c.call('Matrix', *ds)
    m = [M(k) for k in range(R * C)]
    c.m(node, 'setMatrix', c.lst([R, C]), c.lst(m))
    px = Pixels(en, kind, R)
    if single: en.assume(eq(px.n, 1))

    def case(ev):
        vals, S = px.case_values(ev)
        return {'kind': 'matrix', 'dims': [R, C], 'm': [ev(x) for x in m], 'values': vals, 'stride': S}
    out = c.m(node, 'process', px.buf, 0 if single else px.S)
    spec = [specs.matrix_row(Sym, px.px, R, C, M, i) for i in range(R)]
    channels(en, px, out, spec, R, 'row', case)
    oblige(en, 'the caller\'s values are unchanged', eq(en.getitem(px.buf, px.k), px.px(px.C)), case)


# ---------------------------------------------------------------- C04

CDL_STYLES = ['Fwd', 'Rev', 'FwdNoClamp', 'RevNoClamp', 'v1.2_Fwd', 'noClampFwd', 'v1.2_Rev', 'noClampRev']


def cdl_node(en, c, style, i, o):
    """A CDL node with every combination of set and unset parameters."""
    node = c.call('ASCCDL', i, o, '', '', style)
    setp = en.choose(['all', 'none', 'sop', 'sat'], 'parameters set')
    one, zero = real(1), real(0)
    sl, of, po, sat = [one] * 3, [zero] * 3, [one] * 3, one
    if setp in ('all', 'sop'):
        sl, of, po = c.reals('slope', 3), c.reals('offset', 3), c.reals('power', 3)
        for x in sl + po: en.assume(lt(0, x))
        c.m(node, 'setSlope', *sl)
        c.m(node, 'setOffset', *of)
        c.m(node, 'setPower', *po)
    if setp in ('all', 'sat'):
        sat = en.const('sat')
        en.assume(lt(0, sat))
        c.m(node, 'setSaturation', sat)
    return node, sl, of, po, sat


def make_cdl(style):
    def run(en):
        c = Ctx(en)
        c.features('All')
        i, o = en.choose([('10i', '16f'), ('16f', '12i')], 'depths')
        node, sl, of, po, sat = cdl_node(en, c, style, i, o)
        px = Pixels(en, 'array', 3)

        def case(ev):
            vals, S = px.case_values(ev)
            return {'kind': 'cdl', 'style': style, 'in': i, 'out': o, 'slope': [ev(x) for x in sl],
                    'offset': [ev(x) for x in of], 'power': [ev(x) for x in po], 'sat': ev(sat),
                    'values': vals, 'stride': S, 'set': 'all'}
        out = c.m(node, 'process', px.buf, px.S)
        spec = specs.cdl(Sym, [px.px(j) for j in range(3)], style, sl, of, po, sat, i, o)
        channels(en, px, out, spec, 3, 'channel', case)
    return run


for _s in CDL_STYLES: scenario('C04', 'style ' + _s)(make_cdl(_s))


@scenario('C04', 'few channels')
def c04_few(en):
    c = Ctx(en)
    node, sl, of, po, sat = cdl_node(en, c, en.choose(CDL_STYLES, 'style'), '10i', '16f')
    px = Pixels(en, 'array', exact=en.choose([1, 2], 'stride'))
    out = c.m(node, 'process', px.buf, px.S)
    oblige(en, 'unchanged', eq(en.getitem(out, px.k), px.px(px.C)))
    oblige(en, 'length', eq(lib.seq_len(en, out), px.L))


@scenario('C04', 'ColorCorrection')
def c04_cc(en):
    c = Ctx(en)
    node = c.call('ColorCorrection')
    sl, of, po, sat = c.reals('slope', 3), c.reals('offset', 3), c.reals('power', 3), en.const('sat')
    for x in sl + po + [sat]: en.assume(lt(0, x))
    c.m(node, 'setSlope', *sl)
    c.m(node, 'setOffset', *of)
    c.m(node, 'setPower', *po)
    c.m(node, 'setSaturation', sat)
    px = Pixels(en, 'array', 3)
    out = c.m(node, 'process', px.buf, px.S)
    spec = specs.cdl(Sym, [px.px(j) for j in range(3)], 'Fwd', sl, of, po, sat, '32f', '32f')
    channels(en, px, out, spec, 3)


# ---------------------------------------------------------------- C05

LUT1 = BASE + ['Array.Array.lookup1D', 'Array.Array.lookup1DLinear']


def lut1d_node(en, c, m, interp, i, o, kind='list'):
    n = en.const('entries', 'i')
    en.assume(le(2, n))
    T = en.fn('T', 1)
    L = mul(n, m)
    vals = en.mkcells((L,), lambda ix: T(ix[0]), arr=kind == 'array', dtype='f' if kind == 'array' else None)
    node = c.call('LUT1D', i, o, '', '', interp)
    c.m(node, 'setArray', m, vals)
    return node, n, T


@scenario('C05', 'lookup', LUT1)
def c05(en):
    c = Ctx(en)
    m = en.choose([1, 3], 'columns')
    i, o = en.choose([('10i', '16f'), ('16f', '12i')], 'depths')
    interp = en.choose(['linear', 'cubic', ''], 'interpolation')
    node, n, T = lut1d_node(en, c, m, interp, i, o)
    px = Pixels(en, 'array', 1)

    def case(ev):
        vals, S = px.case_values(ev)
        N_ = max(2, min(int(ev(n)), 64))
        return {'kind': 'lut1d', 'in': i, 'out': o, 'columns': m, 'interp': interp,
                'table': [ev(T(k)) for k in range(N_ * m)], 'values': vals, 'stride': S, 'maps': []}
    out = c.m(node, 'process', px.buf, px.S)
    spec = []
    for ch in range(3):
        col = (lambda k, ch=ch: T(add(mul(k, 3), ch))) if m == 3 else (lambda k: T(k))
        cl = lambda k, col=col: col(ite(lt(k, 0), 0, ite(lt(k, n), k, sub(n, 1))) if isinstance(k, N) else k)
        spec.append(specs.lut1d(Sym, specs.normalise(Sym, px.px(ch), i), n, cl))
    channels(en, px, out, spec, 3, 'channel', case)


@scenario('C05', 'special values', LUT1)
def c05_special(en):
    c = Ctx(en)
    m = en.choose([1, 3], 'columns')
    node, n, T = lut1d_node(en, c, m, 'linear', '16f', '16f')
    v = en.choose(['nan', 'inf', '-inf'], 'value')
    ch = en.choose([0, 1, 2])
    its = [real(0)] * 3
    its[ch] = N('r', v)
    out = c.m(node, 'process', lib.arr_from(en, its), 3) if False else c.m(node, 'process', en.mklist(its), 3)
    r = en.getitem(out, ch)
    oblige(en, 'passed through', special(r) and r.e == v)


# ---------------------------------------------------------------- C08, C09

LUT3 = BASE + ['Array.Array.lookup3D', 'Array.Array.lookup3DTrilinear', 'Array.Array.lookup3DTetrahedral']


def make_lut3d(interp):
    fn = specs.trilinear if interp == 'trilinear' else specs.tetrahedral

    def run(en):
        c = Ctx(en)
        i, o = en.choose([('10i', '16f'), ('16f', '12i')], 'depths')
        dims = [en.const('d%d' % k, 'i') for k in range(3)]
        for d in dims: en.assume(le(2, d))
        T = en.fn('T', 1)
        vals = en.mkcells((K.size3d(en, dims),), lambda ix: T(ix[0]))
        node = c.call('LUT3D', i, o, '', '', interp)
        c.m(node, 'setArray', en.mklist(dims), vals)
        G = K.set_ghost3d(en, K.private(en, K.private(en, node, '_array'), '_values'), dims, T)
        px = Pixels(en, 'array', 3)
        x = [specs.normalise(Sym, px.px(j), i) for j in range(3)]
        for u, v in zip(x, dims): K.unit_facts(en, u, v)
        out = c.m(node, 'process', px.buf, px.S)
        spec = [fn(Sym, x, dims, lambda r, g, b, ch=ch: G(ch, r, g, b)) for ch in range(3)]

        def case(ev):
            pv, S = px.case_values(ev)
            D = [max(2, min(int(ev(d)), 8)) for d in dims]
            return {'kind': 'lut3d', 'interp': interp, 'in': i, 'out': o, 'dims': D, 'values': pv, 'stride': S,
                    'table': [ev(G(ch, r, g, b)) for r in range(D[0]) for g in range(D[1]) for b in range(D[2])
                              for ch in range(3)], 'maps': []}
        channels(en, px, out, spec, 3, 'channel', case)
    return run


scenario('C08', 'trilinear', LUT3)(make_lut3d('trilinear'))
scenario('C09', 'tetrahedral', LUT3)(make_lut3d('tetrahedral'))


# ---------------------------------------------------------------- C10

def settings(en, k, mk):
    """Sequences of settings: none, one for all channels, and per-channel ones in any order."""
    form = en.choose(['none', 'all', 'RGB', 'G then all', 'all then B', 'BRB'], 'settings')
    chans = {'none': [], 'all': [None], 'RGB': ['R', 'G', 'B'], 'G then all': ['G', None],
             'all then B': [None, 'B'], 'BRB': ['B', 'R', 'B']}[form]
    return [(mk(j), ch) for j, ch in enumerate(chans)]


def make_gamma(style):
    def run(en):
        c = Ctx(en)
        i, o = en.choose([('10i', '16f'), ('16f', '12i')], 'depths')
        ints = en.choose([False, True], 'integer parameters') if style.startswith('basic') else False

        def mk(j):
            g = en.const('gamma%d' % j, 'i' if ints else 'r')
            f = en.const('off%d' % j)
            en.assume(lt(0, g))
            if style.startswith('mon'):
                en.assume(lt(1, g))
                en.assume(lt(0, f))
            return g, f
        node = c.call('Gamma', i, o, '', '', style)
        ps = settings(en, 2, mk)
        if style.startswith('mon') and (not ps or not any(ch is None for _, ch in ps) and
                                        {ch for _, ch in ps} != {'R', 'G', 'B'}): return
        for (g, f), ch in ps: c.m(node, 'setGamma', g, f, ch)
        eff = specs.per_channel([(g, f, ch) for (g, f), ch in ps], (real(1), real(0)), 2)
        px = Pixels(en, 'array', 3)
        out = c.m(node, 'process', px.buf, px.S)
        spec = [specs.gamma(Sym, px.px(j), style, real_(eff[j][0]), real_(eff[j][1]), i, o) for j in range(3)]

        def case(ev):
            pv, S = px.case_values(ev)
            return {'kind': 'gamma', 'style': style, 'in': i, 'out': o, 'values': pv, 'stride': S,
                    'params': [[ev(g), ev(f), ch] for (g, f), ch in ps]}
        channels(en, px, out, spec, 3, 'channel', case)
    return run


def real_(v): return N('r', zr(v)) if not (isinstance(v, N) and v.kind == 'r') else v


for _s in ('basicFwd', 'basicRev', 'moncurveFwd', 'moncurveRev'): scenario('C10', 'style ' + _s)(make_gamma(_s))


# ---------------------------------------------------------------- C11

def make_log(style):
    def run(en):
        c = Ctx(en)
        i, o = en.choose([('10i', '16f'), ('16f', '12i')], 'depths')

        def mk(j):
            g, w, b, h, s = [en.const('%s%d' % (nm, j)) for nm in ('gamma', 'white', 'black', 'high', 'shadow')]
            en.assume(lt(0, g))
            en.assume(lt(b, w))
            en.assume(lt(s, h))
            return g, w, b, h, s
        node = c.call('Log', i, o, '', '', style)
        ps = settings(en, 5, mk)
        for p, ch in ps: c.m(node, 'setLogParams', *(list(p) + [ch]))
        eff = specs.per_channel([tuple(p) + (ch,) for p, ch in ps],
                                (real(0.6), real(685), real(95), real(1), real(0)), 5)
        if style in ('logToLin', 'linToLog'):
            # a negative exponent of 10 gives less than one (lemma about pow)
            ten = real(10)
            for p in eff:
                rb = lib.spow(ten, specs.mn(Sym, real(-0.00001), (p[2] - p[1]) * real(0.002) / p[0]))
                en.assume(lt(rb, 1))
                en.assume(lt(0, rb))
        px = Pixels(en, 'array', 3)
        out = c.m(node, 'process', px.buf, px.S)
        spec = [specs.log(Sym, px.px(j), style, eff[j], i, o) for j in range(3)]

        def case(ev):
            pv, S = px.case_values(ev)
            return {'kind': 'log', 'style': style, 'in': i, 'out': o, 'values': pv, 'stride': S,
                    'params': [[ev(x) for x in p] + [ch] for p, ch in ps]}
        channels(en, px, out, spec, 3, 'channel', case)
    return run


for _s in ('log10', 'log2', 'antiLog10', 'antiLog2', 'linToLog', 'logToLin'):
    scenario('C11', 'style ' + _s)(make_log(_s))


# ---------------------------------------------------------------- C12

def make_ec(style):
    def run(en):
        c = Ctx(en)
        i, o = en.choose([('10i', '16f'), ('16f', '12i')], 'depths')
        node = c.call('ExposureContrast', i, o, '', '', style)
        e, k, p = real(0), real(1), real(1)
        setp = en.choose([True, False], 'parameters set')
        if setp:
            e, k, p = en.const('exposure'), en.const('contrast'), en.const('pivot')
            en.assume(lt(0, p))
            c.m(node, 'setExposureContrastPivot', e, k, p)
        px = Pixels(en, 'array', 3)
        out = c.m(node, 'process', px.buf, px.S)
        spec = [specs.exposure_contrast(Sym, px.px(j), style, e, k, p, i, o) for j in range(3)]

        def case(ev):
            pv, S = px.case_values(ev)
            return {'kind': 'ec', 'style': style, 'in': i, 'out': o, 'values': pv, 'stride': S,
                    'params': [ev(e), ev(k), ev(p)]}
        channels(en, px, out, spec, 3, 'channel', case)
    return run


for _s in ('linear', 'video', 'log'): scenario('C12', 'style ' + _s)(make_ec(_s))
