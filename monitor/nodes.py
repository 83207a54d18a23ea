"""Nodes as JSON: building the real node, and the reference model of its processing."""
import math
import numpy as np
from contracts import specs
from contracts.specs import Conc
from .base import *


def half_bits(h):
    import struct
    return struct.unpack('<H', struct.pack('<e', h))[0]


def bits_half(u):
    import struct
    return struct.unpack('<e', struct.pack('<H', u))[0]


def to_half(x):
    """Nearest half (ties to even), as a float; infinite above the range."""
    x = float(x)
    if isbad(x): return x
    return float(np.float16(x))


# ---------------------------------------------------------------- building

def build(s):
    """The real node for a description."""
    c = clf()
    t = s['type']
    i, o = s.get('in', '16f'), s.get('out', '16f')
    idn, name = s.get('id', ''), s.get('name', '')
    if t == 'Range':
        kw = {}
        if s.get('style') is not None and not s.get('late'): kw['style'] = s['style']
        if s.get('default') and not s.get('late'): kw['defaultRange'] = True
        n = c.Range(i, o, idn, name, **kw)
        if s.get('late'):
            if s.get('style') is not None: n.setStyle(s['style'])
            if s.get('default') is not None:
                n.setDefaultRange(not s['default'])
                n.setDefaultRange(s['default'])
        for v, f in zip(s['bounds'], (n.setMinInValue, n.setMaxInValue, n.setMinOutValue, n.setMaxOutValue)):
            if v is not None: f(v)
    elif t == 'Matrix':
        n = c.Matrix(i, o, idn, name)
        n.setMatrix(list(s['dims']), tabulated(s, s['m']), **enc(s))
    elif t in ('ASCCDL', 'ColorCorrection'):
        if t == 'ColorCorrection': n = c.ColorCorrection()
        else: n = c.ASCCDL(i, o, idn, name, s['style']) if s['style'] is not None else c.ASCCDL(i, o, idn, name)
        if s.get('twice'):
            n.setSlope(5, 6, 7)
            n.setOffset(0.5, 0.6, 0.7)
            n.setPower(3, 4, 5)
            n.setSaturation(9)
        if s.get('slope'): n.setSlope(*s['slope'])
        if s.get('offset'): n.setOffset(*s['offset'])
        if s.get('power'): n.setPower(*s['power'])
        if s.get('sat') is not None: n.setSaturation(s['sat'])
    elif t == 'LUT1D':
        kw = {}
        if s.get('half'): kw['halfDomain'] = True
        elif s.get('half') is False: kw['halfDomain'] = False
        if s.get('raw'): kw['rawHalfs'] = True
        n = c.LUT1D(i, o, idn, name, s.get('interp', 'linear'), **kw)
        if s.get('maps'): n.setIndexMaps(*s['maps'])
        n.setArray(s['columns'], tabulated(s, table1(s)), **enc(s))
    elif t == 'LUT3D':
        n = c.LUT3D(i, o, idn, name, s.get('interp', 'trilinear'))
        if s.get('maps'): n.setIndexMaps(*s['maps'])
        n.setArray(list(s['dims']), tabulated(s, s['table']), **enc(s))
    elif t == 'Gamma':
        n = c.Gamma(i, o, idn, name, s['style'])
        for g, off, ch in s['params']: n.setGamma(g, off, ch)
    elif t == 'Log':
        n = c.Log(i, o, idn, name, s['style'])
        for p in s['params']: n.setLogParams(*p)
    elif t == 'ExposureContrast':
        n = c.ExposureContrast(i, o, idn, name, s['style'])
        if s.get('params'): n.setExposureContrastPivot(*s['params'])
    elif t == 'Group':
        n = c.Group(i, o, idn, name)
        for x in s['nodes']: n.addProcess(build(x))
    elif t == 'Reference':
        n = c.Reference(i, o, idn, name, *s['ref'])
    else:
        raise ValueError(t)
    if 'bypass' in s: n.setAttribute('bypass', s['bypass'])
    for d in s.get('descriptions', []): n.addElement(c.Description(d))
    for d in s.get('dynamic', []): n.setDynamicParam(d)
    for k, v in s.get('attributes', []): n.setAttribute(k, v)
    return n


def enc(s): return {'floatEncoding': s['encoding']} if s.get('encoding') else {}


def tabulated(s, v):
    return np.array(v, dtype=np.float32) if s.get('np') else [float(x) for x in v]


def table1(s):
    """A half-domain table is described by a rule instead of 65536 numbers."""
    if not isinstance(s['table'], str): return s['table']
    k = s['columns']
    out = np.empty(65536 * k, dtype=np.float32)
    for c in range(k): out[c::k] = half_table(s['table'], c)
    return out if s.get('np') else [float(x) for x in out]


_HT = {}


def half_table(rule, c):
    """Column c of a half-domain table by rule: 'index', 'value', 'wave'."""
    if (rule, c) not in _HT:
        idx = np.arange(65536)
        h = idx.astype(np.uint16).view(np.float16).astype(np.float64)
        if rule == 'index': t = idx * (1.0 + c) + c
        elif rule == 'value': t = np.where(np.isfinite(h), h, 7.0) * 0.5 + c
        else: t = ((idx * 7919 + 13 * c) % 1009) / 64.0
        t = t.astype(np.float32)
        t[31744], t[31745], t[64512] = 111 + c, 222 + c, 333 + c
        _HT[rule, c] = t
    return _HT[rule, c]


def integers(s): return False


# ---------------------------------------------------------------- the model

def bits_after(u, up):
    """The next half pattern of the same sign, away from zero or towards it; finite only."""
    return u


def halfdomain(x, table):
    """Linear interpolation between the entries of the two halfs around x, of x's sign."""
    if x != x: return table(31745)
    h = to_half(x)
    if h == INF: return table(31744)
    if h == -INF: return table(64512)
    if h == x and x != 0: return table(half_bits(h))
    neg = x < 0
    if x == 0: return table(half_bits(h))
    lo, hi = (32768, 64511) if neg else (0, 31743)
    u = half_bits(h)
    if h == 0: u = lo
    # u, v: neighbours in magnitude around |x|
    if abs(h) <= abs(x): a, b = u, min(hi, u + 1)
    else: a, b = max(lo, u - 1), u
    if a == b: return table(a)
    ha, hb = abs(bits_half(a)), abs(bits_half(b))
    f = (abs(x) - ha) / (hb - ha)
    return (1 - f) * table(a) + f * table(b)


def positions(s, px):
    """Normalised lookup positions of the first channels of a pixel for a LUT."""
    maps = s.get('maps') or []
    out = []
    for i in range(min(3, len(px))):
        x = px[i]
        if maps:
            m = maps[i] if len(maps) > 1 else maps[0]
            n = len(s['table']) // s['columns'] if s['type'] == 'LUT1D' and not isinstance(s['table'], str) else 65536
            if s['type'] == 'LUT3D': n = s['dims'][i]
            out.append((x if isbad(x) else specs.indexmap(Conc, x, m[0], m[1])) / float(n - 1))
        else:
            out.append(specs.normalise(Conc, x, s['in']))
    return out


def model_pixel(s, px):
    """The channels of the pixel after the node (floats)."""
    t = s['type']
    i, o = s.get('in', '16f'), s.get('out', '16f')
    out = list(px)
    n = len(px)
    if t == 'Range':
        style = 'clamp' if s.get('style') in (None, '') else s['style']
        return [specs.range_(Conc, x, i, o, s['bounds'], bool(s.get('default')), style) for x in px]
    if t == 'Matrix':
        R, C = s['dims'][0], s['dims'][1]
        for r in range(min(R, n)): out[r] = specs.matrix_row(Conc, lambda j: px[j], R, C, lambda k: s['m'][k], r)
        return out
    if t in ('ASCCDL', 'ColorCorrection'):
        if n < 3: return out
        style = 'Fwd' if t == 'ColorCorrection' or s.get('style') is None else s['style']
        if t == 'ColorCorrection': i = o = '32f'
        dflt = ([9.0] if s.get('twice') else [1.0])[0]
        tw = s.get('twice')
        sl = s.get('slope') or ([5.0, 6.0, 7.0] if tw else [1.0] * 3)
        of = s.get('offset') or ([0.5, 0.6, 0.7] if tw else [0.0] * 3)
        po = s.get('power') or ([3.0, 4.0, 5.0] if tw else [1.0] * 3)
        sa = s.get('sat') if s.get('sat') is not None else dflt
        out[:3] = specs.cdl(Conc, px[:3], style, sl, of, po, sa, i, o)
        return out
    if t == 'LUT1D':
        T, k = s['table'], s['columns']
        for c, x in enumerate(positions(s, px)):
            if isinstance(T, str):
                col = (lambda u, c=c: float(half_table(T, c if k > 1 else 0)[u]))
                out[c] = halfdomain(x, col)
            else:
                col = (lambda u, c=c: T[u * k + (c if k > 1 else 0)])
                out[c] = specs.lut1d(Conc, float(x), len(T) // k, col)
        return out
    if t == 'LUT3D':
        D, T = s['dims'], s['table']
        x = positions(s, px)
        fn = specs.trilinear if s.get('interp', 'trilinear') == 'trilinear' else specs.tetrahedral
        for c in range(3):
            out[c] = fn(Conc, [float(v) for v in x], D, lambda r, g, b, c=c: T[((r * D[1] + g) * D[2] + b) * 3 + c])
        return out
    if t == 'Gamma':
        eff = specs.per_channel(s['params'], (1.0, 0.0), 2)
        for c in range(3): out[c] = specs.gamma(Conc, float(px[c]), s['style'], float(eff[c][0]), float(eff[c][1]), i, o)
        return out
    if t == 'Log':
        eff = specs.per_channel(s['params'], (0.6, 685.0, 95.0, 1.0, 0.0), 5)
        for c in range(3): out[c] = specs.log(Conc, float(px[c]), s['style'], [float(v) for v in eff[c]], i, o)
        return out
    if t == 'ExposureContrast':
        e, k, p = s.get('params') or (0.0, 1.0, 1.0)
        for c in range(3): out[c] = specs.exposure_contrast(Conc, float(px[c]), s['style'], e, k, p, i, o)
        return out
    raise ValueError(t)


def outscale(s):
    if s['type'] in ('Matrix', 'LUT1D', 'LUT3D'): return 1.0
    if s['type'] == 'ColorCorrection': return 1.0
    return float(specs.size(s.get('out', '16f')))


def tolerant(s, px, got, rtol=2e-5):
    """None or a message: got (one pixel) is what the model gives, to 32-bit rounding."""
    want = model_pixel(s, px)
    if len(got) != len(want): return 'has %d channels instead of %d' % (len(got), len(want))
    slack = None
    for c, (g, w) in enumerate(zip(got, want)):
        if close(g, w, 2e-6 * outscale(s), rtol): continue
        if slack is None:
            # how far the result moves when the inputs move by a few units in the last place
            slack = [0.0] * len(want)
            vary = []
            for j in range(min(3, len(px)) if s['type'] != 'Matrix' else len(px)):
                if isbad(px[j]): continue
                for d in (1, -1):
                    q = list(px)
                    q[j] = px[j] + d * 4e-7 * max(abs(px[j]), 1e-3 * specs.size(s.get('in', '16f')) if s['type'] != 'Matrix' else 1e-6)
                    vary.append(q)
            for q in vary:
                w2 = model_pixel(s, q)
                for k in range(len(want)):
                    if not isbad(w2[k]) and not isbad(want[k]): slack[k] += abs(w2[k] - want[k])
            if s['type'] == 'Matrix':
                for k in range(len(want)): slack[k] += 1e-6 * sum(abs(s['m'][k2] * px[k2 % s['dims'][1]] if k2 % s['dims'][1] < len(px) else s['m'][k2]) for k2 in range(len(s['m'])))
            if s['type'] == 'ASCCDL':
                mag = max([abs(x) for x in px[:3]] + [1e-9]) / specs.size(s.get('in', '16f'))
                k = max([1.0] + [1 / abs(x) for x in (s.get('slope') or [1])] + [abs(x) for x in (s.get('slope') or [1])])
                for q in range(3): slack[q] += 2e-6 * outscale(s) * k * max(1.0, mag, 1 / (s.get('sat') or 1.0))
        if close(g, w, 2e-6 * outscale(s) + slack[c], rtol): continue
        return 'channel %d of pixel %s is %r instead of %r' % (c, list(px), float(g), w)
    return None


def process_checked(node, s, case, rtol=2e-5):
    """Runs node.process on the case's buffer and judges every pixel."""
    vals = list(case['values'])
    if case.get('container') in ('array',): vals = [f32(v) for v in vals]
    buf = buffer(case)
    S = case['stride']
    out = node.process(buf, S) if S or not case.get('nostride') else node.process(buf)
    expect(len(out) == len(vals), 'output has', len(out), 'values for', len(vals))
    if s['type'] == 'Matrix':
        expect(all(same(a, b) for a, b in zip(buf, vals)), 'the values passed in were changed')
    S = S or len(vals)
    for p in range(len(vals) // S):
        px = [float(v) for v in vals[p * S:(p + 1) * S]]
        got = [float(v) for v in out[p * S:(p + 1) * S]]
        m = tolerant(s, px, got, rtol)
        if m: return m
    return None


# ---------------------------------------------------------------- random nodes

def rnd(rng, lo, hi, digits=6): return round(rng.uniform(lo, hi), digits)


def depth_pair(rng): return {'in': pick(rng, DEPTHS), 'out': pick(rng, DEPTHS)}


def gen_range(rng, full=None):
    s = dict(depth_pair(rng), type='Range')
    si, so = specs.size(s['in']), specs.size(s['out'])
    which = rng.randrange(16) if full is None else full
    mi = rnd(rng, -0.5, 0.5)
    no = rnd(rng, -0.5, 0.6)
    b = [mi * si, (mi + rnd(rng, 0.2, 1.5)) * si, no * so, (no + rnd(rng, 0.1, 1.2)) * so]
    if rng.random() < 0.25: b = [0.0, 1.0 * si, 0.0, 1.0 * so]
    if rng.random() < 0.1: b[3] = b[2] - 0.3 * so
    if rng.random() < 0.2: b = [float(int(x)) for x in b]
    if b[0] == b[1]: b[1] = b[0] + 1.0
    s['bounds'] = [b[k] if which >> k & 1 else None for k in range(4)]
    s['style'] = pick(rng, [None, 'clamp', 'noClamp', 'Clamp', 'none', ''])
    s['default'] = pick(rng, [None, None, True, False])
    s['late'] = rng.random() < 0.3
    if s['style'] == '' and s['late']: s['style'] = None
    if s['default']:
        lo = 0.0 if s['bounds'][0] is None else s['bounds'][0] / si
        hi = 1.0 if s['bounds'][1] is None else s['bounds'][1] / si
        if abs(lo - hi) < 0.05: s['bounds'][0] = None if s['bounds'][1] is not None else s['bounds'][0]
        lo = 0.0 if s['bounds'][0] is None else s['bounds'][0] / si
        hi = 1.0 if s['bounds'][1] is None else s['bounds'][1] / si
        if abs(lo - hi) < 0.05: s['default'] = False
    return s


def gen_matrix(rng, rows=None):
    s = dict(depth_pair(rng), type='Matrix')
    R = rows or pick(rng, [3, 3, 3, 4, 1, 2])
    C = R + rng.randrange(2)
    s['dims'] = [R, C] + ([3] if rng.random() < 0.5 else [])
    s['m'] = [pick(rng, [0.0, 1.0, -1.0, rnd(rng, -2, 2)]) if rng.random() < 0.5 else rnd(rng, -2, 2) for _ in range(R * C)]
    s['np'] = rng.random() < 0.3
    return s


CDL = ['Fwd', 'Rev', 'FwdNoClamp', 'RevNoClamp', 'v1.2_Fwd', 'noClampFwd', 'v1.2_Rev', 'noClampRev']


def gen_cdl(rng, style=None):
    s = dict(depth_pair(rng), type='ASCCDL', style=style or pick(rng, CDL))
    if rng.random() < 0.9: s['slope'] = [rnd(rng, 0.3, 3) for _ in range(3)]
    if rng.random() < 0.9: s['offset'] = [rnd(rng, -0.5, 0.5) for _ in range(3)]
    if rng.random() < 0.9: s['power'] = [rnd(rng, 0.4, 2.5) for _ in range(3)]
    if rng.random() < 0.9: s['sat'] = rnd(rng, 0.3, 2)
    s['twice'] = rng.random() < 0.1
    return s


def gen_cc(rng):
    s = gen_cdl(rng, 'Fwd')
    s['type'] = 'ColorCorrection'
    return s


def gen_map(rng, n):
    """An index map with strictly increasing inputs; outputs are indices of n entries."""
    k = rng.randint(2, 5)
    xs = sorted(set(rnd(rng, -0.5, 1.5, 4) for _ in range(k)))
    while len(xs) < 2: xs.append(xs[-1] + 0.5)
    ys = [float(rng.randrange(n)) for _ in xs]
    if rng.random() < 0.5: ys = sorted(ys)
    return [xs, ys]


def gen_lut1d(rng, half=False):
    s = dict(depth_pair(rng), type='LUT1D')
    k = pick(rng, [1, 3])
    s['columns'] = k
    s['np'] = rng.random() < 0.3
    if half:
        s['half'] = True
        s['interp'] = pick(rng, ['linear', ''])
        s['table'] = pick(rng, ['index', 'value', 'wave'])
        s['in'] = pick(rng, ['16f', '32f', '16f', '10i'])
    else:
        n = pick(rng, [2, 2, 3, 4, 5, 7, 16, 33])
        s['half'] = pick(rng, [None, None, False])
        s['interp'] = pick(rng, ['linear', 'cubic', ''])
        s['table'] = [f32(rnd(rng, -1, 2)) for _ in range(n * k)]
        if rng.random() < 0.3:
            s['maps'] = [gen_map(rng, n) for _ in range(pick(rng, [1, 3]))]
            s['in'] = pick(rng, ['16f', '32f', '10i'])
    return s


def gen_lut3d(rng, interp=None):
    s = dict(depth_pair(rng), type='LUT3D', interp=interp or pick(rng, ['trilinear', 'tetrahedral']))
    D = [rng.randint(2, 5) for _ in range(3)] if rng.random() < 0.8 else [pick(rng, [2, 3, 4])] * 3
    s['dims'] = D
    s['table'] = [f32(rnd(rng, -1, 2)) for _ in range(D[0] * D[1] * D[2] * 3)]
    s['np'] = rng.random() < 0.3
    if rng.random() < 0.2:
        k = pick(rng, [1, 3])
        s['maps'] = [gen_map(rng, D[j] if k == 3 else min(D)) for j in range(k)]
        s['in'] = pick(rng, ['16f', '32f'])
    return s


def per_channel_settings(rng, mk):
    chans = pick(rng, [[], [None], ['R', 'G', 'B'], ['G', None], [None, 'B'], ['B', 'R', 'B'], [None, 'G', 'R'],
                       ['R'], [None, None], ['B', 'G', None, 'G']])
    return [list(mk()) + [ch] for ch in chans]


def gen_gamma(rng, style=None):
    s = dict(depth_pair(rng), type='Gamma', style=style or pick(rng, ['basicFwd', 'basicRev', 'moncurveFwd', 'moncurveRev']))
    mon = s['style'].startswith('mon')
    ints = rng.random() < 0.25

    def mk():
        if mon: return pick(rng, [2, 3]) if ints else rnd(rng, 1.2, 3), rnd(rng, 0.02, 0.3)
        return pick(rng, [1, 2, 3, 4]) if ints else rnd(rng, 0.3, 4), 0.0
    s['params'] = per_channel_settings(rng, mk)
    if mon and not any(p[2] is None for p in s['params']) and {p[2] for p in s['params']} != {'R', 'G', 'B'}:
        s['params'] = [list(mk()) + [None]] + s['params']
    return s


def gen_log(rng, style=None):
    s = dict(depth_pair(rng), type='Log',
             style=style or pick(rng, ['log10', 'log2', 'antiLog10', 'antiLog2', 'linToLog', 'logToLin']))

    def mk():
        w = pick(rng, [685, 685.0, rnd(rng, 500, 900, 2)])
        return [rnd(rng, 0.3, 1.2), w, pick(rng, [95, rnd(rng, 10, 300, 2)]), rnd(rng, 0.8, 1.5), rnd(rng, -0.1, 0.2)]
    s['params'] = per_channel_settings(rng, mk)
    if rng.random() < 0.05: s['params'] = [[0.6, 400, 500, 1.0, 0.0, None]]
    return s


def gen_ec(rng, style=None):
    s = dict(depth_pair(rng), type='ExposureContrast', style=style or pick(rng, ['linear', 'video', 'log']))
    if rng.random() < 0.9: s['params'] = [rnd(rng, -2, 2), rnd(rng, 0.3, 2), rnd(rng, 0.05, 1.2)]
    return s


GENS = {'Range': gen_range, 'Matrix': gen_matrix, 'ASCCDL': gen_cdl, 'ColorCorrection': gen_cc, 'LUT1D': gen_lut1d,
        'LUT3D': gen_lut3d, 'Gamma': gen_gamma, 'Log': gen_log, 'ExposureContrast': gen_ec}


def gen_node(rng, types=None):
    s = GENS[pick(rng, types or list(GENS))](rng)
    if 'in' in s and rng.random() < 0.5: s['in'] = s['out'] = pick(rng, ['16f', '32f'])
    return s
