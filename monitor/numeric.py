"""Monitors of the numeric nodes: C01-C12, C13."""
import copy
import math
import numpy as np
from contracts import specs
from contracts.specs import Conc
from .base import *
from .nodes import *


@kind('depth', [('C01', 400, 4000)])
class Depth(object):
    NAMES = DEPTHS + ['float', '', '8I', '16', 'FLOAT16', '32i', '8', None]

    @staticmethod
    def gen(rng, i):
        return {'depth': Depth.NAMES[i % len(Depth.NAMES)],
                'v': pick(rng, [0.0, 1.0, -1.0, 255.0, 1023.0, 0.5, f32(rng.uniform(-2, 2)), rng.uniform(-70000, 70000),
                                rng.randrange(65536), -rng.randrange(300)]),
                'np': rng.random() < 0.3}

    @staticmethod
    def check(c):
        m = sub('clf.ProcessNode')
        d, v = c['depth'], c['v']
        x = np.float32(v) if c.get('np') else v
        e = 1e-6 if c.get('np') else 1e-14
        s = float(specs.size(d))
        n, b = m.bitDepthToNormalized(x, d), m.normalizedToBitDepth(x, d)
        ok = lambda g, w: abs(float(g) - w) <= e * abs(w)
        expect(ok(n, v / s), 'normalising', v, 'from', d, 'gives', n)
        expect(ok(b, v * s), 'denormalising', v, 'to', d, 'gives', b)
        expect(ok(m.normalizedToBitDepth(n, d), v), 'round trip of', v, 'in', d)
        expect(ok(m.bitDepthToNormalized(b, d), v), 'round trip of', v, 'in', d)
        expect(float(m.bitDepthSize(d)) == s, 'size of', d, 'is', m.bitDepthSize(d))
        expect(bool(m.bitDepthIsInteger(d)) == (d in specs.SIZES), 'bitDepthIsInteger of', d)
        expect(bool(m.bitDepthIsFloatingPoint(d)) == (d not in specs.SIZES), 'bitDepthIsFloatingPoint of', d)


def node_kind(name, props, gen_spec, minstride=1, rtol=2e-5, extra=None, nodesof=None):
    """A kind whose case is a node description and a buffer."""
    class K(object):
        @staticmethod
        def gen(rng, i):
            s = gen_spec(rng, i)
            c = {'node': s}
            shape(rng, c, minstride, 6, s.get('in', '32f'))
            return c

        @staticmethod
        def check(c):
            s = fix_case(name, c)
            node = build(s)
            m = process_checked(node, s, c, rtol)
            if m: return m
            # processing has no effect on the node
            m = process_checked(node, s, c, rtol)
            if m: return 'processed again: ' + m
            return extra(s, c) if extra else None
    kind(name, props)(K)
    return K


def fix_case(name, c):
    """Cases made from counter-models carry the node's fields at the top level."""
    if 'node' in c: return c['node']
    s = {k: v for k, v in c.items() if k not in ('kind', 'values', 'stride', 'container')}
    t = {'range': 'Range', 'matrix': 'Matrix', 'cdl': 'ASCCDL', 'lut1d': 'LUT1D', 'lut3d': 'LUT3D', 'gamma': 'Gamma',
         'log': 'Log', 'ec': 'ExposureContrast', 'halfdomain': 'LUT1D'}[name]
    s['type'] = t
    s.setdefault('in', '16f')
    s.setdefault('out', '16f')
    s.pop('set', None)
    return s


node_kind('range', [('C02', 900, 12000)], lambda rng, i: gen_range(rng, i % 16))
node_kind('matrix', [('C03', 700, 8000)], lambda rng, i: gen_matrix(rng, 1 + i % 4), rtol=1e-5)


@kind('matrixwide', [('C03', 60, 600)])
class MatrixWide(object):
    """A stride of at least the rows is what processing needs; every R, C up to 6."""
    @staticmethod
    def gen(rng, i):
        s = gen_matrix(rng, 1 + i % 6)
        S = s['dims'][0] + rng.randrange(3)
        n = rng.randint(1, 4)
        return {'node': s, 'values': values(rng, n * S), 'stride': S if n > 1 or rng.random() < 0.5 else 0,
                'container': pick(rng, ['list', 'array', 'array64'])}

    @staticmethod
    def check(c): return process_checked(build(c['node']), c['node'], c, 1e-5)


# the matrix kind only uses strides of at least the rows
_mg = KINDS['matrix'].gen


def _matrix_gen(rng, i):
    c = _mg(rng, i)
    R = c['node']['dims'][0]
    S = c['stride'] or len(c['values'])
    if S < R:
        n = max(1, len(c['values']) // S)
        S = R + rng.randrange(2)
        c['values'] = values(rng, n * S)
        c['stride'] = S
    return c


KINDS['matrix'].gen = staticmethod(_matrix_gen)


def cdl_roundtrip(s, c):
    """Without clamping the reverse undoes the forward, wherever the formulas are defined."""
    if s.get('style') not in ('FwdNoClamp', 'noClampFwd') or (c['stride'] or len(c['values'])) < 3: return None
    S = c['stride'] or len(c['values'])
    f = dict(s, out='32f')
    r = dict(s, **{'in': '32f', 'out': s['in'], 'style': {'FwdNoClamp': 'RevNoClamp', 'noClampFwd': 'noClampRev'}[s['style']]})
    vals = [f32(v) for v in c['values']]
    mid = build(f).process(np.array(vals, np.float32), S)
    expect(all(same(np.float32(m), m) for m in mid), 'not 32-bit')
    back = build(r).process(np.array(mid, np.float32), S)
    z = specs.size(s['in'])
    for p in range(len(vals) // S):
        for k in range(3):
            a, b = vals[p * S + k], float(back[p * S + k])
            if not abs(a - b) <= 2e-2 * max(abs(a), 0.05 * z):
                # ill-conditioned near the pivots: judge against the model of the second step
                m = tolerant(r, [float(x) for x in mid[p * S:(p + 1) * S]], [float(x) for x in back[p * S:(p + 1) * S]])
                expect(m is None, 'reverse of forward:', m)
    return None


node_kind('cdl', [('C04', 900, 10000)], lambda rng, i: gen_cdl(rng, CDL[i % 8]), extra=cdl_roundtrip)
node_kind('cc', [('C04', 120, 1000)], lambda rng, i: gen_cc(rng))


@kind('cdlfew', [('C04', 60, 300)])
class CdlFew(object):
    @staticmethod
    def gen(rng, i):
        s = gen_cdl(rng, CDL[i % 8])
        S = 1 + i % 2
        n = rng.randint(1, 4)
        return {'node': s, 'values': values(rng, n * S), 'stride': S, 'container': pick(rng, ['list', 'array'])}

    @staticmethod
    def check(c):
        out = build(c['node']).process(buffer(c), c['stride'])
        expect(len(out) == len(c['values']) and all(same(a, b) for a, b in zip(out, c['values'])), 'pixels with fewer than three channels are changed')


node_kind('lut1d', [('C05', 900, 10000)], lambda rng, i: gen_lut1d(rng))


@kind('lut1dspecial', [('C05', 80, 600)])
class Lut1dSpecial(object):
    """NaN and infinities pass through, alone and among ordinary values."""
    @staticmethod
    def gen(rng, i):
        s = gen_lut1d(rng)
        if s.get('maps') and rng.random() < 0.6: s.pop('maps')
        S = pick(rng, [1, 2, 3, 4])
        v = values(rng, S * 2)
        for _ in range(rng.randint(1, 3)): v[rng.randrange(len(v))] = ['nan', 'inf', '-inf'][i % 3]
        return {'node': s, 'values': v, 'stride': S, 'container': pick(rng, ['list', 'array'])}

    @staticmethod
    def check(c):
        c = dict(c, values=[float(v) for v in c['values']])
        return process_checked(build(c['node']), c['node'], c)


def half_positions(rng, n):
    out = []
    for _ in range(n):
        k = rng.randrange(8)
        u = rng.randrange(31744)
        sg = pick(rng, [1, -1])
        h = bits_half(u)
        if k == 0: v = h
        elif k == 1: v = bits_half(pick(rng, [0, 1, 2, 1023, 1024, 1025, 31742, 31743, 15360, 14335, 14336]))
        elif k == 2: v = pick(rng, [65519.0, 65520.0, 65504.0, 65510.0, 1e5, 3e38])
        elif k == 3: v = pick(rng, [1e-9, 2.9e-8, 3.1e-8, 5.96e-8, 1e-20, 0.0])
        elif k == 4: v = h + (bits_half(min(u + 1, 31743)) - h) * rng.random()
        elif k == 5: v = h + (bits_half(min(u + 1, 31743)) - h) * 0.5
        elif k == 6: v = rng.random() * 2
        else: v = bits_half(pick(rng, range(0, 3000)) if rng.random() < .5 else 15360) * (1 + 3e-4 * rng.random())
        out.append(f32(sg * v))
    return out


@kind('halfdomain', [('C06', 260, 4000)])
class HalfDomain(object):
    _nodes = {}

    @staticmethod
    def gen(rng, i):
        s = gen_lut1d(rng, half=True)
        s['np'] = True
        s['interp'] = pick(rng, ['linear', 'linear', ''])
        s['in'], s['out'] = pick(rng, [('16f', '16f'), ('16f', '16f'), ('10i', '32f')])
        S = pick(rng, [1, 2, 3, 3, 4, 5])
        n = pick(rng, [1, 2, 4])
        v = half_positions(rng, n * S)
        for k in range(len(v)):
            if rng.random() < 0.06: v[k] = pick(rng, ['nan', 'inf', '-inf'])
            elif s['in'] == '10i': v[k] = f32(v[k] * 1023 if abs(v[k]) < 1e30 else v[k])
        return {'node': s, 'values': v, 'stride': S if n > 1 else pick(rng, [0, S]), 'container': pick(rng, ['list', 'array', 'array64'])}

    @staticmethod
    def check(c):
        s = fix_case('halfdomain', c)
        c = dict(c, values=[float(v) for v in c['values']])
        key = repr(sorted((k, v) for k, v in s.items()))
        if key not in HalfDomain._nodes:
            if len(HalfDomain._nodes) > 30: HalfDomain._nodes.clear()
            HalfDomain._nodes[key] = build(s)
        return process_checked(HalfDomain._nodes[key], s, c, 1e-5)


@kind('halfexact', [('C06', 16, 128)])
class HalfExact(object):
    """Every half in a block, through every lookup: exactly its own entry."""
    @staticmethod
    def gen(rng, i): return {'block': i % 16 if i < 16 else rng.randrange(16), 'columns': pick(rng, [1, 3]), 'rule': pick(rng, ['index', 'wave', 'value'])}

    @staticmethod
    def check(c):
        A = sub('clf.Array').Array
        k = c['columns']
        s = {'type': 'LUT1D', 'columns': k, 'table': c['rule']}
        a = A([65536, k], np.array(table1(s), dtype=np.float32))
        for u in range(c['block'] * 4096, (c['block'] + 1) * 4096):
            if u % (7 if c['block'] not in (0, 7, 8, 15) else 3) and not 31740 < u < 31750 and not 64508 < u < 64520 and u not in (0, 32768): continue
            h = np.uint16(u).view(np.float16)
            ch = u % 3
            col = half_table(c['rule'], ch if k == 3 else 0)
            near = a.lookup1DHalfDomain(h, ch, False)
            expect(same(near, col[u]), 'nearest lookup of half', u, 'gives', near, 'not', col[u])
            w = float(col[u]) if not np.isnan(h) else float(col[31745])
            g = a.lookup1DHalfDomain(h if u % 2 else np.float32(h), ch, True)
            expect(same(g, w), 'interpolated lookup of half', u, 'gives', g, 'not', w)
            if np.isfinite(h):
                f = np.float32(float(h) * 1.0002)
                g = a.lookup1DHalfDomainNearest(f, ch)
                expect(same(g, col[half_bits(to_half(f))]), 'nearest lookup of', f)


@kind('indexmap', [('C07', 500, 6000)])
class Imap(object):
    @staticmethod
    def gen(rng, i):
        n = pick(rng, [2, 2, 3, 4, 8, 20])
        xs = sorted(set(rnd(rng, -2, 2, 4) for _ in range(n)))
        while len(xs) < 2: xs.append(xs[-1] + 1)
        if rng.random() < 0.3: xs = [float(int(x * 50)) for x in xs]
        xs = sorted(set(xs))
        while len(xs) < 2: xs.append(xs[-1] + 1)
        if rng.random() < 0.2: xs = [int(x * 100) for x in xs]
        xs = sorted(set(xs))
        while len(xs) < 2: xs.append(xs[-1] + 1)
        ys = [rnd(rng, -3, 50, 3) if rng.random() < 0.5 else rng.randrange(64) for _ in xs]
        vs = list(xs) + [(a + b) / 2.0 for a, b in zip(xs, xs[1:])] + [xs[0] - 0.1, xs[-1] + 0.1, xs[0] - 1e5, xs[-1] + 1e5]
        vs += [rng.uniform(xs[0], xs[-1]) for _ in range(4)] + ['nan', 'inf', '-inf']
        return {'map': [xs, ys], 'values': vs, 'set': pick(rng, ['init', 'set', 'again']), 'np': rng.random() < 0.4}

    @staticmethod
    def check(c):
        IM = sub('clf.IndexMap').IndexMap
        m = c['map']
        if c['set'] == 'init': im = IM(len(m[0]), [list(m[0]), list(m[1])])
        else:
            im = IM()
            if c['set'] == 'again':
                im.setDimension(2)
                im.setValues([[0.0, 1.0], [3.0, 4.0]])
                im.process(0.5)
            im.setDimension(len(m[0]))
            im.setValues([list(m[0]), list(m[1])])
        expect(im.getDimension() == len(m[0]), 'dimension')
        for v in c['values']:
            x = float(v)
            if c['np']: x = np.float32(x)
            g = im.process(x)
            w = float(x) if isbad(float(x)) else specs.indexmap(Conc, float(x), [float(a) for a in m[0]], [float(a) for a in m[1]])
            expect(close(g, w, 1e-5 * max(1.0, max(abs(y) for y in m[1])) if c['np'] else 1e-9, 1e-5 if c['np'] else 1e-9), 'map of', x, 'is', g, 'not', w)


@kind('indexcache', [('C07', 3, 24)])
class Icache(object):
    """At every half-float the cached evaluation is the direct one."""
    @staticmethod
    def gen(rng, i):
        xs = sorted(set(rnd(rng, -2, 2, 4) for _ in range(rng.randint(2, 5))))
        while len(xs) < 2: xs.append(xs[-1] + 1)
        return {'map': [xs, [rnd(rng, -3, 50, 3) for _ in xs]], 'how': ['init', 'set', 'replace'][i % 3], 'off': rng.randrange(97)}

    @staticmethod
    def check(c):
        IM = sub('clf.IndexMap').IndexMap
        m = c['map']
        direct = IM(len(m[0]), [list(m[0]), list(m[1])])
        if c['how'] == 'init': im = IM(len(m[0]), [list(m[0]), list(m[1])], useCachedProcess=True)
        else:
            im = IM(useCachedProcess=True) if c['how'] == 'set' else IM(2, [[0.0, 1.0], [5.0, 6.0]], useCachedProcess=True)
            if c['how'] == 'replace': im.process(0.5)
            im.setDimension(len(m[0]))
            im.setValues([list(m[0]), list(m[1])])
        us = list(range(c['off'], 65536, 97)) + [0, 1, 31743, 31744, 32768, 64511, 64512, 31745]
        us += [half_bits(to_half(x)) for x in m[0]]
        for u in us:
            h = np.uint16(u).view(np.float16)
            if np.isnan(h):
                expect(np.isnan(im.process(h)), 'cached evaluation of NaN')
                continue
            a, b = im.process(np.float32(h)), direct.process(np.float32(h))
            expect(close(a, b, 1e-5, 1e-6), 'cached evaluation at half', u, 'is', a, 'not', b)


@kind('maplut', [('C07', 200, 2000)])
class MapLut(object):
    @staticmethod
    def gen(rng, i):
        if i % 2:
            s = gen_lut1d(rng)
            n = len(s['table']) // s['columns']
            s['maps'] = [gen_map(rng, n) for _ in range(pick(rng, [1, 3]))]
        else:
            s = gen_lut3d(rng)
            k = pick(rng, [1, 3])
            s['maps'] = [gen_map(rng, s['dims'][j] if k == 3 else min(s['dims'])) for j in range(k)]
        c = {'node': s}
        shape(rng, c, 3 if i % 2 == 0 else 1, 5)
        xs = [x for m in s['maps'] for x in m[0]]
        for k in range(len(c['values'])):
            if rng.random() < 0.3: c['values'][k] = f32(pick(rng, xs))
        return c

    @staticmethod
    def check(c): return process_checked(build(c['node']), c['node'], c)


def grid_values(rng, c, s):
    """Some values on the grid and on the faces between tetrahedra."""
    S = c['stride'] or len(c['values'])
    z = specs.size(s['in'])
    if s.get('maps'): return c
    for p in range(len(c['values']) // S):
        r = rng.random()
        if r < 0.25:
            for k in range(3): c['values'][p * S + k] = f32(z * rng.randrange(s['dims'][k]) / float(s['dims'][k] - 1))
        elif r < 0.45:
            v = c['values'][p * S]
            for k in pick(rng, [(1,), (2,), (1, 2)]): c['values'][p * S + k] = v
        elif r < 0.55:
            a, b = rng.sample(range(3), 2)
            c['values'][p * S + a] = c['values'][p * S + b]
    return c


def lut3_gen(interp):
    def gen(rng, i):
        s = gen_lut3d(rng, interp)
        c = {'node': s}
        shape(rng, c, 3, 6, s['in'])
        return grid_values(rng, c, s)
    return gen


def lut3_check(name):
    def check(c):
        s = fix_case('lut3d', c)
        return process_checked(build(s), s, c)
    return check


for _nm, _p in (('trilinear', 'C08'), ('tetrahedral', 'C09')):
    kind(_nm, [(_p, 700, 8000)])(type('L3' + _nm, (object,), {'gen': staticmethod(lut3_gen(_nm)), 'check': staticmethod(lut3_check(_nm))}))
KINDS['lut3d'] = type('L3', (object,), {'gen': staticmethod(lut3_gen('trilinear')), 'check': staticmethod(lut3_check('lut3d'))})


def gamma_roundtrip(s, c):
    if not s['style'].endswith('Fwd'): return None
    S = c['stride'] or len(c['values'])
    vals = [f32(abs(v)) for v in c['values']]
    z = float(specs.size(s['in']))
    r = dict(s, **{'in': s['out'], 'out': s['in'], 'style': s['style'][:-3] + 'Rev'})
    mid = build(s).process(np.array(vals, np.float32), S)
    back = build(r).process(np.array(mid, np.float32), S)
    for p in range(len(vals) // S):
        for k in range(3):
            a, b = vals[p * S + k] / z, float(back[p * S + k]) / z
            if a < 1e-3 and s['style'] == 'basicFwd': continue
            expect(abs(a - b) <= 2e-3 * max(a, 0.02), 'reverse of forward of', a, 'is', b)
    return None


GS = ['basicFwd', 'basicRev', 'moncurveFwd', 'moncurveRev']
LS = ['log10', 'log2', 'antiLog10', 'antiLog2', 'linToLog', 'logToLin']
ES = ['linear', 'video', 'log']
node_kind('gamma', [('C10', 800, 8000)], lambda rng, i: gen_gamma(rng, GS[i % 4]), 3, 4e-5, gamma_roundtrip)


@kind('gammabreak', [('C10', 120, 1000)])
class GammaBreak(object):
    """Around the break points, where the segments switch."""
    @staticmethod
    def gen(rng, i):
        s = gen_gamma(rng, GS[2 + i % 2])
        g, off = s['params'][0][0], s['params'][0][1]
        s['params'] = [[g, off, None]]
        br = off / (g - 1.0)
        if i % 2: br = math.pow(g * off / ((g - 1) * (off + 1)), g)
        z = specs.size(s['in'])
        return {'node': s, 'values': [f32(br * z * q) for q in (0.5, 0.9, 0.98, 1.02, 1.1, 1.5, 0.0, -0.3, 0.99)], 'stride': 3, 'container': 'array'}

    @staticmethod
    def check(c): return process_checked(build(c['node']), c['node'], c, 4e-5)


def log_inverse(s, c):
    inv = {'log10': 'antiLog10', 'log2': 'antiLog2', 'linToLog': 'logToLin'}.get(s['style'])
    if not inv: return None
    S = c['stride'] or len(c['values'])
    z = float(specs.size(s['in']))
    vals = [f32(z * (0.02 + abs(v / z) if not isbad(v) else 0.5)) for v in c['values']]
    if any(p[1] - p[2] < 100 for p in s['params']): return None
    if s['style'] == 'linToLog': vals = [f32(v + 0.25 * z) for v in vals]
    f = dict(s, out='32f')
    r = dict(s, **{'in': '32f', 'out': s['in'], 'style': inv})
    mid = build(f).process(np.array(vals, np.float32), S)
    back = build(r).process(np.array(mid, np.float32), S)
    for p in range(len(vals) // S):
        for k in range(3):
            a, b = vals[p * S + k], float(back[p * S + k])
            expect(abs(a - b) <= 2e-3 * max(a, 0.05 * z), inv, 'of', s['style'], 'of', a, 'is', b)
    return None


node_kind('log', [('C11', 800, 8000)], lambda rng, i: gen_log(rng, LS[i % 6]), 3, 4e-5, log_inverse)
node_kind('ec', [('C12', 700, 8000)], lambda rng, i: gen_ec(rng, ES[i % 3]), 3, 4e-5)


# ---------------------------------------------------------------- C13

@kind('pixelwise', [('C13', 700, 8000)])
class Pixelwise(object):
    """A buffer of pixels gives what each pixel alone gives; extra channels stay."""
    @staticmethod
    def gen(rng, i):
        t = list(GENS) + ['half', 'Group', 'List', 'List']
        t = t[i % len(t)]
        if t == 'half': nodes = [dict(gen_lut1d(rng, half=True), np=True)]
        elif t in ('Group', 'List'): nodes = [gen_node(rng) for _ in range(rng.randint(2, 4))]
        else: nodes = [GENS[t](rng)]
        if t not in ('Range', 'Matrix', 'half', 'LUT1D'):
            for n in nodes:
                if n['type'] == 'Matrix' and n['dims'][0] > 3: n.update(gen_matrix(rng, 3))
        R = max([3] + [n['dims'][0] for n in nodes if n['type'] == 'Matrix'])
        S = R + rng.randrange(3)
        if t in ('ASCCDL', 'LUT1D', 'half', 'Range') and rng.random() < 0.3: S = rng.randint(1, 2)
        n = rng.randint(2, 5)
        c = {'how': t, 'nodes': nodes, 'values': values(rng, n * S), 'stride': S, 'container': pick(rng, ['array', 'list', 'array64'])}
        if rng.random() < 0.15:
            a = [rng.randrange(len(c['values'])) for _ in range(2)]
            if t not in ('Log', 'ExposureContrast', 'Gamma'):
                for k in a: c['values'][k] = f32(pick(rng, [0.0, -0.5, 3.0]))
        return c

    @staticmethod
    def check(c):
        cl = clf()
        if c['how'] == 'List':
            obj = cl.ProcessList()
            for s in c['nodes']: obj.addProcess(build(s))
        elif c['how'] == 'Group':
            obj = cl.Group()
            for s in c['nodes']: obj.addProcess(build(s))
        else: obj = build(c['nodes'][0])
        S = c['stride']
        vals = c['values']
        out = obj.process(buffer(c), S)
        expect(len(out) == len(vals), 'output has', len(out), 'values for', len(vals))
        for p in range(len(vals) // S):
            one = obj.process(buffer(dict(c, values=vals[p * S:(p + 1) * S])), S if p % 2 else 0)
            got = [float(x) for x in out[p * S:(p + 1) * S]]
            expect(all(same(a, b) for a, b in zip(got, one)), 'pixel', p, 'is', got, 'in the buffer and', [float(x) for x in one], 'alone')
            worked = 0
            for s in c['nodes']:
                worked = max(worked, S if s['type'] == 'Range' else s['dims'][0] if s['type'] == 'Matrix' else 3)
            if c['how'] == 'ASCCDL' and S < 3: worked = 0
            for k in range(min(worked, S), S):
                expect(same(got[k], np.float32(vals[p * S + k])), 'channel', k, 'of pixel', p, 'is changed')


@kind('gammaorder', [('C10', 60, 600)])
class GammaOrder(object):
    """The same channel set several times: the last applicable setting wins."""
    @staticmethod
    def gen(rng, i):
        s = gen_gamma(rng, 'basicFwd')
        s['params'] = [[rnd(rng, 0.4, 3), 0.0, pick(rng, ['R', 'G', 'B', None])] for _ in range(rng.randint(2, 6))]
        c = {'node': s}
        return shape(rng, c, 3, 5, s['in'])

    @staticmethod
    def check(c): return process_checked(build(c['node']), c['node'], c, 4e-5)
