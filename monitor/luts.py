"""Kinds for C21 - C28: bit helpers, builders, sampling, inverses, LUT files, registry, images, OCIO."""
import types
from .base import *
from .nodes import *
from .lists import plist, gen_chain, state, differ
from contracts import specs
from contracts.specs import Conc


class Fake(object):
    """A process list that is a known function of the pixel; records its inputs."""
    def __init__(self, seed, bad=False):
        import random
        r = random.Random(seed)
        self.m = [[r.uniform(-2, 2) for _ in range(4)] for _ in range(3)]
        self.seen = []

    def f(self, v):
        v = [float(x) for x in v]
        return [sum(a * b for a, b in zip(row, v + [1.0])) + 0.25 * v[0] * v[1] for row in self.m]

    def process(self, values, stride=0, verbose=False):
        self.seen.append([float(x) for x in values])
        return np.array(self.f(values), np.float64)


def S(): return lf('Sampling')


_lf = None


def lf(name=''):
    """A module of lutFormats; its own copy of clf is what its nodes are made of."""
    global _lf
    m = sub('lutFormats' + ('.' + name if name else ''))
    return m


def grid(k, n, lo=0.0, hi=1.0): return float(k) / (n - 1) * (hi - lo) + lo


# ---------------------------------------------------------------- C21

@kind('half16', [('C21', 1, 1)])
class Half16(object):
    """All 65536 halfs."""
    @staticmethod
    def gen(rng, i): return {}

    @staticmethod
    def check(c):
        C = sub('clf.Common')
        for u in range(65536):
            h = C.uint16ToHalf(u)
            w = bits_half(u)
            expect(same(h, w), 'uint16ToHalf', u, 'is', h)
            nan = 31744 < u < 32768 or u > 64512
            for x in (h, float(h)) if not nan else (h,):
                b = C.halfToUInt16(x)
                expect(nan and (31744 < int(b) < 32768 or int(b) > 64512) or int(b) == u, 'halfToUInt16 of', repr(x), 'is', b)
            t = C.halfToHex(h)
            if not nan: expect(str(t).lower() == '%04x' % u, 'halfToHex of', u, 'is', t)
            g = C.hexToHalf('%04x' % u)
            expect(same(g, w) and np.signbit(g) == np.signbit(h), 'hexToHalf of', '%04x' % u, 'is', g)
            expect(np.signbit(h) == (u >= 32768), 'sign of', u)


@kind('bits', [('C21', 60, 600)])
class Bits(object):
    @staticmethod
    def gen(rng, i):
        edge32 = [0, 1, 0x80000000, 0x80000001, 0x007fffff, 0x00800000, 0x7f7fffff, 0x7f800000, 0xff800000, 0x3f800000]
        edge64 = [0, 1, 1 << 63, (1 << 63) | 1, (1 << 52) - 1, 1 << 52, 0x7fefffffffffffff, 0x7ff0000000000000, 0xfff0000000000000, 0x3ff0000000000000]
        if i == 0: return {'w32': edge32, 'w64': edge64}
        return {'w32': [rng.getrandbits(32) for _ in range(60)], 'w64': [rng.getrandbits(64) for _ in range(60)]}

    @staticmethod
    def check(c):
        import struct
        C = sub('clf.Common')
        for u in c['w32']:
            w = struct.unpack('>f', struct.pack('>I', u))[0]
            if w != w: continue
            f = C.uint32ToFloat32(u)
            expect(struct.pack('>f', f) == struct.pack('>I', u), 'uint32ToFloat32', u)
            expect(int(C.float32ToUInt32(f)) == u and int(C.float32ToUInt32(w)) == u, 'float32ToUInt32', u)
            expect(str(C.float32ToHex(f)).lower() == '%08x' % u, 'float32ToHex', u, C.float32ToHex(f))
            expect(struct.pack('>f', C.hexToFloat32('%08x' % u)) == struct.pack('>I', u), 'hexToFloat32', u)
        for u in c['w64']:
            w = struct.unpack('>d', struct.pack('>Q', u))[0]
            if w != w: continue
            f = C.uint64ToDouble(u)
            expect(struct.pack('>d', f) == struct.pack('>Q', u), 'uint64ToDouble', u)
            expect(int(C.doubleToUInt64(f)) == u and int(C.doubleToUInt64(w)) == u, 'doubleToUInt64', u)
            expect(str(C.doubleToHex(f)).lower() == '%016x' % u, 'doubleToHex', u)
            expect(struct.pack('>d', C.hexToDouble('%016x' % u)) == struct.pack('>Q', u), 'hexToDouble', u)


# ---------------------------------------------------------------- C22

FN = {'sq': lambda x: 0.1 + x * x, 'lin': lambda x: 3 * x - 1, 'inv': lambda x: 1 - x, 'id': lambda x: x, 'int': lambda x: int(x * 10), 'cube': lambda x: x ** 3 - x}


@kind('build1d', [('C22', 120, 1500)])
class Build1d(object):
    @staticmethod
    def gen(rng, i): return {'f': pick(rng, list(FN)), 'n': pick(rng, [2, 3, 4, 5, 7, 16, 17, 33, rng.randint(2, 70)]), 'ch': pick(rng, [1, 3]), 'in': pick(rng, DEPTHS), 'out': pick(rng, DEPTHS)}

    @staticmethod
    def check(c):
        f = FN[c['f']]
        seen = []
        l = clf().simpleSampledLUT('a', 'b', c['ch'], c['n'], lambda x: (seen.append(x), f(x))[1], c['in'], c['out'])
        n, ch = c['n'], c['ch']
        expect(list(l.getLUTDimensions()) == [n, ch], 'dimensions', l.getLUTDimensions())
        v = l.getLUTValues()
        expect(len(v) == n * ch, 'length')
        expect((l.getAttribute('id'), l.getAttribute('name'), l.getAttribute('inBitDepth'), l.getAttribute('outBitDepth')) == ('a', 'b', c['in'], c['out']), 'attributes')
        for i in range(n):
            for k in range(ch): expect(close(v[i * ch + k], f(i / float(n - 1)), 1e-12, 1e-12), 'entry', i, k)
        S_ = specs.size(c['in'])
        for i in range(n):
            o = l.process([i / float(n - 1) * S_] * 3)
            expect(all(close(x, f(i / float(n - 1)), 2e-5, 2e-5) for x in o), 'grid point', i, o)


@kind('buildhalf', [('C22', 6, 24)])
class BuildHalf(object):
    @staticmethod
    def gen(rng, i): return {'f': pick(rng, ['sq', 'lin', 'inv', 'id']), 'ch': [1, 3][i % 2], 'raw': pick(rng, [False, True, '']), 'in': pick(rng, ['16f', '32f', '10i']), 'out': pick(rng, DEPTHS)}

    @staticmethod
    def check(c):
        f = FN[c['f']]
        l = clf().simpleSampledLUTHalfDomain('a', 'b', c['ch'], f, c['raw'], c['in'], c['out'])
        ch = c['ch']
        expect(list(l.getLUTDimensions()) == [65536, ch], 'dimensions', l.getLUTDimensions())
        v = l.getLUTValues()
        for u in range(65536):
            w = f(np.float16(bits_half(u)))
            for k in range(ch): expect(same(v[u * ch + k], w), 'entry', u, k, 'is', v[u * ch + k], 'not', w)
        expect(l.getAttribute('halfDomain') not in (None, False), 'halfDomain')
        s = specs.size(c['in'])
        for u in (0, 1, 1024, 15360, 14336, 31743, 32769, 48128, 12345, 31744, 64512):
            x = bits_half(u)
            if s != 1: continue
            w = float(f(np.float16(x)))
            if isbad(w) and not isbad(x): continue
            o = l.process([x] * 3)
            expect(all(close(y, w, 1e-6, 2e-5) for y in o), 'half', u, o)


@kind('build3d', [('C22', 90, 900)])
class Build3d(object):
    @staticmethod
    def gen(rng, i): return {'n': [rng.randint(2, 6) for _ in range(3)], 'a': [rnd(rng, -2, 2) for _ in range(12)], 'in': pick(rng, DEPTHS), 'out': pick(rng, DEPTHS), 'interp': pick(rng, ['trilinear', 'tetrahedral'])}

    @staticmethod
    def check(c):
        a, n = c['a'], list(c['n'])

        def f(x, y, z): return [a[k] * x + a[3 + k] * y + a[6 + k] * z + a[9 + k] * x * y * z for k in range(3)]
        l = clf().simple3DLUT('a', 'b', n, f, c['in'], c['out'])
        expect(n == list(c['n']), 'the resolution list is changed to', n)
        expect(list(l.getLUTDimensions()) == n + [3], 'dimensions', l.getLUTDimensions())
        v = list(l.getLUTValues())
        expect(len(v) == n[0] * n[1] * n[2] * 3, 'length')
        k = 0
        l.setAttribute('interpolation', c['interp'])
        S_ = specs.size(c['in'])
        for r in range(n[0]):
            for g in range(n[1]):
                for b in range(n[2]):
                    p = [r / (n[0] - 1.), g / (n[1] - 1.), b / (n[2] - 1.)]
                    w = f(*p)
                    expect(all(close(x, y, 1e-12, 1e-12) for x, y in zip(v[k:k + 3], w)), 'entry', r, g, b, v[k:k + 3], w)
                    k += 3
                    if (r + g + b) % 2 == 0:
                        o = l.process([x * S_ for x in p])
                        expect(all(close(x, y, 5e-5, 5e-5) for x, y in zip(o, w)), 'grid point', p, o, w)


@kind('tables', [('C22', 80, 500)])
class Tables(object):
    """Setting tables keeps the caller's lists and what they hold."""
    @staticmethod
    def gen(rng, i): return {'node': gen_node(rng, ['LUT1D', 'LUT3D', 'Matrix'])}

    @staticmethod
    def check(c):
        s = c['node']
        cl = clf()
        t = s['type']
        v = [float(x) for x in (s['m'] if t == 'Matrix' else s['table'])]
        keep = list(v)
        arg = np.array(v) if s.get('np') else v
        if t == 'LUT1D':
            n = cl.LUT1D(s['in'], s['out'])
            maps = [[list(m[0]), list(m[1])] for m in s.get('maps') or []]
            km = json.loads(json.dumps(maps))
            if maps: n.setIndexMaps(*maps)
            n.setArray(s['columns'], arg)
            expect(maps == km, 'index map lists changed')
            d = [len(keep) // s['columns'], s['columns']]
        elif t == 'LUT3D':
            n = cl.LUT3D(s['in'], s['out'])
            dims = list(s['dims'])
            maps = [[list(m[0]), list(m[1])] for m in s.get('maps') or []]
            km = json.loads(json.dumps(maps))
            if maps: n.setIndexMaps(*maps)
            n.setArray(dims, arg)
            expect(maps == km, 'index map lists changed')
            expect(dims == list(s['dims']), 'the dimension list is changed to', dims)
            d = list(s['dims']) + [3]
        else:
            n = cl.Matrix(s['in'], s['out'])
            dims = list(s['dims'])
            n.setMatrix(dims, arg)
            expect(dims == list(s['dims']), 'the dimension list is changed to', dims)
        expect([float(x) for x in arg] == keep, 'the caller\'s values are changed')
        if t != 'Matrix':
            expect(list(n.getLUTDimensions()) == d and [float(x) for x in n.getLUTValues()] == keep, 'table held', n.getLUTDimensions(), 'not', d)
            for k, m in enumerate(s.get('maps') or []):
                iv = n.getIndexMapValues(k)
                expect([list(map(float, iv[0])), list(map(float, iv[1]))] == m and n.getIndexMapDimensions(k) == len(m[0]), 'index map', k, iv)
        n.process(values_for(s), max(3, s['dims'][0]) if t == 'Matrix' else 3)
        expect([float(x) for x in arg] == keep, 'processing changes the table')


def values_for(s): return [0.2 * specs.size(s['in']), 0.5 * specs.size(s['in']), 0.9 * specs.size(s['in'])] + ([0.3] * (s['dims'][0] - 3) if s['type'] == 'Matrix' else [])


# ---------------------------------------------------------------- C23

def bounds(rng):
    return pick(rng, [[0.0, 1.0], [-1.0, 2.0], [0.25, 0.5], [-0.125, 1.0], [rnd(rng, -2, 0), rnd(rng, 0.5, 3)], [1.0, 0.0], [0, 1], [-1, 3]])


@kind('sample1d', [('C23', 120, 1500)])
class Sample1d(object):
    @staticmethod
    def gen(rng, i): return {'n': pick(rng, [2, 3, 4, 5, 9, 17, rng.randint(2, 40)]), 'range': bounds(rng), 'seed': rng.randrange(10 ** 6), 'nodes': gen_chain(rng, 1, 2) if i % 3 == 0 else None}

    @staticmethod
    def check(c):
        P = plist(c['nodes']) if c['nodes'] else Fake(c['seed'])
        lo, hi = c['range']
        n = c['n']
        t = S().sample1D(P, n, lo, hi)
        expect(len(t) == 3 * n, 'length', len(t))
        for i in range(n):
            x = grid(i, n, lo, hi)
            w = P.process([x] * 3) if c['nodes'] else P.f([x] * 3)
            expect(all(close(a, b, 1e-9, 1e-9) or c['nodes'] and wobbly(P, [x] * 3, t[3 * i:3 * i + 3]) for a, b in zip(t[3 * i:3 * i + 3], w)), 'entry', i, t[3 * i:3 * i + 3], 'not', w)


def wobbly(P, v, got):
    """Whether got is among the outputs for inputs a rounding away."""
    outs = [P.process([x + e * (abs(x) + 1e-3) for x in v]) for e in (0, 3e-7, -3e-7)]
    return all(min(float(o[k]) for o in outs) - 1e-4 <= float(got[k]) <= max(float(o[k]) for o in outs) + 1e-4 for k in range(3))


@kind('sample3d', [('C23', 60, 600)])
class Sample3d(object):
    @staticmethod
    def gen(rng, i): return {'n': [rng.randint(2, 5) for _ in range(3)], 'range': bounds(rng), 'seed': rng.randrange(10 ** 6)}

    @staticmethod
    def check(c):
        P = Fake(c['seed'])
        lo, hi = c['range']
        n = list(c['n'])
        t = S().sample3D(P, n, lo, hi)
        check3d(t, n, lambda p: P.f([grid(p[k], n[k], lo, hi) for k in range(3)]))


def check3d(t, n, f):
    expect(len(t) == n[0] and all(len(x) == n[1] and all(len(y) == n[2] for y in x) for x in t), 'shape')
    for r in range(n[0]):
        for g in range(n[1]):
            for b in range(n[2]):
                w = f([r, g, b])
                expect(len(t[r][g][b]) == 3 and all(close(x, y, 2e-6, 2e-6) for x, y in zip(t[r][g][b], w)), 'entry', r, g, b, [float(x) for x in t[r][g][b]], 'not', w)


def shaper(rng): return pick(rng, [['linear', 0.0, 1.0], ['linear', -0.5, 2.0], ['linear', rnd(rng, -1, 0), rnd(rng, 0.5, 3)], ['log2', -8.5, 4.0], ['log2', -3.0, 2.0], ['log2', -1, 1], [None, 0.0, 1.0], ['other', 0.0, 1.0]])


def shape_fwd(s, x):
    """What a shaper does to a value."""
    import math
    if s[0] == 'linear': y = (x - s[1]) / float(s[2] - s[1])
    elif s[0] == 'log2': y = (math.log(max(x, 6.103515625e-05 if x <= 0 else x), 2) - s[1]) / float(s[2] - s[1])
    else: return x
    return min(1.0, max(0.0, y))


def shape_inv(s, x):
    if s[0] in ('linear', 'log2'):
        y = min(max(x * (s[2] - s[1]) + s[1], min(s[1], s[2])), max(s[1], s[2]))
        return y if s[0] == 'linear' else 2.0 ** y
    return x


def shape_range(s): return (float(s[1]), float(s[2])) if s[0] == 'linear' else (2.0 ** s[1], 2.0 ** s[2]) if s[0] == 'log2' else (0.0, 1.0)


@kind('shaper', [('C23', 60, 600)])
class Shaper(object):
    """createShaper: forward, inverse and their range."""
    @staticmethod
    def gen(rng, i): return {'s': shaper(rng), 'x': [rng.random() for _ in range(6)] + [0.0, 1.0]}

    @staticmethod
    def check(c):
        s = c['s']
        f, g, lo, hi = S().createShaper(*s)
        expect(close(lo, shape_range(s)[0], 1e-12, 1e-9) and close(hi, shape_range(s)[1], 1e-12, 1e-9), 'range', lo, hi)
        for x in c['x']:
            y = lo + (hi - lo) * x
            expect(close(f.process([y] * 3)[1], shape_fwd(s, y), 2e-6, 1e-5), 'shaper at', y, f.process([y] * 3))
            expect(close(g.process([x] * 3)[2], shape_inv(s, x), 2e-6, 1e-5), 'inverse shaper at', x, g.process([x] * 3))
            expect(close(f.process(g.process([x] * 3))[0], x, 1e-5, 1e-4), 'shaper of its inverse at', x)


@kind('sample131', [('C23', 70, 700)])
class Sample131(object):
    @staticmethod
    def gen(rng, i): return {'in': shaper(rng), 'out': shaper(rng), 'n': [rng.randint(2, 9), [rng.randint(2, 4) for _ in range(3)], rng.randint(2, 9)], 'seed': rng.randrange(10 ** 6)}

    @staticmethod
    def check(c):
        P = Fake(c['seed'])
        si, so = c['in'], c['out']
        for s in (si, so):
            if s[0] == 'other': s[0] = None
        n1, n3, n2 = c['n']
        t1, lo, hi, t3, t2, olo, ohi = S().sample1D3D1D(P, [n1, list(n3), n2], si, so)
        expect(close(lo, shape_range(si)[0]) and close(hi, shape_range(si)[1]), 'input range', lo, hi)
        expect(close(olo, shape_range(so)[0]) and close(ohi, shape_range(so)[1]), 'output range', olo, ohi)
        if si[0] is None: expect(t1 is None, 'input table without a shaper')
        else:
            expect(len(t1) == 3 * n1, 'input table length')
            for i in range(n1):
                w = shape_fwd(si, grid(i, n1, *shape_range(si)))
                expect(all(close(x, w, 2e-6, 1e-5) for x in t1[3 * i:3 * i + 3]), 'input table', i, t1[3 * i:3 * i + 3], 'not', w)
        if so[0] is None: expect(t2 is None, 'output table without a shaper')
        else:
            expect(len(t2) == 3 * n2, 'output table length')
            for i in range(n2):
                w = shape_inv(so, grid(i, n2))
                expect(all(close(x, w, 2e-6, 1e-5) for x in t2[3 * i:3 * i + 3]), 'output table', i, t2[3 * i:3 * i + 3], 'not', w)
        check3d5(t3, n3, P, si, so)


def check3d5(t3, n3, P, si, so):
    for r in range(n3[0]):
        for g in range(n3[1]):
            for b in range(n3[2]):
                p = [shape_inv(si, grid(k, n)) for k, n in zip((r, g, b), n3)]
                w = [shape_fwd(so, y) for y in P.f(p)]
                d = [abs(shape_fwd(so, y * (1 + 1e-5) + 1e-6) - shape_fwd(so, y * (1 - 1e-5) - 1e-6)) for y in P.f(p)]
                expect(all(close(x, y, 1e-5 + 3 * e, 1e-5) for x, y, e in zip(t3[r][g][b], w, d)), '3D entry', r, g, b, [float(x) for x in t3[r][g][b]], 'not', w)


# ---------------------------------------------------------------- C24

def gen_increasing(rng, n, k):
    cols = []
    for _ in range(k):
        x = rnd(rng, -1, 0.5)
        col = []
        for _ in range(n):
            col.append(f32(x))
            x += rnd(rng, 0.02, 0.6)
        cols.append(col)
    return [cols[c][i] for i in range(n) for c in range(k)]


def forward1(samples, n, k, ch, t):
    """Table value of a channel at the fractional index t."""
    import math
    i = min(n - 2, int(math.floor(t)))
    a, b = samples[i * k + ch], samples[(i + 1) * k + ch]
    return a + (t - i) * (b - a)


def inverse1(samples, n, k, ch, y):
    for i in range(n - 1):
        a, b = samples[i * k + ch], samples[(i + 1) * k + ch]
        if y <= b or i == n - 2: return (i + (y - a) / (b - a)) / (n - 1)


@kind('inverse', [('C24', 42, 420)])
class Inverse(object):
    @staticmethod
    def gen(rng, i):
        n, k = pick(rng, [2, 3, 4, 5, 9]), pick(rng, [1, 3])
        s = gen_increasing(rng, n, k)
        if rng.random() < 0.2: s = [round(x * 64) / 64.0 for x in s]
        if any(s[j + k] <= s[j] for j in range(len(s) - k)): s = gen_increasing(rng, n, k)
        return {'n': n, 'k': k, 'samples': s, 'range': bounds(rng), 'how': ['map', 'resampled', 'map', 'resampled', 'map', 'resampled', 'half'][i % 7],
                'via': pick(rng, ['direct', 'file']), 't': [rng.random() for _ in range(8)] + [0.0, 1.0, 0.5]}

    @staticmethod
    def check(c):
        n, k, samples = c['n'], c['k'], [float(x) for x in c['samples']]
        lo, hi = [float(x) for x in c['range']]
        if lo == hi: return
        if hi < lo: lo, hi = hi, lo
        keep = list(samples)
        how = c['how']
        if c['via'] == 'file':
            with Scratch() as d:
                f = os.path.join(d, 'a.spi1d')
                with open(f, 'w') as fp:
                    fp.write('Version 1\nFrom %r %r\nLength %d\nComponents %d\n{\n' % (lo, hi, n, k))
                    for i in range(n): fp.write(' '.join(repr(x) for x in samples[i * k:i * k + k]) + '\n')
                    fp.write('}\n')
                nodes = lf().Registry.read(f, True, 'linear', how == 'map', how == 'half', returnProcessNodes=True)
        else:
            fn = {'map': S().generateLUT1DInverseIndexMap, 'half': S().generateLUT1DInverseHalfDomain, 'resampled': S().generateLUT1DInverseResampled}[how]
            nodes = fn([n, k], samples, lo, hi)
            expect(samples == keep, 'the samples are changed')
        p = sub('clf').ProcessList()
        for x in nodes: p._processes.append(x)
        at = [type(x).__name__ for x in nodes]
        if how == 'map':
            expect(at in (['LUT1D', 'Range'], ['LUT1D']), 'nodes', at)
            for t in c['t']:
                y = [forward1(samples, n, k, min(ch, k - 1), t * (n - 1)) for ch in range(3)]
                w = lo + (hi - lo) * t
                got = p.process([float(v) for v in y], 3)
                slope = max(1.0 / (samples[(i + 1) * k + ch] - samples[i * k + ch]) for i in range(n - 1) for ch in range(k)) / (n - 1) * (hi - lo)
                expect(all(close(a, w, 4e-6 * (hi - lo + 1) + 4e-7 * slope * 4, 1e-5) for a in got), 'index map inverse of', y, 'is', [float(a) for a in got], 'not', w)
        elif how == 'resampled':
            allv = samples
            mn_, mx_ = min(samples[:k]), max(samples[-k:])
            m = 2 * n
            slope = max(1.0 / (samples[(i + 1) * k + ch] - samples[i * k + ch]) for i in range(n - 1) for ch in range(k)) / (n - 1) * (hi - lo)
            for j in range(m):
                y = mn_ + (mx_ - mn_) * j / (m - 1.0)
                for ch in range(3):
                    cc = min(ch, k - 1)
                    if not samples[cc] <= y <= samples[(n - 1) * k + cc]: continue
                    w = lo + (hi - lo) * inverse1(samples, n, k, cc, y)
                    got = p.process([y] * 3, 3)[ch]
                    # rounding may move the point across a bend of the resampled table
                    expect(close(got, w, 1e-5 * (hi - lo + 1) + 2e-6 * slope * 4 * m, 1e-5), 'resampled inverse of', y, 'channel', ch, 'is', float(got), 'not', w)
        else:
            tab = nodes[0]
            expect(at == ['LUT1D'] and tab.getAttribute('halfDomain') not in (None, False), 'nodes', at)
            v = tab.getLUTValues()
            expect(list(tab.getLUTDimensions()) == [65536, k], 'dimensions')
            for u in range(0, 65536, 7):
                y = bits_half(u)
                for cc in range(k):
                    if not samples[cc] <= y <= samples[(n - 1) * k + cc]: continue
                    w = lo + (hi - lo) * inverse1(samples, n, k, cc, y)
                    expect(close(v[u * k + cc], w, 1e-6 * (hi - lo + 1), 1e-5), 'entry of half', y, 'is', float(v[u * k + cc]), 'not', w)
            lo1, hi1 = max(samples[:k]), min(samples[-k:])
            for t in c['t']:
                y = to_half(lo1 + (hi1 - lo1) * t)
                if not lo1 <= y <= hi1: continue
                got = p.process([y] * 3, 3)
                for ch in range(3):
                    w = lo + (hi - lo) * inverse1(samples, n, k, min(ch, k - 1), y)
                    expect(close(got[ch], w, 1e-5 * (hi - lo + 1), 1e-4), 'half inverse of', y, 'is', float(got[ch]), 'not', w)


# ---------------------------------------------------------------- C25

def table3(rng, n): return [[[[f32(rnd(rng, -2, 2)) for _ in range(3)] for _ in range(n[2])] for _ in range(n[1])] for _ in range(n[0])]


def text_lines(f):
    with open(f) as fp: return fp.read().splitlines()


def parse_csp(lines):
    """An independent reading of a csp file."""
    L = [x.strip() for x in lines]
    expect(L[0] == 'CSPLUTV100', 'first line', L[0])
    kind_ = L[1]
    i = 2
    while i < len(L) and L[i] == '': i += 1
    if L[i] == 'BEGIN METADATA':
        while L[i] != 'END METADATA': i += 1
        i += 1
    L = [x for x in L[i:] if x]
    pre = []
    for c in range(3):
        n = int(L[0])
        a, b = [float(x) for x in L[1].split()], [float(x) for x in L[2].split()]
        expect(len(a) == n and len(b) == n, 'prelut length')
        pre.append([a, b])
        L = L[3:]
    dims = [int(x) for x in L[0].split()]
    rows = [[float(x) for x in r.split()] for r in L[1:]]
    return kind_, pre, dims, rows


def near(a, b, printed): return abs(a - float(b)) <= printed + 1e-9 * abs(b)


@kind('write1d', [('C25', 120, 1200)])
class Write1d(object):
    @staticmethod
    def gen(rng, i):
        n = pick(rng, [2, 3, 4, 5, 9, 12])
        return {'n': n, 'samples': [f32(rnd(rng, -2, 2)) if rng.random() < 0.9 else pick(rng, [0.0, 1.0, 1e-5, 123456.5, -7.0]) for _ in range(3 * n)], 'range': bounds(rng), 'fmt': ['spi1d', 'csp', 'ctl'][i % 3],
                'components': pick(rng, [3, 3, 3, 1, 2]) , 'np': rng.random() < 0.3, 'reg': rng.random() < 0.3}

    @staticmethod
    def check(c):
        n, fmt = c['n'], c['fmt']
        v = [np.float32(x) for x in c['samples']] if c['np'] else list(c['samples'])
        lo, hi = c['range']
        L = lf()
        k = c['components']
        with Scratch() as d:
            f = os.path.join(d, 'a.' + fmt)
            open(f, 'w').write('an older file\n' * 400)
            cls = {'spi1d': L.LutFormatSPI, 'csp': L.LutFormatCSP, 'ctl': L.LutFormatCTL}[fmt]
            if c['reg']:
                r = cls.write1D(f, v, n, lo, hi)
                k = 3
            else:
                if fmt == 'csp' and k == 2: k = 3
                r = {'spi1d': cls.writeSPI1D if fmt == 'spi1d' else None, 'csp': cls.writeCSP1D if fmt == 'csp' else None, 'ctl': cls.writeCTL1D if fmt == 'ctl' else None}[fmt](f, lo, hi, v, n, 3, k)
            expect(r is True, 'writing returns', r)
            lines = text_lines(f)
            if fmt == 'spi1d':
                t = ' '.join(lines).split()
                j = t.index('{')
                head, data = t[:j], t[j + 1:]
                expect(head[:2] == ['Version', '1'] and head[2] == 'From' and near(float(head[3]), lo, 6e-7) and near(float(head[4]), hi, 6e-7) and head[5:] == ['Length', str(n), 'Components', str(k)], 'header', head)
                expect(data[-1] == '}' and len(data) == n * k + 1, 'data length', len(data))
                data = [float(x) for x in data[:-1]]
                for i in range(n):
                    for ch in range(k): expect(near(data[i * k + ch], v[i * 3 + ch], 1e-6 * (1 + abs(v[i * 3 + ch]))), 'entry', i, ch, data[i * k + ch])
            elif fmt == 'csp':
                kd, pre, dims, rows = parse_csp(lines)
                expect(kd == '1D' and dims == [n] and len(rows) == n, 'layout', kd, dims, len(rows))
                expect(all(near(p[0][0], lo, 6e-7) and near(p[0][1], hi, 6e-7) and p[1] == [0.0, 1.0] and len(p[0]) == 2 for p in pre), 'preluts', pre)
                for i in range(n): expect(len(rows[i]) == 3 and all(near(rows[i][ch], v[i * 3 + (0 if k == 1 else ch)], 6e-7) for ch in range(3)), 'row', i, rows[i])
            else:
                import re
                text = '\n'.join(lines)
                m1, m2 = re.search(r'min1d = ([^;]+);', text), re.search(r'max1d = ([^;]+);', text)
                expect(m1 and m2 and near(float(m1.group(1)), lo, 1e-9) and near(float(m2.group(1)), hi, 1e-9), 'range')
                arrays = re.findall(r'const float (lut\d?)\[\] = \{([^}]*)\};', text)
                expect([a for a, _ in arrays] == (['lut'] if k == 1 else ['lut%d' % j for j in range(k)]), 'tables', [a for a, _ in arrays])
                for ch, (_, body) in enumerate(arrays):
                    data = [float(x) for x in body.split(',')]
                    expect(len(data) == n and all(near(data[i], v[i * 3 + ch], 1e-6 * (1 + abs(v[i * 3 + ch]))) for i in range(n)), 'table', ch, data)
                if k in (1, 3):
                    for ch, nm in enumerate('rgb'):
                        expect(re.search(r'%s = lookup1D\(%s, min1d, max1d, %s\);' % (nm, 'lut' if k == 1 else 'lut%d' % ch, nm), text), 'lookup of', nm)
                        expect('%sOut = %s;' % (nm, nm) in text and 'float %s = %sIn;' % (nm, nm) in text, 'result of', nm)
                expect('aOut = aIn;' in text, 'alpha')
            if fmt != 'ctl' and hi > lo and (fmt == 'spi1d' or c['components'] != 2): reread1(f, v, n, k, lo, hi, fmt)


def reread1(f, v, n, k, lo, hi, fmt):
    nodes = lf().Registry.read(f, returnProcessNodes=True)
    for i in range(n):
        x = grid(i, n, lo, hi)
        cur = np.array([x] * 3, np.float32)
        for nd in nodes: cur = nd.process(cur, 3)
        for ch in range(3):
            src = ch if k == 3 else 0 if k == 1 else None
            if src is None: continue
            w = float(v[i * 3 + src])
            jump = max(abs(float(v[(i + e) * 3 + src]) - w) for e in (-1, 1) if 0 <= i + e < n)
            expect(close(cur[ch], w, 2e-6 + 1e-5 * jump * n * (1 + (abs(lo) + abs(hi)) / (hi - lo)), 1e-5), 'read back at', x, 'channel', ch, 'gives', float(cur[ch]), 'not', w)
    L = nodes[-1]
    if fmt == 'spi1d': expect(list(L.getLUTDimensions()) == [n, k], 'dimensions read')


@kind('write3d', [('C25', 90, 900)])
class Write3d(object):
    @staticmethod
    def gen(rng, i):
        n = [rng.randint(2, 5) for _ in range(3)]
        return {'n': n, 'samples': table3(rng, n), 'range': bounds(rng), 'fmt': ['spi3d', 'csp', 'ctl', 'csp1d3d'][i % 4], 'np': rng.random() < 0.3, 'reg': rng.random() < 0.3,
                'pre': pick(rng, [None, rng.randint(2, 6), rng.randint(2, 6)]), 'seed': rng.randrange(10 ** 6)}

    @staticmethod
    def check(c):
        n, fmt, v = list(c['n']), c['fmt'], c['samples']
        if c['np']: v = [[[np.array(x, np.float32) for x in y] for y in z] for z in v]
        lo, hi = c['range']
        L = lf()
        import re
        with Scratch() as d:
            f = os.path.join(d, 'a.' + fmt[:5].replace('csp1d', 'csp'))
            open(f, 'w').write('an older file\n' * 400)
            pre = None
            if fmt == 'csp1d3d':
                if hi <= lo: lo, hi = 0.0, 1.0
                m = c['pre'] or 5
                import random
                r = random.Random(c['seed'])
                pre = [round(r.uniform(0, 1), 6) for _ in range(3 * m)] if c['pre'] else None
                ok = L.LutFormatCSP.write1D3D1D(f, pre, m, lo, hi, v, n, None, 0, 0.0, 1.0)
            else:
                cls = {'spi3d': L.LutFormatSPI, 'csp': L.LutFormatCSP, 'ctl': L.LutFormatCTL}[fmt]
                ok = cls.write3D(f, v, n, lo, hi)
            expect(ok is True, 'writing returns', ok)
            expect(n == list(c['n']), 'the resolution is changed')
            lines = text_lines(f)

            def at(p): return [float(x) for x in v[p[0]][p[1]][p[2]]]
            if fmt == 'spi3d':
                expect(lines[0].split() == ['SPILUT', '1.0'] and lines[1].split() == ['3', '3'] and [int(x) for x in lines[2].split()] == n, 'header', lines[:3])
                rows = [x.split() for x in lines[3:] if x.strip()]
                expect(len(rows) == n[0] * n[1] * n[2], 'rows')
                want = [[r, g, b] for r in range(n[0]) for g in range(n[1]) for b in range(n[2])]
                for row, p in zip(rows, want):
                    expect([int(x) for x in row[:3]] == p, 'row order', row[:3], p)
                    expect(len(row) == 6 and all(near(float(x), y, 1e-6 * (1 + abs(y))) for x, y in zip(row[3:], at(p))), 'entry', p, row)
            elif fmt in ('csp', 'csp1d3d'):
                kd, pl, dims, rows = parse_csp(lines)
                expect(kd == '3D' and dims == n and len(rows) == n[0] * n[1] * n[2], 'layout', kd, dims, len(rows))
                want = [[r, g, b] for b in range(n[2]) for g in range(n[1]) for r in range(n[0])]
                for row, p in zip(rows, want): expect(len(row) == 3 and all(near(x, y, 6e-7) for x, y in zip(row, at(p))), 'entry', p, row)
                if pre is None: expect(all(len(p[0]) == 2 and near(p[0][0], lo, 6e-7) and near(p[0][1], hi, 6e-7) and p[1] == [0.0, 1.0] for p in pl), 'preluts', pl)
                else:
                    for ch in range(3):
                        expect(len(pl[ch][0]) == m and all(near(pl[ch][0][s], grid(s, m, lo, hi), 6e-7) and near(pl[ch][1][s], pre[s * 3 + ch], 6e-7) for s in range(m)), 'prelut', ch, pl[ch])
            else:
                text = '\n'.join(lines)
                m1 = re.search(r'min3d\[3\] = \{([^}]*)\};', text)
                m2 = re.search(r'max3d\[3\] = \{([^}]*)\};', text)
                expect(m1 and m2 and all(near(float(x), lo, 1e-9) for x in m1.group(1).split(',')) and all(near(float(x), hi, 1e-9) for x in m2.group(1).split(',')), 'range')
                m3 = re.search(r'const float cube\[(\d+)\]\[(\d+)\]\[(\d+)\]\[3\] =\s*\n(.*?);', text, re.S)
                expect(m3 and [int(m3.group(k)) for k in (1, 2, 3)] == n, 'cube header')
                body = json.loads(m3.group(4).replace('{', '[').replace('}', ']'))
                check3d(body, n, at)
                expect('lookup3D_f(cube, min3d, max3d, r, g, b, r, g, b);' in text and all('%sOut = %s;' % (x, x) in text for x in 'rgb') and 'aOut = aIn;' in text, 'main')
            if fmt != 'ctl' and hi > lo and pre is None: reread3(f, v, n, lo, hi, fmt)


def reread3(f, v, n, lo, hi, fmt):
    nodes = lf().Registry.read(f, returnProcessNodes=True)
    if fmt == 'spi3d': lo, hi = 0.0, 1.0
    expect(list(nodes[-1].getLUTDimensions()) == n + [3], 'dimensions', nodes[-1].getLUTDimensions())
    t = nodes[-1].getLUTValues()
    k = 0
    for r in range(n[0]):
        for g in range(n[1]):
            for b in range(n[2]):
                w = [float(x) for x in v[r][g][b]]
                expect(all(close(x, y, 1e-6, 1e-6) for x, y in zip(t[k:k + 3], w)), 'table', r, g, b, t[k:k + 3], w)
                k += 3
                cur = np.array([grid(r, n[0], lo, hi), grid(g, n[1], lo, hi), grid(b, n[2], lo, hi)], np.float32)
                for nd in nodes: cur = nd.process(cur, 3)
                expect(all(close(x, y, 4e-4 * (1 + (abs(lo) + abs(hi)) / (hi - lo)), 1e-4) for x, y in zip(cur, w)), 'read back', r, g, b, [float(x) for x in cur], w)


@kind('otherspi', [('C25', 60, 600)])
class OtherSpi(object):
    """spi files as other programs write them: blank lines, spacing, integers."""
    @staticmethod
    def gen(rng, i):
        n, k = rng.randint(2, 7), pick(rng, [1, 3])
        three = i % 2 == 1
        d = [rng.randint(2, 4) for _ in range(3)]
        return {'n': n, 'k': k, 'v': [rnd(rng, -2, 2, 5) for _ in range(n * k)], 'range': pick(rng, [[0.0, 1.0], [-0.5, 2.0], [0.25, 0.75], [0, 2]]), 'three': three, 'd': d,
                't': [rnd(rng, -2, 2, 5) for _ in range(d[0] * d[1] * d[2] * 3)], 'blank': [rng.randrange(3) for _ in range(12)], 'interp': pick(rng, ['linear', 'tetrahedral', 'trilinear']),
                'ext': pick(rng, ['%s', '%s', 'X']), 'crlf': rng.random() < 0.2}

    @staticmethod
    def check(c):
        L = lf()
        nl = '\r\n' if c['crlf'] else '\n'
        with Scratch() as d:
            if not c['three']:
                f = os.path.join(d, 'a.' + ('spi1d' if c['ext'] != 'X' else 'SPI1D'))
                n, k = c['n'], c['k']
                sec = ['Version 1', 'From %s %s' % tuple(c['range']), 'Length %d' % n, 'Components %d' % k, '{'] + ['   ' + '\t'.join('%s' % x for x in c['v'][i * k:i * k + k]) for i in range(n)] + ['}']
                text = ''
                for j, s in enumerate(sec): text += s + nl + nl * (c['blank'][j % 12] // 2)
                with open(f, 'w', newline='') as fp: fp.write(text)
                nodes = L.Registry.read(f, returnProcessNodes=True)
                expect(list(nodes[-1].getLUTDimensions()) == [n, k] and all(close(x, y, 1e-9) for x, y in zip(nodes[-1].getLUTValues(), c['v'])), 'table')
                lo, hi = c['range']
                for i in range(n):
                    cur = np.array([grid(i, n, lo, hi)] * 3, np.float32)
                    for nd in nodes: cur = nd.process(cur, 3)
                    for ch in range(3): expect(close(cur[ch], c['v'][i * k + min(ch, k - 1)], 3e-4, 1e-4), 'entry', i, [float(x) for x in cur])
            else:
                f = os.path.join(d, 'a.' + ('spi3d' if c['ext'] != 'X' else 'Spi3D'))
                n = c['d']
                text = 'SPILUT 1.0' + nl + '3 3' + nl + '%d %d %d' % tuple(n) + nl
                k = 0
                for r in range(n[0]):
                    for g in range(n[1]):
                        for b in range(n[2]):
                            text += '%d %d %d %s %s %s' % tuple([r, g, b] + c['t'][k:k + 3]) + nl
                            if c['blank'][k // 3 % 12] == 2: text += nl
                            k += 3
                with open(f, 'w', newline='') as fp: fp.write(text)
                nodes = L.Registry.read(f, False, c['interp'], returnProcessNodes=True)
                expect(len(nodes) == 1 and list(nodes[0].getLUTDimensions()) == n + [3], 'nodes')
                expect(all(close(x, y, 1e-9) for x, y in zip(nodes[0].getLUTValues(), c['t'])) and len(nodes[0].getLUTValues()) == len(c['t']), 'table')
                want = {'linear': 'trilinear'}.get(c['interp'], c['interp'])
                expect(nodes[0].getAttribute('interpolation') == want, 'interpolation', nodes[0].getAttribute('interpolation'))


def gen_prelut(rng, plain):
    m = rng.randint(2, 5)
    xs = sorted(set(rnd(rng, -0.5, 2, 3) for _ in range(m + 2)))[:m]
    while len(xs) < 2: xs.append(xs[-1] + 0.5)
    return [xs, sorted(rnd(rng, 0, 1, 4) for _ in xs) if not plain else [0.0] * (len(xs) - 1) + [1.0]]


@kind('handcsp', [('C25', 90, 900)])
class HandCsp(object):
    """csp files as other programs write them: metadata, blank lines, preluts of different lengths and ranges."""
    @staticmethod
    def gen(rng, i):
        three = i % 2 == 0
        d = [rng.randint(2, 4) for _ in range(3)] if three else [rng.randint(2, 7)]
        total = (d[0] * d[1] * d[2] if three else d[0]) * 3
        mode = pick(rng, ['same', 'differ', 'range', 'unit', 'differ', 'two'])
        if mode == 'unit': pre = [[[0.0, 1.0], [0.0, 1.0]]] * 3
        elif mode == 'range': pre = [[[-0.5, 1.5], [0.0, 1.0]]] * 3
        elif mode == 'same': pre = [gen_prelut(rng, False)] * 3
        elif mode == 'two': pre = [[[0.0, rnd(rng, 0.5, 2)], [rnd(rng, 0, 0.4), rnd(rng, 0.5, 1)]] for _ in range(3)]
        else: pre = [gen_prelut(rng, False) for _ in range(3)]
        return {'three': three, 'd': d, 't': [rnd(rng, -2, 2, 5) for _ in range(total)], 'pre': pre, 'blank': [rng.randrange(3) for _ in range(16)],
                'meta': pick(rng, [[], ['a note'], ['1D', '3', '0.0 1.0', '', '2 2 2'], ['{', 'x y z'], ['<NOTES>', 'BEGIN', '</NOTES>']]), 'pad': pick(rng, ['', ' ', '\t']), 'between': rng.random() < 0.3}

    @staticmethod
    def check(c):
        L = lf()
        bl = iter(c['blank'] * 20)

        def gap(always=False): return ['' for _ in range(next(bl))] or ([''] if always else [])
        lines = ['CSPLUTV100', '3D' if c['three'] else '1D'] + gap() + ['BEGIN METADATA'] + c['meta'] + ['END METADATA'] + gap()
        for p in c['pre']: lines += ['%d' % len(p[0]), ' '.join('%s' % x for x in p[0]), ' '.join('%s' % x for x in p[1])]
        lines += gap() + [' '.join('%d' % x for x in c['d'])]
        n = c['d']
        order = [(r * n[1] + g) * n[2] + b for b in range(n[2]) for g in range(n[1]) for r in range(n[0])] if c['three'] else range(n[0])
        for j, k in enumerate(order):
            lines.append(' '.join('%s' % x for x in c['t'][3 * k:3 * k + 3]))
            if c['between'] and j % 3 == 1: lines.append('')
        lines += gap()
        with Scratch() as d:
            f = os.path.join(d, 'a.csp')
            with open(f, 'w') as fp: fp.write('\n'.join(x + c['pad'] for x in lines) + '\n')
            nodes = L.Registry.read(f, returnProcessNodes=True)
        lut = nodes[-1]
        expect(list(lut.getLUTDimensions()) == (n + [3] if c['three'] else [n[0], 3]), 'dimensions', lut.getLUTDimensions())
        expect(len(lut.getLUTValues()) == len(c['t']) and all(close(x, y, 1e-9) for x, y in zip(lut.getLUTValues(), c['t'])), 'table', list(lut.getLUTValues())[:9], c['t'][:9])
        # the nodes before the table are the preluts
        pre = c['pre']
        lo, hi = min(p[0][0] for p in pre), max(p[0][-1] for p in pre)
        m = 2 * max(len(p[0]) for p in pre)
        plain = all(p == [[lo, hi], [0.0, 1.0]] for p in pre)
        for j in range(m):
            x = lo + (hi - lo) * j / (m - 1.0)
            cur = np.array([x] * 3, np.float32)
            for nd in nodes[:-1]: cur = nd.process(cur, 3)
            for ch in range(3):
                a, b = pre[ch]
                if not a[0] <= x <= a[-1] or not plain and j in (0, m - 1) and False: continue
                w = specs.indexmap(Conc, x, a, b)
                steep = max(abs(b[i + 1] - b[i]) / (a[i + 1] - a[i]) for i in range(len(a) - 1))
                expect(close(cur[ch], w, 1e-5 * (1 + steep * (hi - lo) * m), 1e-4), 'prelut at', x, 'channel', ch, 'is', float(cur[ch]), 'not', w)


@kind('handspi', [('C25', 60, 600)])
class HandSpi(object):
    """spi1d and spi3d files as other programs write them: blank lines and white space."""
    @staticmethod
    def gen(rng, i):
        three = i % 2 == 0
        d = [rng.randint(2, 4) for _ in range(3)] if three else [rng.randint(1, 7)]
        ch = 3 if three else pick(rng, [1, 3])
        total = (d[0] * d[1] * d[2] if three else d[0]) * ch
        return {'three': three, 'd': d, 'ch': ch, 't': [rnd(rng, -2, 2, 5) for _ in range(total)], 'range': [0.0, 1.0] if three else pick(rng, [[0.0, 1.0], [-0.5, 1.5], [0.0, 4.0], [0.25, 1.0]]),
                'style': pick(rng, ['plain', 'spaced'] if three else ['plain', 'spaced', 'blank'])}

    @staticmethod
    def check(c):
        L = lf()
        d, ch, t = c['d'], c['ch'], c['t']
        s = '\t ' if c['style'] == 'spaced' else ''
        if c['three']:
            pos = [(r, g, b) for r in range(d[0]) for g in range(d[1]) for b in range(d[2])]
            lines = ['SPILUT 1.0', '3 3', '%d %d %d' % tuple(d)] + [(' ' + s).join(['%d' % x for x in q] + ['%s' % x for x in t[3 * k:3 * k + 3]]) for k, q in enumerate(pos)]
        else:
            lines = ['Version 1', 'From %s %s' % tuple(c['range']), 'Length %d' % d[0], 'Components %d' % ch, '{'] + \
                [' ' + (' ' + s).join('%s' % x for x in t[ch * k:ch * k + ch]) for k in range(d[0])] + ['}']
        with Scratch() as sc:
            f = os.path.join(sc, 'a.spi3d' if c['three'] else 'a.spi1d')
            with open(f, 'w') as fp: fp.write(('\n\n' if c['style'] == 'blank' else '\n').join(s + x + s for x in lines) + '\n')
            nodes = L.Registry.read(f, returnProcessNodes=True)
        lut = nodes[-1]
        expect(list(lut.getLUTDimensions()) == (d + [3] if c['three'] else [d[0], ch]), 'dimensions', lut.getLUTDimensions())
        expect(len(lut.getLUTValues()) == len(t) and all(close(x, y, 1e-9) for x, y in zip(lut.getLUTValues(), t)), 'table', list(lut.getLUTValues())[:9], t[:9])
        lo, hi = c['range']
        for x in (lo, hi, lo + 0.3 * (hi - lo)):
            cur = np.array([x] * 3, np.float32)
            for nd in nodes[:-1]: cur = nd.process(cur, 3)
            expect(all(close(y, (x - lo) / (hi - lo), 1e-5) for y in cur), 'input', x, 'is mapped to', list(cur))


@kind('writeclf', [('C25', 60, 600)])
class WriteClf(object):
    """clf files of samples: the file processes as shaper, 3D table, shaper."""
    @staticmethod
    def gen(rng, i):
        n = [rng.randint(2, 4) for _ in range(3)]
        a, b = pick(rng, [None, rng.randint(2, 6)]), pick(rng, [None, rng.randint(2, 6)])
        return {'n': n, 'samples': [[[[f32(rng.random()) for _ in range(3)] for _ in range(n[2])] for _ in range(n[1])] for _ in range(n[0])], 'in': a and [f32(rng.random()) for _ in range(3 * a)],
                'out': b and [f32(rnd(rng, -1, 2)) for _ in range(3 * b)], 'range': pick(rng, [[0.0, 1.0], [-1.0, 2.0], [0.25, 0.5], [0.0, 4.0]]), 'values': [values(rng, 3) for _ in range(5)]}

    @staticmethod
    def check(c):
        L = lf()
        n, lo, hi = list(c['n']), c['range'][0], c['range'][1]
        a, b = c['in'], c['out']
        with Scratch() as d:
            f = os.path.join(d, 'a.clf')
            open(f, 'w').write('an older file\n' * 400)
            expect(L.LutFormatCLF.write1D3D1D(f, a, a and len(a) // 3, lo, hi, c['samples'], n, b, b and len(b) // 3, 0.0, 1.0) is True, 'writing fails')
            p = clf().ProcessList(f)
        types_ = [type(x).__name__ for x in p]
        want = (['Range'] if a and (lo != 0.0 or hi != 1.0) else []) + (['LUT1D'] if a else []) + ['LUT3D'] + (['LUT1D'] if b else [])
        expect(types_ == want, 'nodes', types_, 'not', want)
        k = types_.index('LUT3D')
        expect(list(p[k].getLUTDimensions()) == n + [3], '3D dimensions')
        flat = [x for r in c['samples'] for g in r for q in g for x in q]
        expect(all(close(x, y, 2e-9, 1e-7) for x, y in zip(p[k].getLUTValues(), flat)), '3D table')
        if a: expect(len(p[k - 1].getLUTValues()) == len(a) and all(close(x, y, 2e-9, 1e-7) for x, y in zip(p[k - 1].getLUTValues(), a)), 'input table')
        if b: expect(len(p[k + 1].getLUTValues()) == len(b) and all(close(x, y, 2e-9, 1e-7) for x, y in zip(p[k + 1].getLUTValues(), b)), 'output table')
        if a and types_[0] == 'Range':
            for t in (0.0, 0.3, 1.0): expect(close(p[0].process([lo + (hi - lo) * t])[0], t, 1e-5), 'range')


@kind('convert', [('C25', 24, 200), ('C23', 12, 100)])
class Convert(object):
    """Registry.write of a list, then the file holds the list's samples."""
    @staticmethod
    def gen(rng, i):
        return {'nodes': gen_chain(rng, 1, 2), 'style': ['1D', '3D', '1D_3D_1D'][i % 3], 'fmt': pick(rng, [['spi1d', 'csp', 'ctl'], ['spi3d', 'csp', 'ctl'], ['csp', 'clf']][i % 3]),
                'n1': rng.randint(2, 9), 'n3': rng.randint(2, 4), 'n131': [rng.randint(2, 6), rng.randint(2, 3), rng.randint(2, 6)], 'range': pick(rng, [[0.0, 1.0], [-0.5, 1.5]]), 'in': pick(rng, [['linear', 0.0, 1.0], ['linear', -0.5, 2.0], ['log2', -4.0, 2.0], [None, 0.0, 1.0]]),
                'out': pick(rng, [['linear', 0.0, 1.0], ['linear', -2.0, 3.0], [None, 0.0, 1.0]]), 'upper': rng.random() < 0.2}

    @staticmethod
    def check(c):
        L = lf()
        P = plist([dict(s, out='16f') if k == len(c['nodes']) - 1 and 'out' in s else s for k, s in enumerate(c['nodes'])])
        lo, hi = c['range']
        with Scratch() as d:
            f = os.path.join(d, 'a.' + (c['fmt'].upper() if c['upper'] else c['fmt']))
            L.Registry.write(P, f, c['style'], c['n1'], c['n3'], list(c['n131']), lo, hi, list(c['in']), list(c['out']))
            expect(os.path.exists(f), 'no file is written')
            if c['style'] == '1D_3D_1D':
                t1, a0, a1, t3, t2, b0, b1 = S().sample1D3D1D(P, [c['n131'][0], [c['n131'][1]] * 3, c['n131'][2]], c['in'], c['out'])
                n = [c['n131'][1]] * 3
                if c['fmt'] == 'csp':
                    kd, pre, dims, rows = parse_csp(text_lines(f))
                    got = {(r, g, b): rows[(b * n[1] + g) * n[0] + r] for r in range(n[0]) for g in range(n[1]) for b in range(n[2])}
                else:
                    q = clf().ProcessList(f)
                    t = [x for x in q if type(x).__name__ == 'LUT3D'][0].getLUTValues()
                    got = {(r, g, b): t[((r * n[1] + g) * n[2] + b) * 3:][:3] for r in range(n[0]) for g in range(n[1]) for b in range(n[2])}
                for (r, g, b), w in got.items(): expect(all(near(float(x), float(y), 1.2e-6 * (1 + abs(float(y)))) for x, y in zip(w, t3[r][g][b])), 'entry', r, g, b, w, t3[r][g][b])
            elif c['style'] == '3D':
                n = [c['n3']] * 3
                t3 = S().sample3D(P, n, lo, hi)
                if c['fmt'] == 'spi3d':
                    rows = [[float(x) for x in l.split()] for l in text_lines(f)[3:]]
                    got = {(int(x[0]), int(x[1]), int(x[2])): x[3:] for x in rows}
                elif c['fmt'] == 'csp':
                    rows = parse_csp(text_lines(f))[3]
                    got = {(r, g, b): rows[(b * n[1] + g) * n[0] + r] for r in range(n[0]) for g in range(n[1]) for b in range(n[2])}
                else: return
                expect(len(got) == n[0] ** 3, 'entries')
                for (r, g, b), w in got.items(): expect(all(near(x, float(y), 1.2e-6 * (1 + abs(float(y)))) for x, y in zip(w, t3[r][g][b])), 'entry', r, g, b, w, t3[r][g][b])
            else:
                t = S().sample1D(P, c['n1'], lo, hi)
                if c['fmt'] == 'spi1d':
                    w = ' '.join(text_lines(f)).split()
                    got = [float(x) for x in w[w.index('{') + 1:-1]]
                elif c['fmt'] == 'csp': got = [x for r in parse_csp(text_lines(f))[3] for x in r]
                else: return
                expect(len(got) == len(t) and all(near(x, float(y), 1.2e-6 * (1 + abs(float(y)))) for x, y in zip(got, t)), '1D table', got, t)


# ---------------------------------------------------------------- C26

CAPS = ['read', 'write1D', 'write3D', 'write1D3D1D']


@kind('registry', [('C26', 400, 4000)])
class RegistryKind(object):
    @staticmethod
    def gen(rng, i):
        fmts = []
        for k in range(rng.randint(0, 4)):
            fmts.append({'entries': [[pick(rng, ['aaa', 'bbb', 'ccc', 'AAA', 'Bbb', 'dd']), [x for x in CAPS if rng.random() < 0.45]] for _ in range(rng.randint(0, 3))], 'fails': rng.random() < 0.25})
        return {'formats': fmts, 'ext': pick(rng, ['aaa', 'AAA', 'Bbb', 'ccc', 'zz', '', 'dd', 'aaa.bbb']), 'op': pick(rng, ['read', 'read', '1D', '3D', '1D_3D_1D']), 'nodes': rng.random() < 0.5,
                'args': [rng.random() < 0.5, pick(rng, ['linear', 'best']), rng.random() < 0.5, rng.random() < 0.5], 'n': rng.randint(0, 3), 'query': pick(rng, ['aaa', 'AAA', 'bbb', 'ccc', None, 'zz'])}

    @staticmethod
    def check(c):
        L = lf()
        R, B = L.Registry, lf('LutFormat')
        cl = sys.modules[L.Registry.__module__].clf
        saved = dict(R.lutFormats)
        calls = []
        made = [cl.Range() for _ in range(c['n'])]
        try:
            R.lutFormats.clear()
            cls = []
            for k, s in enumerate(c['formats']):
                def rd(k_, lutPath, inverse=False, interpolation='linear', inversesUseIndexMaps=True, inversesUseHalfDomain=True, s=s, k=k):
                    calls.append(('read', k, lutPath, inverse, interpolation, inversesUseIndexMaps, inversesUseHalfDomain))
                    return False if s['fails'] else list(made)

                def wr(nm, s=s, k=k):
                    def fn(k_, lutPath, *a):
                        calls.append((nm, k, lutPath) + a)
                        return not s['fails']
                    return classmethod(fn)
                cls.append(type('F%d' % k, (B.LutFormat,), {'formatType': 'f', 'formats': [['d', e, list(caps)] for e, caps in s['entries']], 'read': classmethod(rd),
                                                           'write1D': wr('write1D'), 'write3D': wr('write3D'), 'write1D3D1D': wr('write1D3D1D')}))
            R.lutFormats.clear()
            for k, q in enumerate(cls): R.registerLutFormat('F%d' % k, q)
            # capabilities
            for s, q in zip(c['formats'], cls):
                for e in [c['query']] + [x for x, _ in s['entries']]:
                    want = set(x for ext, caps in s['entries'] if e is None or ext.lower() == e.lower() for x in caps)
                    expect(set(q.capabilities(e)) == want, 'capabilities of', e, q.capabilities(e), 'not', want)
                    for nm, fn in zip(CAPS, (q.canRead, q.canWrite1D, q.canWrite3D, q.canWrite1D3D1D)): expect(bool(fn(e)) == (nm in want) and bool(q.isCapable(nm, e)) == (nm in want), nm, 'of', e)
                expect(list(q.extensions()) == [e.lower() for e, _ in s['entries']], 'extensions', q.extensions())
            registered = [k for k, s in enumerate(c['formats']) if s['entries']]
            expect(len(R.getFormats()) == len(registered), 'registered formats')
            ext = c['ext'].split('.')[-1].lower()
            need = {'read': 'read', '1D': 'write1D', '3D': 'write3D', '1D_3D_1D': 'write1D3D1D'}[c['op']]
            able = [k for k in registered if need in set(x for e, caps in c['formats'][k]['entries'] if e.lower() == ext for x in caps)]
            del calls[:]
            with Scratch() as d:
                f = os.path.join(d, 'file' + ('.' + c['ext'] if c['ext'] else ''))
                if c['op'] == 'read':
                    inv, it, um, uh = c['args']
                    r = R.read(f, inv, it, um, uh, returnProcessNodes=c['nodes'])
                else:
                    fake = Fake(1)
                    r = R.write(fake, f, c['op'], 2, 2, [2, 2, 2])
                expect(os.listdir(d) == [], 'a file is touched')
            who = [x[1] for x in calls]
            good = [k for k in able if not c['formats'][k]['fails'] and (c['op'] != 'read' or made)]
            expect(all(x[0] == need for x in calls), 'methods called', [x[0] for x in calls])
            expect(set(who) <= set(able), 'formats used', who, 'able', able)
            if good: expect(len(who) == len(set(who)) and who[-1] in good and not any(k in good for k in who[:-1]), 'formats used', who, 'good', good)
            else: expect(sorted(who) == sorted(able) and not r, 'no format succeeds, yet', r)
            if c['op'] == 'read':
                for x in calls: expect(list(x[2:]) == [f] + c['args'], 'arguments', x)
                if good:
                    if c['nodes']: expect(list(r) == made, 'nodes', r)
                    else: expect(type(r).__name__ == 'ProcessList' and list(r) == made, 'list', r)
            else:
                for x in calls: expect(x[2] == f, 'path', x[2])
        finally:
            R.lutFormats.clear()
            R.lutFormats.update(saved)


@kind('builtin', [('C26', 1, 1)])
class Builtin(object):
    """The formats of the package itself."""
    @staticmethod
    def gen(rng, i): return {}

    @staticmethod
    def check(c):
        L = lf()
        want = {'spi1d': {'read', 'write1D'}, 'spi3d': {'read', 'write3D'}, 'csp': set(CAPS), 'ctl': {'write1D', 'write3D'}, 'clf': {'write1D3D1D'}}
        got = {}
        for q in L.Registry.getFormats():
            for e in q.extensions(): got.setdefault(e, set()).update(q.capabilities(e))
        got.pop('spimtx', None)
        expect(got == want, 'capabilities', got)
        with Scratch() as d:
            for e in ('clf', 'ctl', 'xyz', 'spimtx'):
                expect(not L.Registry.read(os.path.join(d, 'no.' + e)), 'reading', e)
            fake = Fake(3)
            for e, style in (('spi1d', '3D'), ('spi3d', '1D'), ('ctl', '1D_3D_1D'), ('clf', '1D'), ('clf', '3D'), ('spi1d', '1D_3D_1D'), ('spimtx', '1D'), ('txt', '1D'), ('', '3D')):
                L.Registry.write(fake, os.path.join(d, 'f.' + e), style, 3, 2, [2, 2, 2])
                expect(os.listdir(d) == [] and fake.seen == [], 'writing', e, style, os.listdir(d))
            for e, style in (('spi1d', '1D'), ('SPI3D', '3D'), ('Csp', '1D'), ('csp', '3D'), ('csp', '1D_3D_1D'), ('ctl', '1D'), ('ctl', '3D'), ('clf', '1D_3D_1D')):
                f = os.path.join(d, style + '.' + e)
                L.Registry.write(fake, f, style, 3, 2, [2, 2, 2])
                expect(os.path.getsize(f) > 0, 'not written', f)


# ---------------------------------------------------------------- C27

class Oiio(types.ModuleType):
    """A stand-in for OpenImageIO: images are entries of a dictionary."""
    UINT8, UINT16, HALF, FLOAT = 'uint8', 'uint16', 'half', 'float'
    Create = 'create'
    VERSION = 10800

    def __init__(self):
        types.ModuleType.__init__(self, 'OpenImageIO')
        self.files, self.written = {}, {}
        mod = self

        class Attr(object):
            def __init__(self, n, t, v): self.name, self.type, self.value = n, t, v

        class Spec(object):
            def __init__(self): self.attrs = {}
            def set_format(self, t): self.format = t
            def attribute(self, name, *a): self.attrs[name] = a[-1]

        class In(object):
            @staticmethod
            def open(path):
                if path not in mod.files: return None
                i = In()
                i.f = mod.files[path]
                return i

            def spec(self):
                s = Spec()
                s.format = types.SimpleNamespace(basetype=self.f['type'])
                s.width, s.height, s.nchannels = self.f['w'], self.f['h'], self.f['c']
                s.channelnames = ['c%d' % k for k in range(self.f['c'])]
                s.extra_attribs = [Attr('oiio:BitsPerSample', 'int', self.f['bps'])] if self.f.get('bps') else []
                s.extra_attribs.append(Attr('note', 'string', 'kept'))
                return s

            def read_image(self, t):
                expect(t == self.f['type'], 'read as', t)
                return self.f['data'].copy()

            def close(self): pass

        class Out(object):
            @staticmethod
            def create(path): return Out()

            def open(self, path, spec, mode):
                self.path, self.spec = path, spec
                return True

            def write_image(self, fmt, pixels):
                mod.written[self.path] = (self.spec, fmt, np.array(pixels))
                return True

            def close(self): pass
        self.ImageInput, self.ImageOutput, self.ImageSpec, self.Attr = In, Out, Spec, Attr


_tools = {}


def tool(name, stubname, stub):
    """A command line tool, with its missing dependency replaced by a stand-in."""
    if name not in _tools:
        sub('lutFormats')
        if '/repo/python/aces' not in sys.path: sys.path.append('/repo/python/aces')
        sys.modules[stubname] = stub
        try: _tools[name] = sub(name)
        finally: pass
    return _tools[name]


DT = {'uint8': np.uint8, 'uint16': np.uint16, 'half': np.uint16, 'float': np.float32}
TYPE_OF = {'8i': 'uint8', '10i': 'uint16', '12i': 'uint16', '16i': 'uint16', '16f': 'half', '32f': 'float'}


def gen_tame(rng, n):
    """Nodes whose results are not on a knife's edge."""
    out = []
    for _ in range(n):
        t = pick(rng, ['Range', 'Matrix', 'Matrix4', 'ASCCDL', 'LUT1D', 'ExposureContrast', 'Gamma'])
        if t == 'Matrix4':
            s = gen_matrix(rng, 3)
            s['dims'] = [3, 3]
            s['m'] = [0.0, 1.0, 0.0, 0.5, 0.0, 0.5, 1.0, 0.0, 0.0]
        elif t == 'Matrix': s = gen_matrix(rng, 3)
        else: s = GENS[t](rng)
        s['in'], s['out'] = pick(rng, DEPTHS), pick(rng, DEPTHS)
        if t == 'LUT1D':
            s.pop('maps', None)
            s['half'] = None
        if t == 'Range':
            s['bounds'] = [None] * 4
            s['default'] = None
        out.append(s)
    return out


@kind('image', [('C27', 130, 1300)])
class Image(object):
    @staticmethod
    def gen(rng, i):
        src = pick(rng, ['8i', '10i', '12i', '16i', '16f', '32f'])
        w, h, ch = rng.randint(1, 5), pick(rng, [1, 2, 3, 4, 6, 7, 8, 11, 103 if rng.random() < 0.2 else 5]), pick(rng, [3, 3, 4, 5])
        n = w * h * ch
        if src in ('8i', '10i', '12i', '16i'):
            m = int(specs.size(src))
            data = [pick(rng, [0, m]) if rng.random() < 0.1 else rng.randint(0, m) for _ in range(n)]
        elif src == '16f': data = [half_bits(to_half(unit(rng))) for _ in range(n)]
        else: data = [unit(rng) for _ in range(n)]
        nodes = gen_tame(rng, rng.randint(0, 2))
        return {'src': src, 'w': w, 'h': h, 'c': ch, 'data': data, 'nodes': nodes, 'outdepth': pick(rng, [None, None] + DEPTHS + ['junk']), 'threads': 2 if i % 6 == 5 else 1, 'bps': src in ('10i', '12i') or rng.random() < 0.5,
                'cubic': rng.random() < 0.2, 'version': pick(rng, [10800, 20000])}

    @staticmethod
    def check(c):
        stub = _tools.get('oiio')
        if stub is None: stub = _tools['oiio'] = Oiio()
        F = tool('filterImageWithCLF', 'OpenImageIO', stub)
        cl = F.clf
        stub.VERSION = c['version']
        stub.files.clear()
        stub.written.clear()
        src = c['src']
        shift = {'10i': 6, '12i': 4}.get(src, 0)
        ty = TYPE_OF[src]
        bps = {'8i': 8, '10i': 10, '12i': 12, '16i': 16}.get(src) if c['bps'] else None
        raw = [int(x) << shift for x in c['data']] if ty != 'float' else c['data']
        stub.files['in'] = {'type': ty, 'w': c['w'], 'h': c['h'], 'c': c['c'], 'bps': bps, 'data': np.array(raw, DT[ty])}
        p = cl.ProcessList()
        for s in c['nodes']: p.addProcess(rebuild(cl, s))
        if not c['nodes']: p.addProcess(cl.Matrix('16f', '32f'))
        if not c['nodes']: p[0].setMatrix([3, 3], [0.0, 0.0, 1.0, 1.0, 0.0, 0.0, 0.0, 1.0, 0.0])
        F.filterImageWithCLF('in', 'out', p, outBitDepth=c['outdepth'], multithreaded=c['threads'])
        expect('out' in stub.written, 'no image is written')
        spec, fmt, px = stub.written['out']
        dst = c['outdepth'] if c['outdepth'] in DEPTHS else src
        expect(fmt == TYPE_OF[dst] and (spec.width, spec.height, spec.nchannels) == (c['w'], c['h'], c['c']), 'image layout', fmt, spec.width, spec.height)
        expect(len(px) == c['w'] * c['h'] * c['c'] and px.dtype == DT[TYPE_OF[dst]], 'pixels', len(px), px.dtype)
        expect(list(spec.channelnames) == ['c%d' % k for k in range(c['c'])], 'channel names')
        if dst in ('8i', '10i', '12i', '16i'): expect(spec.attrs.get('oiio:BitsPerSample') == {'8i': 8, '10i': 10, '12i': 12, '16i': 16}[dst], 'bits per sample')
        ch = c['c']
        if src == '16f': vals = [bits_half(int(x)) for x in c['data']]
        else: vals = [float(x) for x in c['data']]
        first, last = p.getInBitDepth(), p.getOutBitDepth()
        kIn = float(specs.size(first)) / float(specs.size(src))
        kOut = float(specs.size(dst)) / float(specs.size(last))
        outs = [float(x) for x in px]
        if dst == '16f': outs = [bits_half(int(x)) for x in px]
        dshift = {'10i': 6, '12i': 4}.get(dst, 0)
        top = float(specs.size(dst))
        for k in range(c['w'] * c['h']):
            v = np.array([x * kIn for x in vals[k * ch:k * ch + ch]], np.float32)
            w = [float(x) * kOut for x in p.process(v, ch)]
            for j in range(ch):
                g, e = outs[k * ch + j], w[j]
                if dst in ('8i', '10i', '12i', '16i'):
                    expect(int(g) % (1 << dshift) == 0, 'low bits of', g)
                    g = int(g) >> dshift
                    e = min(top, max(0.0, e)) if e == e else None
                    if e is None: continue
                    expect(abs(g - e) <= 0.5 + 1e-3 + 3e-5 * abs(e) * (top / 65535.0 + 0.1), 'pixel', k, 'channel', j, 'is', g, 'not', e)
                elif dst == '16f':
                    if abs(e) > 60000: continue
                    expect(abs(g - e) <= 1e-3 * abs(e) + 1e-4, 'pixel', k, 'channel', j, 'is', g, 'not', e)
                else: expect(close(g, e, 1e-5, 1e-4), 'pixel', k, 'channel', j, 'is', g, 'not', e)


def rebuild(cl, s):
    """Build a node with a given copy of the package."""
    from . import base
    old = base._clf
    base._clf = cl
    try: return build(s)
    finally: base._clf = old


@kind('rows', [('C27', 60, 600)])
class Rows(object):
    """The row functions, one by one: pixel, stride and parallel agree, and touch their own row only."""
    @staticmethod
    def gen(rng, i):
        w, h, ch = rng.randint(1, 4), rng.randint(1, 9), pick(rng, [3, 4])
        return {'w': w, 'h': h, 'c': ch, 'row': rng.randrange(h), 'data': [unit(rng) for _ in range(w * h * ch)], 'nodes': gen_tame(rng, 1), 'in': pick(rng, DEPTHS), 'out': pick(rng, DEPTHS)}

    @staticmethod
    def check(c):
        stub = _tools.get('oiio')
        if stub is None: stub = _tools['oiio'] = Oiio()
        F = tool('filterImageWithCLF', 'OpenImageIO', stub)
        cl = F.clf
        p = cl.ProcessList()
        for s in c['nodes']: p.addProcess(rebuild(cl, s))
        ri = cl.Range(c['in'], p.getInBitDepth()) if c['in'] != p.getInBitDepth() else None
        ro = cl.Range(p.getOutBitDepth(), c['out']) if c['out'] != p.getOutBitDepth() else None
        w, h, ch = c['w'], c['h'], c['c']
        px = np.array(c['data'], np.float32)
        row = c['row']
        a, b = np.full(w * h * ch, -77.0, np.float32), np.full(w * h * ch, -77.0, np.float32)
        F.filterRow_pixel(row, w, h, ch, px, ri, p, ro, a, False)
        F.filterRow_stride(row, w, h, ch, px, ri, p, ro, b, False)
        lo, hi = row * w * ch, (row + 1) * w * ch
        r = F.filterRow_parallel_splitargs((row, w, h, ch, px[lo:hi], ri, p, ro, None, False))
        expect(all(x == -77.0 for arr in (a, b) for x in list(arr[:lo]) + list(arr[hi:])), 'other rows are touched')
        expect(r is not None and len(r) == hi - lo, 'parallel row', r)
        for k in range(lo, hi): expect(close(a[k], b[k], 1e-6, 1e-6) and close(a[k], r[k - lo], 1e-6, 1e-6), 'value', k, 'pixel', a[k], 'stride', b[k], 'parallel', r[k - lo])
        expect([float(x) for x in px] == [float(np.float32(x)) for x in c['data']], 'the pixels are changed')


@kind('noimage', [('C27', 2, 2)])
class NoImage(object):
    @staticmethod
    def gen(rng, i): return {'threads': i + 1}

    @staticmethod
    def check(c):
        stub = _tools.get('oiio')
        if stub is None: stub = _tools['oiio'] = Oiio()
        F = tool('filterImageWithCLF', 'OpenImageIO', stub)
        stub.files.clear()
        stub.written.clear()
        F.filterImageWithCLF('missing', 'out', F.clf.ProcessList(), multithreaded=c['threads'])
        expect(not stub.written, 'an image is written')


@kind('codes', [('C27', 4, 4)])
class Codes(object):
    """Every float from below to above the range goes to the nearest code."""
    @staticmethod
    def gen(rng, i): return {'depth': ['8i', '10i', '12i', '16i'][i]}

    @staticmethod
    def check(c):
        stub = _tools.get('oiio')
        if stub is None: stub = _tools['oiio'] = Oiio()
        F = tool('filterImageWithCLF', 'OpenImageIO', stub)
        top = int(specs.size(c['depth']))
        step = max(1, top // 1023)
        xs = [k + e for k in range(-3, top + 4, step) for e in (0.0, 0.25, 0.75, -0.375)] + [-1e9, 1e9, float('inf'), -float('inf'), top, top - 0.25, top + 0.75, 0.49]
        px = np.array(xs, np.float32)
        stub.written.clear()
        F.writePixelArray('o', px, c['depth'], len(xs), 1, 1, [], ['x'])
        out = [int(x) for x in stub.written['o'][2]]
        shift = {'10i': 6, '12i': 4}.get(c['depth'], 0)
        for x, g in zip(xs, out):
            w = min(top, max(0.0, x))
            expect(g % (1 << shift) == 0 and abs((g >> shift) - w) <= 0.5, x, 'becomes', g)


# ---------------------------------------------------------------- C28

class Ocio(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, 'PyOpenColorIO')

        class GroupTransform(object):
            def __init__(self, c): self.c = c
            def getTransforms(self): return self.c

        class FileTransform(object):
            def __init__(self, s, i, d): self.s, self.i, self.d = s, i, d
            def getSrc(self): return self.s
            def getInterpolation(self): return self.i
            def getDirection(self): return self.d

        class MatrixTransform(object):
            def __init__(self, m, o, d): self.m, self.o, self.d = m, o, d
            def getMatrix(self): return self.m
            def getOffset(self): return self.o
            def getDirection(self): return self.d

        class LogTransform(object):
            def __init__(self, b, d): self.b, self.d = b, d
            def getBase(self): return self.b
            def getDirection(self): return self.d

        class Other(object): pass
        self.GroupTransform, self.FileTransform, self.MatrixTransform, self.LogTransform, self.Other = GroupTransform, FileTransform, MatrixTransform, LogTransform, Other


def ocio():
    stub = _tools.get('ocio')
    if stub is None: stub = _tools['ocio'] = Ocio()
    return stub, tool('convertOCIOtoCLF', 'PyOpenColorIO', stub)


ALPHA = [3, 7, 11, 12, 13, 14]


@kind('ociomatrix', [('C28', 250, 2500)])
class OcioMatrix(object):
    @staticmethod
    def gen(rng, i):
        m = [rnd(rng, -2, 2) for _ in range(16)]
        for k in ALPHA: m[k] = 0.0
        m[15] = 1.0
        r = i % 4
        if r == 1:
            for k in ALPHA + [15]: m[k] = rnd(rng, -2, 2)
        elif r == 2:
            k = pick(rng, ALPHA + [15])
            m[k] = pick(rng, [0.5, -1.0, 2.0, 1e-3])
        o = [pick(rng, [0.0, rnd(rng, -1, 1)]) for _ in range(3)] + [pick(rng, [0.0, 0.0, 0.0, rnd(rng, -1, 1)])]
        if rng.random() < 0.3: o = [0.0] * 4
        if rng.random() < 0.2: o = [0.0, 0.0, rnd(rng, 0.1, 1), 0.0]
        return {'m': m, 'o': o, 'dir': pick(rng, ['forward', 'forward', 'forward', 'forward', 'inverse', 'unknown']), 'px': [values(rng, 4) for _ in range(3)]}

    @staticmethod
    def check(c):
        stub, M = ocio()
        m, o = list(c['m']), list(c['o'])
        pns = M.convertTransformsToProcessNodes(stub.MatrixTransform(m, o, c['dir']))
        expect(m == c['m'] and o == c['o'], 'the transform is changed')
        if c['dir'] != 'forward':
            expect(pns == [], 'direction', c['dir'], 'gives', pns)
            return
        expect(len(pns) == 1 and type(pns[0]).__name__ == 'Matrix', 'nodes', pns)
        plain = all(m[k] == 0.0 for k in ALPHA) and m[15] == 1.0 and o[3] == 0.0
        d = list(pns[0]._array.getDimensions())
        expect((d[0] == 3) == plain, 'dimensions', d, 'for alpha', 'plain' if plain else 'used')
        if plain: expect(d[1] == 3 or any(o[:3]), 'dimensions', d, 'without an offset')
        p = M.clf.ProcessList()
        p.addProcess(pns[0])
        for v in c['px']:
            w = [sum(m[r * 4 + k] * v[k] for k in range(4)) + o[r] for r in range(4)]
            got = p.process(np.array(v, np.float32), 4)
            expect(all(close(a, b, 1e-5, 1e-5) for a, b in zip(got, w)), 'colour', v, 'becomes', [float(x) for x in got], 'not', w)
            if plain:
                got = p.process(np.array(v[:3], np.float32), 3)
                expect(all(close(a, b, 1e-5, 1e-5) for a, b in zip(got, w)), 'colour', v[:3], 'becomes', [float(x) for x in got], 'not', w)


@kind('ociolog', [('C28', 40, 40)])
class OcioLog(object):
    @staticmethod
    def gen(rng, i): return {'base': [10, 2, 2.718281828, 10.0, 2.0, 3, 1, 8][i % 8], 'dir': ['forward', 'inverse', 'unknown'][i // 8 % 3], 'px': [rng.uniform(0.01, 3) for _ in range(3)]}

    @staticmethod
    def check(c):
        import math
        stub, M = ocio()
        pns = M.convertTransformsToProcessNodes(stub.LogTransform(c['base'], c['dir']))
        if c['base'] not in (2, 10):
            expect(pns == [], 'base', c['base'], 'gives', pns)
            return
        if c['dir'] == 'unknown': return
        expect(len(pns) == 1 and type(pns[0]).__name__ == 'Log', 'nodes', pns)
        got = pns[0].process(np.array(c['px'], np.float32), 3)
        w = [math.log(x, c['base']) if c['dir'] == 'forward' else c['base'] ** x for x in c['px']]
        expect(all(close(a, b, 1e-5, 1e-4) for a, b in zip(got, w)), 'log', got, w)


@kind('ociogroup', [('C28', 60, 600)])
class OcioGroup(object):
    @staticmethod
    def gen(rng, i):
        def tree(depth):
            out = []
            for _ in range(rng.randint(0, 4)):
                r = rng.random()
                if depth and r < 0.3: out.append(['g', tree(depth - 1)])
                elif r < 0.55: out.append(['l', pick(rng, [2, 10, 7]), pick(rng, ['forward', 'inverse'])])
                elif r < 0.8: out.append(['m', rnd(rng, -2, 2), pick(rng, ['forward', 'forward', 'inverse'])])
                elif r < 0.93: out.append(['f', pick(rng, ['forward', 'inverse']), pick(rng, ['linear', 'best']), rng.random() < 0.5])
                else: out.append(['x'])
            return out
        return {'tree': tree(2), 'maps': rng.random() < 0.5}

    @staticmethod
    def check(c):
        stub, M = ocio()
        want = []
        with Scratch() as d:
            f = os.path.join(d, 'a.spi1d')
            with open(f, 'w') as fp: fp.write('Version 1\nFrom 0 1\nLength 2\nComponents 1\n{\n0\n0.5\n}\n')

            def mk(t):
                if t[0] == 'g': return stub.GroupTransform([mk(x) for x in t[1]])
                if t[0] == 'l':
                    if t[1] != 7: want.append(['Log', {(2, 'forward'): 'log2', (2, 'inverse'): 'antiLog2', (10, 'forward'): 'log10', (10, 'inverse'): 'antiLog10'}[t[1], t[2]]])
                    return stub.LogTransform(t[1], t[2])
                if t[0] == 'm':
                    if t[2] == 'forward': want.append(['Matrix', t[1]])
                    return stub.MatrixTransform([t[1], 0., 0., 0., 0., 1., 0., 0., 0., 0., 1., 0., 0., 0., 0., 1.], [0.0] * 4, t[2])
                if t[0] == 'f':
                    want.append(['LUT1D', (0.25 if t[1] == 'forward' else 1.0)])
                    return stub.FileTransform('a.spi1d' if t[3] else f, t[2], t[1])
                return stub.Other()
            tr = stub.GroupTransform([mk(x) for x in c['tree']])
            pns = M.convertTransformsToProcessNodes(tr, d, c['maps'], False)
        pns = [p for p in pns if not (type(p).__name__ == 'Range')]
        expect([type(p).__name__ for p in pns] == [w[0] for w in want], 'nodes', [type(p).__name__ for p in pns], 'not', want)
        for p, w in zip(pns, want):
            if w[0] == 'Log': expect(p.getAttribute('style') == w[1], 'style', p.getAttribute('style'), w)
            elif w[0] == 'Matrix': expect(close(p.process(np.array([0.5, 0, 0], np.float32), 3)[0], 0.5 * w[1], 1e-6), 'matrix')
            elif w[1] == 0.25: expect(close(p.process(np.array([0.5], np.float32), 1)[0], 0.25, 1e-6), 'lut')
