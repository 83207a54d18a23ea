"""The specifications: what each operation of the format means, independently of the code.

Each function works on plain floats (o = Conc, used by the run-time monitors under the
repository's own interpreter) and on symbolic values (o = Sym, used by the verifier), so
that the proofs and the monitors judge against the same text."""
import math

SIZES = {'8i': 255, '10i': 1023, '12i': 4095, '16i': 65535}
LUMA = (0.2126, 0.7152, 0.0722)
FLT_MIN = 1.1754943508222875e-38


class Conc(object):
    """Operations on floats."""
    num = staticmethod(float)
    lt = staticmethod(lambda a, b: a < b)
    le = staticmethod(lambda a, b: a <= b)
    eq = staticmethod(lambda a, b: a == b)
    and_ = staticmethod(lambda *c: all(c))
    or_ = staticmethod(lambda *c: any(c))
    not_ = staticmethod(lambda c: not c)

    @staticmethod
    def ite(c, a, b): return a if c else b

    @staticmethod
    def pow(a, b):
        try:
            return math.pow(a, b)
        except OverflowError:
            return float('inf')
        except ValueError:
            return float('nan')

    @staticmethod
    def log10(a): return math.log10(a)
    @staticmethod
    def floor(a): return int(math.floor(a))


def size(depth):
    return SIZES.get(depth, 1)


def normalise(o, v, depth): return v / o.num(size(depth))
def denormalise(o, v, depth): return v * o.num(size(depth))


def mn(o, a, b): return o.ite(o.lt(b, a), b, a)
def mx(o, a, b): return o.ite(o.lt(a, b), b, a)
def clamp01(o, v): return mn(o, o.num(1), mx(o, o.num(0), v))


# ---------------------------------------------------------------- Range

def range_bounds(b, default):
    """(minIn, maxIn, minOut, maxOut) with None where not in use; normalised values."""
    mi, ma, no, xo = b
    return mi, ma, no, xo


def range_(o, x, ind, outd, bounds, default, style):
    """bounds: the four settings in code values or None, in the order minIn maxIn minOut maxOut."""
    mi, ma, no, xo = [None if v is None else v / o.num(size(d))
                      for v, d in zip(bounds, (ind, ind, outd, outd))]
    if default:
        if mi is None: mi = o.num(0)
        if ma is None: ma = o.num(1)
        if no is None: no = o.num(0)
        if xo is None: xo = o.num(1)
    y = normalise(o, x, ind)
    lo = hi = None
    if mi is not None and ma is not None and no is not None and xo is not None:
        y = no + (y - mi) * (xo - no) / (ma - mi)
        lo, hi = no, xo
    elif mi is not None and no is not None:
        y = y - mi + no
        lo = no
    elif ma is not None and xo is not None:
        y = y - ma + xo
        hi = xo
    if style == 'clamp':
        if lo is not None: y = mx(o, lo, y)
        if hi is not None: y = mn(o, hi, y)
    return denormalise(o, y, outd)


# ---------------------------------------------------------------- Matrix

def matrix_row(o, px, R, C, m, i):
    """Channel i < R of the product; px(j): channel j; m(k): row-major values."""
    s = o.num(0)
    for j in range(R): s = s + m(i * C + j) * px(j)
    if C == R + 1: s = s + m(i * C + R)
    return s


# ---------------------------------------------------------------- ASC CDL

def luma(o, c):
    return o.num(LUMA[0]) * c[0] + o.num(LUMA[1]) * c[1] + o.num(LUMA[2]) * c[2]


def cdl_kind(style):
    return {'Fwd': ('f', True), 'v1.2_Fwd': ('f', True), 'FwdNoClamp': ('f', False), 'noClampFwd': ('f', False),
            'Rev': ('r', True), 'v1.2_Rev': ('r', True), 'RevNoClamp': ('r', False), 'noClampRev': ('r', False)}[style]


def cdl(o, px, style, slope, offset, power, sat, ind, outd):
    """The three channels for the three input channels px."""
    way, cl = cdl_kind(style)
    v = [normalise(o, x, ind) for x in px]
    if way == 'f':
        t = []
        for i in range(3):
            u = v[i] * slope[i] + offset[i]
            if cl: t.append(o.pow(clamp01(o, u), power[i]))
            else: t.append(o.ite(o.lt(u, o.num(0)), u, o.pow(u, power[i])) if not isinstance(u, float)
                           else (u if u < 0 else o.pow(u, power[i])))
        y = luma(o, t)
        r = [y + sat * (t[i] - y) for i in range(3)]
        if cl: r = [clamp01(o, x) for x in r]
    else:
        if cl: v = [clamp01(o, x) for x in v]
        y = luma(o, v)
        r = []
        for i in range(3):
            u = y + (v[i] - y) / sat
            e = o.num(1) / power[i]
            if cl: u = o.pow(clamp01(o, u), e)
            else: u = o.ite(o.lt(u, o.num(0)), u, o.pow(u, e)) if not isinstance(u, float) \
                else (u if u < 0 else o.pow(u, e))
            x = (u - offset[i]) / slope[i]
            r.append(clamp01(o, x) if cl else x)
    return [denormalise(o, x, outd) for x in r]


# ---------------------------------------------------------------- 1D LUT

def lut1d(o, x, n, table):
    """x: normalised position; table(i): entry of this channel, 0 <= i < n."""
    pos = x * o.num(n - 1) if isinstance(n, int) else x * (n - 1)
    if isinstance(pos, float) and (pos != pos or pos in (float('inf'), float('-inf'))): return pos
    if isinstance(pos, float):
        if pos <= 0: return table(0)
        if pos >= n - 1: return table(n - 1)
        i = o.floor(pos)
        f = pos - i
        return (1 - f) * table(i) + f * table(i + 1)
    i = o.floor(pos)
    f = pos - i
    mid = (o.num(1) - f) * table(i) + f * table(i + 1)
    return o.ite(o.le(pos, o.num(0)), table(0), o.ite(o.le(n - 1, pos), table(n - 1), mid))


def indexmap(o, x, ins, outs):
    """Piecewise linear through the points (lists of equal length >= 2)."""
    n = len(ins)
    r = outs[n - 1]
    for i in range(n - 2, -1, -1):
        seg = outs[i] + (x - ins[i]) / (ins[i + 1] - ins[i]) * (outs[i + 1] - outs[i])
        r = o.ite(o.le(x, ins[i + 1]), seg, r)
    r = o.ite(o.le(ins[n - 1], x), outs[n - 1], r)
    return o.ite(o.le(x, ins[0]), outs[0], r)


# ---------------------------------------------------------------- 3D LUT

def _cell(o, x, d):
    t = clamp01(o, x) * o.num(d - 1) if isinstance(d, int) else clamp01(o, x) * (d - 1)
    i = o.floor(t)
    f = t - i
    if isinstance(t, float):
        return i, min(i + 1, d - 1), f
    return i, o.ite(o.lt(i + 1, d), i + 1, d - 1), f


def trilinear(o, px, dims, table):
    """table(r, g, b): value of one output channel at a grid point."""
    (r0, r1, fr), (g0, g1, fg), (b0, b1, fb) = [_cell(o, px[k], dims[k]) for k in range(3)]
    one = o.num(1)
    s = o.num(0)
    for r, wr in ((r0, one - fr), (r1, fr)):
        for g, wg in ((g0, one - fg), (g1, fg)):
            for b, wb in ((b0, one - fb), (b1, fb)):
                s = s + wr * wg * wb * table(r, g, b)
    return s


def tetrahedral(o, px, dims, table):
    cells = [_cell(o, px[k], dims[k]) for k in range(3)]
    f = [c[2] for c in cells]

    def corner(up): return table(*[cells[k][1] if up[k] else cells[k][0] for k in range(3)])

    def tetra(a, b, c):
        """fractions in the order f[a] >= f[b] >= f[c]"""
        u = [0, 0, 0]
        v = (o.num(1) - f[a]) * corner(u)
        u[a] = 1
        v = v + (f[a] - f[b]) * corner(u)
        u[b] = 1
        v = v + (f[b] - f[c]) * corner(u)
        u[c] = 1
        return v + f[c] * corner(u)
    perms = [(0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)]
    r = tetra(*perms[-1])
    for a, b, c in perms[-2::-1]:
        r = o.ite(o.and_(o.le(f[b], f[a]), o.le(f[c], f[b])), tetra(a, b, c), r)
    return r


# ---------------------------------------------------------------- Gamma

def per_channel(params, defaults, k):
    """The last setting that applies to each of the channels: params = [(values..., channel)]."""
    out = [list(defaults) for _ in range(3)]
    for p in params:
        for c in range(3):
            if p[k] is None or p[k] == 'RGB'[c]: out[c] = list(p[:k])
    return out


def gamma(o, x, style, g, off, ind, outd):
    v = normalise(o, x, ind)
    one = o.num(1)
    if style == 'basicFwd': r = o.pow(mx(o, o.num(0), v), g)
    elif style == 'basicRev': r = o.pow(mx(o, o.num(0), v), one / g)
    elif style == 'moncurveFwd':
        brk = off / (g - one)
        base = g * off / ((g - one) * (off + one))
        lin = v * ((g - one) / off) * o.pow(base, g)
        if isinstance(v, float):
            r = lin if v <= brk else o.pow(max(0.0, (v + off) / (off + 1)), g)
        else:
            r = o.ite(o.le(v, brk), lin, o.pow(mx(o, o.num(0), (v + off) / (off + one)), g))
    else:
        base = g * off / ((g - one) * (off + one))
        brk = o.pow(base, g)
        lin = v * o.pow((g - one) / off, g - one) * o.pow((one + off) / g, g)
        r = o.ite(o.le(v, brk), lin, o.pow(mx(o, o.num(0), v), one / g) * (one + off) - off)
    return denormalise(o, r, outd)


# ---------------------------------------------------------------- Log

def log(o, x, style, p, ind, outd):
    """p = gamma, refWhite, refBlack, highlight, shadow."""
    v = normalise(o, x, ind)
    g, white, black, high, shadow = p
    tiny = o.num(FLT_MIN)
    if style == 'log10': r = o.log10(mx(o, v, tiny))
    elif style == 'log2': r = o.log10(mx(o, v, tiny)) / o.log10(o.num(2))
    elif style == 'antiLog10': r = o.pow(o.num(10), v)
    elif style == 'antiLog2': r = o.pow(o.num(2), v)
    else:
        rb = o.pow(o.num(10), mn(o, o.num(-0.00001), (black - white) * o.num(0.002) / g))
        gain = (high - shadow) / (o.num(1) - rb)
        if style == 'logToLin':
            r = (o.pow(o.num(10), (v * o.num(1023) - white) * o.num(0.002) / g) - rb) * gain + shadow
        else:
            e = rb + (v - shadow) / gain
            r = (white + o.log10(mx(o, tiny, e)) * g / o.num(0.002)) / o.num(1023)
    return denormalise(o, r, outd)


# ---------------------------------------------------------------- ExposureContrast

def exposure_contrast(o, x, style, exposure, contrast, pivot, ind, outd):
    v = normalise(o, x, ind)
    two, zero = o.num(2), o.num(0)
    if style == 'linear':
        r = pivot * o.pow(mx(o, zero, o.pow(two, exposure) * v / pivot), contrast)
    elif style == 'video':
        k = o.num(1) / o.num(1.83)
        r = o.pow(pivot, k) * o.pow(mx(o, zero, v * o.pow(o.pow(two, exposure) / pivot, k)), contrast)
    else:
        s = o.num(0.6) / o.num(2.046)
        lp = s * o.log10(pivot / o.num(0.9)) + o.num(685) / o.num(1023)
        r = (v + exposure * s * o.log10(two) - lp) * contrast + lp
    return denormalise(o, r, outd)
