"""Half-floats, bit patterns and buffers.

Two models of the numpy scalars and of struct, chosen by the scenario (en.half):

BitModel   scalars are bit vectors, conversions between float widths are IEEE-754 (z3's
           floating-point theory), a buffer is its bytes in little-endian order.
Model      a half is its pattern (an integer) and its value HV(pattern) (a real); the
           pattern of a real is RND(real). What is assumed of HV and RND is axioms(), which
           the scenario 'axioms' checks for all 65536 patterns, and IEEE rounding to nearest.
"""
import z3
from fractions import Fraction
from . import engine as E_
from . import lib
from .vals import *

HV = z3.Function('HV', z3.IntSort(), z3.RealSort())
RND = z3.Function('RND', z3.RealSort(), z3.IntSort())
TOP, INF, NEG, NTOP, NINF = 31743, 31744, 32768, 64511, 64512
OVER = 65520                      # from here on a real rounds to infinity


# ------------------------------------------------------------------ formats

def struct_fmt(fmt):
    order, codes = 'native', fmt
    if fmt[:1] in '<>=!@': order, codes = fmt[0], fmt[1:]
    big = order in '>!'
    tab = {'B': ('u', 8), 'H': ('u', 16), 'I': ('u', 32), 'L': ('u', 32 if order in '<>=!' else 64), 'Q': ('u', 64),
           'e': ('f', 16), 'f': ('f', 32), 'd': ('f', 64)}
    if not codes or any(x not in tab for x in codes): raise Unsupported('struct format %r' % fmt)
    if order in ('native', '@') and len(codes) > 1: raise Unsupported('native alignment')
    return big, [tab[x] for x in codes]


def np_fmt(d):
    """(big, kind, width) of a dtype argument."""
    if isinstance(d, E_.ExtClass): d = d.name
    if not isinstance(d, str): raise Unsupported('dtype')
    big = d[:1] in '>!'
    n = d.lstrip('<>=!')
    tab = {'float16': ('f', 16), 'half': ('f', 16), 'float32': ('f', 32), 'single': ('f', 32), 'float64': ('f', 64), 'double': ('f', 64),
           'float': ('f', 64), 'float_': ('f', 64), 'f2': ('f', 16), 'f4': ('f', 32), 'f8': ('f', 64), 'uint8': ('u', 8),
           'uint16': ('u', 16), 'uint32': ('u', 32), 'uint64': ('u', 64), 'u1': ('u', 8), 'u2': ('u', 16), 'u4': ('u', 32), 'u8': ('u', 64)}
    if n not in tab: raise Unsupported('dtype %s' % d)
    return (big,) + tab[n]


# ------------------------------------------------------------------ bit-precise

SORTS = {16: z3.FPSort(5, 11), 32: z3.Float32(), 64: z3.Float64()}


class Bits(object):
    """A scalar known by its bits. kind: 'u' (unsigned integer, numpy or Python) or 'f'."""
    noloop = True
    def __init__(self, kind, w, e): self.kind, self.w, self.e = kind, w, e
    def fp(self): return z3.fpBVToFP(self.e, SORTS[self.w])
    def __repr__(self): return 'Bits(%s%d,%s)' % (self.kind, self.w, self.e)

    def pyfloat(self, en):
        if self.kind == 'f': return widen(en, self, 64)
        raise Unsupported('float of an integer scalar')

    def pyint(self, en):
        if self.kind == 'u': return self
        raise Unsupported('int of a float scalar')

    def pyattr(self, en, name):
        if name == 'view': return E_.Ext('view', lambda e, a, k: e.half.frombuffer(e, [Raw(bytes_of(self))] + list(a), k)[0])
        if name in ('tobytes', 'tostring', '__py2_tobytes__'): return E_.Ext(name, lambda e, a, k: Raw(bytes_of(self)))
        if name == 'item': return E_.Ext('item', lambda e, a, k: widen(e, self, 64) if self.kind == 'f' else self)
        if name == 'data': return Raw(bytes_of(self))
        raise Unsupported('attribute %s of a numpy scalar' % name)


class Raw(object):
    """Bytes: a tuple of 8-bit vectors."""
    noloop = True
    def __init__(self, bs): self.bs = tuple(bs)

    def pyattr(self, en, name):
        if name == 'hex': return E_.Ext('hex', lambda e, a, k: lib.HexT(self))
        if name in ('encode', 'decode', 'tobytes'): raise Unsupported('bytes.%s' % name)
        raise Unsupported('attribute %s of bytes' % name)


def bytes_of(b):
    """Little-endian."""
    return [z3.simplify(z3.Extract(8 * i + 7, 8 * i, b.e)) for i in range(b.w // 8)]


def of_bytes(bs):
    return z3.simplify(z3.Concat(*reversed(bs))) if len(bs) > 1 else bs[0]


def nan(b): return B(z3.fpIsNaN(b.fp()))


def widen(en, b, w):
    """A float scalar converted to another width, rounding to nearest even."""
    if b.w == w: return b
    v = z3.fpFPToFP(z3.RNE(), b.fp(), SORTS[w])
    en.counter += 1
    r = z3.BitVec('bits!%d' % en.counter, w)
    en.assume(B(z3.fpBVToFP(r, SORTS[w]) == v))       # for a NaN: some NaN
    return Bits('f', w, r)


class BitModel(object):
    def scalar(self, en, kind, w, v):
        if isinstance(v, Bits):
            if v.kind == kind == 'f': return widen(en, v, w)
            if v.kind == kind == 'u':
                if v.w == w: return v
                if v.w < w: return Bits('u', w, z3.ZeroExt(w - v.w, v.e))
                hi = z3.Extract(v.w - 1, w, v.e)
                if en.known(B(hi == 0)): return Bits('u', w, z3.Extract(w - 1, 0, v.e))
            raise Unsupported('conversion between integer and float scalars')
        if isinstance(v, (str, T)) and kind == 'u': return self.scalar(en, kind, w, lib.to_int(en, v))     # numpy parses text
        if isinstance(v, int) and not isinstance(v, bool) and kind == 'u' and 0 <= v < 2 ** w: return Bits('u', w, z3.BitVecVal(v, w))
        return None

    def cast(self, en, v):
        r = self.scalar(en, 'f', 16, v)
        return v if r is None else r

    def getbuffer(self, en, v):
        if isinstance(v, Raw): return v
        if isinstance(v, Bits): return Raw(bytes_of(v))
        raise Unsupported('buffer of %s' % en.tname(v))

    def frombuffer(self, en, a, k):
        raw = a[0]
        if isinstance(raw, Bits): raw = Raw(bytes_of(raw))
        if not isinstance(raw, Raw) or set(k) - {'dtype'}: raise Unsupported('frombuffer')
        big, kind, w = np_fmt(a[1] if len(a) > 1 else k.get('dtype'))
        n = w // 8
        if len(raw.bs) % n: en.pyraise('ValueError')
        out = []
        for i in range(0, len(raw.bs), n):
            bs = list(raw.bs[i:i + n])
            if big: bs.reverse()
            out.append(Bits(kind, w, of_bytes(bs)))
        return tuple(out)

    def pack(self, en, fmt, *vals):
        big, fs = struct_fmt(fmt)
        if len(fs) != len(vals): en.pyraise('ValueError')
        out = []
        for (kind, w), v in zip(fs, vals):
            b = self.scalar(en, kind, w, v)
            if b is None: raise Unsupported('struct.pack of %s' % en.tname(v))
            bs = bytes_of(b)
            if big: bs.reverse()
            out += bs
        return Raw(out)

    def unpack(self, en, fmt, raw):
        big, fs = struct_fmt(fmt)
        if not isinstance(raw, Raw): raise Unsupported('struct.unpack')
        if sum(w for _, w in fs) != 8 * len(raw.bs): en.pyraise('ValueError')
        out, i = [], 0
        for kind, w in fs:
            bs = list(raw.bs[i:i + w // 8])
            i += w // 8
            if big: bs.reverse()
            b = Bits(kind, w, of_bytes(bs))
            out.append(widen(en, b, 64) if kind == 'f' else b)
        return tuple(out)


# ------------------------------------------------------------------ patterns and values

class UInt(int):
    """A concrete numpy unsigned scalar."""
    width = 16


class UIntN(N):
    """A symbolic numpy unsigned scalar of a width."""
    __slots__ = ('width',)


class Buf(object):
    noloop = True
    def __init__(self, v): self.v = v


def is_finite(b): return bor(band(le(0, b), le(b, TOP)), band(le(NEG, b), le(b, NTOP)))


def pos(b): return z3.And(b >= 0, b <= TOP)
def neg(b): return z3.And(b >= NEG, b <= NTOP)


def unary(b):
    h = HV(b)
    return [z3.Implies(pos(b), z3.And(h >= 0, h <= 65504, (b == 0) == (h == 0), (b == TOP) == (h == 65504))),
            z3.Implies(neg(b), z3.And(h <= 0, h >= -65504, (b == NEG) == (h == 0), (b == NTOP) == (h == -65504)))]


def binary(a, b):
    return [z3.Implies(z3.And(pos(a), pos(b)), z3.And((a < b) == (HV(a) < HV(b)), (a == b) == (HV(a) == HV(b)))),
            z3.Implies(z3.And(neg(a), neg(b)), z3.And((a < b) == (HV(a) > HV(b)), (a == b) == (HV(a) == HV(b))))]


def nearest(x, r):
    return [z3.Or(pos(r), neg(r)), z3.Implies(x > 0, pos(r)), z3.Implies(x < 0, neg(r)),
            z3.Implies(z3.And(pos(r), r < TOP), x - HV(r) <= HV(r + 1) - x),
            z3.Implies(z3.And(pos(r), r > 0), HV(r) - x <= x - HV(r - 1)),
            z3.Implies(z3.And(neg(r), r < NTOP), HV(r) - x <= x - HV(r + 1)),
            z3.Implies(z3.And(neg(r), r > NEG), x - HV(r) <= HV(r - 1) - x)]


def axioms():
    """What unary, binary (for neighbours, from which all pairs follow) say of each pattern."""
    import struct
    hv = lambda b: Fraction(struct.unpack('<e', struct.pack('<H', b))[0])
    bad = []
    P = [hv(b) for b in range(0, TOP + 1)]
    M = [hv(b) for b in range(NEG, NTOP + 1)]
    if P[0] != 0 or P[-1] != 65504 or any(not u < v for u, v in zip(P, P[1:])): bad.append('positive patterns')
    if M[0] != 0 or M[-1] != -65504 or any(not u > v for u, v in zip(M, M[1:])): bad.append('negative patterns')
    if any(u != -v for u, v in zip(P, M)): bad.append('sign')
    f = lambda b: struct.unpack('<e', struct.pack('<H', b))[0]
    if f(INF) != float('inf') or f(NINF) != float('-inf'): bad.append('infinities')
    if any(f(b) == f(b) for r in (range(INF + 1, NEG), range(NINF + 1, 65536)) for b in r): bad.append('nan')
    return bad


class Model(object):
    """terms known on a path are found again in the facts, so nothing outlives its path."""

    def __init__(self): self.memo = {}

    def known_terms(self, en):
        out, seen = [], set()
        for f in en.facts + en.branches:
            k = f.get_id()
            if k not in self.memo: self.memo[k] = (hv_args(f), f)
            for t in self.memo[k][0]:
                if t.get_id() not in seen:
                    seen.add(t.get_id())
                    out.append(t)
        return out

    def register(self, en, *bits):
        for b in bits:
            b = z3.simplify(b if not isinstance(b, int) else z3.IntVal(b))
            old = self.known_terms(en)
            if any(b.eq(t) for t in old): continue
            fs = unary(b)
            for t in old: fs += binary(t, b)
            for f in fs: en.assume(B(f))

    def half(self, en, b):
        """The half with pattern b."""
        e = zi(b)
        if en.decide(is_finite(b)):
            self.register(en, 0, TOP, NEG, NTOP, e)
            return lib.Half(HV(z3.simplify(e)), b)
        if en.decide(eq(b, INF)): return lib.Half('inf', b)
        if en.decide(eq(b, NINF)): return lib.Half('-inf', b)
        return lib.Half('nan', b)

    def cast(self, en, v):
        if isinstance(v, lib.Half): return v
        if isinstance(v, (bool, B)): v = en.bool_int(v)
        if not isnum(v): raise Unsupported('float16 of %s' % en.tname(v))
        if special(v):
            if v.e != 'nan': return lib.Half(v.e, INF if v.e == 'inf' else NINF)
            b = en.fresh('nanbits', 'i')
            en.assume(bor(band(le(INF + 1, b), lt(b, NEG)), band(le(NINF + 1, b), le(b, 65535))))
            return lib.Half('nan', b)
        if en.decide(le(OVER, v)): return lib.Half('inf', INF)
        if en.decide(le(v, -OVER)): return lib.Half('-inf', NINF)
        x = z3.simplify(zr(v))
        r = RND(x)
        self.register(en, 0, TOP, NEG, NTOP)
        for f in nearest(x, r): en.assume(B(f))
        self.register(en, r, r + 1, r - 1)
        for t in self.known_terms(en):
            if not t.eq(r): en.assume(B(z3.Implies(z3.And(x == HV(t), z3.Or(pos(t), neg(t)), x != 0), r == t)))
        return lib.Half(HV(r), N('i', r))

    def scalar(self, en, kind, w, v):
        """np.uintW(v): a typed integer."""
        if kind == 'f': return None
        if isinstance(v, (UInt, UIntN)) and v.width == w: return v
        if not isint(v): return None
        if isinstance(v, int):
            if not 0 <= v < 2 ** w: raise Unsupported('an unsigned scalar out of range')
            r = UInt(v)
        else:
            if not en.decide(band(le(0, v), lt(v, 2 ** w))): raise Unsupported('an unsigned scalar out of range')
            r = UIntN('i', v.e)
        r.width = w
        return r

    def getbuffer(self, en, v):
        if isinstance(v, (UInt, UIntN, lib.Half)): return Buf(v)
        raise Unsupported('buffer of %s' % en.tname(v))

    def frombuffer(self, en, a, k):
        v = a[0].v if isinstance(a[0], Buf) else a[0]
        big, kind, w = np_fmt(a[1] if len(a) > 1 else k.get('dtype'))
        if big or w != 16: raise Unsupported('frombuffer')
        if isinstance(v, (UInt, UIntN)) and v.width == 16:
            return ((self.half(en, v),) if kind == 'f' else (v,))
        if isinstance(v, lib.Half):
            return ((v,) if kind == 'f' else (self.scalar(en, 'u', 16, v.bits),))
        raise Unsupported('frombuffer of %s' % en.tname(v))

    def pack(self, en, fmt, *vals): raise Unsupported('struct.pack')
    def unpack(self, en, fmt, raw): raise Unsupported('struct.unpack')


def hv_args(f):
    out, seen, st = [], set(), [f]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): continue
        if z3.is_app(x):
            if x.decl().eq(HV) and not has_var(x): out.append(x.arg(0))
            st.extend(x.children())
    return out


def has_var(e):
    st = [e]
    while st:
        x = st.pop()
        if z3.is_var(x): return True
        st.extend(x.children())
    return False
