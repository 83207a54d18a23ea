"""Models of the builtins and external libraries the code calls (the trusted base)."""
import ast
import re
import math
import z3
from fractions import Fraction
from .vals import *
from .vals import _num
from . import engine as E_


def R(e):
    return E_.real_of(e)


# ------------------------------------------------------------------ containers

def write_get(old, idx, v):
    def get(ix):
        c = True
        for a, b in zip(ix, idx):
            c = band(c, eq(a, b))
            if c is False: break
        if c is True: return v
        if c is False: return old(ix)
        return alt(c, v, old(ix))
    return get


def range_get(old, lo, hi, src, off=0):
    """Index k in [lo,hi) -> src(k-lo), else old."""
    def get(ix):
        k = ix[0]
        c = band(le(lo, k), lt(k, hi))
        if c is True: return src(sub(k, lo))
        if c is False: return old(ix)
        return alt(c, src(sub(k, lo)), old(ix))
    return get


def cell_read(en, ref, idx):
    st = en.st(ref)
    for lg in st.logs: lg.read(en, idx)
    try:
        return thaw(en, st.get(tuple(idx)))
    except Unsupported:
        raise


def thaw(en, v):
    while isinstance(v, Alt): v = v.a if en.decide(v.c) else v.b
    if isinstance(v, tuple) and any(hasattr(x, 'cells') for x in v): return tuple(thaw(en, x) for x in v)
    return v.cells(en) if hasattr(v, 'cells') else v


def freeze(en, v):
    """A value to be stored inside a symbolic container."""
    if isinstance(v, E_.Ref) and v.kind == 'list':
        return Frozen([freeze(en, x) for x in en.st(v).items], 'list')
    if isinstance(v, E_.View):
        n = v.n
        if isinstance(n, int):
            return Frozen([cell_read(en, v.base, (add(v.off, i),)) for i in range(n)], 'arr')
    return v


def conv_dtype(en, st, v):
    if st.arr and st.dtype == 'f':
        if isinstance(v, (bool, B)): v = en.bool_int(v)
        if isnum(v): return R(v)
        if isinstance(v, Ab) and hasattr(v.model, 'stored'): return v.model.stored(en, v, getattr(st.dtype, 'w', 32))
        raise Unsupported('%s stored in a float array' % en.tname(v))
    return v


class DType(str):
    """A float dtype that knows its width."""
    w = 32


def dtype(w):
    d = DType('f')
    d.w = w
    return d


def cell_write(en, ref, idx, v):
    st = en.st(ref)
    for lg in st.logs: lg.write(en, idx, idx)
    v = conv_dtype(en, st, v)
    if not st.arr: v = freeze(en, v)
    en.put(ref, st.with_get(write_get(st.get, tuple(idx), v)))


def seq_len(en, v):
    if isinstance(v, (str, tuple)): return len(v)
    if isinstance(v, Frozen): return len(v.items)
    if isinstance(v, E_.View): return v.n
    if isinstance(v, RangeV): return v.n
    if isinstance(v, E_.MView):
        return en.st(v.base).shape[len(v.idx)]
    if isinstance(v, E_.Ref):
        st = en.st(v)
        if isinstance(st, (E_.ListS, E_.SetS)): return len(st.items)
        if isinstance(st, E_.CellS): return st.shape[0]
        if isinstance(st, E_.DictS): return len(st.d)
        if isinstance(st, E_.InstS) and isinstance(st.cls, E_.Ref):
            c = en.class_attr(st.cls, '__len__')
            if c is not None: return en.call(E_.Bound(c, v), [], {})
    if isinstance(v, Ab) and v.model is not None and hasattr(v.model, 'len'):
        return v.model.len(en, v)
    if v is None or isinstance(v, (N, bool, int)): en.pyraise('TypeError', 'no len')
    raise Unsupported('len of %s' % en.tname(v))


class RangeV(object):
    """range(lo, lo+n*step, step)."""
    noloop = True

    def __init__(self, lo, n, step): self.lo, self.n, self.step = lo, n, step
    def at(self, i): return add(self.lo, mul(self.step, i))


def seq_at(en, v, i):
    """Element i (known to be in range) of a sequence."""
    if isinstance(v, RangeV): return v.at(i)
    if isinstance(v, (tuple, Frozen)) or isinstance(v, E_.Ref) and isinstance(en.st(v), (E_.ListS, E_.SetS)):
        its = v if isinstance(v, tuple) else v.items if isinstance(v, Frozen) else en.st(v).items
        if isinstance(i, int): return its[i]
        r = its[-1]
        for j in range(len(its) - 2, -1, -1): r = ite(eq(i, j), its[j], r)
        return r
    if isinstance(v, E_.View): return cell_read(en, v.base, (add(v.off, i),))
    if isinstance(v, E_.MView):
        st = en.st(v.base)
        if len(v.idx) + 1 == len(st.shape): return cell_read(en, v.base, v.idx + (i,))
        return E_.MView(v.base, v.idx + (i,))
    if isinstance(v, E_.Ref):
        st = en.st(v)
        if isinstance(st, E_.CellS):
            if len(st.shape) > 1: return E_.MView(v, (i,))
            return cell_read(en, v, (i,))
        if isinstance(st, E_.InstS):
            return en.call(en.getattr(v, '__getitem__'), [i], {})
    if isinstance(v, str) and isinstance(i, int): return v[i]
    raise Unsupported('element of %s' % en.tname(v))


def snapshot_seq(en, v):
    """A frozen getter of a sequence's present contents: (n, i -> value)."""
    n = seq_len(en, v)
    if isinstance(v, E_.View):
        st = en.st(v.base)
        for lg in st.logs: lg.read_range(en, v.off, add(v.off, n))
        return n, lambda i: thaw(en, st.get((add(v.off, i),)))
    if isinstance(v, E_.Ref) and isinstance(en.st(v), E_.CellS):
        st = en.st(v)
        if len(st.shape) > 1: raise Unsupported('copy of a nested container')
        for lg in st.logs: lg.read_range(en, 0, n)
        return n, lambda i: thaw(en, st.get((i,)))
    if isinstance(v, E_.MView):
        st = en.st(v.base)
        if len(v.idx) + 1 != len(st.shape): raise Unsupported('copy of a nested container')
        for lg in st.logs: lg.read(en, v.idx + (0,))
        return n, lambda i: st.get(v.idx + (i,))
    if isinstance(v, RangeV): return n, v.at
    if isinstance(n, int):
        its = items_of(en, v)

        def get(i, its=tuple(its)):
            if isinstance(i, int): return its[i]
            if not its: return 0
            r = its[-1]
            for j in range(len(its) - 2, -1, -1): r = ite(eq(i, j), its[j], r)
            return r
        return n, get
    raise Unsupported('copy of %s' % en.tname(v))


def items_of(en, v):
    return items(en, v)


def items(en, v):
    if isinstance(v, tuple): return list(v)
    if isinstance(v, Frozen): return list(v.items)
    if isinstance(v, str): return list(v)
    if isinstance(v, E_.Ref):
        st = en.st(v)
        if isinstance(st, (E_.ListS, E_.SetS)): return list(st.items)
        if isinstance(st, E_.DictS): return list(st.d)
        if isinstance(st, E_.InstS) and isinstance(st.cls, E_.Ref):
            it = en.class_attr(st.cls, '__iter__')
            if it is not None: return items(en, en.call(E_.Bound(it, v), [], {}))
        if isinstance(st, E_.InstS) and isinstance(st.cls, E_.ExtClass) and '__iter__' in st.cls.attrs:
            return items(en, en.call(E_.Bound(st.cls.attrs['__iter__'], v), [], {}))
    if v is None or isinstance(v, (bool, int, N, B)): en.pyraise('TypeError', 'not iterable')
    if isinstance(v, Ab) and v.model is not None and hasattr(v.model, 'items'):
        return v.model.items(en, v)
    n = seq_len(en, v)
    k = conc(n)
    if k is None:
        k = only_value(en, n)
    return [seq_at(en, v, i) for i in range(int(k))]


def only_value(en, n):
    """The single possible value of an integer term, or Unsupported."""
    if en.lin.check() != z3.sat: raise Unsupported('length of an iterable')
    k = en.lin.model().eval(zi(n), model_completion=True).as_long()
    if en.lin_refutes(zi(n) != k): return k
    raise Unsupported('iteration over a sequence of unknown length')


def mklist_cells(en, n, get):
    """A list of n elements from a getter of one index."""
    if isinstance(n, int) and n <= 64:
        return en.mklist([get(i) for i in range(n)])
    return en.mkcells((n,), lambda ix: get(ix[0]))


def norm_slice(en, s, n):
    def norm(x, d):
        if x is None: return d
        if not isint(x): en.pyraise('TypeError', 'slice index')
        if isinstance(x, int) and isinstance(n, int):
            if x < 0: x += n
            return max(0, min(x, n))
        if en.decide(lt(x, 0)):
            x = add(x, n)
            if en.decide(lt(x, 0)): return 0
        if x is n or eq(x, n) is True: return x
        if en.decide(lt(n, x)): return n
        return x
    if s.step not in (None, 1):
        raise Unsupported('slice step')
    a, b = norm(s.start, 0), norm(s.stop, n)
    if a is b or en.decide(le(a, b)): return a, b
    return a, a


def index_norm(en, k, n):
    """A Python index: bounds checked, negative made positive."""
    if isinstance(k, (bool,)): k = int(k)
    if not isint(k):
        en.pyraise('TypeError', 'index')
    if isinstance(k, int) and isinstance(n, int):
        if not -n <= k < n: en.pyraise('IndexError')
        return k + n if k < 0 else k
    if en.dry: return k
    if en.decide(lt(k, 0)):
        k = add(k, n)
        if en.decide(lt(k, 0)): en.pyraise('IndexError')
    if not en.decide(lt(k, n)): en.pyraise('IndexError')
    return k


def getitem(en, o, k):
    if isinstance(o, E_.Ref):
        st = en.st(o)
        if isinstance(st, E_.DictS):
            if isinstance(k, S):
                for kk in st.d:
                    if isinstance(kk, str) and en.decide(en.equal(k, kk)): return st.d[kk]
                en.pyraise('KeyError')
            kk = en.key(k)
            if kk not in st.d: en.pyraise('KeyError', kk if isinstance(kk, str) else str(kk))
            v = st.d[kk]
            if isinstance(v, E_.Poison): raise E_.PoisonRead(v.token)
            return v
        if isinstance(st, E_.InstS):
            return en.call(en.getattr(o, '__getitem__'), [k], {})
    if isinstance(o, Ab) and o.model is not None and hasattr(o.model, 'getitem'):
        return o.model.getitem(en, o, k)
    if isinstance(o, T):
        raise Unsupported('subscript of a structured text')
    if isinstance(k, slice):
        if isinstance(o, str) or isinstance(o, tuple):
            if k.step is not None and not isinstance(k.step, int): raise Unsupported('slice step')
            if all(x is None or isinstance(x, int) for x in (k.start, k.stop)):
                return o[k]
        n = seq_len(en, o)
        if isinstance(o, E_.Ref) and isinstance(en.st(o), E_.ListS):
            if all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step)):
                return en.mklist(en.st(o).items[k])
        if k.step not in (None, 1):
            if isinstance(k.step, int) and k.step > 1 or isinstance(k.step, N):
                a, b = norm_slice(en, slice(k.start, k.stop), n)
                nn, get = snapshot_seq(en, o)
                if isinstance(k.step, N) and not en.known(lt(0, k.step)): raise Unsupported('slice step')
                m = en.floordiv(sub(add(sub(b, a), k.step), 1), k.step)
                if isinstance(o, E_.View): raise Unsupported('strided view')
                return mklist_cells(en, m, lambda i: get(add(a, mul(i, k.step))))
            raise Unsupported('slice step')
        a, b = norm_slice(en, k, n)
        if isinstance(o, E_.View):
            return E_.View(o.base, add(o.off, a), sub(b, a))
        if isinstance(o, Frozen):
            if isinstance(a, int) and isinstance(b, int):
                return en.mklist(o.items[a:b]) if o.kind == 'list' else arr_from(en, o.items[a:b])
        nn, get = snapshot_seq(en, o)
        return mklist_cells(en, sub(b, a), lambda i: get(add(a, i)))
    if isinstance(k, tuple):
        for x in k: o = getitem(en, o, x)
        return o
    if isinstance(o, (E_.Ref, E_.View, E_.MView, tuple, str, Frozen, RangeV)):
        n = seq_len(en, o)
        i = index_norm(en, k, n)
        if isinstance(o, str):
            if isinstance(i, int): return o[i]
            raise Unsupported('character at unknown position')
        try:
            return seq_at(en, o, i)
        except Unsupported:
            if isinstance(i, int) or not isinstance(n, int): raise
            for j in range(n):
                if en.decide(eq(i, j)): return seq_at(en, o, j)
            raise
    en.pyraise('TypeError', 'not subscriptable')


def setitem(en, o, k, v):
    if isinstance(o, E_.Ref):
        st = en.st(o)
        if isinstance(st, E_.DictS):
            d = dict(st.d)
            d[en.key(k)] = v
            en.put(o, E_.DictS(d))
            return
        if isinstance(st, E_.InstS):
            en.call(en.getattr(o, '__setitem__'), [k, v], {})
            return
    if isinstance(k, tuple):
        for x in k[:-1]: o = getitem(en, o, x)
        return setitem(en, o, k[-1], v)
    if isinstance(k, slice):
        n = seq_len(en, o)
        if isinstance(o, E_.Ref) and isinstance(en.st(o), E_.ListS) and \
                all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step)):
            l = list(en.st(o).items)
            l[k] = items(en, v)
            en.put(o, E_.ListS(l))
            return
        a, b = norm_slice(en, k, n)
        if isnum(v):
            m, get = sub(b, a), (lambda i, v=v: v)
        else:
            m, get = snapshot_seq(en, v)
        if not en.decide(eq(m, sub(b, a))):
            if isinstance(o, E_.View): en.pyraise('ValueError', 'shape')
            raise Unsupported('slice assignment that changes the length')
        if isinstance(o, E_.View):
            base, off = o.base, o.off
        elif isinstance(o, E_.Ref):
            base, off = o, 0
        else:
            raise Unsupported('slice assignment to %s' % en.tname(o))
        st = en.st(base)
        if isinstance(st, E_.ListS):
            l = list(st.items)
            for j in range(len(l)):
                c = band(le(a, j), lt(j, b))
                if c is not False: l[j] = ite(c, get(sub(j, a)), l[j])
            en.put(base, E_.ListS(l))
            return
        lo, hi = add(off, a), add(off, b)
        for lg in st.logs: lg.write(en, (lo,), (sub(hi, 1),))
        if isinstance(m, int) and m <= 8:
            g = st.get
            for j in range(m):
                x = conv_dtype(en, st, get(j))
                if not st.arr: x = freeze(en, x)
                g = write_get(g, (add(lo, j),), x)
        else:
            g = range_get(st.get, lo, hi, lambda i: conv_dtype(en, st, get(i)))
        en.put(base, st.with_get(g))
        return
    n = seq_len(en, o)
    i = index_norm(en, k, n)
    if isinstance(o, E_.View):
        return cell_write(en, o.base, (add(o.off, i),), v)
    if isinstance(o, E_.MView):
        st = en.st(o.base)
        if len(o.idx) + 1 == len(st.shape):
            return cell_write(en, o.base, o.idx + (i,), v)
        raise Unsupported('assignment of a row of a nested container')
    if isinstance(o, E_.Ref):
        st = en.st(o)
        if isinstance(st, E_.ListS):
            l = list(st.items)
            if isinstance(i, int): l[i] = v
            else:
                for j in range(len(l)): l[j] = ite(eq(i, j), v, l[j])
            en.put(o, E_.ListS(l))
            return
        if isinstance(st, E_.CellS):
            if len(st.shape) != 1: raise Unsupported('assignment of a row of a nested container')
            return cell_write(en, o, (i,), v)
    raise Unsupported('item assignment on %s' % en.tname(o))


def list_extend(en, l, v):
    st = en.st(l)
    n = None
    try:
        n = conc(seq_len(en, v))
    except Unsupported:
        pass
    if isinstance(st, E_.ListS) and (n is not None or isinstance(v, (tuple,))):
        en.put(l, E_.ListS(st.items + tuple(items(en, v))))
        return
    m, get = snapshot_seq(en, v)
    if isinstance(st, E_.ListS) and not st.items:
        en.put(l, E_.CellS((m,), lambda ix: get(ix[0])))
        return
    n0, g0 = snapshot_seq(en, l)

    def g(ix):
        c = lt(ix[0], n0)
        if c is True: return g0(ix[0])
        if c is False: return get(sub(ix[0], n0))
        try:
            return ite(c, g0(ix[0]), get(sub(ix[0], n0)))
        except Unsupported:        # of different kinds
            return g0(ix[0]) if en.decide(c) else get(sub(ix[0], n0))
    en.put(l, E_.CellS((add(n0, m),), g))


def list_concat(en, a, b):
    sa = en.st(a)
    if isinstance(sa, E_.ListS):
        r = en.mklist(sa.items)
    else:
        n, g = snapshot_seq(en, a)
        r = en.mkcells((n,), lambda ix: g(ix[0]))
    list_extend(en, r, b)
    return r


def list_repeat(en, l, k):
    st = en.st(l)
    if isinstance(st, E_.ListS) and isinstance(k, int) and len(st.items) * k <= 64:
        return en.mklist(st.items * max(0, k))
    if isinstance(k, N) and not en.known(le(0, k)): raise Unsupported('repetition count')
    if isinstance(st, E_.ListS):
        its = st.items
        m = len(its)
        if m == 1: return en.mkcells((k,), lambda ix: its[0])
        n, g = snapshot_seq(en, l)
        return en.mkcells((mul(m, k),), lambda ix: g(en.mod(ix[0], m)))
    n, g = snapshot_seq(en, l)
    probe = const_seq(st)
    if probe is not None:
        return en.mkcells((mul(n, k),), lambda ix: probe)
    return en.mkcells((mul(n, k),), lambda ix: g(en.mod(ix[0], n)))


def const_seq(st):
    """The value of a container all of whose cells are one constant, else None."""
    t = z3.Int('probe!const')
    try:
        v = st.get((N('i', t),))
    except Exception:
        return None
    return v if conc(v) is not None else None


def dedupe(en, its):
    out = []
    for x in its:
        if not any(en.truth(en.equal(x, y)) for y in out): out.append(x)
    return out


def set_op(en, op, a, b):
    x, y = list(en.st(a).items), items(en, b)
    if isinstance(op, ast.BitOr): r = dedupe(en, x + y)
    elif isinstance(op, ast.BitAnd): r = [v for v in x if en.truth(en.contains(tuple(y), v))]
    else: r = [v for v in x if not en.truth(en.contains(tuple(y), v))]
    return en.alloc('set', E_.SetS(r))


# ------------------------------------------------------------------ numbers

POW = z3.Function('pow', z3.RealSort(), z3.RealSort(), z3.RealSort())
LOG10 = z3.Function('log10', z3.RealSort(), z3.RealSort())
EXPF = z3.Function('exp', z3.RealSort(), z3.RealSort())
LOGE = z3.Function('ln', z3.RealSort(), z3.RealSort())
SQRT = z3.Function('sqrt', z3.RealSort(), z3.RealSort())


def power(en, a, b):
    if special(a) or special(b): raise Unsupported('power of a special float')
    ca, cb = conc(a), conc(b)
    if isint(a) and isint(b) and ca is not None and cb is not None:
        if cb >= 0: return ca ** cb
        return N('r', Fraction(ca) ** cb)
    if cb is not None and Fraction(cb).denominator == 1 and 0 <= cb <= 4:
        r = N('r', Fraction(1))
        for _ in range(int(cb)): r = mul(r, R(a))
        return r
    if ca is not None and cb is not None and Fraction(cb).denominator == 1 and abs(cb) < 200 and ca != 0:
        return N('r', Fraction(ca) ** int(cb))
    if ca == 1: return N('r', Fraction(1))
    return N('r', POW(z3.simplify(zr(a)), z3.simplify(zr(b))))


def spow(a, b):
    """pow for specifications (no engine)."""
    return power(None, a, b)


def log10(a):
    c = conc(a)
    if c is not None and c > 0:
        k, q = 0, Fraction(c)
        while q >= 10: q, k = q / 10, k + 1
        while q < 1: q, k = q * 10, k - 1
        if q == 1: return N('r', Fraction(k))
    return N('r', LOG10(z3.simplify(zr(a))))


def log10_bounds(en, a):
    """The numeric value of the logarithm of a constant, to 1e-9."""
    c = conc(a)
    if c is None or c <= 0: return
    r = log10(a)
    if conc(r) is None:
        x = Fraction(math.log10(c))
        en.assume(band(lt(x - Fraction(1, 10 ** 9), r), lt(r, x + Fraction(1, 10 ** 9))))


def floor_(en, a):
    c = conc(a)
    if c is not None: return c.__floor__() if not isinstance(c, int) else c
    if isint(a): return a
    return mkint(z3.ToInt(zr(a)))


def ceil_(en, a):
    c = conc(a)
    if c is not None: return c.__ceil__() if not isinstance(c, int) else c
    if isint(a): return a
    return mkint(-z3.ToInt(-zr(a)))


def trunc_(en, a):
    c = conc(a)
    if c is not None: return int(c)
    if isint(a): return a
    x = zr(a)
    e = z3.simplify(x)
    if e.decl().kind() == z3.Z3_OP_TO_REAL: return mkint(e.arg(0))
    if en is not None and en.known(le(0, a)): return mkint(z3.ToInt(x))
    return mkint(z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x)))


def bitand(en, a, b):
    """a & b with b a constant power of two minus ... : only single-bit tests."""
    if isinstance(a, int) and isinstance(b, N): a, b = b, a
    if isinstance(a, N) and isinstance(b, int) and b > 0:
        r = 0
        for i in range(b.bit_length()):
            if b >> i & 1:
                r = add(r, mkint(z3.If((a.e / (2 ** i)) % 2 == 1, z3.IntVal(2 ** i), z3.IntVal(0))))
        return r
    if b == 0 or a == 0: return 0
    raise Unsupported('bit operation')


def minmax(en, args, less):
    """Python's min/max: keeps the first of equals."""
    r = args[0]
    for x in args[1:]:
        if x is None or r is None: en.pyraise('TypeError')
        if not (isnum(x) and isnum(r)):
            if isinstance(x, str) and isinstance(r, str):
                r = x if less(x, r) else r
                continue
            raise Unsupported('min/max of %s' % en.tname(x))
        c = less(x, r)
        if c is True: r = x
        elif c is False: pass
        else:
            if isint(x) != isint(r): x, r = R(x), R(r)
            try:
                r = ite(c, x, r)
            except Unsupported:
                r = x if en.decide(c) else r
    return r


# ------------------------------------------------------------------ text

def as_text(en, v):
    """str(v)."""
    if isinstance(v, (str, T, S)): return v
    if v is None: return 'None'
    if isinstance(v, bool): return str(v)
    if isinstance(v, B): return 'True' if en.decide(v) else 'False'
    if isinstance(v, int): return str(v)
    if isinstance(v, N):
        c = conc(v)
        if c is not None: return repr(float(c))
        return T((Piece('%s', v),))
    if isinstance(v, tuple):
        p = ['(']
        for i, x in enumerate(v):
            if i: p.append(', ')
            p.append(repr_text(en, x))
        p.append(',)' if len(v) == 1 else ')')
        return mktext(p)
    if isinstance(v, E_.Ref):
        st = en.st(v)
        if isinstance(st, E_.ListS):
            p = ['[']
            for i, x in enumerate(st.items):
                if i: p.append(', ')
                p.append(repr_text(en, x))
            p.append(']')
            return mktext(p)
    return T((Piece('%s', v),))


def repr_text(en, v):
    if isinstance(v, str): return repr(v)
    return as_text(en, v)


_FMT = re.compile(r'%(?:\((\w+)\))?([-+ #0]*)(\d+)?(?:\.(\d+))?([sdfrgeixX%])')


def format_percent(en, fmt, args):
    if isinstance(fmt, T): raise Unsupported('symbolic format')
    mapping = None
    if isinstance(args, E_.Ref) and args.kind == 'dict':
        mapping = en.st(args).d
    vals = list(args) if isinstance(args, tuple) else [args]
    out, pos, k = [], 0, 0
    for m in _FMT.finditer(fmt):
        out.append(fmt[pos:m.start()])
        pos = m.end()
        name, flags, width, prec, conv = m.groups()
        if conv == '%':
            out.append('%')
            continue
        if name is not None: v = mapping[name]
        else:
            if k >= len(vals): en.pyraise('TypeError', 'not enough arguments for format string')
            v = vals[k]
            k += 1
        out.append(fmt_one(en, m.group(0), flags, width, prec, conv, v))
    out.append(fmt[pos:])
    if mapping is None and k != len(vals): en.pyraise('TypeError', 'not all arguments converted')
    return mktext(out)


def fmt_one(en, spec, flags, width, prec, conv, v):
    if conv in 'sr':
        t = as_text(en, v)
        if width:
            if isinstance(t, S): t = T((t,))
            if isinstance(t, str): return ('%' + flags + width + 's') % t
            if len(t.parts) == 1 and isinstance(t.parts[0], Piece):
                return T((Pad(int(width), '-' in flags), t.parts[0])) if '-' not in flags else T((t.parts[0], Pad(int(width), True)))
            core = [p for p in t.parts if not isinstance(p, Pad)]
            if len(core) == 1 and isinstance(core[0], Piece):      # padded again: blanks around the token
                return T((Pad(int(width), False),) + t.parts if '-' not in flags else t.parts + (Pad(int(width), True),))
            raise Unsupported('padded text')
        return t
    if conv in 'd':
        if isinstance(v, (bool, B)): v = en.bool_int(v)
        if not isnum(v): en.pyraise('TypeError', '%d')
        v = trunc_(en, v)
        c = conc(v)
        if c is not None: return spec % int(c)
        return T((Piece('%d', v),))
    if conv in 'fge':
        if isinstance(v, (bool, B)): v = en.bool_int(v)
        if not isnum(v): en.pyraise('TypeError', '%f')
        c = conc(v)
        if c is not None: return spec % float(c)
        if special(v): return spec % float(v.e)
        return T((Pad(int(width), False), Piece('%.' + (prec or '6') + conv, v))) if width else \
            T((Piece('%.' + (prec or '6') + conv, v),))
    if conv in 'xX' and conc(v) is not None: return spec % int(conc(v))
    raise Unsupported('format %s' % spec)


class Pad(object):
    """Blanks (possibly none) that pad a token to a width: white space only."""
    noloop = True

    def __init__(self, width, left): self.width, self.left = width, left
    def __repr__(self): return 'Pad%d' % self.width


def text_parts(t):
    return (t,) if isinstance(t, str) else (Piece('%s', t),) if isinstance(t, S) else t.parts


def text_eq(en, a, b):
    pa, pb = text_parts(a), text_parts(b)
    if len(pa) == len(pb):
        r = True
        ok = True
        for x, y in zip(pa, pb):
            if isinstance(x, str) and isinstance(y, str):
                if x != y: ok = False
            elif isinstance(x, Piece) and isinstance(y, Piece) and x.spec == y.spec:
                r = band(r, en.equal(x.val, y.val))
            else:
                ok = False
        if ok: return r
    # a printed number against a literal that is not a number
    for p, q in ((pa, pb), (pb, pa)):
        if len(p) == 1 and isinstance(p[0], Piece) and len(q) == 1 and isinstance(q[0], str):
            if isinstance(p[0].val, S) and p[0].spec == '%s':
                return en.equal(p[0].val, q[0])
            if isnum(p[0].val):
                try:
                    float(q[0])
                except ValueError:
                    return False
                if p[0].spec in ('%s', '%r') and not isint(p[0].val) and repr(float(q[0])) == q[0] and not special(p[0].val):
                    return eq(p[0].val, real(float(q[0])))
                if p[0].spec in ('%s', '%r', '%d') and isint(p[0].val): return eq(p[0].val, int(q[0])) if q[0].lstrip('-').isdigit() and str(int(q[0])) == q[0] else False
        if len(q) == 1 and isinstance(q[0], str) and q[0] == '': return False
    if any(isinstance(x, str) and x for x in pa + pb):
        la = pa[0] if isinstance(pa[0], str) else None
        lb = pb[0] if isinstance(pb[0], str) else None
        if la is not None and lb is not None:
            m = min(len(la), len(lb))
            if la[:m] != lb[:m]: return False
    raise Unsupported('comparison of structured texts')


def printed(en, p):
    """The number a printed token reads back as."""
    v = p.val
    if p.spec in ('%s', '%d', '%r', '%x'): return v
    m = re.match(r'%\.(\d+)f', p.spec)
    if m:
        memo = en.__dict__.setdefault('printed_memo', {})
        prec = int(m.group(1))
        f = PRINT.setdefault(prec, z3.Function('print%df' % prec, z3.RealSort(), z3.RealSort()))
        x = zr(v)
        y = f(x)
        h = z3.Q(1, 2 * 10 ** prec)
        en.assume(B(z3.And(y - x <= h, x - y <= h)))
        return N('r', y)
    raise Unsupported('reading back %s' % p.spec)


PRINT = {}


def to_float(en, v):
    if isinstance(v, (bool, B)): v = en.bool_int(v)
    if isnum(v): return R(v)
    if isinstance(v, str):
        try:
            return real(float(v)) if v.strip().lower().lstrip('+-') in ('nan', 'inf', 'infinity') \
                else N('r', Fraction(v.strip()))
        except (ValueError, ZeroDivisionError):
            en.pyraise('ValueError', 'float')
    if isinstance(v, T):
        core = [p for p in v.parts if not isinstance(p, Pad) and not (isinstance(p, str) and not p.strip())]
        if len(core) == 1 and isinstance(core[0], Piece):
            p = core[0]
            if isinstance(p.val, S) or p.spec == '%hex': raise Unsupported('float of an opaque string')
            if isnum(p.val): return R(printed(en, p))
        raise Unsupported('float of a structured text')
    if isinstance(v, S): raise Unsupported('float of an opaque string')
    if isinstance(v, Ab) and hasattr(v.model, 'stored'): return v.model.stored(en, v, 64)
    if hasattr(v, 'pyfloat'): return v.pyfloat(en)
    if v is None or isinstance(v, E_.Ref): en.pyraise('TypeError', 'float')
    raise Unsupported('float of %s' % en.tname(v))


def to_int(en, v):
    if isinstance(v, (bool, B)): return en.bool_int(v)
    if special(v): en.pyraise('ValueError')
    if isnum(v): return trunc_(en, v)
    if isinstance(v, str):
        try: return int(v)
        except ValueError: en.pyraise('ValueError', 'int')
    if isinstance(v, T):
        core = [p for p in v.parts if not isinstance(p, Pad) and not (isinstance(p, str) and not p.strip())]
        if len(core) == 1 and isinstance(core[0], Piece) and core[0].spec != '%hex' and (isnum(core[0].val) or hasattr(core[0].val, 'pyint')):
            p = core[0]
            if not isnum(p.val): return p.val.pyint(en)
            if isint(p.val): return p.val
            en.pyraise('ValueError', 'int')
        raise Unsupported('int of a structured text')
    if hasattr(v, 'pyint'): return v.pyint(en)
    if v is None: en.pyraise('TypeError', 'int')
    raise Unsupported('int of %s' % en.tname(v))


def text_split(en, t, sep=None, maxsplit=-1):
    """str.split on a structured text: list of tokens (loops give symbolic segments)."""
    segs = split_segments(en, t, sep)
    if all(s[0] == 'tok' for s in segs):
        return en.mklist([s[1] for s in segs])
    # one or more loop segments: build a list of unknown length
    pos = 0
    bounds = []
    for s in segs:
        n = 1 if s[0] == 'tok' else mul(s[1], s[2])
        bounds.append((pos, add(pos, n), s))
        pos = add(pos, n)

    def get(ix):
        k = ix[0]
        res = None
        for lo, hi, s in reversed(bounds):
            if s[0] == 'tok': v = s[1]
            else:
                m = s[2]
                d = sub(k, lo)
                if m == 1: v = s[3](d)[0]
                else:
                    q, r = divmod_linear(d, m)
                    toks = s[3](q)
                    v = toks[-1]
                    for j in range(m - 2, -1, -1): v = tok_ite(eq(r, j), toks[j], v)
            if res is None: res = v
            else:
                c = lt(k, hi)
                res = v if c is True else res if c is False else tok_ite(c, v, res)
        return res
    return en.mkcells((pos,), get)


def tok_ite(c, a, b):
    if isinstance(a, T) and isinstance(b, T):
        x = [p for p in a.parts if not isinstance(p, Pad)]
        y = [p for p in b.parts if not isinstance(p, Pad)]
        if len(x) == len(y) == 1 and isinstance(x[0], Piece) and isinstance(y[0], Piece) and x[0].spec == y[0].spec:
            return T((Piece(x[0].spec, ite(c, x[0].val, y[0].val)),))
    return ite(c, a, b)


def split_segments(en, t, sep=None):
    segs = []
    cur = []     # parts of the token being built
    open_ = False

    def flush():
        if cur:
            segs.append(('tok', mktext(list(cur))))
            del cur[:]
    for p in text_parts(t):
        if open_ and not (isinstance(p, str) and p[:1].isspace()): raise Unsupported('open token after a text loop')
        open_ = False
        if isinstance(p, str):
            if sep is None:
                buf = ''
                for ch in p:
                    if ch.isspace():
                        if buf: cur.append(buf)
                        buf = ''
                        flush()
                    else: buf += ch
                if buf: cur.append(buf)
            else:
                bits = p.split(sep)
                for i, b in enumerate(bits):
                    if i:
                        segs.append(('tok', mktext(list(cur))))
                        del cur[:]
                    if b: cur.append(b)
        elif isinstance(p, Pad):
            if sep is not None: raise Unsupported('split of padded text')
            # blanks, possibly none: the token before must already be separated from the next
            if p.left: continue_sep = True
            if not p.left and cur: raise Unsupported('padding inside a token')
        elif isinstance(p, Piece):
            if sep is None and isinstance(p.val, S): raise Unsupported('split of an opaque string')
            cur.append(p)
        elif isinstance(p, LoopText):
            q = z3.Int('split!%d' % len(segs))
            body = p.body(N('i', q))
            inner = split_segments(en, body, sep)
            if any(s[0] != 'tok' for s in inner): raise Unsupported('nested text loops')
            parts = text_parts(body)
            ends = isinstance(parts[-1], str) and parts[-1][-1:].isspace()
            starts = isinstance(parts[0], str) and parts[0][:1].isspace() or isinstance(parts[0], Pad)
            if sep is None and not ends and not starts: raise Unsupported('tokens run together')
            if cur and not starts: raise Unsupported('token before a text loop')
            flush()
            open_ = not ends
            if sep is not None: raise Unsupported('split of a text loop by a separator')
            m = len(inner)
            if m: segs.append(('loop', p.n, m, lambda i, inner=inner, q=q: [subst(s[1], [(q, zi(i))]) for s in inner]))
        else:
            raise Unsupported('split of a text')
    if sep is None: flush()
    else: segs.append(('tok', mktext(list(cur))))
    return segs


def text_join(en, sep, its):
    out = []
    for i, x in enumerate(its):
        if i: out.append(sep)
        if isinstance(x, S): x = as_text(en, x)
        if not isinstance(x, (str, T)): en.pyraise('TypeError', 'join')
        out.append(x)
    return mktext(out)


def known_only(en, n):
    try: return [only_value(en, n)]
    except Unsupported: return None


def join_loop(en, sep, v, n):
    """A list of texts of unknown length joined."""
    if en.decide(le(n, 0)): return ''
    q = z3.Int('join!q')

    def text(x):
        if isinstance(x, S): x = as_text(en, x)
        if not isinstance(x, (str, T)): raise Unsupported('join of %s' % en.tname(x))
        return x
    body = text(seq_at(en, v, N('i', q)))
    return mktext([text(seq_at(en, v, 0)), LoopText(sub(n, 1), lambda i: mktext([sep, subst(body, [(q, zi(add(i, 1)))])]))])


STR_METHODS = {'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'replace', 'find', 'rfind', 'startswith',
               'endswith', 'isspace', 'isdigit', 'title', 'count', 'index', 'partition', 'rpartition',
               'capitalize', 'swapcase', 'rjust', 'ljust', 'center', 'zfill', 'isalpha', 'isalnum', 'expandtabs'}


def str_method(en, s, name):
    def fn(en_, args, kw):
        if name in ('split', 'splitlines', 'rsplit'):
            if name == 'split' and not isinstance(s, str):
                return text_split(en, s, args[0] if args else None)
            if isinstance(s, str):
                return en.mklist(getattr(s, name)(*args))
            if name == 'splitlines':
                return split_lines(en, s)
        if name == 'join':
            n = args[0].n if isinstance(args[0], E_.View) else en.st(args[0]).shape[0] if isinstance(args[0], E_.Ref) and args[0].kind == 'cells' else 0
            if not isinstance(n, int) and not known_only(en, n): return join_loop(en, s, args[0], n)
            return text_join(en, s, items_join(en, args[0]))
        if name == 'format' and isinstance(s, str):
            return format_brace(en, s, args, kw)
        if name in ('encode', 'decode') and isinstance(s, (str, T)): return s
        if isinstance(s, str) and name in STR_METHODS and all(isinstance(a, (str, int, tuple)) or a is None for a in args):
            r = getattr(s, name)(*args)
            return r
        if isinstance(s, T):
            if name in ('strip', 'rstrip', 'lstrip') and not args:
                p = list(s.parts)
                if name != 'rstrip':
                    while p and (isinstance(p[0], Pad) or isinstance(p[0], str) and not p[0].strip()): p.pop(0)
                    if p and isinstance(p[0], str): p[0] = p[0].lstrip()
                if name != 'lstrip':
                    while p and (isinstance(p[-1], Pad) or isinstance(p[-1], str) and not p[-1].strip()): p.pop()
                    if p and isinstance(p[-1], str): p[-1] = p[-1].rstrip()
                return mktext(p)
            if name == 'startswith' and isinstance(args[0], str) and isinstance(s.parts[0], str) \
                    and len(s.parts[0]) >= len(args[0]):
                return s.parts[0].startswith(args[0])
        raise Unsupported('%s of a symbolic string' % name)
    return E_.Ext('str.' + name, fn)


def format_brace(en, s, args, kw):
    out, pos, auto = [], 0, 0
    for m in re.finditer(r'\{(\w*)\}', s):
        out.append(s[pos:m.start()])
        pos = m.end()
        k = m.group(1)
        if k == '':
            v = args[auto]
            auto += 1
        elif k.isdigit(): v = args[int(k)]
        else: v = kw[k]
        out.append(as_text(en, v))
    out.append(s[pos:])
    if any('{' in x or '}' in x for x in out if isinstance(x, str)): raise Unsupported('format specification')
    return mktext(out)


def items_join(en, v):
    return items(en, v)


def split_lines(en, t):
    lines, cur = [], []
    for p in text_parts(t):
        if isinstance(p, str):
            bits = p.split('\n')
            for i, b in enumerate(bits):
                if i:
                    lines.append(mktext(list(cur)))
                    del cur[:]
                if b: cur.append(b)
        elif isinstance(p, (Piece, Pad)): cur.append(p)
        else: raise Unsupported('lines of a text loop')
    if cur: lines.append(mktext(cur))
    return en.mklist(lines)


# ------------------------------------------------------------------ methods

def method(en, o, name):
    if isinstance(o, (str, T, S)): return str_method(en, o, name)
    if isinstance(o, Ab):
        if o.model is not None: return o.model.getattr(en, o, name)
    if isinstance(o, E_.Ref):
        if o.kind in ('list', 'cells'): return list_method(en, o, name)
        if o.kind == 'dict': return dict_method(en, o, name)
        if o.kind == 'set': return set_method(en, o, name)
    if isinstance(o, (E_.View, E_.MView, Frozen)): return arr_method(en, o, name)
    if isinstance(o, (N, int)):
        if name == 'is_integer': return E_.Ext(name, lambda e, a, k: eq(R(o), R(floor_(e, o))))
        if name == 'item': return E_.Ext(name, lambda e, a, k: o)
        if name == 'astype': return E_.Ext(name, lambda e, a, k: e.call(a[0], [o], {}))
        if name == 'dtype': return None
    if hasattr(o, 'pyattr'): return o.pyattr(en, name)
    if isinstance(o, E_.Bound) and name == '__name__': return o.f.node.name
    if isinstance(o, E_.Func) and name == '__name__': return o.node.name
    if isinstance(o, tuple) and name in ('index', 'count'):
        return E_.Ext(name, lambda e, a, k: getattr(o, name)(*a))
    if o is None: en.pyraise('AttributeError', name)
    if isinstance(o, (bool,)): en.pyraise('AttributeError', name)
    raise Unsupported('attribute %s of %s' % (name, en.tname(o)))


def list_method(en, l, name):
    st = en.st(l)
    if isinstance(st, E_.CellS) and st.arr: return arr_method(en, l, name)

    def append(e, a, k):
        s = e.st(l)
        if isinstance(s, E_.ListS): e.put(l, E_.ListS(s.items + (a[0],)))
        else: list_extend(e, l, (a[0],))

    def extend(e, a, k): list_extend(e, l, a[0])

    def insert(e, a, k):
        s = e.st(l)
        if isinstance(s, E_.ListS) and isinstance(a[0], int):
            x = list(s.items)
            x.insert(a[0], a[1])
            e.put(l, E_.ListS(x))
        else: raise Unsupported('insert')

    def pop(e, a, k):
        s = e.st(l)
        if isinstance(s, E_.ListS):
            x = list(s.items)
            if not x: e.pyraise('IndexError')
            v = x.pop(*a)
            e.put(l, E_.ListS(x))
            return v
        raise Unsupported('pop')

    def reverse(e, a, k):
        s = e.st(l)
        if isinstance(s, E_.ListS): e.put(l, E_.ListS(tuple(reversed(s.items))))
        else: raise Unsupported('reverse')

    def index(e, a, k):
        for i, x in enumerate(e.st(l).items):
            if e.truth(e.equal(x, a[0])): return i
        e.pyraise('ValueError')

    def remove(e, a, k):
        i = index(e, a, k)
        x = list(e.st(l).items)
        del x[i]
        e.put(l, E_.ListS(x))

    def copy(e, a, k):
        s = e.st(l)
        if isinstance(s, E_.ListS): return e.mklist(s.items)
        return getitem(e, l, slice(None, None))

    def count(e, a, k):
        r = 0
        for x in e.st(l).items: r = add(r, e.bool_int(e.equal(x, a[0])))
        return r

    def sort(e, a, k):
        s = e.st(l)
        if all(isinstance(x, (int, str)) for x in s.items) and not k:
            e.put(l, E_.ListS(sorted(s.items)))
        else: raise Unsupported('sort')
    d = locals()
    if name in d and callable(d[name]): return E_.Ext('list.' + name, d[name])
    if name == '__getitem__': return E_.Ext(name, lambda e, a, k: getitem(e, l, a[0]))
    if name == '__len__': return E_.Ext(name, lambda e, a, k: seq_len(e, l))
    en.pyraise('AttributeError', name)


def dict_method(en, o, name):
    def d(e): return e.st(o).d
    table = {
        'keys': lambda e, a, k: e.mklist(list(d(e))),
        'values': lambda e, a, k: e.mklist(list(d(e).values())),
        'items': lambda e, a, k: e.mklist(list(d(e).items())),
        'get': lambda e, a, k: (d(e)[e.key(a[0])] if e.key(a[0]) in d(e) else (a[1] if len(a) > 1 else None)),
        'copy': lambda e, a, k: e.mkdict(d(e)),
    }

    def pop(e, a, k):
        x = dict(d(e))
        kk = e.key(a[0])
        if kk not in x:
            if len(a) > 1: return a[1]
            e.pyraise('KeyError', kk)
        v = x.pop(kk)
        e.put(o, E_.DictS(x))
        return v

    def update(e, a, k):
        x = dict(d(e))
        if a:
            if isinstance(a[0], E_.Ref) and a[0].kind == 'dict': x.update(d2(e, a[0]))
            else:
                for p in items(e, a[0]): x[e.key(p[0])] = p[1]
        x.update(k)
        e.put(o, E_.DictS(x))

    def d2(e, r): return e.st(r).d

    def setdefault(e, a, k):
        kk = e.key(a[0])
        if kk not in d(e): setitem(e, o, kk, a[1] if len(a) > 1 else None)
        return d(e)[kk]

    def clear(e, a, k): e.put(o, E_.DictS({}))

    def has_key(e, a, k): return e.key(a[0]) in d(e)
    table.update(pop=pop, update=update, setdefault=setdefault, clear=clear, has_key=has_key)
    if name in table: return E_.Ext('dict.' + name, table[name])
    en.pyraise('AttributeError', name)


def set_method(en, o, name):
    def addm(e, a, k):
        s = e.st(o).items
        if not e.truth(e.contains(o, a[0])): e.put(o, E_.SetS(s + (a[0],)))
    table = {'add': addm,
             'union': lambda e, a, k: set_op(e, ast.BitOr(), o, a[0]),
             'update': lambda e, a, k: e.put(o, E_.SetS(dedupe(e, list(e.st(o).items) + items(e, a[0])))),
             'intersection': lambda e, a, k: set_op(e, ast.BitAnd(), o, a[0])}
    if name in table: return E_.Ext('set.' + name, table[name])
    raise Unsupported('set.' + name)


def arr_from(en, its):
    its = [R(x) for x in its]
    n = len(its)

    def get(ix):
        i = ix[0]
        if isinstance(i, int): return its[i]
        r = its[-1]
        for j in range(n - 2, -1, -1): r = ite(eq(i, j), its[j], r)
        return r
    return en.mkcells((n,), get, arr=True, dtype='f')


def arr_copy(en, v, d=None):
    n, get = snapshot_seq(en, v)
    if d is None: d = en.st(v).dtype if isinstance(v, E_.Ref) and v.kind == 'cells' and en.st(v).arr else 'f'

    def conv(x):
        if isinstance(x, (bool, B)): x = en.bool_int(x)
        if isinstance(x, Ab) and hasattr(x.model, 'stored'): return x.model.stored(en, x, getattr(d, 'w', 32))
        if isinstance(x, (str, T)): return to_float(en, x)
        if not isnum(x): raise Unsupported('%s copied into a float array' % en.tname(x))
        return R(x)
    f = conv if d == 'f' else (lambda x: x)
    return en.mkcells((n,), lambda ix: f(get(ix[0])), arr=True, dtype=d)


def arr_method(en, o, name):
    if name == 'tolist':
        return E_.Ext(name, lambda e, a, k: (lambda n, g: mklist_cells(e, n, g))(*snapshot_seq(e, o)))
    if name in ('copy', 'flatten', 'ravel'):
        return E_.Ext(name, lambda e, a, k: arr_copy(e, o))
    if name == 'astype':
        return E_.Ext(name, lambda e, a, k: arr_copy(e, o, e.np_dtype(a[0] if a else k.get('dtype'))))
    if name == 'size': return seq_len(en, o)
    if name == 'shape':
        if isinstance(o, E_.View): return (o.n,)
        if isinstance(o, E_.Ref): return tuple(en.st(o).shape)
    if name == 'dtype': return en.extmods['numpy'].attrs['float32']
    if name == 'fill':
        def fill(e, a, k): setitem(e, o, slice(None, None), a[0])
        return E_.Ext(name, fill)
    raise Unsupported('array attribute %s' % name)


def is_array(en, v):
    return isinstance(v, E_.View) or isinstance(v, Frozen) and v.kind == 'arr' or \
        isinstance(v, E_.Ref) and v.kind == 'cells' and en.st(v).arr


def array_binop(en, op, a, b):
    if not (is_array(en, a) or is_array(en, b)): return NotImplemented
    n = seq_len(en, a) if is_array(en, a) else seq_len(en, b)

    def getter(v):
        if isnum(v): return lambda i: v
        m, g = snapshot_seq(en, v)
        if not en.decide(eq(m, n)): en.pyraise('ValueError', 'shape')
        return g
    ga, gb = getter(a), getter(b)
    if isinstance(n, int):
        return arr_from(en, [en.binop(op, R(ga(i)), R(gb(i))) for i in range(n)])
    fs = {ast.Add: add, ast.Sub: sub, ast.Mult: mul}
    if type(op) in fs:
        f = fs[type(op)]
        return en.mkcells((n,), lambda ix: R(f(ga(ix[0]), gb(ix[0]))), arr=True, dtype='f')
    if isinstance(op, ast.Div) and isnum(b):
        if en.decide(eq(b, 0)): raise Unsupported('array divided by zero')
        return en.mkcells((n,), lambda ix: rdiv(R(ga(ix[0])), R(b)), arr=True, dtype='f')
    raise Unsupported('array operator')


# ------------------------------------------------------------------ builtins

def isinstance_ext(en, v, cls):
    nm = cls.name
    if nm == 'object': return True
    if nm in ('str', 'unicode', 'basestring'): return isinstance(v, (str, T, S))
    if nm == 'bool': return isinstance(v, (bool, B))
    if nm in ('int', 'long'): return isinstance(v, (bool, B)) or (isint(v))
    if nm == 'float': return isinstance(v, N) and v.kind == 'r'
    if nm == 'list': return isinstance(v, E_.Ref) and (v.kind == 'list' or v.kind == 'cells' and not en.st(v).arr) or \
        isinstance(v, Frozen) and v.kind == 'list'
    if nm == 'tuple': return isinstance(v, tuple)
    if nm == 'dict': return isinstance(v, E_.Ref) and v.kind == 'dict'
    if nm == 'set': return isinstance(v, E_.Ref) and v.kind == 'set'
    if nm == 'ndarray': return is_array(en, v)
    if nm == 'type': return isinstance(v, E_.ExtClass) or isinstance(v, E_.Ref) and v.kind == 'class'
    if nm == 'NoneType': return v is None
    if v is None or isinstance(v, (bool, str, T, S)): return False
    if isinstance(v, E_.Ref) and v.kind in ('list', 'dict', 'set'): return False
    raise Unsupported('isinstance of %s' % nm)


def make_builtins(en):
    EC, Ext = E_.ExtClass, E_.Ext
    b = {}
    obj = EC('object')
    b['object'] = obj
    be = EC('BaseException', obj)
    b['BaseException'] = be
    ex = EC('Exception', be)
    b['Exception'] = ex
    for nm in ('ArithmeticError', 'LookupError', 'ValueError', 'TypeError', 'AttributeError', 'NameError',
               'ImportError', 'SyntaxError', 'IOError', 'RuntimeError', 'AssertionError', 'StopIteration', 'KeyboardInterrupt',
               'RuntimeWarning', 'Warning', 'UserWarning', 'NotImplementedError', 'SystemExit'):
        b[nm] = EC(nm, ex)
    b['OSError'] = b['EnvironmentError'] = b['IOError']
    b['ZeroDivisionError'] = EC('ZeroDivisionError', b['ArithmeticError'])
    b['OverflowError'] = EC('OverflowError', b['ArithmeticError'])
    b['KeyError'] = EC('KeyError', b['LookupError'])
    b['IndexError'] = EC('IndexError', b['LookupError'])
    b['UnboundLocalError'] = EC('UnboundLocalError', b['NameError'])
    b['NotImplementedError'] = EC('NotImplementedError', b['RuntimeError'])

    def exc_init(e, a, k):
        self_ = a[0]
        st = e.st(self_)
        d = dict(st.attrs)
        d['args'] = tuple(a[1:])
        e.put(self_, E_.InstS(st.cls, d))
    xi = Ext('Exception.__init__', exc_init)
    be.attrs['__init__'] = xi
    oi = Ext('object.__init__', lambda e, a, k: None)
    obj.attrs['__init__'] = oi

    def t_str(e, a, k):
        if not a: return ''
        v = a[0]
        if isinstance(v, E_.Ref) and v.kind == 'inst':
            c = e.class_attr(e.st(v).cls, '__str__')
            if c is not None: return e.call(E_.Bound(c, v), [], {})
            if '__init__' and e.isinstance_(v, be):
                args = e.st(v).attrs.get('args', ())
                return as_text(e, args[0]) if len(args) == 1 else ''
        return as_text(e, v) if not isinstance(v, S) else v

    def t_list(e, a, k):
        if not a: return e.mklist(())
        return to_list(e, a[0])

    def to_list(e, v):
        n = None
        if isinstance(v, (E_.View, E_.MView, RangeV)) or isinstance(v, E_.Ref) and v.kind == 'cells':
            n, g = snapshot_seq(e, v)
            return mklist_cells(e, n, g)
        return e.mklist(items(e, v))

    def t_tuple(e, a, k): return tuple(items(e, a[0])) if a else ()

    def t_dict(e, a, k):
        d = {}
        if a:
            if isinstance(a[0], E_.Ref) and a[0].kind == 'dict': d.update(e.st(a[0]).d)
            else:
                for p in items(e, a[0]):
                    kk, v = items(e, p)
                    d[e.key(kk)] = v
        d.update(k)
        return e.mkdict(d)

    def t_set(e, a, k): return e.alloc('set', E_.SetS(dedupe(e, items(e, a[0])) if a else ()))
    b['str'] = EC('str', obj, t_str)
    b['unicode'] = b['basestring'] = b['str']
    b['int'] = EC('int', obj, lambda e, a, k: to_int(e, a[0]) if len(a) == 1 else int(a[0], a[1]) if a else 0)
    b['long'] = b['int']
    b['float'] = EC('float', obj, lambda e, a, k: to_float(e, a[0]) if a else real(0))
    b['bool'] = EC('bool', obj, lambda e, a, k: e.truthval(a[0]))
    b['list'] = EC('list', obj, t_list)
    b['tuple'] = EC('tuple', obj, t_tuple)
    b['dict'] = EC('dict', obj, t_dict)
    b['set'] = EC('set', obj, t_set)
    b['frozenset'] = b['set']

    def type_call(e, a, k):
        v = a[0]
        if isinstance(v, E_.Ref) and v.kind == 'inst': return e.st(v).cls
        for nm in ('bool', 'str', 'int', 'float', 'list', 'tuple', 'dict', 'set'):
            if e.isinstance_(v, b[nm]): return b[nm]
        if is_array(e, v): return e.extmods['numpy'].attrs['ndarray']
        raise Unsupported('type of %s' % e.tname(v))
    ty = EC('type', obj, type_call)
    b['type'] = ty

    def type_new(e, a, k):
        meta, name, bases, d = a
        return e.mkclass(name, list(bases), e.st(d).d)
    ty.attrs['__new__'] = Ext('type.__new__', type_new)
    b['staticmethod'] = Ext('staticmethod', lambda e, a, k: E_.Wrap('static', a[0]))
    b['classmethod'] = Ext('classmethod', lambda e, a, k: E_.Wrap('class', a[0]))
    b['property'] = Ext('property', lambda e, a, k: E_.Wrap('property', a[0]))
    b['len'] = Ext('len', lambda e, a, k: seq_len(e, a[0]))

    def f_range(e, a, k):
        lo, step = 0, 1
        if len(a) == 1: hi = a[0]
        elif len(a) == 2: lo, hi = a
        else: lo, hi, step = a
        for x in (lo, hi, step):
            if not isint(x): e.pyraise('TypeError', 'range of a float')
        if isinstance(step, int) and step == 1:
            n = sub(hi, lo)
        else:
            if isinstance(step, int) and isinstance(lo, int) and isinstance(hi, int):
                return RangeV(lo, len(range(lo, hi, step)), step)
            if not e.known(lt(0, step)): raise Unsupported('range step')
            d = sub(hi, lo)
            ex = exact_div(d, step)
            n = ex if ex is not None else e.floordiv(sub(add(d, step), 1), step)
        if isinstance(n, int): n = max(n, 0)
        elif not e.known(le(0, n)):
            if not e.decide(le(0, n)): n = 0
        return RangeV(lo, n, step)
    b['range'] = b['xrange'] = Ext('range', f_range)

    def f_minmax(less):
        def f(e, a, k):
            if 'key' in k: raise Unsupported('min/max key')
            its = items(e, a[0]) if len(a) == 1 else a
            if not its: e.pyraise('ValueError')
            return minmax(e, [e.bool_int(x) if isinstance(x, (bool, B)) else x for x in its], less)
        return f
    b['min'] = Ext('min', f_minmax(lambda x, r: lt(x, r)))
    b['max'] = Ext('max', f_minmax(lambda x, r: lt(r, x)))
    b['pow'] = Ext('pow', lambda e, a, k: power(e, a[0], a[1]))

    def f_abs(e, a, k):
        v = a[0]
        c = conc(v)
        if c is not None: return abs(c) if isint(v) else N('r', abs(c))
        return ite(lt(v, 0), e.binop(ast.Sub(), 0, v), v)
    b['abs'] = Ext('abs', f_abs)

    def f_round(e, a, k):
        if len(a) > 1:
            if not (isinstance(a[1], int) and 0 <= a[1] < 30): raise Unsupported('round to digits')
            c = conc(a[0])
            if c is not None: return real(round(float(c), a[1]))
            return printed(e, Piece('%%.%df' % a[1], a[0]))
        v = a[0]
        c = conc(v)
        if c is not None: return round(c)
        fl = floor_(e, v)
        d = sub(v, fl)
        up = bor(lt(N('r', Fraction(1, 2)), d), band(eq(d, N('r', Fraction(1, 2))), eq(mkint(zi(fl) % 2), 1)))
        return ite(up, add(fl, 1), fl)
    b['round'] = Ext('round', f_round)

    def f_sum(e, a, k):
        its = items(e, a[0])
        r = a[1] if len(a) > 1 else 0
        for x in its: r = e.binop(ast.Add(), r, x)
        return r
    b['sum'] = Ext('sum', f_sum)

    def f_map(e, a, k):
        f = a[0]
        seqs = a[1:]
        ns = [seq_len(e, s) if not (isinstance(s, E_.Ref) and s.kind in ('dict', 'inst', 'set')) else None for s in seqs]
        if all(n is None or conc(n) is not None for n in ns):
            cols = [items(e, s) for s in seqs]
            return e.mklist([e.call(f, list(c), {}) for c in zip(*cols)])
        from . import loops
        return loops.sym_map(e, lambda i: e.call(f, [seq_at(e, s, i) for s in seqs], {}), min_len(e, ns))
    b['map'] = Ext('map', f_map)

    def f_filter(e, a, k):
        return e.mklist([x for x in items(e, a[1]) if e.truth(x if a[0] is None else e.call(a[0], [x], {}))])
    b['filter'] = Ext('filter', f_filter)

    def f_zip(e, a, k):
        ns = [seq_len(e, s) for s in a]
        if all(conc(n) is not None for n in ns):
            return e.mklist([tuple(x) for x in zip(*[items(e, s) for s in a])])
        n = min_len(e, ns)
        gs = [snapshot_seq(e, s)[1] for s in a]
        return e.mkcells((n,), lambda ix: tuple(g(ix[0]) for g in gs))
    b['zip'] = Ext('zip', f_zip)

    def f_enumerate(e, a, k):
        s0 = a[1] if len(a) > 1 else k.get('start', 0)
        n = seq_len(e, a[0]) if not (isinstance(a[0], E_.Ref) and a[0].kind in ('dict', 'inst')) else len(items(e, a[0]))
        if conc(n) is not None:
            return e.mklist([(i + s0, x) for i, x in enumerate(items(e, a[0]))])
        g = snapshot_seq(e, a[0])[1]
        return e.mkcells((n,), lambda ix: (add(ix[0], s0), g(ix[0])))
    b['enumerate'] = Ext('enumerate', f_enumerate)

    def f_reversed(e, a, k):
        v = a[0]
        if isinstance(v, RangeV):
            return RangeV(v.at(sub(v.n, 1)), v.n, sub(0, v.step))
        return e.mklist(list(reversed(items(e, v))))
    b['reversed'] = Ext('reversed', f_reversed)

    def f_sorted(e, a, k):
        its = items(e, a[0])
        if k or not (all(isinstance(x, str) for x in its) or all(isinstance(x, int) for x in its)):
            raise Unsupported('sorted')
        return e.mklist(sorted(its))
    b['sorted'] = Ext('sorted', f_sorted)
    b['iter'] = Ext('iter', lambda e, a, k: a[0])
    b['any'] = Ext('any', lambda e, a, k: bor(*[e.truthval(x) for x in items(e, a[0])]) if items(e, a[0]) else False)
    b['all'] = Ext('all', lambda e, a, k: band(*[e.truthval(x) for x in items(e, a[0])]) if items(e, a[0]) else True)
    b['isinstance'] = Ext('isinstance', lambda e, a, k: e.isinstance_(a[0], a[1]))

    def f_issubclass(e, a, k):
        c, d = a
        if isinstance(d, tuple): return any(f_issubclass(e, [c, x], {}) for x in d)
        return any(x is d or (isinstance(x, E_.Ref) and isinstance(d, E_.Ref) and x.id == d.id) for x in e.mro(c))
    b['issubclass'] = Ext('issubclass', f_issubclass)

    def f_hasattr(e, a, k):
        try:
            e.getattr(a[0], a[1])
            return True
        except E_.PyRaise:
            return False
    b['hasattr'] = Ext('hasattr', f_hasattr)

    def f_getattr(e, a, k):
        try:
            return e.getattr(a[0], a[1])
        except E_.PyRaise:
            if len(a) > 2: return a[2]
            raise
    b['getattr'] = Ext('getattr', f_getattr)
    b['setattr'] = Ext('setattr', lambda e, a, k: e.setattr(a[0], a[1], a[2]))
    b['callable'] = Ext('callable', lambda e, a, k: isinstance(a[0], (E_.Func, E_.Bound, E_.Ext, E_.ExtClass)))
    b['repr'] = Ext('repr', lambda e, a, k: repr_text(e, a[0]))
    b['id'] = Ext('id', lambda e, a, k: a[0].id)
    b['divmod'] = Ext('divmod', lambda e, a, k: (e.floordiv(a[0], a[1]), e.mod(a[0], a[1])))
    b['chr'] = Ext('chr', lambda e, a, k: chr(a[0]))
    b['ord'] = Ext('ord', lambda e, a, k: ord(a[0]))

    # the names the translation introduces
    def f_div(e, a, k):
        x, y = a
        if isinstance(x, (bool, B)): x = e.bool_int(x)
        if isinstance(y, (bool, B)): y = e.bool_int(y)
        if is_array(e, x) or is_array(e, y): return e.binop(ast.Div(), x, y)
        if not isnum(x) or not isnum(y):
            e.pyraise('TypeError', 'division')
        if isint(x) and isint(y): return e.floordiv(x, y)
        return e.div(x, y)
    b['__py2_div__'] = b['__py2_idiv__'] = Ext('/', f_div)

    def f_import(e, a, k):
        return e.import_module(e.resolve(a[0], a[1]))
    b['__py2_import__'] = Ext('import', f_import)

    def f_write(e, a, k): return e.call(e.getattr(a[0], 'write'), [a[1]], {})
    b['__py2_write__'] = Ext('write', f_write)

    def enc(e, a, k): return HexT(a[0])

    def dec(e, a, k):
        v = a[0]
        if isinstance(v, HexT): return v.raw
        if isinstance(v, T) and len([p for p in v.parts if not isinstance(p, Pad)]) == 1:
            p = [p for p in v.parts if not isinstance(p, Pad)][0]
            if isinstance(p.val, HexT): return p.val.raw
        raise Unsupported('hex decoding')
    b['__py2_encode_hex__'] = Ext('hex encode', enc)
    b['__py2_decode_hex__'] = Ext('hex decode', dec)
    b['open'] = Ext('open', lambda e, a, k: e.fs.open(e, a, k))
    return b


class HexT(object):
    """The hexadecimal text of some bytes."""
    noloop = True
    def __init__(self, raw): self.raw = raw


def min_len(en, ns):
    r = ns[0]
    for n in ns[1:]:
        c = lt(n, r)
        r = n if c is True else r if c is False else (r if eq(n, r) is True else ite(c, n, r))
    return r


class Half(N):
    """A half-float: its real value and its 16-bit pattern."""
    __slots__ = ('bits',)

    def __init__(self, e, bits):
        N.__init__(self, 'r', e)
        self.bits = bits


def halfm(e):
    h = getattr(e, 'half', None)
    if h is None: raise Unsupported('bit patterns (the scenario has no half model)')
    return h


def make_extmods(en):
    Ext, EC, EM = E_.Ext, E_.ExtClass, E_.ExtMod
    mods = {}

    def un(f):
        return lambda e, a, k: f(e, a[0])

    def isnan(e, v):
        if special(v): return v.e == 'nan'
        if isnum(v): return False
        if isinstance(v, (str, T, S)) or v is None: e.pyraise('TypeError')
        raise Unsupported('isnan of %s' % e.tname(v))

    def isinf(e, v):
        if special(v): return v.e != 'nan'
        if isnum(v): return False
        raise Unsupported('isinf of %s' % e.tname(v))

    def m_floor(e, v):
        if special(v): e.pyraise('ValueError')
        return floor_(e, v)

    def m_ceil(e, v):
        if special(v): e.pyraise('ValueError')
        return ceil_(e, v)

    def m_modf(e, v):
        t = R(trunc_(e, v))
        return (sub(R(v), t), t)

    def m_log10(e, v):
        if special(v): raise Unsupported('log of a special float')
        if not e.decide(lt(0, v)): e.pyraise('ValueError', 'math domain error')
        log10_bounds(e, v)
        return log10(v)

    def m_log(e, a, k):
        v = a[0]
        if not e.decide(lt(0, v)): e.pyraise('ValueError', 'math domain error')
        log10_bounds(e, v)
        if len(a) > 1:
            log10_bounds(e, a[1])
            return rdiv(log10(v), log10(a[1]))
        return N('r', LOGE(zr(v)))

    def m_log2(e, v):
        if not e.decide(lt(0, v)): e.pyraise('ValueError', 'math domain error')
        log10_bounds(e, v)
        log10_bounds(e, real(2))
        return rdiv(log10(v), log10(real(2)))

    def m_sqrt(e, v):
        if e.decide(lt(v, 0)): e.pyraise('ValueError')
        return N('r', SQRT(zr(v)))
    math = EM('math', {
        'floor': Ext('floor', un(m_floor)), 'ceil': Ext('ceil', un(m_ceil)), 'modf': Ext('modf', un(m_modf)),
        'log10': Ext('log10', un(m_log10)), 'log': Ext('log', m_log), 'log2': Ext('log2', un(m_log2)),
        'pow': Ext('pow', lambda e, a, k: power(e, R(a[0]), R(a[1]))),
        'isnan': Ext('isnan', un(isnan)), 'isinf': Ext('isinf', un(isinf)),
        'trunc': Ext('trunc', un(trunc_)), 'sqrt': Ext('sqrt', un(m_sqrt)),
        'fabs': Ext('fabs', lambda e, a, k: R(e.builtins['abs'].fn(e, a, k))),
        'fmod': Ext('fmod', lambda e, a, k: (_ for _ in ()).throw(Unsupported('fmod'))),
        'exp': Ext('exp', lambda e, a, k: N('r', EXPF(zr(a[0])))),
        'pi': real(3.141592653589793),
    })
    mods['math'] = math

    def f32(e, a, k):
        v = a[0] if a else real(0)
        if isinstance(v, (bool, B)): v = e.bool_int(v)
        if isinstance(v, Half): return N('r', v.e)
        if isnum(v): return R(v)
        if isinstance(v, (str, T)): return to_float(e, v)
        if is_array(e, v) or isinstance(v, E_.Ref): return arr_copy(e, v)
        raise Unsupported('float32 of %s' % e.tname(v))

    def scalar(kind, w, dflt):
        def f(e, a, k):
            h = getattr(e, 'half', None)
            r = h.scalar(e, kind, w, a[0]) if h and a else None
            return dflt(e, a, k) if r is None else r
        return f

    def uint(e, a, k):
        return to_int(e, a[0])
    scal = EC('generic')
    np_types = {}
    for nm in ('float32', 'float64', 'float_', 'double', 'single', 'longdouble', 'float'):
        np_types[nm] = EC(nm, None, scalar('f', 32 if nm in ('float32', 'single') else 64, f32))
    np_types['float16'] = EC('float16', None, lambda e, a, k: e.half.cast(e, a[0]) if getattr(e, 'half', None) else f32(e, a, k))
    for nm in ('uint8', 'uint16', 'uint32', 'uint64', 'int8', 'int16', 'int32', 'int64', 'int_'):
        w = ''.join(x for x in nm if x.isdigit())
        np_types[nm] = EC(nm, None, scalar('u', int(w), uint) if nm.startswith('uint') else uint)

    def dt(x):
        if x is None: return 'f'
        if isinstance(x, E_.ExtClass):
            return dtype(16 if '16' in x.name else 32 if x.name in ('float32', 'single') else 64) \
                if x.name.startswith(('float', 'double', 'single', 'longdouble')) else 'i'
        if isinstance(x, str): return 'f' if 'f' in x or 'd' in x else 'i'
        return 'f'

    en.np_dtype = dt

    def zeros(val):
        def f(e, a, k):
            sh = a[0]
            d = dt(a[1] if len(a) > 1 else k.get('dtype'))
            z = real(val) if d == 'f' else val
            if isint(sh): shape = (sh,)
            else: shape = tuple(items(e, sh))
            for n in shape:
                if not isint(n): e.pyraise('TypeError')
                if isinstance(n, N) and not e.known(le(0, n)):
                    if e.decide(lt(n, 0)): e.pyraise('ValueError')
            return e.mkcells(shape, lambda ix: z, arr=True, dtype=d)
        return f

    def np_array(e, a, k):
        v = a[0]
        d = dt(a[1] if len(a) > 1 else k.get('dtype'))
        if set(k) - {'dtype', 'copy'} or len(a) > 2: raise Unsupported('arguments of numpy.array')
        if not e.truth(k.get('copy', True)): return np_asarray(e, a, {x: y for x, y in k.items() if x != 'copy'})
        if isinstance(v, Ab) and v.model is not None and hasattr(v.model, 'np_array'):
            return v.model.np_array(e, v, d)
        if isnum(v): raise Unsupported('zero-dimensional array')
        return arr_copy(e, v, d)

    def np_asarray(e, a, k):
        v = a[0]
        d = dt(a[1] if len(a) > 1 else k.get('dtype'))
        if isinstance(v, Ab) and v.model is not None and hasattr(v.model, 'np_asarray'):
            return v.model.np_asarray(e, v, d)
        if is_array(e, v):
            base = v.base if isinstance(v, (E_.View, E_.MView)) else v
            if isinstance(v, Frozen) or (len(a) < 2 and 'dtype' not in k) or e.st(base).dtype == d: return v
        return np_array(e, a, k)

    def np_clip(e, a, k):
        v, lo, hi = a
        if isnum(v): return minmax(e, [minmax(e, [v, lo], lambda x, r: lt(r, x)), hi], lambda x, r: lt(x, r))
        raise Unsupported('clip of arrays')

    def np_pow(e, a, k): return power(e, a[0], a[1])

    def nparr_or(fn):
        def f(e, a, k):
            if is_array(e, a[0]) or isinstance(a[0], E_.Ref):
                return e.mklist([fn(e, x) for x in items(e, a[0])])
            return fn(e, a[0])
        return f

    def np_dot(e, a, k):
        x, y = items(e, a[0]), items(e, a[1])
        if len(x) != len(y): e.pyraise('ValueError')
        r = real(0)
        for p, q in zip(x, y):
            if not (isnum(p) and isnum(q)): raise Unsupported('matrix product')
            r = add(r, mul(p, q))
        return r
    npm = dict(np_types)
    npm.update({
        'zeros': Ext('zeros', zeros(0)), 'ones': Ext('ones', zeros(1)), 'empty': Ext('empty', zeros(0)),
        'array': Ext('array', np_array), 'asarray': Ext('asarray', np_asarray),
        'copy': Ext('copy', lambda e, a, k: arr_copy(e, a[0])),
        'isnan': Ext('isnan', nparr_or(isnan)), 'isinf': Ext('isinf', nparr_or(isinf)),
        'isfinite': Ext('isfinite', nparr_or(lambda e, v: not special(v))),
        'ndarray': EC('ndarray'), 'clip': Ext('clip', np_clip), 'power': Ext('power', np_pow),
        'floor': Ext('floor', lambda e, a, k: R(floor_(e, a[0]))), 'ceil': Ext('ceil', lambda e, a, k: R(ceil_(e, a[0]))),
        'log10': math.attrs['log10'], 'log2': math.attrs['log2'], 'dot': Ext('dot', np_dot),
        'minimum': Ext('minimum', lambda e, a, k: minmax(e, a, lambda x, r: lt(x, r))),
        'maximum': Ext('maximum', lambda e, a, k: minmax(e, a, lambda x, r: lt(r, x))),
        'abs': en.builtins['abs'], 'sum': en.builtins['sum'], 'nan': real(float('nan')), 'inf': real(float('inf')),
        'getbuffer': Ext('getbuffer', lambda e, a, k: halfm(e).getbuffer(e, a[0])),
        'frombuffer': Ext('frombuffer', lambda e, a, k: halfm(e).frombuffer(e, a, k)),
        'seterr': Ext('seterr', lambda e, a, k: e.mkdict({})),
        'generic': scal,
    })
    mods['numpy'] = EM('numpy', npm)

    # chain.from_iterable, os.path, sys: concrete strings only
    def chain_from(e, a, k):
        out = []
        for x in items(e, a[0]): out.extend(items(e, x))
        return e.mklist(out)

    def chain_call(e, a, k):
        out = []
        for x in a: out.extend(items(e, x))
        return e.mklist(out)
    mods['itertools'] = EM('itertools', {
        'chain': EC('chain', None, chain_call, {'from_iterable': Ext('from_iterable', chain_from)}),
    })
    import os.path as osp

    def conc_str(name, f):
        def g(e, a, k):
            if all(isinstance(x, str) for x in a): return f(*a)
            h = e.hooks.get(('os.path', name))
            if h is not None: return h(e, a)
            raise Unsupported('os.path.%s of a symbolic path' % name)
        return Ext(name, g)
    path = EM('os.path', {n: conc_str(n, getattr(osp, n)) for n in
                          ('splitext', 'basename', 'dirname', 'join', 'split', 'abspath', 'normpath', 'isabs')})
    path.attrs['exists'] = Ext('exists', lambda e, a, k: e.fs.exists(e, a[0]))
    path.attrs['isfile'] = path.attrs['exists']
    mods['os.path'] = path
    mods['os'] = EM('os', {'path': path, 'sep': '/', 'linesep': '\n', 'getpid': Ext('getpid', lambda e, a, k: 1)})
    mods['sys'] = EM('sys', {'path': en.mklist([]), 'argv': en.mklist([]), 'exc_info': Ext('exc_info', lambda e, a, k: (None, None, None)),
                             'version': '2.7', 'stdout': None, 'maxint': 2 ** 63 - 1, 'platform': 'linux'})
    mods['warnings'] = EM('warnings', {})
    for nm in ('traceback', 'optparse', 'argparse', 'array', 'multiprocessing', 'timeit', 'time', 'shutil',
               'tempfile', 'unittest', 'xml', 'xml.dom', 'copy', 'functools', 'operator', 'collections', 're'):
        mods[nm] = EM(nm, {})

    def deepcopy(e, a, k):
        v = a[0]
        if isnum(v) or isinstance(v, (str, bool, T)) or v is None: return v
        if isinstance(v, E_.Ref) and v.kind == 'list': return e.mklist([deepcopy(e, [x], {}) for x in e.st(v).items])
        if is_array(e, v): return arr_copy(e, v)
        raise Unsupported('deepcopy')

    def shallow(e, a, k):
        v = a[0]
        if isinstance(v, E_.Ref) and v.kind == 'list': return e.mklist(e.st(v).items)
        if isinstance(v, E_.Ref) and v.kind == 'dict': return e.mkdict(e.st(v).d)
        if is_array(e, v): return arr_copy(e, v)
        return deepcopy(e, a, k)
    mods['copy'].attrs.update(deepcopy=Ext('deepcopy', deepcopy), copy=Ext('copy', shallow))

    def reduce_(e, a, k):
        its = items(e, a[1])
        r = a[2] if len(a) > 2 else its.pop(0)
        for x in its: r = e.call(a[0], [r, x], {})
        return r
    mods['functools'].attrs['reduce'] = Ext('reduce', reduce_)

    # struct: only the big-endian round trips the helpers use
    def pack(e, a, k): return halfm(e).pack(e, *a)
    def unpack(e, a, k): return halfm(e).unpack(e, a[0], a[1])
    mods['struct'] = EM('struct', {'pack': Ext('pack', pack), 'unpack': Ext('unpack', unpack)})
    from . import etree
    em = etree.make(en)
    xm = EM('xml.etree', {'ElementTree': em})
    mods['xml.etree'] = xm
    mods['xml.etree.ElementTree'] = em
    mods['xml'].attrs['etree'] = xm
    mods['xml.dom'].attrs['minidom'] = EM('minidom', {'parseString': Ext('parseString', etree.parse_string)})
    mods['xml.dom.minidom'] = mods['xml.dom'].attrs['minidom']
    mods['PyOpenColorIO'] = EM('PyOpenColorIO', {nm: E_.ExtClass(nm) for nm in (
        'GroupTransform', 'FileTransform', 'MatrixTransform', 'LogTransform', 'CDLTransform', 'AllocationTransform', 'Config', 'Constants')})
    mods['OpenImageIO'] = EM('OpenImageIO', {'UINT8': 'uint8', 'UINT16': 'uint16', 'HALF': 'half', 'FLOAT': 'float', 'Create': 'create', 'VERSION': 20000})
    mods['multiprocessing'].attrs['cpu_count'] = Ext('cpu_count', lambda e, a, k: 8)
    mods['multiprocessing'].attrs['Pool'] = Ext('Pool', lambda e, a, k: e.alloc('inst', E_.InstS(e.poolclass, {})))
    mods['multiprocessing'].attrs['Lock'] = E_.ExtClass('Lock')
    mods['optparse'] = EM('optparse', {'OptionParser': E_.ExtClass('OptionParser', None, lambda e, a, k: Ab(z3.Const('parser', AbSort), Parser()))})
    mods['gzip'] = EM('gzip', {'open': Ext('gzip.open', lambda e, a, k: e.fs.gzopen(e, a, k))})
    return mods


class Parser(object):
    """An optparse.OptionParser: what parse_args gives for the command line en.cli (destination -> what
    the user typed: a number, a string, a list of these, or True for a flag). Trusted."""
    def __init__(self): self.opts = []

    def getattr(self, en, v, name):
        if name == 'add_option': return E_.Ext(name, self.add)
        if name == 'parse_args': return E_.Ext(name, self.parse)
        if name in ('print_help', 'print_usage', 'set_usage', 'set_defaults_'): return E_.Ext(name, lambda e, a, k: None)
        raise Unsupported('OptionParser.%s' % name)

    def add(self, en, a, k):
        names = [x for x in a if x]
        if not all(isinstance(x, str) for x in names): raise Unsupported('option names')
        longs = [x for x in names if x.startswith('--')]
        if set(k) - {'dest', 'default', 'type', 'action', 'nargs', 'help', 'metavar'}: raise Unsupported('option settings')
        self.opts.append((k.get('dest') or ((longs or names)[0].lstrip('-').replace('-', '_')), names, k))

    def parse(self, en, a, k):
        if a or k: raise Unsupported('arguments of parse_args')
        vals, left = {}, dict(en.cli)
        for dest, names, k in self.opts:
            d = k.get('default')
            vals[dest] = self.convert(en, k.get('type'), d) if isinstance(d, str) else d
        for dest, names, k in self.opts:
            given = [x for x in names if x in left]
            for x in given:
                v, act, nargs = left.pop(x), k.get('action', 'store'), k.get('nargs', 1)
                typed = 0 if v is True else len(v) if isinstance(v, list) else 1
                flag = act in ('store_true', 'store_false', 'store_const')
                if typed != (0 if flag else nargs): raise Unsupported('the option %s takes other arguments' % x)
                if flag: vals[dest] = act == 'store_true'
                elif act not in ('store', 'append'): raise Unsupported('option action %s' % act)
                else:
                    w = tuple(self.convert(en, k.get('type'), y) for y in v) if isinstance(v, list) else self.convert(en, k.get('type'), v)
                    if act == 'store': vals[dest] = w
                    elif vals[dest] is None: vals[dest] = en.mklist([w])
                    else: list_extend(en, vals[dest], (w,))
        for x in left: en.pyraise('SystemExit', 'no such option: %s' % x)
        return Ab(z3.Const('options', AbSort), Options(vals)), en.mklist([])

    @staticmethod
    def convert(en, ty, v):
        ty = getattr(ty, 'name', ty) or 'string'
        if ty == 'int': return to_int(en, v)
        if ty == 'float': return to_float(en, v)
        if ty in ('string', 'str'): return en.call(en.builtins['str'], [v], {})
        raise Unsupported('option type %s' % ty)


class Options(object):
    def __init__(self, vals): self.vals = vals

    def getattr(self, en, v, name):
        if name in self.vals: return self.vals[name]
        en.pyraise('AttributeError', name)


def conc_len(en, n):
    """n when only one value is possible on this path, else None."""
    if conc(n) is not None: return int(conc(n))
    try:
        return int(only_value(en, n))
    except (Unsupported, ValueError):
        return None
