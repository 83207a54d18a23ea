"""Values of the verifier: exact numbers, symbolic numbers, booleans, strings, text."""
import z3
from fractions import Fraction


class Unsupported(Exception):
    """The construct is outside the verifier's reach: nothing is claimed about it."""


class Prune(Exception):
    """The current path is infeasible."""


def zsimp(e):
    return z3.simplify(e, som=True, som_blowup=10000)


def _num(e):
    """A z3 numeral as int / Fraction, else None."""
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_rational_value(e):
        return e.as_fraction()
    return None


class N(object):
    """A number. kind 'i' (mathematical integer) or 'r' (real, standing for a float).
    e: Fraction, z3 ArithRef, or for floats the words 'nan', 'inf', '-inf'."""
    __slots__ = ('kind', 'e')

    def __init__(self, kind, e):
        self.kind = kind
        self.e = e

    # arithmetic used by spec functions and by the interpreter
    def __add__(self, o): return add(self, o)
    def __radd__(self, o): return add(o, self)
    def __sub__(self, o): return sub(self, o)
    def __rsub__(self, o): return sub(o, self)
    def __mul__(self, o): return mul(self, o)
    def __rmul__(self, o): return mul(o, self)
    def __truediv__(self, o): return rdiv(self, o)
    def __rtruediv__(self, o): return rdiv(o, self)
    def __neg__(self): return sub(0, self)
    def __lt__(self, o): return lt(self, o)
    def __le__(self, o): return le(self, o)
    def __gt__(self, o): return lt(o, self)
    def __ge__(self, o): return le(o, self)
    def __eq__(self, o): return eq(self, o)
    def __ne__(self, o): return bnot(eq(self, o))
    def __hash__(self): return hash((self.kind, str(self.e)))
    def __bool__(self): raise Unsupported('truth of a symbolic number in a spec')
    def __repr__(self): return 'N(%s,%s)' % (self.kind, self.e)


class B(object):
    """A symbolic boolean."""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __and__(self, o): return band(self, o)
    def __rand__(self, o): return band(self, o)
    def __or__(self, o): return bor(self, o)
    def __ror__(self, o): return bor(self, o)
    def __invert__(self): return bnot(self)
    def __bool__(self): raise Unsupported('truth of a symbolic boolean in a spec')
    def __repr__(self): return 'B(%s)' % self.e


_STRIDS = {}


def strid(s):
    """The number that stands for a literal string in the solver."""
    if s not in _STRIDS:
        _STRIDS[s] = len(_STRIDS) + 1
    return _STRIDS[s]


def strof(i):
    for s, k in _STRIDS.items():
        if k == i:
            return s
    return None


class S(object):
    """An opaque symbolic string: only equality is known about it."""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __repr__(self): return 'S(%s)' % self.e


class Piece(object):
    """A formatted value inside a text: format spec and the value; no white space inside
    the token it prints (padding may surround it)."""
    __slots__ = ('spec', 'val')

    def __init__(self, spec, val):
        self.spec = spec
        self.val = val

    def __repr__(self): return 'Piece(%r,%r)' % (self.spec, self.val)


class LoopText(object):
    """The concatenation over p in [0,n) of the text body(p)."""
    __slots__ = ('n', 'body')

    def __init__(self, n, body):
        self.n = n
        self.body = body


class T(object):
    """A structured text: tuple of str, Piece, LoopText."""
    __slots__ = ('parts',)

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, T):
                sub_ = p.parts
            else:
                sub_ = (p,)
            for q in sub_:
                if isinstance(q, S): q = Piece('%s', q)
                if isinstance(q, str):
                    if not q:
                        continue
                    if out and isinstance(out[-1], str):
                        out[-1] += q
                        continue
                out.append(q)
        self.parts = tuple(out)

    def __repr__(self): return 'T%r' % (self.parts,)


def mktext(parts):
    t = T(parts)
    if not t.parts:
        return ''
    if len(t.parts) == 1 and isinstance(t.parts[0], str):
        return t.parts[0]
    if len(t.parts) == 1 and isinstance(t.parts[0], Piece) and t.parts[0].spec == '%s' and isinstance(t.parts[0].val, S):
        return t.parts[0].val
    return t


# ---------------------------------------------------------------- numbers

def real(v):
    """A concrete float (or z3 real) as N."""
    if isinstance(v, N):
        return v
    if isinstance(v, bool):
        return N('r', Fraction(int(v)))
    if isinstance(v, int):
        return N('r', Fraction(v))
    if isinstance(v, Fraction):
        return N('r', v)
    if isinstance(v, float):
        if v != v:
            return N('r', 'nan')
        if v in (float('inf'), float('-inf')):
            return N('r', 'inf' if v > 0 else '-inf')
        return N('r', Fraction(repr(v)))
    return N('r', v)


def mkint(e):
    """A z3 integer expression as int or N."""
    e = zsimp(e)
    k = _num(e)
    return k if k is not None else N('i', e)


def mkreal(e):
    k = _num(e)
    return N('r', Fraction(k)) if k is not None else N('r', e)


def isnum(v):
    return isinstance(v, (int, N, float, Fraction))


def special(v):
    return isinstance(v, N) and isinstance(v.e, str)


def conc(v):
    """int or Fraction if concrete and finite, else None."""
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, (int, Fraction)):
        return v
    if isinstance(v, float):
        return real(v).e if v == v and abs(v) != float('inf') else None
    if isinstance(v, N) and isinstance(v.e, Fraction):
        return v.e
    return None


def isint(v):
    return isinstance(v, int) or (isinstance(v, N) and v.kind == 'i')


def zi(v):
    """As z3 integer."""
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, N) and v.kind == 'i':
        return v.e
    raise Unsupported('integer expected: %r' % (v,))


def zr(v):
    """As z3 real."""
    if isinstance(v, bool):
        return z3.RealVal(int(v))
    if isinstance(v, int):
        return z3.RealVal(v)
    if isinstance(v, float):
        v = real(v)
    if isinstance(v, Fraction):
        return z3.Q(v.numerator, v.denominator)
    if isinstance(v, N):
        if isinstance(v.e, str):
            raise Unsupported('special float %s in a formula' % v.e)
        if v.kind == 'i':
            return z3.ToReal(v.e)
        if isinstance(v.e, Fraction):
            return z3.Q(v.e.numerator, v.e.denominator)
        return v.e
    raise Unsupported('number expected: %r' % (v,))


def _both_int(a, b):
    return isint(a) and isint(b)


def _special(op, a, b):
    """Arithmetic on NaN and infinities; None where neither operand is special."""
    if not (special(a) or special(b)):
        return None
    fa = float(a.e) if special(a) else (None if conc(a) is None else float(conc(a)))
    fb = float(b.e) if special(b) else (None if conc(b) is None else float(conc(b)))
    if (fa is not None and fa != fa) or (fb is not None and fb != fb):
        return N('r', 'nan')
    if fa is None or fb is None:
        if op in ('+',):
            return a if special(a) else b
        if op == '-':
            if special(a):
                return a
            return N('r', 'inf' if b.e == '-inf' else '-inf')
        raise SpecialSign(op, a, b)
    if op == '+': r = fa + fb
    elif op == '-': r = fa - fb
    elif op == '*': r = fa * fb
    else: r = fa / fb
    return real(r)


class SpecialSign(Exception):
    """inf * x or inf / x: the caller has to decide the sign of x."""
    def __init__(self, op, a, b):
        self.op, self.a, self.b = op, a, b


def add(a, b):
    s = _special('+', a, b)
    if s is not None: return s
    ca, cb = conc(a), conc(b)
    if _both_int(a, b):
        if ca is not None and cb is not None: return int(ca + cb)
        return mkint(zi(a) + zi(b))
    if ca is not None and cb is not None: return N('r', Fraction(ca) + Fraction(cb))
    if ca == 0 and isinstance(b, N): return N('r', zr(b))
    if cb == 0 and isinstance(a, N): return N('r', zr(a))
    return N('r', zr(a) + zr(b))


def sub(a, b):
    s = _special('-', a, b)
    if s is not None: return s
    ca, cb = conc(a), conc(b)
    if _both_int(a, b):
        if ca is not None and cb is not None: return int(ca - cb)
        return mkint(zi(a) - zi(b))
    if ca is not None and cb is not None: return N('r', Fraction(ca) - Fraction(cb))
    if cb == 0 and isinstance(a, N): return N('r', zr(a))
    return N('r', zr(a) - zr(b))


def mul(a, b):
    s = _special('*', a, b)
    if s is not None: return s
    ca, cb = conc(a), conc(b)
    if _both_int(a, b):
        if ca is not None and cb is not None: return int(ca * cb)
        return mkint(zi(a) * zi(b))
    if ca is not None and cb is not None: return N('r', Fraction(ca) * Fraction(cb))
    if ca == 0 or cb == 0: return N('r', Fraction(0))
    if ca == 1: return N('r', zr(b))
    if cb == 1: return N('r', zr(a))
    return N('r', zr(a) * zr(b))


def rdiv(a, b):
    """Real division; the divisor is known to be non-zero."""
    s = _special('/', a, b)
    if s is not None: return s
    ca, cb = conc(a), conc(b)
    if cb == 0: raise Unsupported('division by the constant zero in a spec')
    if ca is not None and cb is not None: return N('r', Fraction(ca) / Fraction(cb))
    if cb is not None: return mul(a, N('r', 1 / Fraction(cb)))
    if ca == 0: return N('r', Fraction(0))
    return N('r', zr(a) / zr(b))


def mkbool(e):
    e = z3.simplify(e)
    if z3.is_true(e): return True
    if z3.is_false(e): return False
    return B(e)


def zb(v):
    if isinstance(v, bool): return z3.BoolVal(v)
    if isinstance(v, B): return v.e
    raise Unsupported('boolean expected: %r' % (v,))


def band(*xs):
    if any(x is False for x in xs): return False
    xs = [x for x in xs if x is not True]
    if not xs: return True
    if len(xs) == 1: return xs[0]
    return B(z3.And(*[zb(x) for x in xs]))


def bor(*xs):
    if any(x is True for x in xs): return True
    xs = [x for x in xs if x is not False]
    if not xs: return False
    if len(xs) == 1: return xs[0]
    return B(z3.Or(*[zb(x) for x in xs]))


def bnot(x):
    if isinstance(x, bool): return not x
    return B(z3.Not(zb(x)))


def implies(a, b):
    return bor(bnot(a), b)


def _cmp(a, b, fc, fz):
    if special(a) or special(b):
        fa = float(a.e) if special(a) else (None if conc(a) is None else float(conc(a)))
        fb = float(b.e) if special(b) else (None if conc(b) is None else float(conc(b)))
        if (fa is not None and fa != fa) or (fb is not None and fb != fb):
            return False
        # a finite symbolic number against an infinity
        if fa is None: fa = 0.0
        if fb is None: fb = 0.0
        return fc(fa, fb)
    ca, cb = conc(a), conc(b)
    if ca is not None and cb is not None:
        return fc(ca, cb)
    if _both_int(a, b):
        d = zsimp(zi(a) - zi(b))
        k = _num(d)
        if k is not None: return fc(k, 0)
        return mkbool(fz(zi(a), zi(b)))
    d = zsimp(zr(a) - zr(b))
    k = _num(d)
    if k is not None: return fc(k, 0)
    return mkbool(fz(zr(a), zr(b)))


def lt(a, b): return _cmp(a, b, lambda x, y: x < y, lambda x, y: x < y)
def le(a, b): return _cmp(a, b, lambda x, y: x <= y, lambda x, y: x <= y)
def eq(a, b): return _cmp(a, b, lambda x, y: x == y, lambda x, y: x == y)


def ite(c, a, b):
    """If-then-else on values; raises Unsupported when they cannot be merged."""
    if c is True: return a
    if c is False: return b
    if a is b: return a
    if isinstance(a, bool) and isinstance(b, bool) and a == b: return a
    if isinstance(a, (bool, B)) and isinstance(b, (bool, B)):
        return mkbool(z3.If(zb(c), zb(a), zb(b)))
    if isnum(a) and isnum(b):
        if special(a) or special(b):
            if special(a) and special(b) and a.e == b.e: return a
            raise Unsupported('merge of special floats')
        ca, cb = conc(a), conc(b)
        if ca is not None and ca == cb and isint(a) == isint(b): return a
        if _both_int(a, b):
            return mkint(z3.If(zb(c), zi(a), zi(b)))
        x, y = zr(a), zr(b)
        if x.eq(y): return N('r', x)
        return N('r', z3.If(zb(c), x, y))
    if isinstance(a, (str, S)) and isinstance(b, (str, S)):
        if isinstance(a, str) and a == b: return a
        x = z3.IntVal(strid(a)) if isinstance(a, str) else a.e
        y = z3.IntVal(strid(b)) if isinstance(b, str) else b.e
        return S(z3.simplify(z3.If(zb(c), x, y)))
    if a is None and b is None: return None
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    if isinstance(a, Frozen) and isinstance(b, Frozen) and len(a.items) == len(b.items):
        return Frozen([ite(c, x, y) for x, y in zip(a.items, b.items)], a.kind)
    if isinstance(a, T) and isinstance(b, T) and len(a.parts) == len(b.parts):
        out = []
        for x, y in zip(a.parts, b.parts):
            if isinstance(x, Piece) and isinstance(y, Piece) and x.spec == y.spec: out.append(Piece(x.spec, ite(c, x.val, y.val)))
            elif x is y or type(x) is type(y) and (isinstance(x, str) and x == y or hasattr(x, 'width') and (x.width, x.left) == (y.width, y.left)): out.append(x)
            else: raise Unsupported('merge of texts')
        return T(out)
    if isinstance(a, Ab) and isinstance(b, Ab):
        if a.e.eq(b.e): return a
        return Ab(z3.If(zb(c), a.e, b.e), a.model)
    if hasattr(a, 'same') and a.same(b): return a
    raise Unsupported('merge of %s and %s' % (type(a).__name__, type(b).__name__))


class Alt(object):
    """a where c holds, else b, for values that have no common form; told apart when read."""
    __slots__ = ('c', 'a', 'b')
    def __init__(self, c, a, b): self.c, self.a, self.b = c, a, b


def alt(c, a, b):
    if c is True: return a
    if c is False: return b
    if isinstance(a, Alt) or isinstance(b, Alt): return Alt(c, a, b)
    try:
        return ite(c, a, b)
    except Unsupported:
        if isinstance(a, N) and isinstance(b, N): return Alt(c, a, b)
        if isinstance(a, (str, S, T)) and isinstance(b, (str, S, T)): return Alt(c, a, b)
        raise


class Frozen(object):
    """A list or vector stored by value inside a symbolic container."""
    __slots__ = ('items', 'kind')

    def __init__(self, items, kind='list'):
        self.items = tuple(items)
        self.kind = kind

    def __repr__(self): return 'Frozen%r' % (self.items,)


AbSort = z3.DeclareSort('Obj')


class Ab(object):
    """An abstract object: only its identity (a term) and its model's methods are known."""
    __slots__ = ('e', 'model')

    def __init__(self, e, model=None):
        self.e = e
        self.model = model

    def __repr__(self): return 'Ab(%s)' % self.e


SPLITS = {}      # name of a quotient: (its formal arguments, the dividend, the divisor, split)


def redivide(e):
    """The integer divisions of a term done again, after substitution may have made them exact."""
    memo = {}

    def divides(x):
        k = x.get_id()
        if k not in memo:
            memo[k] = (x.decl().kind() in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) or (x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in SPLITS)) \
                if z3.is_app(x) else False
            memo[k] = memo[k] or any(divides(y) for y in x.children())
        return memo[k]
    new = {}

    def walk(x):
        if not divides(x) or z3.is_quantifier(x): return x
        k = x.get_id()
        if k in new: return new[k][1]
        ch = [walk(y) for y in x.children()]
        r = x.decl()(*ch)
        op = x.decl().kind()
        if op in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD):
            m = _num(ch[1])
            if m is not None and m > 0:
                q, w = divmod_linear(mkint(ch[0]), m)
                r = zi(q if op == z3.Z3_OP_IDIV else w)
        elif op == z3.Z3_OP_UNINTERPRETED and x.decl().name() in SPLITS:
            formals, d, c, split = SPLITS[x.decl().name()]
            if len(formals) == len(ch):
                pairs = list(zip(formals, ch))
                q = split(*[mkint(redivide(z3.substitute(zi(y), *pairs))) if pairs else y for y in (d, c)])
                if q is not None: r = zi(q)
        new[k] = (x, r)
        return r
    return walk(e) if divides(e) else e


def divmod_linear(d, m):
    """d // m and d % m for a known m > 0, by the multiples of m in d."""
    A, rest = 0, 0
    for co, atoms in _monos(zi(d)):
        if not atoms or co % m: rest = add(rest, mkint(z3.IntVal(co) * z3.Product(*atoms)) if atoms else co)
        else: A = add(A, mkint(z3.IntVal(co // m) * z3.Product(*atoms)))
    if isinstance(rest, int): return add(A, rest // m), rest % m
    return add(A, mkint(zi(rest) / m)), mkint(zi(rest) % m)


def subst(v, pairs):
    """Substitute z3 constants in a value."""
    if isinstance(v, N):
        if isinstance(v.e, (Fraction, str)): return v if type(v) is N else N(v.kind, v.e)
        e = redivide(z3.substitute(v.e, *pairs))
        return mkint(e) if v.kind == 'i' else mkreal(e)
    if isinstance(v, B): return mkbool(redivide(z3.substitute(v.e, *pairs)))
    if isinstance(v, Alt):
        c = subst(v.c, pairs)
        if isinstance(v.a, (str, S, T)) and not isinstance(c, bool): return Alt(c, subst(v.a, pairs), subst(v.b, pairs))
        return alt(c, subst(v.a, pairs), subst(v.b, pairs))
    if isinstance(v, S): return S(z3.simplify(z3.substitute(v.e, *pairs)))
    if isinstance(v, Ab): return Ab(z3.substitute(v.e, *pairs), v.model)
    if isinstance(v, Piece): return Piece(v.spec, subst(v.val, pairs))
    if isinstance(v, LoopText):
        return LoopText(subst(v.n, pairs), lambda q, b=v.body: subst(b(q), pairs))
    if isinstance(v, T): return mktext([subst(p, pairs) for p in v.parts])
    if isinstance(v, Frozen): return Frozen([subst(x, pairs) for x in v.items], v.kind)
    if isinstance(v, tuple): return tuple(subst(x, pairs) for x in v)
    if v is None or isinstance(v, (bool, int, str, float)): return v
    if hasattr(v, 'noloop'): return v
    if hasattr(v, 'cells'): return v.subst(pairs)
    raise Unsupported('a %s made inside a loop of unknown length' % type(v).__name__)


# exact integer division of polynomials

def _monos(e):
    """Polynomial over integer atoms: {tuple(sorted atom ids): coef}, and atoms."""
    e = zsimp(e)
    terms = e.children() if z3.is_add(e) else [e]
    out = []
    for t in terms:
        fs = []

        def go(x):
            if z3.is_mul(x):
                for c in x.children(): go(c)
            else:
                fs.append(x)
        go(t)
        coef = 1
        atoms = []
        for f in fs:
            k = _num(f)
            if k is not None: coef *= k
            else: atoms.append(f)
        out.append((coef, atoms))
    return out


def exact_div(a, b):
    """a // b when every monomial of a is divisible by the monomial b; else None."""
    mb = _monos(zi(b))
    if len(mb) != 1: return None
    cb, ab = mb[0]
    res = []
    for ca, aa in _monos(zi(a)):
        if ca == 0: continue
        if cb == 0 or ca % cb: return None
        rest = list(aa)
        for x in ab:
            for i, y in enumerate(rest):
                if x.eq(y):
                    del rest[i]
                    break
            else:
                return None
        t = z3.IntVal(ca // cb)
        for y in rest: t = t * y
        res.append(t)
    return mkint(z3.Sum(res)) if res else 0


def coeff(e, p):
    """e as c*p + d with c, d free of p; None if not linear in p."""
    cs, ds = [], []
    for c, atoms in _monos(e):
        n = [i for i, a in enumerate(atoms) if a.eq(p)]
        rest = [a for a in atoms if not a.eq(p)]
        if any(_mentions(a, p) for a in rest) or len(n) > 1: return None
        t = z3.IntVal(c)
        for y in rest: t = t * y
        (cs if n else ds).append(t)
    z = z3.IntVal(0)
    return (zsimp(z3.Sum(cs)) if cs else z), (zsimp(z3.Sum(ds)) if ds else z)


def _mentions(e, p):
    seen, st = set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if x.eq(p): return True
        st.extend(x.children())
    return False
