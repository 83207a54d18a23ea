"""C13: what a node makes of a pixel inside a buffer is what it makes of that pixel alone. Each
scenario runs the node's own code twice, on an arbitrary buffer and on its arbitrary pixel P
alone, and compares; no specification of the node is involved."""
import z3
from pyvc import lib
from pyvc.vals import *
from pyvc.sym import Sym, Ctx, Pixels, DEPTHS, oblige
from pyvc import contracts as K
from pyvc.driver import linear_abstraction, som
from . import numeric as NU
from .numeric import BASE, LUT1, LUT3

SCEN = {}


def scenario(name, uses=BASE):
    def deco(fn):
        SCEN.setdefault('C13', []).append((name, fn, tuple(uses)))
        return fn
    return deco


def local(en, r, px, base, branches):
    """Non-interference, read off the term: r, the value at pixel P, mentions the buffer only as
    V(P*S + j) with 0 <= j < S, and P and n nowhere else; nor do the branches taken. So r
    is one function of the pixel's own values, for every P, n and buffer."""
    V = en.inputs['V']
    X = z3.Function('X', z3.IntSort(), z3.RealSort())
    keep = [b for b in branches if not holds(base, b)]
    memo, inside = {}, {}

    def known(j):
        k = str(j)
        if k not in inside: inside[k] = en.known(band(le(0, mkint(j)), lt(mkint(j), px.S)))
        return inside[k]

    def own(x):
        """x with the pixel's own values written as X(j)."""
        k = x.get_id()
        if k in memo: return memo[k][1]
        y = x
        if z3.is_app(x) and x.num_args():
            y = x.decl()(*[own(a) for a in x.children()]) if not (z3.is_and(x) or z3.is_or(x)) else \
                (z3.And if z3.is_and(x) else z3.Or)(*[own(a) for a in x.children()])
            if x.decl().eq(V):
                j = z3.simplify(y.arg(0) - zi(px.base), som=True)
                if not mentions(j) and known(j): y = X(j)
        memo[k] = (x, y)
        return y

    def mentions(t):
        seen, st = set(), [t]
        while st:
            x = st.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_quantifier(x) or z3.is_const(x) and (x.eq(px.P.e) or x.eq(px.n.e)) or \
                    z3.is_app(x) and x.decl().eq(V): return True
            st.extend(x.children())
        return False
    done = {}

    def settle(x):
        """x with the conditions that speak of P and n replaced by their truth value."""
        k = x.get_id()
        if k in done: return done[k][1]
        y = x
        if not mentions(x): pass
        elif z3.is_bool(x) and not (z3.is_and(x) or z3.is_or(x) or z3.is_not(x) or z3.is_app_of(x, z3.Z3_OP_ITE)):
            y = z3.BoolVal(True) if en.known(B(x)) else z3.BoolVal(False) if en.known(B(z3.Not(x))) else x
        elif x.num_args():
            ch = [settle(a) for a in x.children()]
            y = z3.And(*ch) if z3.is_and(x) else z3.Or(*ch) if z3.is_or(x) else x.decl()(*ch)
        done[k] = (x, y)
        return y

    def free(t): return not mentions(z3.simplify(settle(own(z3.simplify(t)))))
    return isinstance(r, N) and not special(r) and free(zr(r)) and all(free(b) for b in keep)


def holds(base, b):
    """The branch b follows from what the scenario assumed, whatever the values."""
    s = z3.Solver()
    s.set('timeout', 3000)
    s.add(*linear_abstraction([som(x) for x in base] + [som(z3.Not(b))]))
    return s.check() == z3.unsat


def relate(en, node, least, worked, spec=None, kind=None, exact=None):
    """worked: how many channels the node may change (None: all)."""
    c = Ctx(en)
    kind = kind or en.choose(['array', 'list'], 'buffer')
    px = Pixels(en, kind, least, exact)
    S, P, V = px.S, px.P, px.V
    def case(ev):
        s = S if isinstance(S, int) else max(least, min(int(ev(S)), 8))
        p = min(int(ev(P)), 3)
        vals = [ev(V(k)) for k in range((p + 2) * s)]
        vals[p * s:(p + 1) * s] = [ev(px.px(k)) for k in range(s)]
        return {'kind': 'pixelwise', 'how': spec(ev)['type'], 'nodes': [spec(ev)], 'values': vals, 'stride': s,
                'container': kind}
    if spec is None: case = None
    b0, base = len(en.branches), list(en.branches) + list(en.facts)
    out = c.m(node, 'process', px.buf, S)
    oblige(en, 'as many values', eq(lib.seq_len(en, out), px.L), case)
    r = en.getitem(out, px.k)
    if worked is not None:
        oblige(en, 'channels past those worked on stay', implies(le(worked, px.C), eq(r, px.px(px.C))), case)
    if local(en, r, px, base, en.branches[b0:]):
        oblige(en, 'the result at pixel P is a term over the values of pixel P alone', True, case)
        return
    # another buffer, with the same pixel at another place Q
    m, Q, W = en.const('m', 'i'), en.const('Q', 'i'), en.fn('W', 1)
    qb, L2 = mul(Q, S), mul(m, S)
    en.assume(band(le(0, Q), lt(Q, m), le(0, qb), le(mul(add(Q, 1), S), L2)))

    def other(ix):
        j = sub(ix[0], qb)
        inside = band(le(0, j), lt(j, S))
        if en.known(inside): return px.px(j)
        if en.known(bnot(inside)): return W(ix[0])
        return ite(inside, px.px(j), W(ix[0]))
    two = en.mkcells((L2,), other, arr=kind == 'array', dtype='f' if kind == 'array' else None)

    top = S if isinstance(S, int) else 4 if worked is None else worked
    ch = en.choose(list(range(top)) + ([] if isinstance(S, int) else ['any']), 'channel')
    if ch == 'any':
        ch = px.C
        en.assume(le(top, ch))
    else:
        if not isinstance(S, int): en.assume(lt(ch, S))
        en.assume(eq(px.C, ch))
    aout = c.m(node, 'process', two, S)
    a, r = en.getitem(aout, add(qb, ch)), en.getitem(out, add(px.base, ch))
    oblige(en, 'the same pixel at another place of another buffer gives the same', eq(r, a), case)


DP = [('10i', '16f'), ('16f', '12i')]


@scenario('Range')
def p_range(en):
    c = Ctx(en)
    i, o = en.choose(DP, 'depths')
    style = en.choose([None, 'noClamp'], 'style')
    which = en.choose([0, 3, 5, 10, 12, 15], 'bounds')
    default = en.choose([False, True], 'defaultRange') if which in (0, 3) else False
    names = ['minIn', 'maxIn', 'minOut', 'maxOut']
    b = [en.const(nm) if which >> k & 1 else None for k, nm in enumerate(names)]
    kw = {} if style is None else {'style': style}
    if default: kw['defaultRange'] = True
    node = c.call('Range', i, o, '', '', **kw)
    for nm, v in zip(names, b):
        if v is not None: c.m(node, 'set' + nm[0].upper() + nm[1:] + 'Value', v)
    lo, hi = b[0], b[1]
    if default: lo, hi = (lo if lo is not None else real(0)), (hi if hi is not None else real(NU.specs.size(i)))
    if lo is not None and hi is not None: en.assume(bnot(eq(lo, hi)))
    relate(en, node, 1, None, lambda ev: {'type': 'Range', 'in': i, 'out': o, 'style': style, 'default': default,
                                          'bounds': [None if x is None else ev(x) for x in b]})


@scenario('Matrix')
def p_matrix(en):
    c = Ctx(en)
    R = en.choose([1, 2, 3, 4], 'rows')
    off = en.choose([0, 1], 'offset column')
    M = en.fn('M', 1)
    i, o = en.choose(DP, 'depths')
    node = c.call('Matrix', i, o)
    m = [M(k) for k in range(R * (R + off))]
    c.m(node, 'setMatrix', c.lst([R, R + off]), c.lst(m))
    relate(en, node, R, R, lambda ev: {'type': 'Matrix', 'in': i, 'out': o, 'dims': [R, R + off], 'm': [ev(x) for x in m]})


def make_cdl(style):
    def run(en):
        c = Ctx(en)
        c.features('All')
        i, o = en.choose(DP, 'depths')
        node, sl, of, po, sat = NU.cdl_node(en, c, style, i, o)
        exact = en.choose([None, 1, 2], 'channels')
        sp = lambda ev: {'type': 'ASCCDL', 'style': style, 'in': i, 'out': o, 'slope': [ev(x) for x in sl],
                         'offset': [ev(x) for x in of], 'power': [ev(x) for x in po], 'sat': ev(sat)}
        relate(en, node, 3, 3 if exact is None else 0, sp, 'array', exact)
    return run


for _s in ('Fwd', 'Rev', 'FwdNoClamp', 'RevNoClamp'): scenario('ASCCDL ' + _s)(make_cdl(_s))


@scenario('ColorCorrection')
def p_cc(en):
    c = Ctx(en)
    node = c.call('ColorCorrection')
    sl, of, po, sat = c.reals('slope', 3), c.reals('offset', 3), c.reals('power', 3), en.const('sat')
    for x in sl + po + [sat]: en.assume(lt(0, x))
    c.m(node, 'setSlope', *sl)
    c.m(node, 'setOffset', *of)
    c.m(node, 'setPower', *po)
    c.m(node, 'setSaturation', sat)
    relate(en, node, 3, 3)


@scenario('LUT1D', LUT1)
def p_lut1d(en):
    c = Ctx(en)
    m = en.choose([1, 3], 'columns')
    i, o = en.choose(DP, 'depths')
    node, n, T = NU.lut1d_node(en, c, m, 'linear', i, o)

    def sp(ev):
        N_ = max(2, min(int(ev(n)), 64))
        return {'type': 'LUT1D', 'in': i, 'out': o, 'columns': m, 'interp': 'linear', 'table': [ev(T(k)) for k in range(N_ * m)], 'maps': []}
    relate(en, node, 1, 3, sp)


def make_lut3d(interp):
    def run(en):
        c = Ctx(en)
        i, o = en.choose(DP, 'depths')
        dims = [en.const('d%d' % k, 'i') for k in range(3)]
        for d in dims: en.assume(le(2, d))
        T = en.fn('T', 1)
        vals = en.mkcells((K.size3d(en, dims),), lambda ix: T(ix[0]))
        node = c.call('LUT3D', i, o, '', '', interp)
        c.m(node, 'setArray', en.mklist(dims), vals)
        G = K.set_ghost3d(en, K.private(en, K.private(en, node, '_array'), '_values'), dims, T)

        def sp(ev):
            D = [max(2, min(int(ev(d)), 6)) for d in dims]
            return {'type': 'LUT3D', 'interp': interp, 'in': i, 'out': o, 'dims': D, 'maps': [],
                    'table': [ev(G(ch, r, g, b)) for r in range(D[0]) for g in range(D[1]) for b in range(D[2]) for ch in range(3)]}
        relate(en, node, 3, 3, sp)
    return run


for _s in ('trilinear', 'tetrahedral'): scenario('LUT3D ' + _s, LUT3)(make_lut3d(_s))


def make_gamma(style):
    def run(en):
        c = Ctx(en)
        i, o = en.choose(DP, 'depths')
        node = c.call('Gamma', i, o, '', '', style)
        ps = []
        for j, ch in enumerate(en.choose([(None,), ('R', 'G', 'B')], 'settings')):
            g, f = en.const('gamma%d' % j), en.const('off%d' % j)
            en.assume(lt(0, g))
            if style.startswith('mon'):
                en.assume(lt(1, g))
                en.assume(lt(0, f))
            c.m(node, 'setGamma', g, f, ch)
            ps.append((g, f, ch))
        relate(en, node, 3, 3, lambda ev: {'type': 'Gamma', 'style': style, 'in': i, 'out': o, 'params': [[ev(g), ev(f), ch] for g, f, ch in ps]})
    return run


for _s in ('basicFwd', 'basicRev', 'moncurveFwd', 'moncurveRev'): scenario('Gamma ' + _s)(make_gamma(_s))


def make_log(style):
    def run(en):
        c = Ctx(en)
        i, o = en.choose(DP, 'depths')
        node = c.call('Log', i, o, '', '', style)
        ps = []
        for j, ch in enumerate(en.choose([(None,), ('R', 'G', 'B')], 'settings')):
            p = [en.const('%s%d' % (nm, j)) for nm in ('gamma', 'white', 'black', 'high', 'shadow')]
            en.assume(lt(0, p[0]))
            en.assume(lt(p[2], p[1]))
            en.assume(lt(p[4], p[3]))
            c.m(node, 'setLogParams', *(p + [ch]))
            ps.append((p, ch))
        if style in ('logToLin', 'linToLog'):
            for p, ch in ps:
                rb = lib.spow(real(10), NU.specs.mn(Sym, real(-0.00001), (p[2] - p[1]) * real(0.002) / p[0]))
                en.assume(lt(rb, 1))
                en.assume(lt(0, rb))
        relate(en, node, 3, 3, lambda ev: {'type': 'Log', 'style': style, 'in': i, 'out': o, 'params': [[ev(x) for x in p] + [ch] for p, ch in ps]})
    return run


for _s in ('log10', 'log2', 'antiLog10', 'antiLog2', 'linToLog', 'logToLin'): scenario('Log ' + _s)(make_log(_s))


def make_ec(style):
    def run(en):
        c = Ctx(en)
        i, o = en.choose(DP, 'depths')
        node = c.call('ExposureContrast', i, o, '', '', style)
        e, k, p = en.const('exposure'), en.const('contrast'), en.const('pivot')
        en.assume(lt(0, p))
        c.m(node, 'setExposureContrastPivot', e, k, p)
        relate(en, node, 3, 3, lambda ev: {'type': 'ExposureContrast', 'style': style, 'in': i, 'out': o, 'params': [ev(e), ev(k), ev(p)]})
    return run


for _s in ('linear', 'video', 'log'): scenario('ExposureContrast ' + _s)(make_ec(_s))
