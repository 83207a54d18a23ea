"""Loops. A loop of known length is unrolled. A loop of unknown length is handled by one
generic iteration p, 0 <= p < n: what the iterations write must lie in disjoint tiles (or be
appended), what they read must not have been written by an earlier one, and variables
carried from one iteration to the next must have a closed form. Each of these conditions is
proved by the solver; where one is not, the loop is Unsupported. So the summary is exact for
every number of iterations, with no bound."""
import ast
import z3
from fractions import Fraction
from .vals import *
from .vals import _mentions
from . import engine as E_
from . import lib

LOOP_MS = 5000
UNROLL = 600


# ------------------------------------------------------------------ sequences

def sequence(en, it):
    """(n, element getter) of an iterable; n may be symbolic."""
    if isinstance(it, E_.Ref) and it.kind in ('dict', 'set', 'inst') or isinstance(it, str):
        its = en.items(it)
        return len(its), lambda i: its[i]
    if isinstance(it, Ab) and it.model is not None and hasattr(it.model, 'seq'):
        return it.model.seq(en, it)
    n = lib.seq_len(en, it)
    if conc(n) is None:
        lo = None
        try:
            k = lib.only_value(en, n)
            n = k
        except Unsupported:
            pass
    else:
        n = int(conc(n))
    return n, lambda i: lib.seq_at(en, it, i)


def run_for(en, node, it):
    n, at = sequence(en, it)
    if isinstance(n, int):
        if n > UNROLL: 
            return symbolic_for(en, node, n, at)
        for i in range(n):
            en.assign(node.target, at(i))
            try:
                en.exec_block(node.body)
            except E_.ContinueX:
                continue
            except E_.BreakX:
                return
        en.exec_block(node.orelse)
        return
    symbolic_for(en, node, n, at)


def run_while(en, node):
    k = 0
    while True:
        t = en.truthval(en.eval(node.test))
        if not isinstance(t, bool):
            k += 1
            if k > 30: raise Unsupported('while loop of unknown length')
            t = en.decide(t)
        if not t: break
        try:
            en.exec_block(node.body)
        except E_.ContinueX:
            continue
        except E_.BreakX:
            return
    en.exec_block(node.orelse)


# ------------------------------------------------------------------ generic iteration

class Log(object):
    """Records the accesses to one container during the exploration of a loop body."""
    __slots__ = ('en', 'rec', 'nb', 'nf', 'ref')

    def __init__(self, en, rec, ref):
        self.en, self.rec, self.ref = en, rec, ref
        self.nb, self.nf = len(en.branches), len(en.facts)

    def _pc(self):
        return self.en.branches[self.nb:] + self.en.facts[self.nf:]

    def read(self, en, idx):
        self.rec.append(('r', self.ref, tuple(idx), tuple(idx), self._pc()))

    def read_range(self, en, lo, hi):
        self.rec.append(('r', self.ref, (lo,), (sub(hi, 1),), self._pc() + [zb_(lt(lo, hi))]))

    def write(self, en, lo, hi):
        self.rec.append(('w', self.ref, tuple(lo), tuple(hi), self._pc() + [zb_(le(a, b)) for a, b in zip(lo, hi)]))


def zb_(c):
    return z3.BoolVal(c) if isinstance(c, bool) else c.e


class Marker(object):
    """Stands for the text built by earlier iterations."""
    noloop = True

    def __init__(self, name): self.name = name


def prove(en, pc, goal, ms=LOOP_MS):
    """Does goal follow from the path condition in force plus pc?"""
    if goal is True: return True
    if goal is False: goal = B(z3.BoolVal(False))
    return en.unsat_or_not(list(pc) + [z3.Not(goal.e)], thorough=True) == z3.unsat


def stored_names(body, target):
    s = set()
    for b in list(body) + ([target] if target is not None else []):
        for x in ast.walk(b):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store): s.add(x.id)
            if isinstance(x, ast.ExceptHandler) and x.name: s.add(x.name)
    return s


def add_loop_facts(en, p, n):
    en.assume(band(le(0, p), lt(p, n)))
    for S_ in en.dims:
        if isinstance(S_, N):
            # (p+1)*S <= n*S, p*S >= 0 for positive S: true of the integers, stated for the solver
            en.assume(band(le(mul(add(p, 1), S_), mul(n, S_)), le(0, mul(p, S_))))


def newvar(en):
    k = en.pathnames['p'] = en.pathnames.get('p', 0) + 1
    return N('i', z3.Int('p!%d' % k))


def symbolic_for(en, node, n, at):
    if not en.decide(lt(0, n)):
        en.exec_block(node.orelse)
        return
    fr = en.frames[-1]
    names = stored_names(node.body, node.target)
    carried = {}          # token -> closed form builder

    def attempt(p, carry, logs):
        """Explore one iteration from a state in which carried names have given values."""
        rec = logs
        snap = en.snapshot()
        for i, st in list(en.heap.items()):
            if isinstance(st, E_.CellS):
                en.heap[i] = E_.CellS(st.shape, st.get, st.arr, st.logs + (Log(en, rec, i),), st.dtype)
        for nm in names:
            fr.locals[nm] = E_.Poison('loop', ('local', nm))
        for tok, v in carry.items():
            if tok[0] == 'local': fr.locals[tok[1]] = v
            elif tok[0] == 'attr':
                st = en.heap[tok[1]]
                a = dict(st.attrs)
                a[tok[2]] = v
                en.heap[tok[1]] = E_.InstS(st.cls, a)

        def thunk():
            en.loopvars.append(p.e)
            add_loop_facts(en, p, n)
            ds = [(tok[1], d) for tok, d in carry.items() if tok[0] == 'dict']
            if ds and not en.decide(eq(p, 0)):
                for i, d in ds: en.heap[i] = d
            en.assign(node.target, at(p))
            en.exec_block(node.body)
        start = en.snapshot()
        try:
            res = en.explore(thunk)
        finally:
            pre = dict(en.heap)
            en.restore(snap)
        return res, start[0], start[2]

    p = newvar(en)
    carry = {}
    info = {}
    marks = {id(lg.rec): (lg.rec, len(lg.rec)) for st in en.heap.values() if isinstance(st, E_.CellS) for lg in st.logs}
    for _ in range(40):
        rec = []
        for r, k in marks.values(): del r[k:]       # what an attempt that is not used was seen to do
        try:
            open_ = [t for t in carry if not info[t]['done'] and info[t]['kind'] == 'num' and 'dry' not in info[t]]
            if open_ and not en.dry:
                # the steps of carried numbers, found without looking at what is written (the next
                # attempt does, and confirms them): what inner loops need may depend on them
                for t in open_: info[t]['dry'] = True
                en.dry = True
                try:
                    res, pre, nxt = attempt(p, carry, rec)
                    res = [r for r in res if r.status in ('normal', 'continue')]
                    ok = bool(res) and all([linear_carry(en, t, info[t], res, p, carry) for t in open_])
                except Unsupported:
                    ok = False
                finally:
                    en.dry = False
                if not ok:
                    for t in open_:
                        if 'guess' in info[t]: 
                            del info[t]['guess']
                            carry[t] = info[t]['x']
                continue
            res, pre, nxt = attempt(p, carry, rec)
        except E_.PoisonRead as r:
            tok = r.token
            if tok in carry or tok[0] not in ('local',): raise Unsupported('variable of an unsummarised loop: %s' % (tok,))
            if tok[1] not in fr.locals and not (fr.func is None):
                raise Unsupported('loop variable %s is read before it is set' % tok[1])
            v0 = fr.locals.get(tok[1])
            if v0 is None and tok[1] not in fr.locals: v0 = en.lookup(tok[1])
            if isinstance(v0, E_.Poison): raise E_.PoisonRead(v0.token)
            carry[tok], info[tok] = start_carry(en, tok, v0, p)
            continue
        exits = [r for r in res if r.status in ('break', 'return', 'raise')]
        raising = []
        if exits and all(r.status == 'raise' for r in exits) and len(exits) < len(res) and (carry or changes(res, exits, pre, nxt)):
            raising = exits
            res = [r for r in res if not any(r is x for x in exits)]
        elif exits:
            return search_loop(en, node, n, at, p, res, exits, pre, nxt, names, carry)
        # attributes of objects that accumulate (element.text += ...)
        again = False
        for r in res:
            for i, st in r.heap.items():
                if i < nxt and isinstance(st, E_.InstS) and st is not pre.get(i):
                    for k in st.attrs:
                        if k not in pre[i].attrs or st.attrs[k] is not pre[i].attrs[k]:
                            tok = ('attr', i, k)
                            if tok not in carry:
                                if k not in pre[i].attrs: raise Unsupported('attribute set in a loop')
                                carry[tok], info[tok] = start_carry(en, tok, pre[i].attrs[k], p)
                                again = True
        # dictionaries: every iteration must leave the same one, the first one too
        for i in {i for r in res for i, st in r.heap.items() if i < nxt and isinstance(st, E_.DictS) and st is not pre.get(i)}:
            tok = ('dict', i)
            if tok not in carry:
                carry[tok], info[tok] = res[0].heap[i], {'done': True}
                again = True
            if not all(same_dict(r.heap[i], carry[tok]) for r in res):
                raise Unsupported('a dictionary changed in a loop of unknown length')
        if again: continue
        # closed forms of the carried values
        again = False
        for tok in carry:
            f = info[tok]
            if f['done']: continue
            again |= solve_carry(en, tok, f, res, p, carry, n)
        if again: continue
        break
    else:
        raise Unsupported('loop with too many carried values')
    en.summarised = getattr(en, 'summarised', 0) + 1
    if not res: raise Prune()
    if raising and en.decide(en.pathfresh('raises', 'b')):
        # some iteration raises: only the exception counts, the state it leaves behind is not known
        s = en.pathfresh('raiser', 'i')
        add_loop_facts(en, s, n)
        for nm in names: fr.locals[nm] = E_.Poison('loop', ('local', nm))
        for tok, v in carry.items():
            if tok[0] != 'local': raise Unsupported('a loop that changes things and raises')
            fr.locals[tok[1]] = subst(v, [(p.e, s.e)])
        try:
            en.assign(node.target, at(s))
            en.exec_block(node.body)
        except E_.PyRaise as r:
            r.partial = True
            raise
        raise Prune()
    if raising:
        q = z3.Int('q!')
        ex = z3.Or(*[z3.And(*r.branches) if r.branches else z3.BoolVal(True) for r in raising])
        en.assume(B(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < zi(n)), z3.Not(z3.substitute(ex, (p.e, q)))))))
        for w in (0, sub(n, 1)): en.assume(B(z3.Implies(zi(n) > 0, z3.Not(z3.substitute(ex, (p.e, zi(w)))))))
    effects(en, node, n, p, res, rec, pre, nxt, names, carry, info, fr)
    en.exec_block(node.orelse)


def changes(res, exits, pre, nxt):
    return any(i < nxt and st is not pre.get(i) for r in res if not any(r is x for x in exits) for i, st in r.heap.items())


def same_dict(a, b):
    plain_ = (str, bool, int, type(None))
    return list(a.d) == list(b.d) and all(x is y or isinstance(x, plain_) and type(x) is type(y) and x == y for x, y in zip(a.d.values(), b.d.values()))


def start_carry(en, tok, v0, p):
    if isinstance(v0, (str, T)):
        m = Marker(tok)
        return T((m,)), {'kind': 'text', 'init': v0, 'mark': m, 'done': False}
    if isnum(v0) and not special(v0):
        x = en.fresh('carry', 'i' if isint(v0) else 'r')
        return x, {'kind': 'num', 'init': v0, 'x': x, 'done': False, 'tried': 0}
    if isinstance(v0, Ab) and v0.model is not None and hasattr(v0.model, 'carry'):
        x = v0.model.carry(en, v0)
        return x, {'kind': 'ab', 'init': v0, 'x': x, 'done': False}
    raise Unsupported('a %s carried through a loop' % en.tname(v0))


def carried_value(tok, r, fr_index):
    if tok[0] == 'local': return r.locs[fr_index].get(tok[1])
    return r.heap[tok[1]].attrs[tok[2]]


def linear_carry(en, tok, f, res, p, carry):
    """A carried number that every iteration changes by the same step."""
    step, x = None, f['x']
    for r in res:
        v = carried_value(tok, r, len(en.frames) - 1)
        if not isnum(v): return False
        d = sub(v, x)
        if _has(d, x.e) or _has(d, p.e) or step is not None and eq(step, d) is not True: return False
        step = d
    f['guess'] = step
    carry[tok] = add(f['init'], mul(step, p))
    f['x0'] = x
    return True


def solve_carry(en, tok, f, res, p, carry, n):
    """Find the closed form; True when the body has to be explored again with it."""
    fi = len(en.frames) - 1
    if f['kind'] == 'text':
        bodies = []
        for r in res:
            v = carried_value(tok, r, fi)
            if not (isinstance(v, T) and v.parts and v.parts[0] is f['mark']):
                raise Unsupported('text carried through a loop')
            bodies.append(mktext(v.parts[1:]))
        if any(lib_mentions_marker(b, f['mark']) for b in bodies): raise Unsupported('text carried through a loop')
        body = merge_results(en, res, bodies)
        f['body'] = body
        f['done'] = True
        return False
    if f['kind'] == 'num':
        x = f['x']
        step = None
        if 'guess' in f:
            # found by an attempt that did not look at what is written: confirmed by one that did
            for r in res:
                v = carried_value(tok, r, fi)
                if not isnum(v) or eq(v, add(f['init'], mul(f['guess'], add(p, 1)))) is not True: raise Unsupported('number carried through a loop')
            f['step'], f['done'] = f['guess'], True
            return False
        for r in res:
            v = carried_value(tok, r, fi)
            if not isnum(v): raise Unsupported('number carried through a loop')
            d = sub(v, x)
            if _has(d, x.e) or _has(d, p.e): step = 'no'
            elif step is None: step = d
            elif isinstance(step, str) or eq(step, d) is not True: step = 'no'
        if isinstance(step, str): return fold_carry(en, tok, f, res, p, carry, n)
        f['step'] = step
        carry[tok] = add(f['init'], mul(step, p))
        f['done'] = True
        return True
    if f['kind'] == 'ab':
        return f['init'].model.solve(en, f, res, [carried_value(tok, r, fi) for r in res], p, n, carry, tok)
    raise Unsupported('carried value')


SUM = z3.Function('SUM', z3.IntSort(), z3.ArraySort(z3.IntSort(), z3.RealSort()), z3.RealSort())


def summation(n, f):
    """The sum of f(j) for j in [0,n) as a term; equal summands give equal terms."""
    j = z3.Int('sum!j')
    return N('r', SUM(zi(n), z3.Lambda([j], z3.simplify(zr(f(N('i', j))), som=True))))


def fold_carry(en, tok, f, res, p, carry, n):
    x = f['x']
    if len(res) != 1 or isint(f['init']): raise Unsupported('number carried through a loop')
    d = sub(carried_value(tok, res[0], len(en.frames) - 1), x)
    d = N('r', z3.simplify(zr(d), som=True))
    if _has(d, x.e): raise Unsupported('number carried through a loop')
    f['sum'] = lambda k: add(f['init'], summation(k, lambda j: subst(d, [(p.e, zi(j))])))
    carry[tok] = f['sum'](p)
    f['done'] = True
    return True


def _has(v, t):
    return isinstance(v, N) and not isinstance(v.e, (Fraction, str)) and _mentions(v.e, t)


def lib_mentions_marker(v, m):
    if isinstance(v, T): return any(q is m or isinstance(q, LoopText) and False for q in v.parts)
    return False


# ------------------------------------------------------------------ merging paths

class PC(object):
    """What one path of a generic iteration assumed."""
    __slots__ = ('br', 'facts')

    def __init__(self, r):
        self.br = z3.And(*r.branches) if r.branches else z3.BoolVal(True)
        self.facts = z3.And(*r.facts) if r.facts else z3.BoolVal(True)


class Node(object):
    """A decision of a generic iteration: the literals every path below has, then a condition."""
    __slots__ = ('forced', 'cond', 'a', 'b', 'leaf')

    def __init__(self, forced, cond=None, a=None, b=None, leaf=None):
        self.forced, self.cond, self.a, self.b, self.leaf = forced, cond, a, b, leaf


def decision_tree(items, k=0):
    """The paths (index, literals) as a tree of decisions; None where they are not one."""
    forced = []
    while True:
        if len(items) == 1: return Node(forced + items[0][1][k:], leaf=items[0][0])
        if any(len(br) <= k for _, br in items): return None
        e = items[0][1][k]
        left = [x for x in items if x[1][k].eq(e)]
        if len(left) == len(items):
            forced.append(e)
            k += 1
            continue
        right = [x for x in items if not x[1][k].eq(e)]
        ne = e.arg(0) if z3.is_not(e) else z3.Not(e)
        if not all(x[1][k].eq(ne) for x in right): return None
        if z3.is_not(e): e, left, right = ne, right, left
        a, b = decision_tree(left, k + 1), decision_tree(right, k + 1)
        return None if a is None or b is None else Node(forced, e, a, b)


def tree_of(res): return decision_tree([(i, list(r.branches)) for i, r in enumerate(res)])


def identical(a, b):
    if a is b: return True
    if isinstance(a, OuterRef): return isinstance(b, OuterRef) and a.id == b.id
    if type(a) is not type(b): return False
    if isinstance(a, N): return type(a) is N and a.kind == b.kind and (a.e.eq(b.e) if isinstance(a.e, z3.ExprRef) and isinstance(b.e, z3.ExprRef) else
                                                 not isinstance(a.e, z3.ExprRef) and not isinstance(b.e, z3.ExprRef) and a.e == b.e)
    if isinstance(a, B): return a.e.eq(b.e)
    if isinstance(a, Ab): return a.model is b.model and a.e.eq(b.e)
    if isinstance(a, (str, int, bool, type(None))): return a == b
    return False


def merge_results(en, res, vals):
    """One value for all paths, by the conditions they were taken under."""
    t = tree_of(res) if len(res) > 1 else None
    if t is not None:
        def merge(nd):
            if nd.leaf is not None: return vals[nd.leaf]
            x, y = merge(nd.a), merge(nd.b)
            return x if identical(x, y) else alt(mkbool(nd.cond), x, y)
        return merge(t)
    v = vals[-1]
    for r, w in list(zip(res, vals))[-2::-1]:
        c = mkbool(z3.And(*r.branches)) if r.branches else True
        v = alt(c, w, v)
    return v


def iteration_facts(en, res, p, n):
    """The facts of iteration w, guarded by its branch conditions, and that one path is taken."""
    t = tree_of(res) if len(res) > 1 else None
    if t is not None:
        conj = lambda fs: fs[0] if len(fs) == 1 else z3.And(*fs)

        def facts(nd):
            if nd.leaf is not None: return list(res[nd.leaf].facts)
            x, y = facts(nd.a), facts(nd.b)
            ix, iy = {f.get_id() for f in x}, {f.get_id() for f in y}
            out = [f for f in x if f.get_id() in iy]
            for c, l, other in ((nd.cond, x, iy), (z3.Not(nd.cond), y, ix)):
                out += [z3.Implies(c, f) for f in l if f.get_id() not in other]
            return out

        def taken(nd):
            if nd.leaf is not None: return conj(nd.forced) if nd.forced else z3.BoolVal(True)
            x, y = taken(nd.a), taken(nd.b)
            r = x if x.eq(y) else z3.And(z3.Implies(nd.cond, x), z3.Implies(z3.Not(nd.cond), y))
            return z3.And(*(nd.forced + [r])) if nd.forced else r
        return facts(t) + [taken(t)]
    out = []
    for r in res:
        if not r.facts: continue
        br = z3.And(*r.branches) if r.branches else z3.BoolVal(True)
        keep = [f for f in r.facts]
        if keep: out.append(z3.Implies(br, z3.And(*keep)))
    # one of the paths is taken
    if len(res) > 1 or (res and res[0].branches):
        out.append(z3.Or(*[z3.And(*r.branches) if r.branches else z3.BoolVal(True) for r in res]))
    return out


def inst_facts(en, facts, p, w, n):
    """Assume the facts of iteration w (which is in [0,n) wherever they matter)."""
    if not facts: return
    inr = zb_(band(le(0, w), lt(w, n)))
    have = en.__dict__.setdefault('_have', {})
    for f in facts:
        g = z3.Implies(inr, z3.substitute(f, (p.e, zi(w))))
        g = z3.simplify(g)
        if z3.is_true(g): continue
        if any(g.eq(h) for h in en.facts): continue
        en.assume(B(g))


def split_index(en, k, c, t0, make=True):
    """k as c*w + t0 + r with 0 <= r < c: (w, r); make: a new quotient if there is no obvious one, or None."""
    d = sub(k, t0)
    if isinstance(c, int) and c == 1: return d, 0
    if isinstance(c, int) and isinstance(d, int): return d // c, d % c
    from .vals import _monos
    A, rest = [], []
    for co, atoms in _monos(zi(d)):
        t = mkint(z3.IntVal(co) if not atoms else z3.IntVal(co) * _prod(atoms))
        q = exact_div(t, c)
        if q is None: rest.append(t)
        else: A.append(q)
    w, r = 0, 0
    for q in A: w = add(w, q)
    for t in rest: r = add(r, t)
    if isinstance(c, int) and isinstance(r, int): w, r = add(w, r // c), r % c
    if en.known(band(le(0, r), lt(r, c))): return w, r
    if not make: return None
    # an unknown split
    key = ('split', str(zi(d)), str(zi(c)))
    memo = en.__dict__.setdefault('_splits', {})
    if key not in memo:
        q = en.fresh('quot', 'i')
        memo[key] = q

        def again(d_, c_):
            r = split_index(en, d_, c_, 0, False)
            return None if r is None else r[0]
        SPLITS[q.e.decl().name()] = (q.e.children(), d, c, again)
    q = memo[key]
    r = sub(d, mul(q, c))
    g = B(z3.Implies(zb_(lt(0, c)), z3.And(zi(r) >= 0, zi(r) < zi(c))))
    if not any(g.e.eq(h) for h in en.facts): en.assume(g)
    return q, r


def _prod(xs):
    r = xs[0]
    for x in xs[1:]: r = r * x
    return r


# ------------------------------------------------------------------ effects of a loop

def effects(en, node, n, p, res, rec, pre, nxt, names, carry, info, fr):
    facts = iteration_facts(en, res, p, n)
    base_pc = []
    changed = {}
    for r in res:
        for i, st in r.heap.items():
            if i >= nxt or st is pre.get(i): continue
            changed.setdefault(i, []).append(r)
    post = {}
    for i in changed:
        st0 = pre[i]
        if isinstance(st0, E_.CellS) and en.dry:
            def unseen(ix): raise Unsupported('a value of an unexamined loop')
            post[i] = E_.CellS(st0.shape, unseen, st0.arr, st0.logs, st0.dtype)
        elif isinstance(st0, E_.CellS):
            post[i] = cells_effect(en, i, n, p, res, rec, pre, facts, nxt)
        elif isinstance(st0, E_.ListS):
            post[i] = append_effect(en, i, n, p, res, pre, facts, nxt)
        elif isinstance(st0, E_.InstS):
            a = dict(en.heap[i].attrs)
            for tok, f in info.items():
                if tok[0] == 'attr' and tok[1] == i: a[tok[2]] = final_value(en, f, n, p)
            post[i] = E_.InstS(st0.cls, a)
        elif ('dict', i) in carry:
            post[i] = carry[('dict', i)]
        elif type(st0).__name__ == 'FileS':
            post[i] = st0.loop(en, i, n, p, res, pre, facts)
        else:
            raise Unsupported('a %s changed in a loop of unknown length' % type(st0).__name__)
    for nm in names:
        fr.locals[nm] = E_.Poison('after the loop', ('local', nm))
    for tok, f in info.items():
        if tok[0] == 'local': fr.locals[tok[1]] = final_value(en, f, n, p)
    last_target(en, node, n, fr)
    for i, st in post.items(): en.heap[i] = st


def last_target(en, node, n, fr):
    pass


def final_value(en, f, n, p):
    if f['kind'] == 'text':
        body = f['body']
        return mktext((f['init'], LoopText(n, lambda q: subst(body, [(p.e, zi(q))]))))
    if f['kind'] == 'num':
        if 'sum' in f: return f['sum'](n)
        return add(f['init'], mul(f['step'], n))
    return f['init'].model.final(en, f, n)


def without_inner(d, p):
    """d without the terms that vary in an inner loop: a start of the tile worth trying."""
    if not inner_vars(d, p): return d
    from .vals import _monos
    t = 0
    for co, atoms in _monos(zi(d)):
        m = mkint(z3.IntVal(co) * _prod(atoms)) if atoms else co
        if not inner_vars(m, p): t = add(t, m)
    return t


def inner_vars(d, p):
    """Does d mention a variable of a loop inside the one of p?"""
    if isinstance(d, int): return False
    own = int(str(p.e).split('!')[1])
    st = [d.e]
    while st:
        x = st.pop()
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            nm = str(x)
            if nm.startswith('p!') and int(nm[2:]) > own: return True
        st.extend(x.children())
    return False


def cells_effect(en, i, n, p, res, rec, pre, facts, nxt):
    st0 = en.heap[i]
    if len(st0.shape) != 1: return nd_effect(en, i, n, p, res, rec, pre, facts, nxt)
    acc = [a for a in rec if a[1] == i]
    writes = [a for a in acc if a[0] == 'w']
    reads = [a for a in acc if a[0] == 'r']
    # the tile: c*p + t0 .. c*p + t0 + c
    cands = []
    for a in writes:
        co = coeff(zi(a[2][0]), p.e)
        if co is None: raise Unsupported('write pattern of a loop')
        c, d = mkint(co[0]), mkint(co[1])
        if not any(eq(c, c2) is True for c2, _ in cands): cands.append((c, [d]))
        else:
            for c2, ds in cands:
                if eq(c, c2) is True: ds.append(d)
    if len(cands) != 1: raise Unsupported('write pattern of a loop')
    c, ds = cands[0]
    if isinstance(c, int) and c <= 0: raise Unsupported('write pattern of a loop')
    if not prove(en, [], lt(0, c)): raise Unsupported('write pattern of a loop (stride)')
    for t0 in [0] + [without_inner(d, p) for d in ds]:
        lo = add(mul(c, p), t0)
        ok = True
        for a in writes:
            g = band(le(lo, a[2][0]), lt(a[3][0], add(lo, c)))
            if not prove(en, a[4], g):
                ok = False
                break
        if ok: break
    else:
        raise Unsupported('iterations may write the same element')
    end = add(t0, mul(c, n))
    for a in reads:
        g = bor(le(lo, a[2][0]), lt(a[3][0], t0))
        if not prove(en, a[4], g): raise Unsupported('an iteration may read what an earlier one wrote')
    # tell the enclosing loops
    for lg in st0.logs:
        for a in writes: lg.rec.append((a[0], a[1], a[2], a[3], lg._pc() + a[4]))
        for a in reads: lg.rec.append((a[0], a[1], a[2], a[3], lg._pc() + a[4]))
    gets = [r.heap[i].get for r in res]
    old = st0.get

    def get(ix):
        k = ix[0]
        inr = band(le(t0, k), lt(k, end))
        if inr is False: return old(ix)
        w, r_ = split_index(en, k, c, t0)
        inst_facts(en, facts, p, w, n)
        kk = (add(add(mul(c, p), t0), r_),)
        v = merge_results(en, res, [g(kk) for g in gets])
        v = subst(v, [(p.e, zi(w))])
        return v if inr is True else v if en.known(inr) else alt(inr, v, old(ix))
    return E_.CellS(st0.shape, get, st0.arr, st0.logs, st0.dtype)


def nd_effect(en, i, n, p, res, rec, pre, facts, nxt):
    """Writes to a multi-dimensional container: some coordinate is p + constant in all."""
    st0 = en.heap[i]
    acc = [a for a in rec if a[1] == i]
    writes = [a for a in acc if a[0] == 'w']
    reads = [a for a in acc if a[0] == 'r']
    for ax in range(len(st0.shape)):
        d0 = None
        ok = True
        for a in writes:
            if len(a[2]) <= ax or a[2][ax] is not a[3][ax] and eq(a[2][ax], a[3][ax]) is not True:
                ok = False
                break
            d = sub(a[2][ax], p)
            if _has(d, p.e) or inner_vars(d, p): ok = False
            elif d0 is None: d0 = d
            elif eq(d, d0) is not True: ok = False
            if not ok: break
        if not ok: continue
        for a in reads:
            if len(a[2]) <= ax or not prove(en, a[4], bor(le(add(p, d0), a[2][ax]), lt(a[2][ax], d0))):
                ok = False
                break
        if ok: break
    else:
        raise Unsupported('iterations may write the same element')
    for lg in st0.logs:
        for a in acc: lg.rec.append((a[0], a[1], a[2], a[3], lg._pc() + a[4]))
    gets = [r.heap[i].get for r in res]
    old = st0.get

    def get(ix):
        w = sub(ix[ax], d0)
        inr = band(le(0, w), lt(w, n))
        if inr is False: return old(ix)
        inst_facts(en, facts, p, w, n)
        kk = tuple(ix[:ax]) + (add(p, d0),) + tuple(ix[ax + 1:])
        v = subst(merge_results(en, res, [g(kk) for g in gets]), [(p.e, zi(w))])
        return v if inr is True else v if en.known(inr) else ite(inr, v, old(ix))
    return E_.CellS(st0.shape, get, st0.arr, st0.logs, st0.dtype)


def portable(en, v, heap):
    """A value made inside the generic iteration, without references to its heap."""
    if isinstance(v, E_.Ref):
        st = heap[v.id]
        if isinstance(st, E_.ListS): return Frozen([portable(en, x, heap) for x in st.items], 'list')
        if isinstance(st, E_.CellS): return FCells(st.shape, st.get, st.arr)
        if isinstance(st, (E_.ClassS, E_.ModS)): return v
        if isinstance(st, E_.InstS) and v.id in en.heap: return OuterRef(v.id, v.kind)
        raise Unsupported('an object made in a loop of unknown length')
    if isinstance(v, E_.View):
        st = heap[v.base.id]
        if isinstance(v.n, int) and v.n <= 64:
            return Frozen([st.get((add(v.off, j),)) for j in range(v.n)], 'arr')
        off = v.off
        return FCells((v.n,), lambda ix: st.get((add(off, ix[0]),)), True)
    if isinstance(v, E_.MView):
        st = heap[v.base.id]
        pre = v.idx
        return FCells(st.shape[len(pre):], lambda ix: st.get(pre + tuple(ix)), st.arr)
    if isinstance(v, tuple): return tuple(portable(en, x, heap) for x in v)
    return v


class OuterRef(E_.Ref):
    """An object that was there before the loop."""
    __slots__ = ()
    noloop = True


class FCells(object):
    """A container of unknown length stored by value."""
    def __init__(self, shape, get, arr): self.shape, self.get, self.arr = tuple(shape), get, arr
    def cells(self, en): return en.mkcells(self.shape, self.get, arr=self.arr)
    def subst(self, pairs): return FCells([subst(x, pairs) for x in self.shape], lambda ix: subst(self.get(ix), pairs), self.arr)


def nest(en, n, vals, res, p, facts):
    """A list state of n elements whose element q is the merged value at p=q."""
    if all(isinstance(v, FCells) for v in vals):
        sh = vals[0].shape
        for v in vals:
            if len(v.shape) != len(sh) or any(eq(a, b) is not True or _has(a, p.e) for a, b in zip(v.shape, sh)):
                raise Unsupported('nested lists of unequal length')

        def get(ix):
            inst_facts(en, facts, p, ix[0], n)
            return subst(merge_results(en, res, [v.get(tuple(ix[1:])) for v in vals]), [(p.e, zi(ix[0]))])
        return E_.CellS((n,) + sh, get)
    if any(isinstance(v, FCells) for v in vals): raise Unsupported('nested lists of unequal kind')
    m = merge_results(en, res, vals)

    def get1(ix):
        inst_facts(en, facts, p, ix[0], n)
        return subst(m, [(p.e, zi(ix[0]))])
    return E_.CellS((n,), get1)


class Concat(object):
    """An empty list grown by a loop: iteration p appends length(p) items item(p, j), for p in [0,n)."""
    def __init__(self, n, p, facts, length, item): self.n, self.p, self.facts, self.length, self.item = n, p, facts, length, item


class ConcatS(E_.CellS):
    __slots__ = ('concat',)


def concat_effect(en, i, n, p, res, facts):
    """A list whose items cannot be located (the lengths vary) but are known iteration by iteration."""
    lens, gets = [], []
    for r in res:
        st = r.heap[i]
        if isinstance(st, E_.ListS):
            its = [portable(en, x, r.heap) for x in st.items]
            lens.append(len(its))

            def get(j, its=its):
                v = its[-1] if its else None
                for k in range(len(its) - 2, -1, -1): v = ite(eq(j, k), its[k], v)
                return v
            gets.append(get)
        elif isinstance(st, E_.CellS) and len(st.shape) == 1 and not hasattr(st, 'concat'):
            lens.append(st.shape[0])
            gets.append(lambda j, st=st: st.get((j,)))
        else: raise Unsupported('a list changed in a loop of unknown length')

    def item(j):
        vs = [g(j) for g in gets]
        have = [(r, v) for r, v in zip(res, vs) if v is not None]
        return merge_results(en, [r for r, _ in have], [v for _, v in have])
    tot = en.fresh('total', 'i')
    en.assume(le(0, tot))

    def nowhere(ix): raise Unsupported('an item of a list of varying pieces')
    st = ConcatS((tot,), nowhere)
    st.concat = Concat(n, p, facts, merge_results(en, res, lens), item)
    return st


def append_effect(en, i, n, p, res, pre, facts, nxt):
    st0 = en.heap[i]
    if isinstance(st0, E_.ListS) and not st0.items:
        try:
            return append_effect1(en, i, n, p, res, pre, facts, nxt)
        except Unsupported:
            return concat_effect(en, i, n, p, res, facts)
    return append_effect1(en, i, n, p, res, pre, facts, nxt)


def append_effect1(en, i, n, p, res, pre, facts, nxt):
    st0 = en.heap[i]
    m = None
    tails = []
    for r in res:
        st = r.heap[i]
        if not isinstance(st, E_.ListS) or len(st.items) < len(st0.items) or \
                any(a is not b for a, b in zip(st.items, st0.items)):
            if isinstance(st, E_.CellS) and not st0.items:
                return extend_effect(en, i, n, p, res, facts)
            raise Unsupported('a list changed in a loop of unknown length')
        t = st.items[len(st0.items):]
        if m is None: m = len(t)
        elif m != len(t): raise Unsupported('a loop that appends a varying number of items')
        tails.append([portable(en, x, r.heap) for x in t])
    if m == 1:
        st = nest(en, n, [t[0] for t in tails], res, p, facts)
        if not st0.items: return st
        if len(st.shape) != 1: raise Unsupported('append of nested lists')
        k0 = len(st0.items)
        its = st0.items

        def get(ix):
            k = ix[0]
            if isinstance(k, int) and k < k0: return its[k]
            v = st.get((sub(k, k0),))
            for j in range(k0): v = ite(eq(k, j), its[j], v)
            return v
        return E_.CellS((add(n, k0),), get)
    if m and not st0.items:
        merged = [merge_results(en, res, [t[j] for t in tails]) for j in range(m)]

        def getm(ix):
            w, r_ = split_index(en, ix[0], m, 0)
            inst_facts(en, facts, p, w, n)
            v = merged[-1]
            for j in range(m - 2, -1, -1): v = ite(eq(r_, j), merged[j], v)
            return subst(v, [(p.e, zi(w))])
        return E_.CellS((mul(m, n),), getm)
    raise Unsupported('a list changed in a loop of unknown length')


def extend_effect(en, i, n, p, res, facts):
    """Every iteration appends the same (unknown) number m of items to an empty list."""
    sh = res[0].heap[i].shape
    for r in res:
        s = r.heap[i].shape
        if len(s) != 1 or eq(s[0], sh[0]) is not True or _has(s[0], p.e):
            raise Unsupported('a loop that appends a varying number of items')
    m = sh[0]
    gets = [r.heap[i].get for r in res]

    def get(ix):
        w, r_ = split_index(en, ix[0], m, 0)
        inst_facts(en, facts, p, w, n)
        return subst(merge_results(en, res, [g((r_,)) for g in gets]), [(p.e, zi(w))])
    return E_.CellS((mul(m, n),), get)


# ------------------------------------------------------------------ search loops

def search_loop(en, node, n, at, p, res, exits, pre, nxt, names, carry):
    if carry: raise Unsupported('a loop with exits and carried values')
    for r in res:
        if r in exits: continue
        for i, st in r.heap.items():
            if i < nxt and st is not pre.get(i):
                raise Unsupported('a loop with exits and effects')
    fr = en.frames[-1]

    def ex(q):
        return z3.substitute(z3.Or(*[z3.And(*r.branches) if r.branches else z3.BoolVal(True) for r in exits]),
                             (p.e, q))
    facts = iteration_facts(en, res, p, n)
    q = z3.Int('q!')

    def none_before(m):
        body = z3.And(*([z3.substitute(f, (p.e, q)) for f in facts] + [z3.Not(ex(q))]))
        return z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < zi(m)), body))
    def feasible():
        if en.trail.pos < len(en.trail.dec): return     # found so when this path was first taken
        if en.naming:
            from .driver import _has_quant
            if en._check([h for h in en.branches + en.facts if not _has_quant(h)], E_.EFFORT) == z3.unsat: raise Prune()
            return
        if en.unsat_or_not([z3.BoolVal(True)], thorough=True) == z3.unsat: raise Prune()
    some, s = en.pathfresh('exits', 'b'), en.pathfresh('found', 'i')
    if not en.decide(some):
        en.assume(B(none_before(n)))
        for k in (0,):
            en.assume(B(z3.Implies(zi(n) > k, z3.Not(ex(z3.IntVal(k))))))
        last = sub(n, 1)
        en.assume(B(z3.Implies(zi(n) > 0, z3.And(*[z3.substitute(f, (p.e, zi(last))) for f in facts] +
                                                 [z3.Not(ex(zi(last)))]))))
        feasible()
        for nm in names: fr.locals[nm] = E_.Poison('after the loop', ('local', nm))
        en.assign(node.target, at(last))
        en.exec_block(node.orelse)
        return
    add_loop_facts(en, s, n)
    en.assume(B(none_before(s)))
    b = sub(s, 1)
    en.assume(B(z3.Implies(zi(s) > 0, z3.And(*[z3.substitute(f, (p.e, zi(b))) for f in facts] + [z3.Not(ex(zi(b)))]))))
    en.assume(B(ex(s.e)))
    feasible()
    for nm in names: fr.locals[nm] = E_.Poison('loop', ('local', nm))
    en.assign(node.target, at(s))
    try:
        en.exec_block(node.body)
    except E_.BreakX:
        return
    except E_.ContinueX:
        pass
    raise Prune()


# ------------------------------------------------------------------ comprehensions

def comprehension(en, e, gens, elt):
    cur = en.frames[-1]
    fr = E_.Frame(cur.mod, {}, cur, cur.func)
    fr.classbody = '<comp>' if cur.func is None else None
    first = en.eval(gens[0].iter)
    en.frames.append(fr)
    try:
        out = []
        v = comp_level(en, gens, 0, first, elt, out)
        if v is not None: return v
        return en.mklist(out)
    finally:
        en.frames.pop()


def comp_level(en, gens, k, it, elt, out):
    g = gens[k]
    n, at = sequence(en, it)
    if isinstance(n, int) and n <= UNROLL:
        for i in range(n):
            en.assign(g.target, at(i))
            if all(en.truth(en.eval(c)) for c in g.ifs):
                if k + 1 < len(gens):
                    v = comp_level(en, gens, k + 1, en.eval(gens[k + 1].iter), elt, out)
                    if v is not None:
                        if n == 1 and not out: return v
                        raise Unsupported('comprehension over several sequences of unknown length')
                else:
                    out.append(en.eval(elt))
        return None
    if g.ifs: raise Unsupported('filtered comprehension of unknown length')
    if out: raise Unsupported('comprehension over several sequences of unknown length')
    if k + 1 < len(gens):
        if k + 2 < len(gens): raise Unsupported('comprehension over several sequences of unknown length')

        def fn2(i):
            en.assign(g.target, at(i))
            inner = []
            v = comp_level(en, gens, k + 1, en.eval(gens[k + 1].iter), elt, inner)
            return v if v is not None else en.mklist(inner)
        nested = sym_map(en, fn2, n)
        st = en.st(nested)
        if len(st.shape) == 2:
            m = st.shape[1]

            def get(ix):
                w, r_ = split_index(en, ix[0], m, 0)
                return st.get((w, r_))
            return en.mkcells((mul(n, m),), get)
        probe = st.get((0,))
        if isinstance(probe, Frozen):
            m = len(probe.items)

            def get2(ix):
                w, r_ = split_index(en, ix[0], m, 0)
                its = st.get((w,)).items
                if isinstance(r_, int): return its[r_]
                v = its[-1]
                for j in range(m - 2, -1, -1): v = ite(eq(r_, j), its[j], v)
                return v
            return en.mkcells((mul(n, m),), get2)
        raise Unsupported('comprehension over several sequences of unknown length')

    def fn(i):
        en.assign(g.target, at(i))
        return en.eval(elt)
    return sym_map(en, fn, n)


def sym_map(en, fn, n):
    """The list of fn(p) for p in [0,n), n of unknown size."""
    if isinstance(n, int) and n <= UNROLL:
        return en.mklist([fn(i) for i in range(n)])
    p = newvar(en)
    rec = []
    nxt = en.next
    snap = en.snapshot()
    frn = len(en.frames)

    def thunk():
        en.loopvars.append(p.e)
        add_loop_facts(en, p, n)
        return fn(p)
    pre = dict(en.heap)
    if not en.decide(lt(0, n)): return en.mklist(())
    res = en.explore(thunk)
    bad = [r for r in res if r.status == 'raise']
    if bad:
        # the exception leaves the whole map: it happens for some element or for none
        cond = z3.Or(*[z3.And(*r.branches) if r.branches else z3.BoolVal(True) for r in bad])
        if en.choose(['raise', 'no'], 'map') == 'raise':
            s = en.fresh('found', 'i')
            add_loop_facts(en, s, n)
            en.assume(B(z3.substitute(cond, (p.e, s.e))))
            fn(s)
            raise Prune()
        res = [r for r in res if r.status != 'raise']
        en.counter += 1
        q = z3.Int('q!%d' % en.counter)
        en.assume(B(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < zi(n)), z3.Not(z3.substitute(cond, (p.e, q)))))))
    if not res: raise Prune()
    for r in res:
        for i, st in r.heap.items():
            if i < nxt and st is not pre.get(i): raise Unsupported('a comprehension with effects')
    facts = iteration_facts(en, res, p, n)
    st = nest(en, n, [portable(en, r.value, r.heap) for r in res], res, p, facts)
    return en.alloc('cells', st)
