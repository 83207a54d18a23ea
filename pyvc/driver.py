"""Running scenarios: exploring the code under symbolic inputs and discharging obligations."""
import json
import os
import subprocess
import tempfile
import re
import time
import z3
from fractions import Fraction
from . import engine as E_
from .vals import *
from .vals import _num

FULL_MS = 20000


class Obligation(object):
    def __init__(self, name, hyps, goal, choices, case):
        self.name, self.hyps, self.goal, self.choices, self.case = name, hyps, goal, choices, case
        self.defs = []
        self.status = None      # discharged / refuted / unknown
        self.by = None
        self.time = 0.0
        self.model = None


def oblige(en, name, goal, case=None):
    """Record: on this path, goal holds. case(model value function) builds a failing input."""
    g = z3.BoolVal(goal) if isinstance(goal, bool) else (goal.e if isinstance(goal, B) else goal)
    hy = list(en.branches) + list(en.facts)
    ob = Obligation(name, hy + en.definitions(hy + [g]), g, list(en.choices), case)
    ob.defs = list(getattr(en, 'defs', []))
    en.obls.append(ob)


SOM = dict(som=True, som_blowup=100000)


def som(e): return z3.simplify(e, **SOM)


def rebuild(e, ch):
    if z3.is_and(e): return z3.And(*ch)
    if z3.is_or(e): return z3.Or(*ch)
    return e.decl()(*ch)


class Normaliser(object):
    """Rewrites a goal into an equivalent one under the hypotheses: conditionals whose
    condition is decided are resolved, conditionals that are equal are identified, products
    named by a definition are replaced, integer parts leave the floor."""

    def __init__(self, hyps, defs, budget):
        self.end = time.time() + budget
        self.defs = defs
        self.s = z3.Solver()
        self.s.set('timeout', 300)
        self.keep, self.conds = [], {}
        self.ites = [b for _, b, _ in defs if z3.is_const(b)]
        self.base = linear_abstraction([self.define(h) for h in hyps])
        self.s.add(*self.base)

    def valid(self, f):
        if time.time() > self.end: return False
        f = self.define(som(f))
        if z3.is_true(f): return True
        if z3.is_false(f): return False
        self.s.push()
        self.s.add(*linear_abstraction([z3.Not(f)]))
        r = self.s.check()
        self.s.pop()
        return r == z3.unsat

    def decided(self, c):
        c = som(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        k = c.get_id()
        if k not in self.conds:
            self.keep.append(c)
            self.conds[k] = True if self.valid(c) else False if self.valid(z3.Not(c)) else None
        return self.conds[k]

    def same_as(self, e):
        """An earlier conditional known to be equal, or e."""
        if not z3.is_arith(e): return e
        for x in self.ites:
            if x.sort() == e.sort() and (x.eq(e) or self.valid(x == e)): return x
        if len(self.ites) < 24: self.ites.append(e)
        return e

    def define(self, e):
        """Products of the defined pairs replaced by their names."""
        if not self.defs: return e
        memo = {}

        def walk(e):
            i = e.get_id()
            if i in memo: return memo[i][0]
            if not z3.is_app(e) or e.num_args() == 0: r = e
            else:
                ch = [walk(c) for c in e.children()]
                r = None
                if z3.is_mul(e):
                    for a, b, rep in self.defs:
                        ia = [j for j, c in enumerate(ch) if c.eq(a)]
                        ib = [j for j, c in enumerate(ch) if c.eq(b)]
                        if ia and ib:
                            rest = [c for j, c in enumerate(ch) if j not in (ia[0], ib[0])]
                            r = rep
                            for c in rest: r = c * r
                            r = walk(som(r))
                            break
                if r is None: r = rebuild(e, ch)
            memo[i] = (r, e)
            return r
        return walk(som(e))

    def walk(self, e, memo):
        i = e.get_id()
        if i in memo: return memo[i][0]
        if not z3.is_app(e) or e.num_args() == 0: r = e
        elif e.decl().kind() == z3.Z3_OP_ITE:
            c = self.walk(e.arg(0), memo)
            d = self.decided(c)
            if d is True: r = self.walk(e.arg(1), memo)
            elif d is False: r = self.walk(e.arg(2), memo)
            else: r = self.same_as(som(z3.If(c, self.walk(e.arg(1), memo), self.walk(e.arg(2), memo))))
        else:
            ch = [self.walk(c, memo) for c in e.children()]
            if e.decl().kind() == z3.Z3_OP_TO_INT: r = self.floor(ch[0])
            else: r = rebuild(e, ch)
        memo[i] = (r, e)
        return r

    def floor(self, a):
        a = self.define(som(a))
        ints, rest = [], []
        for t in (a.children() if z3.is_add(a) else [a]):
            n = 1
            u = t
            if z3.is_mul(t) and t.num_args() == 2 and z3.is_rational_value(t.arg(0)):
                q = t.arg(0).as_fraction()
                if q.denominator == 1: n, u = q.numerator, t.arg(1)
            if z3.is_rational_value(u) and u.as_fraction().denominator == 1: ints.append(n * u.as_fraction().numerator)
            elif z3.is_app(u) and u.decl().kind() == z3.Z3_OP_TO_REAL: ints.append(n * u.arg(0))
            else: rest.append(t)
        r = z3.Sum(rest) if rest else z3.RealVal(0)
        tail = z3.IntVal(0) if not rest or self.valid(z3.And(r >= 0, r < 1)) else z3.ToInt(som(r))
        return z3.simplify(z3.Sum(ints + [tail]) if ints else tail)

    def run(self, goal):
        g = goal
        for _ in range(3):
            h = self.define(som(self.walk(g, {})))
            if h.eq(g) or z3.is_true(h) or z3.is_false(h): return h
            g = h
        return g


def linear_abstraction(fs):
    """Products of symbolic factors as uninterpreted functions of their factors: what follows
    from the abstracted formulas follows from the formulas (an over-approximation)."""
    memo = {}

    def atom_key(e):
        k = e.decl().name() if z3.is_app(e) else '~'
        return (k, 0 if e.num_args() else 1) if z3.is_app(e) else (k, 0)

    def walk(e):
        i = e.get_id()
        if i in memo: return memo[i][0]
        if not z3.is_app(e) or e.num_args() == 0:
            memo[i] = (e, e)
            return e
        ch = [walk(c) for c in e.children()]
        if z3.is_mul(e):
            nums = [c for c in ch if z3.is_rational_value(c) or z3.is_int_value(c)]
            rest = [c for c in ch if not (z3.is_rational_value(c) or z3.is_int_value(c))]
            flat = []
            for c in rest: flat.extend(prods.get(c.get_id(), ([c],))[0])
            if len(flat) > 1:
                rest = sorted(flat, key=atom_key)
                f = z3.Function('prod!%s%d' % (e.sort().name(), len(rest)), *([x.sort() for x in rest] + [e.sort()]))
                p = f(*rest)
                prods[p.get_id()] = (rest, p)
                r = p
                for c in nums: r = c * r
            else:
                r = e.decl()(*ch)
        elif e.decl().kind() == z3.Z3_OP_DIV and not (z3.is_rational_value(ch[1]) or z3.is_int_value(ch[1])):
            f = z3.Function('div!', z3.RealSort(), z3.RealSort(), z3.RealSort())
            r = f(*ch)
        elif e.decl().kind() == z3.Z3_OP_POWER:
            f = z3.Function('power!' + e.sort().name(), *([x.sort() for x in ch] + [e.sort()]))
            r = f(*ch)
        else:
            r = e.decl()(*ch) if not z3.is_and(e) and not z3.is_or(e) else (z3.And(*ch) if z3.is_and(e) else z3.Or(*ch))
        memo[i] = (r, e)
        return r
    prods = {}
    out = []
    for f in fs:
        if _has_quant(f): continue
        out.append(walk(z3.simplify(f, **SOM)))
    return out


def printing(g):
    """What is assumed of every printed number the goal names: it is within half a unit of its last digit."""
    out, st, seen = [], [g], set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.num_args() == 1:
            m = re.match(r'print(\d+)f$', x.decl().name())
            if m:
                h = z3.Q(1, 2 * 10 ** int(m.group(1)))
                out += [x - x.arg(0) <= h, x.arg(0) - x <= h]
        if not z3.is_quantifier(x): st.extend(x.children())
    return out


def discharge(ob, ms=None, quick_only=False):
    ms = ms or FULL_MS
    t0 = time.time()
    g = z3.simplify(ob.goal)
    if z3.is_true(g):
        ob.status, ob.by = 'discharged', 'z3 simplifier'
        ob.time = time.time() - t0
        return
    neg = z3.Not(g)
    ob.hyps = list(ob.hyps) + printing(g)
    for quick in (1500,):
        s = z3.Solver()
        s.set('timeout', quick)
        s.add(*ob.hyps)
        s.add(neg)
        r = s.check()
        if r == z3.unsat:
            ob.status, ob.by = 'discharged', 'z3 %s' % z3.get_version_string()
            ob.time = time.time() - t0
            return
        if r == z3.sat:
            ob.status, ob.by, ob.model = 'refuted', 'z3 %s' % z3.get_version_string(), s.model()
            ob.time = time.time() - t0
            return
    if quick_only:
        ob.status = 'unknown'
        ob.time = time.time() - t0
        return
    inst = instances(ob.hyps, neg)
    if inst is not None:
        s = z3.Solver()
        s.set('timeout', ms // 4)
        s.add(*inst)
        s.add(neg)
        if s.check() == z3.unsat:
            ob.status, ob.by = 'discharged', 'z3 %s (instances)' % z3.get_version_string()
            ob.time = time.time() - t0
            return
    try:
        nm = Normaliser(ob.hyps, ob.defs, ms / 1000.0)
        g2 = nm.run(ob.goal)
        if z3.is_true(g2):
            ob.status, ob.by = 'discharged', 'z3 %s (normalised)' % z3.get_version_string()
            ob.time = time.time() - t0
            return
        for abstract in (True, False):
            s = z3.Solver()
            s.set('timeout', ms // 2)
            if abstract: s.add(*(nm.base + linear_abstraction([z3.Not(g2)])))
            else: s.add(*([nm.define(h) for h in ob.hyps] + [z3.Not(g2)]))
            r = s.check()
            if r == z3.unsat:
                ob.status, ob.by = 'discharged', 'z3 %s (%s)' % (z3.get_version_string(), 'linear' if abstract else 'normalised')
                ob.time = time.time() - t0
                return
            if not ob.defs: break
    except z3.Z3Exception:
        pass
    for tactic in (None, 'som', 'nlsat'):
        s = z3.SolverFor('QF_UFNRA') if tactic == 'nlsat' else z3.Solver()
        s.set('timeout', ms if tactic is None else ms // 2)
        hy = ob.hyps
        ng = neg
        if tactic == 'som':
            ng = z3.simplify(neg, **SOM, arith_lhs=True)
            hy = [z3.simplify(h, **SOM) for h in hy]
        if tactic == 'nlsat':
            hy = [h for h in hy if not _has_quant(h)]
        try:
            s.add(*hy)
            s.add(ng)
            r = s.check()
        except z3.Z3Exception as e:
            r = z3.unknown
        if r == z3.unsat:
            ob.status, ob.by = 'discharged', 'z3 %s' % z3.get_version_string()
            break
        if r == z3.sat:
            ob.status, ob.by, ob.model = 'refuted', 'z3 %s' % z3.get_version_string(), s.model()
            break
    else:
        r = cvc5_check(ob.hyps + [neg], ms)
        if r == 'unsat': ob.status, ob.by = 'discharged', 'cvc5'
        else: ob.status = 'unknown'
    ob.time = time.time() - t0


def instances(hyps, goal, rounds=2, limit=400):
    """The quantified hypotheses at the ground arguments of the functions they speak about,
    instead of the quantified hypotheses (weaker, and free of quantifiers)."""
    ground = [h for h in hyps if not _has_quant(h)]
    quant = [h for h in hyps if _has_quant(h)]
    if not quant: return None
    out = list(ground)
    have = set()
    for _ in range(rounds):
        args = {}
        for e in out + [goal]: _apps(e, args)
        new = []
        for h in quant:
            for q, guard in _foralls(h):
                cand = []
                for v in range(q.num_vars()):
                    fs = _bound_apps(q.body(), q.num_vars() - 1 - v)
                    ts = {}
                    for f in fs:
                        for t in args.get(f, {}).values(): ts[t.get_id()] = t
                    cand.append(list(ts.values())[:24])
                import itertools
                for ts in itertools.islice(itertools.product(*cand), limit):
                    i = z3.substitute_vars(q.body(), *reversed(ts))
                    if guard is not None: i = z3.Implies(guard, i)
                    if i.get_id() not in have and not _has_quant(i):
                        have.add(i.get_id())
                        new.append(i)
        if not new: break
        out += new
        if len(out) > 4000: break
    return out


def _foralls(h, guard=None):
    if z3.is_quantifier(h):
        if h.is_forall() and all(h.var_sort(i) == z3.IntSort() for i in range(h.num_vars())): yield h, guard
    elif z3.is_and(h):
        for c in h.children(): yield from _foralls(c, guard)
    elif z3.is_implies(h) and not _has_quant(h.arg(0)):
        yield from _foralls(h.arg(1), h.arg(0) if guard is None else z3.And(guard, h.arg(0)))


def _apps(e, out, seen=None):
    """Ground applications of one-place functions of integers: name -> arguments."""
    st, seen = [e], set()
    while st:
        x = st.pop()
        if x.get_id() in seen or not z3.is_app(x): continue
        seen.add(x.get_id())
        if x.num_args() == 1 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.arg(0).sort() == z3.IntSort():
            t = z3.simplify(x.arg(0))
            out.setdefault(x.decl().name(), {})[t.get_id()] = t
        st.extend(x.children())


def _bound_apps(body, v):
    """The one-place functions applied to the bound variable v itself."""
    fs, st, seen = set(), [body], set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.num_args() == 1 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and z3.is_var(x.arg(0)) \
                and z3.get_var_index(x.arg(0)) == v: fs.add(x.decl().name())
        if z3.is_app(x): st.extend(x.children())
    return fs


def satisfiable(hyps):
    """False only where the hypotheses are found contradictory (vacuity guard)."""
    s = z3.Solver()
    s.set('timeout', 100)
    s.add(*hyps)
    return s.check() != z3.unsat


def _has_quant(e):
    seen, st = set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): return True
        st.extend(x.children())
    return False


def cvc5_check(cs, ms):
    s = z3.Solver()
    s.add(*cs)
    txt = '(set-logic ALL)\n' + s.to_smt2()
    fd, path = tempfile.mkstemp(suffix='.smt2')
    with os.fdopen(fd, 'w') as f: f.write(txt)
    try:
        r = subprocess.run(['cvc5', '--tlimit=%d' % ms, path], capture_output=True, text=True, timeout=ms / 1000 + 5)
        return r.stdout.strip().split('\n')[-1] if r.stdout.strip() else 'unknown'
    except Exception:
        return 'unknown'
    finally:
        os.unlink(path)


def model_float(m, t):
    v = m.eval(t, model_completion=True)
    if z3.is_algebraic_value(v): v = v.approx(12)
    k = _num(v)
    return None if k is None else (k if z3.is_int_value(v) else float(k))


class Outcome(object):
    """What verifying one scenario gave."""
    def __init__(self, name):
        self.name = name
        self.obls = []
        self.error = None       # Unsupported
        self.paths = 0
        self.executed = {}
        self.contracts = []
        self.time = 0.0
        self.solver_time = 0.0
        self.cases = []
        self.vacuous = 0

    def as_dict(self):
        return {
            'scenario': self.name, 'paths': self.paths, 'error': self.error, 'seconds': round(self.time, 2),
            'solver_seconds': round(self.solver_time, 2), 'functions': sorted(self.executed),
            'contracts_applied': sorted(self.contracts),
            'obligations': [{'name': o.name, 'status': o.status, 'by': o.by, 'seconds': round(o.time, 3),
                             'path': [str(c) for c in o.choices], 'case': o.case_json,
                             'detail': o.detail} for o in self.obls],
            'loops_summarised': self.loops, 'vacuous_obligations': self.vacuous,
        }


def verify(name, fn, contracts=None, limit=None, disabled=()):
    """Run scenario fn(en) on every path; the Outcome."""
    out = Outcome(name)
    t0 = time.time()
    en = E_.Engine()
    if limit: en.deadline = t0 + limit
    en.obls = []
    en.defs = []
    en.summarised = 0
    en.reached = 0
    en.disabled = set(disabled)
    try:
        for nm in getattr(fn, 'modules', ('aces.clf',)): en.import_module(nm)
        if contracts:
            en.contracts = contracts

        def thunk():
            en.defs = []
            return fn(en)
        res = en.explore(thunk)
        out.paths = len(res)
        for r in res:
            if r.status == 'raise':
                v = r.value
                st = r.heap[v.id]
                cls = st.cls.name if isinstance(st.cls, E_.ExtClass) else r.heap[st.cls.id].name
                ob = Obligation('no unexpected exception', list(r.branches) + list(r.facts), z3.BoolVal(False), [], None)
                ob.detail0 = 'raises %s %s' % (cls, st.attrs.get('args'))
                en.obls.append(ob)
        if not en.obls: out.error = 'no obligation was generated'
    except (Unsupported,) as e:
        out.error = 'unsupported: %s' % e
    except E_.PoisonRead as e:
        out.error = 'unsupported: poison %s' % (e.token,)
    except E_.PyRaise as e:
        out.error = 'unsupported: exception %s' % en.st(e.value).attrs.get('args')
    except RecursionError:
        out.error = 'unsupported: recursion'
    except z3.Z3Exception as e:
        out.error = 'unsupported: solver error %s' % e
    out.executed = dict(en.executed)
    out.contracts = sorted(en.used_contracts)
    out.loops = en.summarised
    failed = 0
    live, dead = set(), 0
    for ob in en.obls:
        key = tuple(map(str, ob.choices))
        if key in live or ob.name == 'no unexpected exception': continue
        if satisfiable(ob.hyps): live.add(key)
        else: dead += 1
    out.vacuous = dead
    if en.obls and not live and not out.error and any(o.name != 'no unexpected exception' for o in en.obls):
        out.error = 'vacuous: the hypotheses of every path are contradictory'
    for ob in en.obls:
        ob.detail = getattr(ob, 'detail0', None)
        ob.case_json = None
        if limit and time.time() - t0 > limit:
            # not a verdict: the scenario counts as undecided
            ob.status = 'unexamined'
            out.error = out.error or 'out of time'
            continue
        discharge(ob, quick_only=failed >= 4)
        if ob.status != 'discharged':
            failed += 1
            ob.detail = (ob.detail or '') + ' goal: %s' % str(z3.simplify(ob.goal))[:1500]
            if ob.model is not None:
                ob.detail += ' counter-model: %s' % str(ob.model)[:1500]
                if ob.case is not None:
                    try:
                        m = ob.model
                        ob.case_json = ob.case(lambda t: model_float(m, t.e if isinstance(t, (N, B, S)) and not isinstance(t.e, (Fraction, str)) else zr(t)))
                    except Exception as e:
                        ob.detail += ' (no concrete case: %r)' % (e,)
    out.obls = [o for o in en.obls if o.status != 'unexamined']
    out.time = time.time() - t0
    out.solver_time = sum(o.time for o in en.obls) + en.solver_time
    return out
