"""Symbolic execution of the real (translated) code, generating verification conditions.

Paths are enumerated by re-execution along recorded decisions. Loops of unknown length
are summarised by a generic iteration (loops.py). Obligations are closed formulas
(path condition => goal) handed to the solver one by one."""
import ast
import os
import time
import z3
from fractions import Fraction
from . import source
from .vals import *
from .vals import _num

EFFORT = 400000


class Ref(object):
    __slots__ = ('id', 'kind')

    def __init__(self, id, kind):
        self.id = id
        self.kind = kind

    def __repr__(self): return '<%s %d>' % (self.kind, self.id)
    def same(self, o): return isinstance(o, Ref) and o.id == self.id
    noloop = property(lambda self: (_ for _ in ()).throw(AttributeError()))


class View(object):
    """A numpy view: part [off, off+n) of a one-dimensional base buffer."""
    __slots__ = ('base', 'off', 'n')

    def __init__(self, base, off, n):
        self.base, self.off, self.n = base, off, n

    def same(self, o):
        return isinstance(o, View) and o.base.id == self.base.id and eq(o.off, self.off) is True \
            and eq(o.n, self.n) is True


class MView(object):
    """A partially indexed multi-dimensional container (row of a nested list / array)."""
    __slots__ = ('base', 'idx')

    def __init__(self, base, idx):
        self.base, self.idx = base, idx


class ListS(object):
    """A list of known length."""
    __slots__ = ('items',)

    def __init__(self, items): self.items = tuple(items)


class CellS(object):
    """A container given by a function from index tuples to values: a list of unknown
    length, a nested list, or a numpy array."""
    __slots__ = ('shape', 'get', 'arr', 'logs', 'dtype')

    def __init__(self, shape, get, arr=False, logs=(), dtype=None):
        self.shape, self.get, self.arr, self.logs, self.dtype = tuple(shape), get, arr, logs, dtype

    def with_get(self, get):
        return CellS(self.shape, get, self.arr, self.logs, self.dtype)


class DictS(object):
    __slots__ = ('d',)
    def __init__(self, d): self.d = d


class SetS(object):
    __slots__ = ('items',)
    def __init__(self, items): self.items = tuple(items)


class InstS(object):
    __slots__ = ('cls', 'attrs')
    def __init__(self, cls, attrs): self.cls, self.attrs = cls, attrs


class ClassS(object):
    __slots__ = ('name', 'bases', 'attrs', 'module')
    def __init__(self, name, bases, attrs, module):
        self.name, self.bases, self.attrs, self.module = name, bases, attrs, module


class ModS(object):
    __slots__ = ('name', 'attrs')
    def __init__(self, name, attrs): self.name, self.attrs = name, attrs


class Func(object):
    noloop = True

    def __init__(self, node, mod, qual, defaults, kwdefaults, closure, cls=None):
        self.node, self.mod, self.qual = node, mod, qual
        self.defaults, self.kwdefaults, self.closure, self.cls = defaults, kwdefaults, closure, cls

    def __repr__(self): return '<func %s>' % self.qual


class Bound(object):
    def __init__(self, f, self_): self.f, self.self_ = f, self_


class Wrap(object):
    """staticmethod / classmethod / property."""
    noloop = True
    def __init__(self, how, f): self.how, self.f = how, f


class Ext(object):
    """A trusted external function: its model."""
    noloop = True

    def __init__(self, name, fn): self.name, self.fn = name, fn
    def __repr__(self): return '<ext %s>' % self.name


class ExtMod(object):
    noloop = True

    def __init__(self, name, attrs): self.name, self.attrs = name, attrs
    def __repr__(self): return '<extmod %s>' % self.name


class ExtClass(object):
    """A builtin type (for isinstance, exceptions, np.float32, ...)."""
    noloop = True

    def __init__(self, name, base=None, call=None, attrs=None):
        self.name, self.base, self.call, self.attrs = name, base, call, attrs or {}

    def __repr__(self): return '<class %s>' % self.name

    def issub(self, o):
        c = self
        while c is not None:
            if c is o: return True
            c = c.base
        return False


class PyRaise(Exception):
    def __init__(self, value): self.value = value


class ReturnX(Exception):
    def __init__(self, v): self.v = v


class BreakX(Exception): pass
class ContinueX(Exception): pass


class Poison(object):
    """The value a name has when nothing is known about it; reading it is refused."""
    noloop = True
    def __init__(self, why, token=None): self.why, self.token = why, token


class PoisonRead(Exception):
    def __init__(self, token): self.token = token


class Frame(object):
    def __init__(self, mod, locals_, closure, func):
        self.mod, self.locals, self.closure, self.func = mod, locals_, closure, func
        self.globals_decl = set()
        self.args = None


_SYMS = {}


def symbols_of(e):
    """The uninterpreted constants and functions of a formula."""
    k = e.get_id()
    if k in _SYMS and _SYMS[k][1].eq(e): return _SYMS[k][0]
    out, seen, st = set(), set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x.decl().name())
        if z3.is_quantifier(x): st.append(x.body())
        st.extend(x.children())
    _SYMS[k] = (frozenset(out), e)
    return _SYMS[k][0]


def nonlinear(e):
    """Does the formula hold a product, quotient or floor of symbolic terms?"""
    st, seen = [e], set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x):
            k = x.decl().kind()
            if k in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_POWER): return True
            if k == z3.Z3_OP_MUL and sum(not (z3.is_rational_value(c) or z3.is_int_value(c)) for c in x.children()) > 1:
                return True
        st.extend(x.children())
    return False


_ABS = {}


def abstraction_of(e):
    from .driver import linear_abstraction, _has_quant
    k = e.get_id()
    if k not in _ABS or not _ABS[k][0].eq(e):
        nl = nonlinear(e)
        _ABS[k] = (e, (linear_abstraction([e]) if nl else [] if _has_quant(e) else [e]), nl)
        if len(_ABS) > 200000: _ABS.clear(); return linear_abstraction([e])
    return _ABS[k][1]


def nonlinear_(e):
    abstraction_of(e)
    return _ABS[e.get_id()][2] if e.get_id() in _ABS else True


class Trail(object):
    def __init__(self, prefix):
        self.dec = list(prefix)
        self.pos = 0
        self.new = []


class Result(object):
    """How one path of an exploration ended."""
    def __init__(self, status, value, branches, facts, heap, locs):
        self.status, self.value, self.branches, self.facts = status, value, branches, facts
        self.heap, self.locs = heap, locs


def small_(e):
    """Few enough operations to carry around unnamed."""
    n, st = 0, [e]
    while st:
        x = st.pop()
        n += 1
        if n > 12: return False
        st.extend(x.children())
    return True


def Half_():
    from .lib import Half
    return Half


class Engine(object):
    def __init__(self):
        from . import lib
        self.heap = {}
        self.next = 1
        self.nquant = 0
        self.lin = z3.Solver()
        self.lin.set('timeout', 5000)
        self.branches = []     # decisions taken
        self.facts = []        # facts assumed
        self.pathnames, self.asked = {}, {}
        self.naming, self.lets, self.letfn = False, {}, {}
        self.dry = False
        self.trail = Trail([])
        self.frames = []
        self.loopvars = []     # generic loop variables in scope
        self.dims = []         # positive integers used as strides
        self.loops = []        # active loop records
        self.counter = 0
        self.contracts = {}
        self.used_contracts = set()
        self.disabled = set()
        self.executed = {}     # qual -> file
        self.modules = {}
        self.choices = []
        self.inputs = {}       # name -> z3 term, for counter-models
        self.solver_time = 0.0
        self.feas_calls = 0
        self.depth = 0
        self.axioms = []       # lemmas about external functions in use, as text
        self.deadline = None
        self.lib = lib
        self.builtins = lib.make_builtins(self)
        self.extmods = lib.make_extmods(self)
        self.hooks = {}        # attribute models: (kind, name) -> fn

    # ------------------------------------------------------------ heap
    def alloc(self, kind, state):
        r = Ref(self.next, kind)
        self.next += 1
        self.heap[r.id] = state
        return r

    def st(self, r):
        return self.heap[r.id]

    def put(self, r, state):
        self.heap[r.id] = state

    def mklist(self, items): return self.alloc('list', ListS(items))
    def mkdict(self, d): return self.alloc('dict', DictS(dict(d)))

    def mkcells(self, shape, get, arr=False, dtype=None):
        r = self.alloc('cells', CellS(shape, get, arr, (), dtype))
        if arr and len(shape) == 1:
            return View(r, 0, shape[0])
        return r

    # ------------------------------------------------------------ symbols
    def fresh(self, name, sort='r'):
        self.counter += 1
        return self.symbol('%s!%d' % (name, self.counter), sort)

    def pathfresh(self, name, sort='r'):
        """A fresh symbol whose name depends on the path alone, so that paths which differ elsewhere
        give equal terms. (Different things of the same name are on paths that exclude each other.)"""
        k = self.pathnames[name] = self.pathnames.get(name, 0) + 1
        return self.symbol('%s@%d' % (name, k), sort)

    def symbol(self, nm, sort):
        zs = {'r': z3.RealSort(), 'i': z3.IntSort(), 'b': z3.BoolSort(), 's': z3.IntSort(),
              'o': AbSort}[sort]
        if self.loopvars:
            f = z3.Function(nm, *([z3.IntSort()] * len(self.loopvars) + [zs]))
            t = f(*self.loopvars)
        else:
            t = z3.Const(nm, zs)
        return {'r': lambda: N('r', t), 'i': lambda: N('i', t), 'b': lambda: B(t),
                's': lambda: S(t), 'o': lambda: Ab(t)}[sort]()

    def let(self, v):
        """A name for a large real computed in a loop: branches are decided without its definition,
        obligations know it (definitions())."""
        if not isinstance(v, N) or v.kind != 'r' or isinstance(v, Half_()) or not isinstance(v.e, z3.ExprRef): return v
        if v.e.num_args() == 0 or small_(v.e): return v
        for nm, (vs, e) in self.lets.items():
            if e.eq(v.e) and len(vs) == len(self.loopvars) and all(a.eq(b) for a, b in zip(vs, self.loopvars)):
                return N('r', self.letfn[nm](*vs))
        t = self.fresh('let')
        self.letfn[t.e.decl().name()] = t.e.decl()
        self.lets[t.e.decl().name()] = (list(self.loopvars), v.e)
        return t

    def definitions(self, es):
        """The defining equations of the named values that occur in es."""
        if not self.lets: return []
        out, seen, st = [], set(), list(es)
        while st:
            x = st.pop()
            if x.get_id() in seen or not z3.is_app(x):
                continue        # (bound occurrences have no ground instance)
            seen.add(x.get_id())
            d = self.lets.get(x.decl().name()) if x.decl().kind() == z3.Z3_OP_UNINTERPRETED else None
            if d is not None:
                q = x == z3.simplify(z3.substitute(d[1], *zip(d[0], x.children())), som=True)
                out.append(q)
                st.append(q)
            st.extend(x.children())
        return out

    def const(self, name, sort='r'):
        """A named input of the scenario (kept for counter-models)."""
        t = {'r': z3.Real, 'i': z3.Int, 'b': z3.Bool, 's': z3.Int}[sort](name)
        self.inputs[name] = t
        return {'r': lambda: N('r', t), 'i': lambda: N('i', t), 'b': lambda: B(t),
                's': lambda: S(t)}[sort]()

    def fn(self, name, nargs, sort='r', argsort='i'):
        zs = {'r': z3.RealSort(), 'i': z3.IntSort()}
        f = z3.Function(name, *([zs[argsort]] * nargs + [zs[sort]]))
        self.inputs[name] = f
        conv = zi if argsort == 'i' else zr
        return lambda *a: N(sort, f(*[conv(x) for x in a]))

    # ------------------------------------------------------------ path condition
    def assume(self, c):
        """A fact (about fresh symbols or a precondition)."""
        if c is True: return
        if c is False: raise Prune()
        e = c.e if isinstance(c, B) else c
        self.facts.append(e)
        from .driver import _has_quant
        if _has_quant(e): self.nquant += 1
        self._lin_add(e)

    def _branch(self, e):
        self.branches.append(e)
        self._lin_add(e)

    def _lin_add(self, e):
        self.lin.add(*abstraction_of(e))

    def feas(self, e):
        return self.unsat_or_not([e])

    def lin_refutes(self, e):
        """The first, quick question alone."""
        t0 = time.time()
        self.lin.push()
        try:
            self.lin.add(*abstraction_of(e))
            return self.lin.check() == z3.unsat
        finally:
            self.lin.pop()
            self.solver_time += time.time() - t0

    def unsat_or_not(self, es, thorough=False, near_only=False):
        """unsat if the path condition contradicts es. Three questions, each of which may
        answer unsat: products abstracted; only the hypotheses about the same symbols; all.
        Bounded by solver effort rather than by time, so that answers do not depend on load."""
        self.feas_calls += 1
        t0 = time.time()
        try:
            self.lin.push()
            try:
                self.lin.add(*[x for e in es for x in abstraction_of(e)])
                if self.lin.check() == z3.unsat: return z3.unsat
            finally:
                self.lin.pop()
            if not thorough and not any(nonlinear_(e) for e in es) and not self.quantified: return z3.unknown
            vs = frozenset().union(*[symbols_of(e) for e in es])
            hy = self.branches + self.facts
            key = (tuple(h.get_id() for h in hy), tuple(e.get_id() for e in es), thorough, near_only)
            if key in self.asked: return self.asked[key][0]
            r = self.ask(es, vs, hy, thorough, near_only)
            self.asked[key] = (r, hy, es)       # (kept alive: the key speaks of them)
            return r
        finally:
            self.solver_time += time.time() - t0
            if self.deadline and time.time() > self.deadline:
                raise Unsupported('time limit of the scenario')

    def ask(self, es, vs, hy, thorough, near_only):
        near = [h for h in hy if symbols_of(h) & vs]
        if len(near) > 6: near = [h for h in near if len(symbols_of(h) - vs) <= 1]
        r = self._check(near + es, 4 * EFFORT)
        if r == z3.unsat or near_only or self.naming and not thorough: return r
        return self._check(hy + es, (8 if thorough else 1) * EFFORT)

    @staticmethod
    def _check(cs, effort):
        s = z3.Solver()
        s.set('rlimit', effort)
        s.set('timeout', 20000)
        s.add(*cs)
        try:
            return s.check()
        except z3.Z3Exception:
            return z3.unknown

    @property
    def quantified(self):
        from .driver import _has_quant
        return self.nquant > 0 and any(_has_quant(h) for h in self.facts)

    def known(self, c):
        """Is c a consequence of the path condition? (quick, sound, incomplete)"""
        if isinstance(c, bool): return c
        return self.feas(z3.Not(c.e)) == z3.unsat

    def decide(self, c):
        if isinstance(c, bool): return c
        e = z3.simplify(c.e if isinstance(c, B) else c)
        if z3.is_true(e): return True
        if z3.is_false(e): return False
        tr = self.trail
        if tr.pos < len(tr.dec):
            b = tr.dec[tr.pos]
            tr.pos += 1
            self._branch(e if b else z3.Not(e))
            return b
        if self.lin_refutes(e): f, t = True, False
        else:
            f = self.feas(z3.Not(e)) != z3.unsat
            t = True if not f else self.feas(e) != z3.unsat
        b = t
        if t and f:
            tr.new.append(tr.dec[:tr.pos] + [False])
        tr.dec.append(b)
        tr.pos += 1
        self._branch(e if b else z3.Not(e))
        return b

    def choose(self, options, label=None):
        """A nondeterministic choice (a configuration of the scenario)."""
        options = list(options)
        tr = self.trail
        if tr.pos < len(tr.dec):
            k = tr.dec[tr.pos]
            tr.pos += 1
        else:
            k = 0
            for j in range(len(options) - 1, 0, -1):
                tr.new.append(tr.dec[:tr.pos] + [j])
            tr.dec.append(0)
            tr.pos += 1
        self.choices.append((label, options[k]))
        return options[k]

    def snapshot(self):
        return dict(self.heap), [dict(f.locals) for f in self.frames], self.next

    def restore(self, snap):
        self.heap = dict(snap[0])
        for f, l in zip(self.frames, snap[1]):
            f.locals.clear()
            f.locals.update(l)

    def explore(self, thunk, limit=4000):
        """Run thunk along every feasible path; the list of Results."""
        snap = self.snapshot()
        outer = (self.trail, len(self.branches), len(self.facts), len(self.frames),
                 len(self.loopvars), len(self.loops), self.depth, len(self.choices))
        out = []
        work = [[]]
        names, most = dict(self.pathnames), dict(self.pathnames)
        try:
            while work:
                if len(out) > limit: raise Unsupported('more than %d paths' % limit)
                self.trail = Trail(work.pop())
                self.pathnames = dict(names)
                self.restore(snap)
                self.lin.push()
                status, value = 'normal', None
                try:
                    try:
                        value = thunk()
                    except ReturnX as r:
                        status, value = 'return', r.v
                    except BreakX:
                        status = 'break'
                    except ContinueX:
                        status = 'normal'
                    except PyRaise as r:
                        status, value = 'raise', r.value
                    except Prune:
                        status = 'pruned'
                    if status != 'pruned':
                        out.append(Result(status, value, self.branches[outer[1]:],
                                          self.facts[outer[2]:], self.heap,
                                          [dict(f.locals) for f in self.frames[:outer[3]]]))
                finally:
                    self.lin.pop()
                    del self.branches[outer[1]:]
                    del self.facts[outer[2]:]
                    del self.frames[outer[3]:]
                    del self.loopvars[outer[4]:]
                    del self.loops[outer[5]:]
                    del self.choices[outer[7]:]
                    self.depth = outer[6]
                    for k, v in self.pathnames.items(): most[k] = max(v, most.get(k, 0))
                work.extend(self.trail.new)
        finally:
            self.pathnames = most
            self.trail = outer[0]
            self.restore(snap)
        return out

    # ------------------------------------------------------------ exceptions
    def pyraise(self, name, msg=''):
        cls = self.builtins[name]
        raise PyRaise(self.mkexc(cls, (msg,)))

    def mkexc(self, cls, args):
        return self.alloc('inst', InstS(cls, {'args': tuple(args), 'message': args[0] if args else ''}))

    # ------------------------------------------------------------ modules
    def load_module(self, name, path, package):
        """Execute the top level of one source file; name is the dotted module name."""
        if name in self.modules: return self.modules[name]
        tree, sha = source.load(path)
        m = self.alloc('mod', ModS(name, {'__name__': name, '__package__': package,
                                          '__file__': path, '__builtins__': None}))
        self.modules[name] = m
        fr = Frame(m, None, None, None)
        self.frames_push(fr)
        for s in tree.body:
            self.exec(s)
        self.frames.pop()
        return m

    def frames_push(self, fr):
        if fr.locals is None: fr.locals = {}
        self.frames.append(fr)

    def import_module(self, name):
        """An absolute dotted name -> module value."""
        if name in self.modules: return self.modules[name]
        if name in self.extmods: return self.extmods[name]
        parts = name.split('.')
        base = source.ROOT if parts[0] == 'aces' else os.path.join(source.ROOT, 'aces')
        p = os.path.join(base, *parts)
        if parts[0] in ('aces', 'clf', 'lutFormats') or os.path.exists(p + '.py'):
            if parts[0] == 'aces' and len(parts) == 1:
                m = self.alloc('mod', ModS('aces', {'__name__': 'aces', '__package__': 'aces'}))
                self.modules['aces'] = m
                return m
            if len(parts) > 1:
                self.import_module('.'.join(parts[:-1]))
                if name in self.modules: return self.modules[name]
            if os.path.isdir(p):
                m = self.load_module(name, os.path.join(p, '__init__.py'), name)
            elif os.path.exists(p + '.py'):
                m = self.load_module(name, p + '.py', '.'.join(parts[:-1]))
            else:
                self.pyraise('ImportError', name)
            if len(parts) > 1:
                pm = self.modules['.'.join(parts[:-1])]
                s = self.st(pm)
                a = dict(s.attrs)
                a[parts[-1]] = m
                self.put(pm, ModS(s.name, a))
            return m
        self.pyraise('ImportError', name)

    def resolve(self, name, package):
        if not name.startswith('.'): return name
        lvl = len(name) - len(name.lstrip('.'))
        pk = package.split('.')
        pk = pk[:len(pk) - (lvl - 1)]
        return '.'.join(pk + ([name.lstrip('.')] if name.lstrip('.') else []))

    # ------------------------------------------------------------ names
    def lookup(self, name):
        fr = self.frames[-1]
        f = fr
        while f is not None:
            if f.func is not None or f.locals:
                if name in f.locals and name not in f.globals_decl:
                    v = f.locals[name]
                    if isinstance(v, Poison): raise PoisonRead(v.token or ('?', v.why))
                    return v
            f = f.closure
        a = self.st(fr.mod).attrs
        if name in a: return a[name]
        if name in self.builtins: return self.builtins[name]
        if fr.func is not None and name in fr.func.localnames:
            self.pyraise('UnboundLocalError', name)
        self.pyraise('NameError', "name '%s' is not defined" % name)

    def store(self, name, v):
        fr = self.frames[-1]
        if fr.func is None and fr.locals is not None and not getattr(fr, 'classbody', False) or name in fr.globals_decl:
            s = self.st(fr.mod)
            a = dict(s.attrs)
            a[name] = v
            self.put(fr.mod, ModS(s.name, a))
        else:
            fr.locals[name] = v

    # ------------------------------------------------------------ statements
    def exec_block(self, body):
        for s in body: self.exec(s)

    def exec(self, s):
        return getattr(self, 'x_' + type(s).__name__, self.x_unsupported)(s)

    def x_unsupported(self, s):
        raise Unsupported('%s at line %d' % (type(s).__name__, getattr(s, 'lineno', 0)))

    def x_Pass(self, s): pass
    def x_Break(self, s): raise BreakX()
    def x_Continue(self, s): raise ContinueX()

    def x_Expr(self, s):
        if isinstance(s.value, ast.Constant): return
        self.eval(s.value)

    def x_Return(self, s):
        raise ReturnX(self.eval(s.value) if s.value is not None else None)

    def x_Global(self, s):
        self.frames[-1].globals_decl.update(s.names)

    def x_Assign(self, s):
        v = self.eval(s.value)
        for t in s.targets: self.assign(t, v)

    def x_AnnAssign(self, s):
        if s.value is not None: self.assign(s.target, self.eval(s.value))

    def x_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id)
            new = self.iadd(s.op, old, self.eval(s.value))
            self.store(t.id, new)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value)
            old = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.iadd(s.op, old, self.eval(s.value)))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value)
            k = self.eval_index(t.slice)
            old = self.getitem(o, k)
            self.setitem(o, k, self.iadd(s.op, old, self.eval(s.value)))
        else:
            self.x_unsupported(s)

    def iadd(self, op, old, new):
        if isinstance(op, ast.Add) and isinstance(old, Ref) and old.kind == 'list':
            self.lib.list_extend(self, old, new)
            return old
        return self.binop(op, old, new)

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            if self.naming and self.loopvars: v = self.let(v)
            self.store(t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value), self.eval_index(t.slice), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.items(v)
            if len(items) != len(t.elts):
                self.pyraise('ValueError', 'unpack')
            for a, b in zip(t.elts, items): self.assign(a, b)
        else:
            self.x_unsupported(t)

    def x_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.frames[-1].locals.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value)
                k = self.eval_index(t.slice)
                if isinstance(o, Ref) and o.kind == 'dict':
                    d = dict(self.st(o).d)
                    if k not in d: self.pyraise('KeyError', str(k))
                    del d[k]
                    self.put(o, DictS(d))
                elif isinstance(o, Ref) and o.kind == 'list' and isinstance(k, int):
                    it = list(self.st(o).items)
                    del it[k]
                    self.put(o, ListS(it))
                else:
                    self.x_unsupported(s)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value)
                st = self.st(o)
                a = dict(st.attrs)
                del a[t.attr]
                self.put(o, InstS(st.cls, a))
            else:
                self.x_unsupported(s)

    def x_If(self, s):
        if self.truth(self.eval(s.test)):
            self.exec_block(s.body)
        else:
            self.exec_block(s.orelse)

    def x_Assert(self, s):
        if not self.truth(self.eval(s.test)): self.pyraise('AssertionError')

    def x_Raise(self, s):
        if s.exc is None:
            raise PyRaise(self.frames[-1].exc)
        v = self.eval(s.exc)
        if isinstance(v, ExtClass) or isinstance(v, Ref) and v.kind == 'class':
            v = self.call(v, [], {})
        raise PyRaise(v)

    def exc_matches(self, value, cls):
        if isinstance(cls, tuple): return any(self.exc_matches(value, c) for c in cls)
        return self.isinstance_(value, cls)

    def x_Try(self, s):
        try:
            try:
                self.exec_block(s.body)
            except PyRaise as r:
                if getattr(r, 'partial', False): raise Unsupported('an exception caught that leaves a state not known')
                for h in s.handlers:
                    if h.type is None or self.exc_matches(r.value, self.eval(h.type)):
                        if h.name: self.store(h.name, r.value)
                        self.frames[-1].exc = r.value
                        self.exec_block(h.body)
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse)
        finally:
            import sys as _s
            et = _s.exc_info()[0]
            if s.finalbody and (et is None or issubclass(et, (PyRaise, ReturnX, BreakX, ContinueX))):
                self.exec_block(s.finalbody)

    def x_With(self, s):
        ctxs = []
        for it in s.items:
            c = self.eval(it.context_expr)
            v = self.call(self.getattr(c, '__enter__'), [], {})
            ctxs.append(c)
            if it.optional_vars is not None: self.assign(it.optional_vars, v)
        try:
            self.exec_block(s.body)
        except (PyRaise, ReturnX, BreakX, ContinueX):
            for c in reversed(ctxs): self.call(self.getattr(c, '__exit__'), [None, None, None], {})
            raise
        for c in reversed(ctxs): self.call(self.getattr(c, '__exit__'), [None, None, None], {})

    def x_Import(self, s):
        for a in s.names:
            m = self.import_module(a.name)
            if a.asname: self.store(a.asname, m)
            else:
                top = a.name.split('.')[0]
                self.store(top, self.import_module(top))

    def x_ImportFrom(self, s):
        if s.module == '__future__': return
        pk = self.st(self.frames[-1].mod).attrs.get('__package__')
        name = ('.' * s.level) + (s.module or '')
        m = self.import_module(self.resolve(name, pk))
        attrs = m.attrs if isinstance(m, ExtMod) else self.st(m).attrs
        for a in s.names:
            if a.name == '*':
                for k, v in list(attrs.items()):
                    if not k.startswith('_'): self.store(k, v)
            else:
                if a.name not in attrs:
                    try:
                        v = self.import_module(self.resolve(name, pk) + '.' + a.name)
                    except PyRaise:
                        self.pyraise('ImportError', a.name)
                else:
                    v = attrs[a.name]
                self.store(a.asname or a.name, v)

    def mkfunc(self, node, name):
        fr = self.frames[-1]
        mod = self.st(fr.mod).attrs['__name__']
        if getattr(fr, 'classbody', None):
            qual = '%s.%s.%s' % (mod.split('.')[-1], fr.classbody, name)
        elif fr.func is not None:
            qual = '%s.<locals>.%s' % (fr.func.qual, name)
        else:
            qual = '%s.%s' % (mod.split('.')[-1], name)
        a = node.args
        f = Func(node, fr.mod, qual, [self.eval(d) for d in a.defaults],
                 [None if d is None else self.eval(d) for d in a.kw_defaults],
                 fr if fr.func is not None else None)
        f.localnames = local_names(node)
        f.file = self.st(fr.mod).attrs.get('__file__')
        return f

    def x_FunctionDef(self, s):
        v = self.mkfunc(s, s.name)
        for d in reversed(s.decorator_list):
            dv = self.eval(d)
            v = self.call(dv, [v], {})
        self.store(s.name, v)

    def x_ClassDef(self, s):
        bases = [self.eval(b) for b in s.bases]
        meta = None
        for k in s.keywords:
            if k.arg == 'metaclass': meta = self.eval(k.value)
        if meta is None:
            for b in bases:
                if isinstance(b, Ref):
                    meta = self.class_attr(b, '__metaclass__instance')
                    if meta is not None: break
        fr = Frame(self.frames[-1].mod, {}, self.frames[-1] if self.frames[-1].func else None, None)
        fr.classbody = s.name
        self.frames_push(fr)
        for x in s.body: self.exec(x)
        self.frames.pop()
        attrs = dict(fr.locals)
        if meta is None:
            cls = self.mkclass(s.name, bases, attrs)
        else:
            attrs['__metaclass__instance'] = meta
            new = self.class_attr(meta, '__new__')
            cls = self.call(new, [meta, s.name, tuple(bases), self.mkdict(attrs)], {})
        self.store(s.name, cls)

    def mkclass(self, name, bases, attrs):
        return self.alloc('class', ClassS(name, list(bases), dict(attrs),
                                          self.st(self.frames[-1].mod).attrs['__name__']))

    def x_For(self, s):
        from . import loops
        it = self.eval(s.iter)
        loops.run_for(self, s, it)

    def x_While(self, s):
        from . import loops
        loops.run_while(self, s)

    # ------------------------------------------------------------ truth
    def truth(self, v):
        v = self.truthval(v)
        return v if isinstance(v, bool) else self.decide(v)

    def truthval(self, v):
        if v is None: return False
        if isinstance(v, bool): return v
        if isinstance(v, B): return v
        if isinstance(v, int): return v != 0
        if isinstance(v, N):
            if special(v): return True
            return bnot(eq(v, 0))
        if isinstance(v, str): return v != ''
        if isinstance(v, S): return mkbool(v.e != strid(''))
        if isinstance(v, T): return True
        if isinstance(v, tuple): return len(v) > 0
        if isinstance(v, Ref):
            st = self.st(v)
            if isinstance(st, ListS): return len(st.items) > 0
            if isinstance(st, CellS): return lt(0, st.shape[0])
            if isinstance(st, DictS): return len(st.d) > 0
            if isinstance(st, SetS): return len(st.items) > 0
            if isinstance(st, InstS):
                ln = self.class_attr(st.cls, '__len__') if isinstance(st.cls, Ref) else None
                if ln is not None:
                    return bnot(eq(self.call(Bound(ln, v), [], {}), 0))
                return True
            return True
        if isinstance(v, Ab) and v.model is not None and hasattr(v.model, 'truth'):
            return v.model.truth(self, v)
        return True

    # ------------------------------------------------------------ expressions
    def eval(self, e):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None: raise Unsupported('%s at line %d' % (type(e).__name__, getattr(e, 'lineno', 0)))
        return m(e)

    def e_Constant(self, e):
        v = e.value
        if isinstance(v, float): return real(v)
        if isinstance(v, (bytes,)): return v.decode('latin-1')
        return v

    def e_Name(self, e): return self.lookup(e.id)

    def e_Tuple(self, e): return tuple(self.eval_items(e.elts))
    def e_List(self, e): return self.mklist(self.eval_items(e.elts))
    def e_Set(self, e): return self.alloc('set', SetS(self.eval_items(e.elts)))

    def eval_items(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred): out.extend(self.items(self.eval(x.value)))
            else: out.append(self.eval(x))
        return out

    def e_Dict(self, e):
        d = {}
        for k, v in zip(e.keys, e.values):
            kk = self.eval(k)
            d[self.key(kk)] = self.eval(v)
        return self.mkdict(d)

    def key(self, k):
        if isinstance(k, (str, int, bool, tuple)) or k is None: return k
        if isinstance(k, N) and conc(k) is not None: return conc(k)
        if isinstance(k, Ref): return k
        if isinstance(k, (ExtClass, Ext)): return k
        raise Unsupported('symbolic dictionary key')

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x)
            if i == len(e.values) - 1: return v
            t = self.truth(v)
            if isand and not t: return v if not isinstance(v, B) else False
            if not isand and t: return v if not isinstance(v, B) else True
        return v

    def e_UnaryOp(self, e):
        v = self.eval(e.operand)
        if isinstance(e.op, ast.Not): return bnot(self.truthval(v))
        if isinstance(e.op, ast.USub):
            if isinstance(v, (bool, B)): raise Unsupported('minus boolean')
            if isinstance(v, int): return -v
            if special(v): return sub(N('r', Fraction(0)), v)
            return sub(N('r', Fraction(0)) if not isint(v) else 0, v)
        if isinstance(e.op, ast.UAdd): return v
        raise Unsupported('unary operator')

    def e_IfExp(self, e):
        return self.eval(e.body) if self.truth(self.eval(e.test)) else self.eval(e.orelse)

    def e_Lambda(self, e):
        f = self.mkfunc(e, '<lambda>')
        return f

    def e_BinOp(self, e):
        return self.binop(e.op, self.eval(e.left), self.eval(e.right))

    def numop(self, f, a, b):
        try:
            return f(a, b)
        except SpecialSign as s:
            x = s.b if special(s.a) else s.a
            inf = s.a if special(s.a) else s.b
            if s.op == '/' and special(s.b): return N('r', Fraction(0))
            neg = inf.e == '-inf'
            if self.decide(lt(0, x)): return N('r', '-inf' if neg else 'inf')
            if self.decide(lt(x, 0)): return N('r', 'inf' if neg else '-inf')
            return N('r', 'nan')

    def binop(self, op, a, b):
        lib = self.lib
        r = lib.array_binop(self, op, a, b)
        if r is not NotImplemented: return r
        if isinstance(a, (bool, B)) and isnum(b): a = self.bool_int(a)
        if isinstance(b, (bool, B)) and isnum(a): b = self.bool_int(b)
        if isnum(a) and isnum(b):
            if isinstance(op, ast.Add): return self.numop(add, a, b)
            if isinstance(op, ast.Sub): return self.numop(sub, a, b)
            if isinstance(op, ast.Mult): return self.numop(mul, a, b)
            if isinstance(op, ast.Div): return self.div(a, b)
            if isinstance(op, ast.FloorDiv): return self.floordiv(a, b)
            if isinstance(op, ast.Mod): return self.mod(a, b)
            if isinstance(op, ast.Pow): return lib.power(self, a, b)
            ca, cb = conc(a), conc(b)
            if isinstance(ca, int) and isinstance(cb, int):
                if isinstance(op, ast.BitAnd): return ca & cb
                if isinstance(op, ast.BitOr): return ca | cb
                if isinstance(op, ast.BitXor): return ca ^ cb
                if isinstance(op, ast.LShift): return ca << cb
                if isinstance(op, ast.RShift): return ca >> cb
            if isinstance(op, ast.BitAnd): return lib.bitand(self, a, b)
            if isinstance(op, ast.LShift) and isinstance(cb, int): return mul(a, 2 ** cb)
            if isinstance(op, ast.RShift) and isinstance(cb, int): return self.floordiv(a, 2 ** cb)
        if isinstance(op, ast.Mod) and isinstance(a, (str, T)): return lib.format_percent(self, a, b)
        if isinstance(op, ast.Add):
            if isinstance(a, (str, T)) and isinstance(b, (str, T)): return mktext([a, b])
            if isinstance(a, (str, T, S)) and isinstance(b, (str, T, S)):
                return mktext([lib.as_text(self, a), lib.as_text(self, b)])
            if isinstance(a, tuple) and isinstance(b, tuple): return a + b
            if isinstance(a, Ref) and a.kind in ('list', 'cells') and isinstance(b, Ref): return lib.list_concat(self, a, b)
        if isinstance(op, ast.Mult):
            if isinstance(b, (Ref, str, tuple, T)) and isint(a): a, b = b, a
            if isinstance(a, Ref) and isint(b): return lib.list_repeat(self, a, b)
            if isinstance(a, (str, tuple)) and isinstance(b, int): return a * b
        if isinstance(op, (ast.BitOr, ast.BitAnd, ast.Sub)) and isinstance(a, Ref) and a.kind == 'set':
            return lib.set_op(self, op, a, b)
        raise Unsupported('%s of %s and %s' % (type(op).__name__, self.tname(a), self.tname(b)))

    def tname(self, v):
        if isinstance(v, Ref): return v.kind
        return type(v).__name__

    def bool_int(self, v):
        if isinstance(v, bool): return int(v)
        return ite(v, 1, 0)

    def div(self, a, b):
        """True division; a zero divisor raises as Python does."""
        if special(b) or special(a): return self.numop(rdiv, a, b)
        if self.decide(eq(b, 0)): self.pyraise('ZeroDivisionError')
        return rdiv(real_of(a), real_of(b))

    def floordiv(self, a, b):
        if not (isint(a) and isint(b)):
            from .lib import floor_
            return real_of(floor_(self, self.div(a, b)))
        ca, cb = conc(a), conc(b)
        if cb == 0: self.pyraise('ZeroDivisionError')
        if ca is not None and cb is not None: return ca // cb
        if self.decide(eq(b, 0)): self.pyraise('ZeroDivisionError')
        r = exact_div(a, b)
        if r is not None: return r
        if self.decide(lt(0, b)):
            if cb: return divmod_linear(a, cb)[0]
            return mkint(zi(a) / zi(b))
        return mkint((-zi(a)) / (-zi(b)))

    def mod(self, a, b):
        if not (isint(a) and isint(b)): raise Unsupported('modulo of floats')
        ca, cb = conc(a), conc(b)
        if ca is not None and cb: return ca % cb
        if self.decide(eq(b, 0)): self.pyraise('ZeroDivisionError')
        if self.decide(lt(0, b)): return divmod_linear(a, cb)[1] if cb else mkint(zi(a) % zi(b))
        raise Unsupported('modulo of a negative divisor')

    def e_Compare(self, e):
        a = self.eval(e.left)
        res = True
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            b = self.eval(r)
            c = self.compare(op, a, b)
            if len(e.ops) == 1: return c
            if not self.truth(c): return False
            a = b
        return True

    def compare(self, op, a, b):
        if isinstance(op, ast.Is): return self.identical(a, b)
        if isinstance(op, ast.IsNot): return bnot(self.identical(a, b))
        if isinstance(op, ast.Eq): return self.equal(a, b)
        if isinstance(op, ast.NotEq): return bnot(self.equal(a, b))
        if isinstance(op, ast.In): return self.contains(b, a)
        if isinstance(op, ast.NotIn): return bnot(self.contains(b, a))
        a, b = self.scalar(a), self.scalar(b)
        if isinstance(a, (bool, B)): a = self.bool_int(a)
        if isinstance(b, (bool, B)): b = self.bool_int(b)
        if isnum(a) and isnum(b):
            if isinstance(op, ast.Lt): return lt(a, b)
            if isinstance(op, ast.LtE): return le(a, b)
            if isinstance(op, ast.Gt): return lt(b, a)
            if isinstance(op, ast.GtE): return le(b, a)
        if isinstance(a, str) and isinstance(b, str):
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]
        if a is None or b is None: self.pyraise('TypeError')
        raise Unsupported('comparison of %s and %s' % (self.tname(a), self.tname(b)))

    def scalar(self, v):
        return v

    def identical(self, a, b):
        if a is None or b is None: return a is None and b is None
        if isinstance(a, (bool, B)) and isinstance(b, (bool, B)): return self.equal(a, b)
        if isinstance(a, Ref) or isinstance(b, Ref):
            return isinstance(a, Ref) and isinstance(b, Ref) and a.id == b.id
        if isinstance(a, Ab) and isinstance(b, Ab): return mkbool(a.e == b.e)
        return a is b

    def equal(self, a, b):
        if a is None or b is None: return a is None and b is None
        if isinstance(a, (bool, B)) and isinstance(b, (bool, B)):
            if isinstance(a, bool) and isinstance(b, bool): return a == b
            return mkbool(zb(a) == zb(b))
        if isinstance(a, (bool, B)) and isnum(b): return eq(self.bool_int(a), b)
        if isinstance(b, (bool, B)) and isnum(a): return eq(a, self.bool_int(b))
        if isnum(a) and isnum(b): return eq(a, b)
        if isinstance(a, (str, S)) and isinstance(b, (str, S)):
            if isinstance(a, str) and isinstance(b, str): return a == b
            x = z3.IntVal(strid(a)) if isinstance(a, str) else a.e
            y = z3.IntVal(strid(b)) if isinstance(b, str) else b.e
            return mkbool(x == y)
        if isinstance(a, (T,)) or isinstance(b, T):
            return self.lib.text_eq(self, a, b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b): return False
            return band(*[self.equal(x, y) for x, y in zip(a, b)])
        if isinstance(a, Ref) and isinstance(b, Ref):
            sa, sb = self.st(a), self.st(b)
            if isinstance(sa, ListS) and isinstance(sb, ListS):
                if len(sa.items) != len(sb.items): return False
                return band(*[self.equal(x, y) for x, y in zip(sa.items, sb.items)])
            if isinstance(sa, CellS) and isinstance(sb, ListS) and not sb.items and not sa.arr:
                return eq(sa.shape[0], 0)
            if isinstance(sb, CellS) and isinstance(sa, ListS) and not sa.items and not sb.arr:
                return eq(sb.shape[0], 0)
            if isinstance(sa, DictS) and isinstance(sb, DictS):
                if set(sa.d) != set(sb.d): return False
                return band(*[self.equal(sa.d[k], sb.d[k]) for k in sa.d])
            if a.id == b.id: return True
            if isinstance(sa, CellS) or isinstance(sb, CellS):
                raise Unsupported('comparison of containers of unknown length')
            return False
        if isinstance(a, View) or isinstance(b, View):
            o = b if isinstance(a, View) else a
            v = a if isinstance(a, View) else b
            if isinstance(o, Ref) and isinstance(self.st(o), ListS) and not self.st(o).items:
                # array == [] compares elementwise against nothing: an empty (false) result
                return False
            if o is None: return False
            raise Unsupported('comparison of arrays')
        if isinstance(a, Ab) and isinstance(b, Ab): return mkbool(a.e == b.e)
        if isinstance(a, ExtClass) or isinstance(b, ExtClass): return a is b
        return False

    def contains(self, c, x):
        if isinstance(c, (str, T)) and isinstance(x, (str,)):
            if isinstance(c, str): return x in c
        if isinstance(c, tuple): return bor(*[self.equal(y, x) for y in c]) if c else False
        if isinstance(c, Ref):
            st = self.st(c)
            if isinstance(st, (ListS, SetS)):
                return bor(*[self.equal(y, x) for y in st.items]) if st.items else False
            if isinstance(st, DictS):
                if isinstance(x, S):
                    return bor(*[self.equal(y, x) for y in st.d]) if st.d else False
                return self.key(x) in st.d
        if isinstance(c, Ab) and c.model is not None and hasattr(c.model, 'contains'):
            return c.model.contains(self, c, x)
        raise Unsupported('in on %s' % self.tname(c))

    # ------------------------------------------------------------ subscripts
    def eval_index(self, sl):
        if isinstance(sl, ast.Slice):
            return slice(*[None if x is None else self.eval(x) for x in (sl.lower, sl.upper, sl.step)])
        if isinstance(sl, ast.Tuple):
            return tuple(self.eval_index(x) for x in sl.elts)
        if isinstance(sl, ast.Index):
            return self.eval(sl.value)
        return self.eval(sl)

    def e_Subscript(self, e):
        return self.getitem(self.eval(e.value), self.eval_index(e.slice))

    def getitem(self, o, k):
        return self.lib.getitem(self, o, k)

    def setitem(self, o, k, v):
        return self.lib.setitem(self, o, k, v)

    # ------------------------------------------------------------ comprehensions
    def comp(self, e, gens, elt):
        from . import loops
        return loops.comprehension(self, e, gens, elt)

    def e_ListComp(self, e): return self.comp(e, e.generators, e.elt)
    def e_GeneratorExp(self, e): return self.comp(e, e.generators, e.elt)

    def e_SetComp(self, e):
        return self.alloc('set', SetS(self.lib.dedupe(self, self.items(self.comp(e, e.generators, e.elt)))))

    def e_DictComp(self, e):
        r = self.comp(e, e.generators, ast.copy_location(ast.Tuple(elts=[e.key, e.value], ctx=ast.Load()), e))
        return self.mkdict({self.key(k): v for k, v in self.items(r)})

    # ------------------------------------------------------------ attributes
    def mro(self, cls):
        if isinstance(cls, ExtClass):
            out = []
            while cls is not None:
                out.append(cls)
                cls = cls.base
            return out
        out = [cls]
        for b in self.st(cls).bases:
            for c in self.mro(b):
                if not any(c is d or (isinstance(c, Ref) and isinstance(d, Ref) and c.id == d.id) for d in out):
                    out.append(c)
        return out

    def class_attr(self, cls, name):
        for c in self.mro(cls):
            a = c.attrs if isinstance(c, ExtClass) else self.st(c).attrs
            if name in a: return a[name]
        return None

    def class_attr_has(self, cls, name):
        for c in self.mro(cls):
            a = c.attrs if isinstance(c, ExtClass) else self.st(c).attrs
            if name in a: return True
        return False

    def e_Attribute(self, e):
        return self.getattr(self.eval(e.value), e.attr)

    def getattr(self, o, name):
        if isinstance(o, Ref):
            st = self.st(o)
            if isinstance(st, InstS):
                if name in st.attrs:
                    v = st.attrs[name]
                    if isinstance(v, Poison): raise PoisonRead(v.token)
                    return v
                if name == '__class__': return st.cls
                if self.class_attr_has(st.cls, name):
                    v = self.class_attr(st.cls, name)
                    if isinstance(v, Func): return Bound(v, o)
                    if isinstance(v, Wrap):
                        if v.how == 'static': return v.f
                        if v.how == 'class': return Bound(v.f, st.cls)
                        if v.how == 'property': return self.call(v.f, [o], {})
                    if isinstance(v, Ext) and getattr(v, 'method', False):
                        return Bound(v, o)
                    return v
                if isinstance(st.cls, ExtClass) and name in ('with_traceback',):
                    return Ext(name, lambda en, a, k: o)
                if isinstance(st.cls, ExtClass) and name[:2] != '__': raise Unsupported('%s of %s' % (name, st.cls.name))
                self.pyraise('AttributeError', name)
            if isinstance(st, ClassS):
                if name == '__name__': return st.name
                if name == '__module__': return st.module
                if self.class_attr_has(o, name):
                    v = self.class_attr(o, name)
                    if isinstance(v, Wrap):
                        if v.how == 'static': return v.f
                        if v.how == 'class': return Bound(v.f, o)
                    return v
                self.pyraise('AttributeError', name)
            if isinstance(st, ModS):
                if name in st.attrs: return st.attrs[name]
                self.pyraise('AttributeError', name)
        if isinstance(o, ExtMod):
            if name in o.attrs: return o.attrs[name]
            raise Unsupported('%s.%s' % (o.name, name))
        if isinstance(o, ExtClass) and name in o.attrs: return o.attrs[name]
        if isinstance(o, ExtClass) and name == '__name__': return o.name
        return self.lib.method(self, o, name)

    def setattr(self, o, name, v):
        if isinstance(o, Ref):
            st = self.st(o)
            if isinstance(st, InstS):
                a = dict(st.attrs)
                a[name] = v
                self.put(o, InstS(st.cls, a))
                return
            if isinstance(st, ClassS):
                a = dict(st.attrs)
                a[name] = v
                self.put(o, ClassS(st.name, st.bases, a, st.module))
                return
            if isinstance(st, ModS):
                a = dict(st.attrs)
                a[name] = v
                self.put(o, ModS(st.name, a))
                return
        if isinstance(o, Ab) and o.model is not None and hasattr(o.model, 'setattr'):
            return o.model.setattr(self, o, name, v)
        raise Unsupported('attribute assignment on %s' % self.tname(o))

    def isinstance_(self, v, cls):
        if isinstance(cls, tuple): return any(self.isinstance_(v, c) for c in cls)
        if isinstance(v, Ref) and v.kind == 'inst':
            return any(c is cls or (isinstance(c, Ref) and isinstance(cls, Ref) and c.id == cls.id)
                       for c in self.mro(self.st(v).cls))
        if isinstance(v, Ab) and v.model is not None and hasattr(v.model, 'isinstance'):
            return v.model.isinstance(self, v, cls)
        if isinstance(cls, ExtClass):
            return self.lib.isinstance_ext(self, v, cls)
        return False

    # ------------------------------------------------------------ calls
    def e_Call(self, e):
        if isinstance(e.func, ast.Name) and e.func.id == 'print':
            return None  # dropped by the extraction
        f = self.eval(e.func)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred): args.extend(self.items(self.eval(a.value)))
            else: args.append(self.eval(a))
        for k in e.keywords:
            if k.arg is None:
                kw.update(self.st(self.eval(k.value)).d)
            else:
                kw[k.arg] = self.eval(k.value)
        return self.call(f, args, kw)

    def call(self, f, args, kw):
        if isinstance(f, Bound): return self.call(f.f, [f.self_] + list(args), kw)
        if isinstance(f, Wrap): return self.call(f.f, args, kw)
        if isinstance(f, Ext): return f.fn(self, args, kw)
        if isinstance(f, ExtClass):
            if f.call is None:
                if f.issub(self.builtins['BaseException']): return self.mkexc(f, args)
                raise Unsupported('call of %s' % f.name)
            return f.call(self, args, kw)
        if isinstance(f, Ref) and f.kind == 'class':
            return self.instantiate(f, args, kw)
        if isinstance(f, Func): return self.call_func(f, args, kw)
        if isinstance(f, Ref) and f.kind == 'inst':
            c = self.class_attr(self.st(f).cls, '__call__')
            if c is not None: return self.call(c, [f] + list(args), kw)
        if isinstance(f, Ab) and f.model is not None and hasattr(f.model, 'call'):
            return f.model.call(self, f, args, kw)
        if callable(f) and not isinstance(f, (Ab,)): return f(self, args, kw)
        self.pyraise('TypeError', 'not callable')

    def instantiate(self, cls, args, kw):
        root = self.mro(cls)[-1]
        if isinstance(root, ExtClass) and root.issub(self.builtins['BaseException']):
            inst = self.alloc('inst', InstS(cls, {'args': tuple(args), 'message': args[0] if args else ''}))
        else:
            inst = self.alloc('inst', InstS(cls, {}))
        init = self.class_attr(cls, '__init__')
        if isinstance(init, Func):
            self.call_func(init, [inst] + list(args), kw)
        return inst

    def bind(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        loc = {}
        if len(args) > len(names):
            if a.vararg is None: self.pyraise('TypeError', 'too many arguments to ' + f.qual)
            loc[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg is not None:
            loc[a.vararg.arg] = ()
        for n, v in zip(names, args): loc[n] = v
        extra = {}
        konly = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k in names or k in konly:
                if k in loc: self.pyraise('TypeError', 'twice ' + k)
                loc[k] = v
            elif a.kwarg is not None: extra[k] = v
            else: self.pyraise('TypeError', 'unexpected keyword ' + k)
        if a.kwarg is not None: loc[a.kwarg.arg] = self.mkdict(extra)
        d0 = len(names) - len(f.defaults)
        for i, n in enumerate(names):
            if n not in loc:
                if i >= d0: loc[n] = f.defaults[i - d0]
                else: self.pyraise('TypeError', 'missing argument ' + n)
        for n, d in zip(konly, f.kwdefaults):
            if n not in loc: loc[n] = d
        return loc

    def call_func(self, f, args, kw):
        loc = self.bind(f, args, kw)
        c = self.contracts.get(f.qual)
        if c is not None and f.qual not in self.disabled and not getattr(f.closure, 'x', None):
            r = c.apply(self, dict(loc), f)
            if r is not NotImplemented:
                self.used_contracts.add(f.qual)
                return r
        return self.run_body(f, loc)

    def run_body(self, f, loc):
        if self.depth > 60: raise Unsupported('call depth')
        self.executed[f.qual] = f.file
        if isinstance(f.node, ast.FunctionDef) and has_yield(f.node):
            raise Unsupported('generator %s' % f.qual)
        fr = Frame(f.mod, loc, f.closure, f)
        self.frames.append(fr)
        self.depth += 1
        try:
            if isinstance(f.node, ast.Lambda): return self.eval(f.node.body)
            try:
                self.exec_block(f.node.body)
            except ReturnX as r:
                return r.v
            return None
        finally:
            self.frames.pop()
            self.depth -= 1

    def items(self, v):
        """The elements of an iterable of known length, as a Python list."""
        return self.lib.items(self, v)


def real_of(v):
    if isinstance(v, N) and v.kind == 'r': return v
    if isinstance(v, N): return N('r', zr(v))
    return real(v)


_ln = {}


def local_names(node):
    k = id(node)
    if k not in _ln:
        s = set()
        body = node.body if isinstance(node.body, list) else [node.body]
        g = set()
        for b in body:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store): s.add(x.id)
                if isinstance(x, ast.Global): g.update(x.names)
        _ln[k] = (node, s - g)
    return _ln[k][1]


_hy = {}


def has_yield(node):
    k = id(node)
    if k not in _hy:
        _hy[k] = (node, any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(node)))
    return _hy[k][1]
