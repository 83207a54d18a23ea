"""Run-time contract monitoring of the real code (runs under the repository's own interpreter).

A *kind* is a pair gen(rng, i) -> case (JSON) and check(case) -> None or a message; check
runs the code of /repo on the case and judges what it did against the specifications. The
same cases are what counter-models of failed obligations are turned into, so a replay and a
monitor run judge by the same text. Nothing here counts as proof."""
import io
import json
import math
import os
import random
import shutil
import signal
import sys
import tempfile

sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for p in ('/opt/vp/py2', VERIF):
    if p not in sys.path: sys.path.insert(0, p)

import warnings
warnings.filterwarnings('ignore')
import numpy as np
np.seterr(all='ignore')

KINDS = {}          # name -> (gen, check)
PROPS = {}          # property -> [(kind, quick count, thorough count)]
INF = float('inf')


class Wrong(Exception):
    """The code's behaviour differs from the specification."""


def kind(name, props=()):
    """Decorator of a class with gen and check; props: (property, quick, thorough)."""
    def deco(cls):
        KINDS[name] = cls
        for p, q, t in props: PROPS.setdefault(p, []).append((name, q, t))
        return cls
    return deco


def load():
    """The package under test, translated from the current tree."""
    import py2compat
    if '/repo/python' not in sys.path: sys.path.insert(0, '/repo/python')
    import aces.clf
    return aces.clf


_clf = None


def clf():
    global _clf
    if _clf is None: _clf = load()
    return _clf


def sub(name):
    """A module of the package, e.g. sub('clf.Common')."""
    clf()
    import importlib
    return importlib.import_module('aces.' + name)


def features(name):
    """Sets the feature set in every copy of the package that is loaded."""
    for n, m in list(sys.modules.items()):
        if m is not None and n.split('.')[-1] == 'Common' and hasattr(m, 'setFeatureCompatibility'):
            m.setFeatureCompatibility(m.featureSets[name] if isinstance(name, str) else name)


class Scratch(object):
    """A directory that is removed afterwards."""
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='clfmon')
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def f32(x): return float(np.float32(x))


def isbad(x): return x != x or x in (INF, -INF)


def same(a, b):
    """Bit-for-bit as far as a number can tell (NaN equals NaN)."""
    a, b = float(a), float(b)
    return a == b or (a != a and b != b)


def close(got, want, atol=1e-6, rtol=2e-5):
    got, want = float(got), float(want)
    if want != want: return got != got
    if isbad(want): return got == want or abs(got) > 3.3e38 and got * want > 0
    if got != got: return False
    if abs(want) > 3.3e38 and got == math.copysign(INF, want): return True
    return abs(got - want) <= atol + rtol * max(abs(got), abs(want))


def expect(cond, *msg):
    if not cond: raise Wrong(' '.join(str(m) for m in msg))


def raises(exc_names, fn, *a, **k):
    """fn must raise an exception whose class (or a base) has one of the names."""
    try:
        fn(*a, **k)
    except Exception as e:
        names = [c.__name__ for c in type(e).__mro__]
        expect(any(n in names for n in exc_names), 'raised', type(e).__name__, 'instead of', '/'.join(exc_names))
        return e
    raise Wrong('no %s was raised' % '/'.join(exc_names))


class Timeout(Exception):
    pass


def _alarm(*a): raise Timeout()


def run_case(name, case, limit=60):
    """None, or what is wrong."""
    out, err = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = io.StringIO()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        features('All')
        r = KINDS[name].check(json.loads(json.dumps(case)))
        return r
    except Wrong as e:
        return str(e)
    except Timeout:
        return 'no answer within %d s' % limit
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(sys.exc_info()[2])
        where = ['%s:%s' % (os.path.basename(f.filename), f.name) for f in tb if '/repo/' in f.filename]
        return 'raises %s: %s (%s)' % (type(e).__name__, str(e)[:200], ' > '.join(where[-3:]) or
                                       ' > '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in tb[-2:]))
    finally:
        signal.alarm(0)
        sys.stdout, sys.stderr = out, err


def clean(x):
    """JSON-able copy (numpy numbers to Python ones)."""
    if isinstance(x, dict): return {k: clean(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)): return [clean(v) for v in x]
    if isinstance(x, np.generic): return x.item()
    return x


def rng_for(seed, pid, name): return random.Random('%s/%s/%s' % (seed, pid, name))


# ---------------------------------------------------------------- inputs

DEPTHS = ['8i', '10i', '12i', '16i', '16f', '32f']
EDGE = [0.0, 1.0, 0.5, -0.25, 1.5, -1.0, 2.0, 1e-7, -1e-6, 0.18, 0.9999, 1.0001]


def pick(rng, xs): return xs[rng.randrange(len(xs))]


def unit(rng, lo=-0.5, hi=1.5):
    """A normalised value: an edge value, inside [0,1], or around it."""
    r = rng.random()
    if r < 0.3: return f32(pick(rng, EDGE))
    if r < 0.75: return f32(rng.random())
    return f32(rng.uniform(lo, hi))


def values(rng, n, size=1.0): return [f32(unit(rng) * size) for _ in range(n)]


def buffer(case):
    """The case's values in the container it asks for: list, float32 or float64 array."""
    v = list(case['values'])
    c = case.get('container', 'array')
    if c == 'list': return v
    return np.array(v, dtype=np.float64 if c == 'array64' else np.float32)


def shape(rng, case, minstride=1, maxstride=6, ind='32f'):
    """Adds values, stride and container to a case."""
    from contracts import specs
    S = rng.choice([3, 3, 3, 4, 4, rng.randint(minstride, maxstride)])
    S = max(minstride, S)
    n = rng.choice([1, 1, 2, 3, 5])
    case['values'] = values(rng, n * S, specs.size(ind))
    if rng.random() < 0.08: case['values'] = [float(int(v)) for v in case['values']]
    case['stride'] = 0 if n == 1 and rng.random() < 0.5 else S
    case['container'] = rng.choice(['array', 'array', 'list', 'array64'])
    return case
