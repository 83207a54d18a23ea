"""The symbolic side of the specifications' operations, and helpers for scenarios."""
from fractions import Fraction
from . import lib
from .vals import *
from .driver import oblige


class Sym(object):
    num = staticmethod(lambda x: real(x))
    lt = staticmethod(lt)
    le = staticmethod(le)
    eq = staticmethod(eq)
    and_ = staticmethod(band)
    or_ = staticmethod(bor)
    not_ = staticmethod(bnot)
    ite = staticmethod(ite)
    pow = staticmethod(lib.spow)
    log10 = staticmethod(lib.log10)

    @staticmethod
    def floor(a): return lib.floor_(None, a)


DEPTHS = ['8i', '10i', '12i', '16i', '16f', '32f']


class Ctx(object):
    """Convenience layer over the engine: names of the package, calls, pixel buffers."""

    def __init__(self, en, module='aces.clf'):
        self.en = en
        self.mod = en.import_module(module)

    def __getitem__(self, name): return self.en.st(self.mod).attrs[name]

    def call(self, f, *a, **k):
        if isinstance(f, str): f = self[f]
        return self.en.call(f, list(a), k)

    def m(self, obj, name, *a, **k):
        return self.en.call(self.en.getattr(obj, name), list(a), k)

    def features(self, name):
        fs = self.en.st(self['featureSets']).d
        self.call('setFeatureCompatibility', fs[name] if isinstance(name, str) else name)

    def reals(self, name, n): return [self.en.const('%s%d' % (name, i)) for i in range(n)]

    def lst(self, items): return self.en.mklist(items)


class Pixels(object):
    """A buffer of n pixels of S channels with arbitrary values, and an arbitrary pixel P and
    channel C of it."""

    def __init__(self, en, kind='array', least=1, exact=None):
        self.en = en
        n = self.n = en.const('n', 'i')
        S = self.S = en.const('S', 'i') if exact is None else exact
        if exact is None:
            en.dims.append(S)
            en.assume(le(least, S))
        en.assume(le(0, n))
        self.V = V = en.fn('V', 1)
        self.L = L = mul(n, S)
        en.assume(le(0, L))
        self.buf = en.mkcells((L,), lambda ix: V(ix[0]), arr=kind == 'array', dtype='f' if kind == 'array' else None)
        P = self.P = en.const('P', 'i')
        C = self.C = en.const('C', 'i')
        en.assume(band(le(0, P), lt(P, n), le(0, C), lt(C, S)))
        self.base = mul(P, S)
        en.assume(band(le(0, self.base), le(mul(add(P, 1), S), L)))
        self.k = add(self.base, C)
        self.px = lambda j: V(add(self.base, j))

    def case_values(self, ev, extra=3):
        """The pixel P of a counter-model as a list (channels 0..S-1, S bounded)."""
        S = self.S if isinstance(self.S, int) else int(ev(self.S))
        S = max(1, min(S, 12))
        return [ev(self.px(j)) for j in range(S)], S


def channels(en, px, out, spec, upto=3, name='channel', case=None):
    """Output channels 0..upto-1 at pixel P equal spec[i]; the others are unchanged."""
    r = en.getitem(out, px.k)
    for i in range(upto):
        oblige(en, '%s %d' % (name, i), implies(eq(px.C, i), eq(r, spec[i])), case)
    oblige(en, 'extra channels', implies(le(upto, px.C), eq(r, px.px(px.C))), case)
    oblige(en, 'length', eq(lib.seq_len(en, out), px.L), case)
