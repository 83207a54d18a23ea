"""Proof scenarios of C21 (bit patterns) and of the half-float model used by C06, C07, C22, C24."""
import z3
from pyvc import lib, half
from pyvc import engine as E_
from pyvc.vals import *
from pyvc.sym import Ctx, oblige
from pyvc import contracts as K

SCEN = {}


def scenario(pid, name, uses=()):
    def deco(fn):
        SCEN.setdefault(pid, []).append((name, fn, tuple(uses)))
        return fn
    return deco


# to integer, from integer, to hex, from hex
FAM = {16: ('halfToUInt16', 'uint16ToHalf', 'halfToHex', 'hexToHalf'),
       32: ('float32ToUInt32', 'uint32ToFloat32', 'float32ToHex', 'hexToFloat32'),
       64: ('doubleToUInt64', 'uint64ToDouble', 'doubleToHex', 'hexToDouble')}


def mk(en, w):
    """An arbitrary pattern of the width that does not encode a NaN."""
    en.half = half.BitModel()
    e = z3.BitVec('pattern', w)
    b = half.Bits('f', w, e)
    en.assume(bnot(half.nan(b)))
    f = lambda name: (lambda *a: en.call(en.getattr(en.import_module('aces.clf.Common'), name), list(a), {}))
    return e, b, [f(x) for x in FAM[w]]


def case_of(w, e):
    if w == 16: return lambda ev: {'kind': 'half16'}
    return lambda ev: {'kind': 'bits', 'w32': [int(ev(N('i', z3.BV2Int(e))))] if w == 32 else [],
                       'w64': [int(ev(N('i', z3.BV2Int(e))))] if w == 64 else []}


def value_is(r, b, w):
    """r is the float of the pattern: bit for bit in its own width, or as a double the same
    value with the same sign."""
    if not isinstance(r, half.Bits) or r.kind != 'f': return False
    if r.w == w: return B(r.e == b)
    if r.w < w: return False
    s = z3.fpFPToFP(z3.RNE(), z3.fpBVToFP(b, half.SORTS[w]), half.SORTS[r.w])
    return B(z3.And(z3.Not(z3.fpIsNaN(r.fp())), r.fp() == s))


def int_is(r, b, w):
    """r is the integer with the bits b (an unsigned scalar of any width)."""
    if not isinstance(r, half.Bits) or r.kind != 'u' or r.w < w: return False
    return B((r.e if r.w == w else z3.Extract(w - 1, 0, r.e)) == b) if r.w == w else \
        B(r.e == z3.ZeroExt(r.w - w, b))


def hex_is(r, b, w):
    if not isinstance(r, lib.HexT) or not isinstance(r.raw, half.Raw) or len(r.raw.bs) != w // 8: return False
    want = list(reversed(half.bytes_of(half.Bits('u', w, b))))
    return B(z3.And(*[x == y for x, y in zip(r.raw.bs, want)]))


def hexof(b, w): return lib.HexT(half.Raw(reversed(half.bytes_of(half.Bits('u', w, b)))))


def make(w):
    def ints(en):
        e, b, (toint, fromint, _, _) = mk(en, w)
        case = case_of(w, e)
        given = en.choose(['numpy', 'double'] if w < 64 else ['numpy'], 'float argument')
        x = b if given == 'numpy' else half.widen(en, b, 64)
        r = toint(x)
        oblige(en, 'the integer form is the IEEE-754 pattern', int_is(r, e, w), case)
        oblige(en, 'float to integer and back gives the same bits', value_is(fromint(r), e, w), case)
        u = half.Bits('u', w, e)
        v = fromint(u)
        oblige(en, 'the float of an integer is the one with that pattern', value_is(v, e, w), case)
        oblige(en, 'integer to float and back gives the integer', int_is(toint(v), e, w), case)

    def hexes(en):
        e, b, (toint, fromint, tohex, fromhex) = mk(en, w)
        case = case_of(w, e)
        given = en.choose(['numpy', 'double'] if w < 64 else ['numpy'], 'float argument')
        x = b if given == 'numpy' else half.widen(en, b, 64)
        h = tohex(x)
        oblige(en, 'the hex form is the pattern, most significant byte first', hex_is(h, e, w), case)
        oblige(en, 'float to hex and back gives the same bits', value_is(fromhex(h), e, w), case)
        t = hexof(e, w)
        v = fromhex(t)
        oblige(en, 'the float of a hex string is the one with that pattern', value_is(v, e, w), case)
        oblige(en, 'hex to float and back gives the hex string', hex_is(tohex(v), e, w), case)
    return ints, hexes


for _w in FAM:
    _a, _b = make(_w)
    scenario('C21', 'integers of %d bits' % _w)(_a)
    scenario('C21', 'hex of %d bits' % _w)(_b)


def half_axioms(en):
    """The half model against the patterns themselves, all 65536 of them."""
    bad = half.axioms()
    oblige(en, 'values of the half patterns: %s' % (bad or 'as assumed'), not bad)


for _p in ('C06', 'C07', 'C22', 'C24'): scenario(_p, 'half axioms')(half_axioms)
