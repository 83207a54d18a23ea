"""Proof scenarios of LUT text files (C25)."""
import z3
from fractions import Fraction
from pyvc import lib
from pyvc import engine as E_
from pyvc.vals import *
from pyvc.sym import Sym, Ctx, oblige
from pyvc import contracts as K
from pyvc import fsmodel
from .luts import with_contract

SCEN = {}


def scenario(pid, name, uses=()):
    def deco(fn):
        fn.modules = ('aces.lutFormats', 'clf')
        SCEN.setdefault(pid, []).append((name, fn, tuple(uses)))
        return fn
    return deco


def sizes(pid, name):
    """Two scenarios: every size, and some known sizes (where a different layout is seen for sure)."""
    def deco(fn):
        scenario(pid, name)(lambda en: fn(en, False))
        scenario(pid, name + ', known sizes')(lambda en: fn(en, True))
        return fn
    return deco


def cls(en, name): return en.import_module('aces.lutFormats') and Ctx(en, 'aces.lutFormats')[name]


# ---------------------------------------------------------------- texts

def loop(n, body):
    """The text of n iterations of body (a function from the index to parts), unrolled when n is known."""
    k = conc(n)
    if k is not None: return mktext([mktext(body(i)) for i in range(int(k))])
    return LoopText(n, lambda i: mktext(body(i)))


def flat(t): return list(t.parts) if isinstance(t, T) else [Piece('%s', t)] if isinstance(t, S) else [t] if t != '' else []


class Differs(Exception):
    pass


def same_text(en, what, got, want, case=None, upto=None):
    """Both texts are the same; repeated parts are compared iteration by iteration. Where only white space
    or the spelling of a literal number differs they count as the same when no loop is left; upto: what
    follows this mark may also be written differently (then it is undecided)."""
    if not isinstance(got, (str, T, S)):
        oblige(en, '%s is a text' % what, False, case)
        return
    k = len(en.obls)
    try:
        match(en, what, flat(got), flat(want), case)
    except Differs as e:
        del en.obls[k:]
        a, b = [tokens(en, t, upto) for t in (got, want)]
        for x, y in zip(a, b):
            if not same_token(en, what, x, y, case):
                oblige(en, '%s: layout (%s)' % (what, ('%r for %r' % (x, y))[:120]), False, case)
                return
        oblige(en, '%s: all of it' % what, len(a) == len(b), case)
        if upto is not None: raise Unsupported('layout of a text: %s' % e)


def tokens(en, t, upto):
    """The tokens of a text without loops; line ends are kept as tokens."""
    out, cur = [], []

    def flush():
        if cur: out.append(tuple(cur))
        del cur[:]
    todo = flat(t)
    while todo:
        p = todo.pop(0)
        if isinstance(p, Alt): todo[:0] = flat(p.a if en.decide(p.c) else p.b)
        elif isinstance(p, lib.Pad): flush()
        elif isinstance(p, str):
            if upto is not None and upto in p: p, todo = p[:p.index(upto)], []
            for ch in p:
                if ch in ' \t': flush()
                elif ch == '\n':
                    flush()
                    if upto is None and out and out[-1] != '\n': out.append('\n')
                elif ch in '{},;':
                    flush()
                    out.append(ch)
                elif cur and isinstance(cur[-1], str): cur[-1] += ch
                else: cur.append(ch)
        elif isinstance(p, Piece): cur.append(p)
        else: raise Unsupported('layout of a text')
    flush()
    while out and out[-1] == '\n': out.pop()
    return out


def same_token(en, what, x, y, case):
    if x == y: return True
    if len(x) != len(y) or isinstance(x, str) or isinstance(y, str): return False
    for p, q in zip(x, y):
        if isinstance(p, str) and isinstance(q, str):
            try:
                if p != q and float(p) != float(q): return False
            except ValueError:
                return False
        elif isinstance(p, Piece) and isinstance(q, Piece):
            if not same_piece(en, what, p, q, case): return False
        else: return False
    return True


EXACT = {'%s', '%r', '%d'}


def same_piece(en, what, p, q, case):
    if p.spec != q.spec and not (p.spec in EXACT and q.spec in EXACT):
        if p.spec[-1] == q.spec[-1] == 'f' and int(p.spec[2:-1]) < int(q.spec[2:-1]): return False
        raise Unsupported('a value printed as %s' % p.spec)
    oblige(en, '%s: the value at its place' % what, en.equal(p.val, q.val), case)
    return True


def has_loop(t): return isinstance(t, T) and any(isinstance(p, LoopText) for p in t.parts)


def match(en, what, a, b, case):
    a, b = list(a), list(b)
    while a or b:
        for l in (a, b):
            while l and isinstance(l[0], Alt):
                x = l.pop(0)
                l[:0] = flat(x.a if en.decide(x.c) else x.b)
            while l and isinstance(l[0], LoopText) and conc(l[0].n) is not None:
                x = l.pop(0)
                l[:0] = [q for i in range(int(conc(x.n))) for q in flat(x.body(i))]
        if not a or not b: 
            rest = a or b
            if rest and all(x == '' for x in rest): return
            if not a and not b: return
            raise Differs('%s text left: %r' % ('more' if a else 'less', rest[:3]))
        x, y = a.pop(0), b.pop(0)
        if isinstance(x, str) and isinstance(y, str):
            m = min(len(x), len(y))
            if x[:m] != y[:m]: raise Differs('%r for %r' % (x[:60], y[:60]))
            if x[m:]: a.insert(0, x[m:])
            if y[m:]: b.insert(0, y[m:])
            continue
        if isinstance(x, LoopText) and isinstance(y, LoopText):
            oblige(en, '%s: as many parts' % what, eq(x.n, y.n), case)
            if not en.known(lt(0, y.n)): raise Unsupported('a text loop that may be empty')
            q = en.fresh('part', 'i')
            en.assume(band(le(0, q), lt(q, y.n)))
            match(en, what, flat(x.body(q)), flat(y.body(q)), case)
            continue
        if isinstance(x, lib.Pad) and isinstance(y, lib.Pad):
            if (x.width, x.left) != (y.width, y.left): raise Differs('padding')
            continue
        if isinstance(x, Piece) and isinstance(y, Piece):
            if not same_piece(en, what, x, y, case): raise Differs('%r for %r' % (x, y))
            continue
        raise Differs('%r for %r' % (x, y))


def written(en, path):
    c = en.fs.content(en)
    oblige(en, 'only that file is written', list(c) == [path])
    return c.get(path)


def num(spec, v): return lib.fmt_one(None, '', '', *spec, v) if False else mktext([Piece(spec, v)]) if conc(v) is None else (spec % float(conc(v)) if spec != '%d' else '%d' % conc(v))


# ---------------------------------------------------------------- 1D writers

SIZES = ['any', 1, 2, 3]


def setup1(en, small):
    fsmodel.attach(en)
    n = en.choose(SIZES[1:] if small else SIZES[:1], 'entries')
    if n == 'any':
        n = en.const('n', 'i')
        en.assume(le(2, n))
    ch = en.choose([3, 1, 2, 4], 'channels')
    comp = en.choose([1, 2, 3, 4], 'components')
    lo, hi = en.const('lo'), en.const('hi')
    D = en.fn('D', 1)
    data = en.mkcells((mul(n, ch),), lambda ix: D(ix[0]))
    return n, ch, comp, min(3, comp, ch), lo, hi, D, data


def call1(en, c, name, a):
    """The writer, or the format's write1D where that is to do the same."""
    if a[5:] == [3, 3] and en.choose([False, True], 'by write1D'):
        return en.call(en.getattr(cls(en, c), 'write1D'), [a[0], a[3], a[4], a[1], a[2]], {})
    return en.call(en.getattr(cls(en, c), name), a, {})


def call3(en, c, name, a):
    if en.choose([False, True], 'by write3D'):
        return en.call(en.getattr(cls(en, c), 'write3D'), [a[0], a[3], a[4], a[1], a[2]], {})
    return en.call(en.getattr(cls(en, c), name), a, {})


def callS(en, a):
    if en.choose([False, True], 'by write1D3D1D'):
        return en.call(en.getattr(cls(en, 'LutFormatCSP'), 'write1D3D1D'), a + [None, 7, real(0), real(1)], {})
    return en.call(en.getattr(cls(en, 'LutFormatCSP'), 'writeCSP1D3D'), a, {})


def case1(fmt, n, comp):
    return lambda ev: {'n': max(2, min(int(ev(n)), 12)), 'samples': [((7 * i) % 11) / 8.0 - 0.5 for i in range(36)][:3 * max(2, min(int(ev(n)), 12))],
                       'range': [-0.5, 1.5], 'fmt': fmt, 'components': min(comp, 3), 'np': False, 'reg': False, 'kind': 'write1d'}


@sizes('C25', 'spi1d written')
def spi1d(en, small):
    n, ch, comp, k, lo, hi, D, data = setup1(en, small)
    r = call1(en, 'LutFormatSPI', 'writeSPI1D', ['a.spi1d', lo, hi, data, n, ch, comp])
    case = case1('spi1d', n, comp)
    oblige(en, 'success', r is True, case)
    want = mktext(['Version 1\nFrom ', num('%.6f', lo), ' ', num('%.6f', hi), '\nLength ', num('%d', n), '\nComponents %d\n{\n' % k,
                   loop(n, lambda i: ['        '] + [x for j in range(k) for x in (' ', num('%s', D(add(mul(i, ch), j))))] + ['\n']), '}\n'])
    same_text(en, 'the file', written(en, 'a.spi1d'), want, case)


HEAD = 'CSPLUTV100\n%s\n\nBEGIN METADATA\nEND METADATA\n\n'


def prelut(lo, hi): return ['2\n', num('%.6f', lo), ' ', num('%.6f', hi), '\n0.0 1.0\n'] * 3 + ['\n']


def fixed(x): return mktext([lib.Pad(3, False), num('%.6f', x)])


@sizes('C25', 'csp 1D written')
def csp1d(en, small):
    n, ch, comp, k, lo, hi, D, data = setup1(en, small)
    r = call1(en, 'LutFormatCSP', 'writeCSP1D', ['a.csp', lo, hi, data, n, ch, comp])
    case = case1('csp', n, comp)
    oblige(en, 'success', r is True, case)
    cols = [0, 0, 0] if k == 1 else range(k)
    want = mktext([HEAD % '1D'] + prelut(lo, hi) + [num('%d', n), '\n',
                   loop(n, lambda i: [x for j in cols for x in (' ', fixed(D(add(mul(i, ch), j))))] + ['\n']), '\n'])
    same_text(en, 'the file', written(en, 'a.csp'), want, case)


MAIN = '''void main
(
  input varying float rIn,
  input varying float gIn,
  input varying float bIn,
  input varying float aIn,
  output varying float rOut,
  output varying float gOut,
  output varying float bOut,
  output varying float aOut
)
{
  float r = rIn;
  float g = gIn;
  float b = bIn;

  // Apply LUT
%s
  rOut = r;
  gOut = g;
  bOut = b;
  aOut = aIn;
}
'''


@sizes('C25', 'ctl 1D written')
def ctl1d(en, small):
    n, ch, comp, k, lo, hi, D, data = setup1(en, small)
    r = call1(en, 'LutFormatCTL', 'writeCTL1D', ['a.ctl', lo, hi, data, n, ch, comp])
    case = case1('ctl', n, comp)
    oblige(en, 'success', r is True, case)
    names = ['lut'] if k == 1 else ['lut%d' % j for j in range(k)]
    look = '' if k == 2 else ''.join('  %s = lookup1D(%s, min1d, max1d, %s);\n' % (c, names[j if k == 3 else 0], c) for j, c in enumerate('rgb'))
    pad = lambda x: mktext([lib.Pad(3, False), num('%.9f', x)])
    want = ['// ', num('%d', n), ' x %d 1D LUT generated by "convertCLFtoLUT"\n\n' % k, 'const float min1d = ', pad(lo), ';\n', 'const float max1d = ', pad(hi), ';\n\n']
    for j, nm in enumerate(names):
        want += ['const float %s[] = {\n' % nm,
                 loop(n, lambda i, j=j: [num('%s', D(add(mul(i, ch), j))), comma(i, n), '\n']), '};\n\n']
    want.append(MAIN % look)
    same_text(en, 'the file', written(en, 'a.ctl'), mktext(want), case, 'void main')


def comma(i, n, yes=',', no=''):
    c = eq(i, sub(n, 1))
    return no if c is True else yes if c is False else mktext([Alt(c, no, yes)])


# ---------------------------------------------------------------- 3D writers

def setup3(en, small):
    fsmodel.attach(en)
    d = en.choose([[1, 2, 3], [3, 1, 2], [2, 2, 2]] if small else ['any'], 'resolution')
    if d == 'any':
        d = [en.const('d%d' % j, 'i') for j in range(3)]
        for x in d: en.assume(le(2, x))
    lo, hi = en.const('lo'), en.const('hi')
    D = [en.fn('D%d' % j, 3) for j in range(3)]

    def pick_(ix):
        c = ix[3]
        if isinstance(c, int): return D[c](*ix[:3])
        return ite(eq(c, 0), D[0](*ix[:3]), ite(eq(c, 1), D[1](*ix[:3]), D[2](*ix[:3])))
    data = en.mkcells(tuple(d) + (3,), pick_)
    return d, lo, hi, D, data


def case3(fmt, d):
    def case(ev):
        n = [max(2, min(int(ev(x)), 4)) for x in d]
        t = [[[[((3 * r + 5 * g + 7 * b + c) % 13) / 8.0 for c in range(3)] for b in range(n[2])] for g in range(n[1])] for r in range(n[0])]
        return {'kind': 'write3d', 'n': n, 'samples': t, 'range': [-0.5, 1.5], 'fmt': fmt, 'np': False, 'reg': False, 'pre': 3, 'seed': 1}
    return case


def dims_text(d): return [num('%s', d[0]) if conc(d[0]) is None else str(d[0]), ' ', num('%s', d[1]) if conc(d[1]) is None else str(d[1]), ' ', num('%s', d[2]) if conc(d[2]) is None else str(d[2]), '\n']


def int_s(i): return str(i) if isinstance(i, int) else mktext([Piece('%s', i)])


@sizes('C25', 'spi3d written')
def spi3d(en, small):
    d, lo, hi, D, data = setup3(en, small)
    dl = en.mklist(d)
    r_ = call3(en, 'LutFormatSPI', 'writeSPI3D', ['a.spi3d', lo, hi, data, dl])
    case = case3('spi3d', d)
    oblige(en, 'success', r_ is True, case)
    want = mktext(['SPILUT 1.0\n3 3\n'] + dims_text(d) + [loop(d[0], lambda r: [loop(d[1], lambda g: [loop(d[2], lambda b:
                   [int_s(r), ' ', int_s(g), ' ', int_s(b)] + [x for j in range(3) for x in (' ', num('%s', D[j](r, g, b)))] + ['\n'])])])])
    same_text(en, 'the file', written(en, 'a.spi3d'), want, case)


def csp_rows(d, D):
    return loop(d[2], lambda b: [loop(d[1], lambda g: [loop(d[0], lambda r:
                [fixed(D[0](r, g, b)), ' ', fixed(D[1](r, g, b)), ' ', fixed(D[2](r, g, b)), '\n'])])])


@sizes('C25', 'csp 3D written')
def csp3d(en, small):
    d, lo, hi, D, data = setup3(en, small)
    r_ = call3(en, 'LutFormatCSP', 'writeCSP3D', ['a.csp', lo, hi, data, en.mklist(d)])
    case = case3('csp', d)
    oblige(en, 'success', r_ is True, case)
    same_text(en, 'the file', written(en, 'a.csp'), mktext([HEAD % '3D'] + prelut(lo, hi) + dims_text(d) + [csp_rows(d, D)]), case)


@sizes('C25', 'csp 3D with a shaper written')
def csp1d3d(en, small):
    d, lo, hi, D, data = setup3(en, small)
    m = en.choose(['none', 2, 3] if small else ['none', 'any'], 'shaper')
    case = case3('csp1d3d', d)
    P = en.fn('P', 1)
    if m == 'none': m, pre = en.const('m', 'i'), None
    else:
        if m == 'any':
            m = en.const('m', 'i')
            en.assume(le(2, m))
        pre = en.mkcells((mul(m, 3),), lambda ix: P(ix[0]))
    r_ = callS(en, ['a.csp', pre, m, lo, hi, data, en.mklist(d)])
    oblige(en, 'success', r_ is True, case)
    if pre is None: shaper = prelut(lo, hi)
    else:
        at = lambda s: add(lo, mul(rdiv(s, sub(m, 1)), sub(hi, lo)))
        shaper = []
        for c in range(3):
            shaper += [num('%d', m), '\n', loop(m, lambda s: [num('%.6f', at(s)), ' ']), '\n',
                       loop(m, lambda s, c=c: [num('%.6f', P(add(mul(s, 3), c))), ' ']), '\n']
        shaper.append('\n')
    same_text(en, 'the file', written(en, 'a.csp'), mktext([HEAD % '3D'] + shaper + dims_text(d) + [csp_rows(d, D)]), case)


@sizes('C25', 'ctl 3D written')
def ctl3d(en, small):
    d, lo, hi, D, data = setup3(en, small)
    r_ = call3(en, 'LutFormatCTL', 'writeCTL3D', ['a.ctl', lo, hi, data, en.mklist(d)])
    case = case3('ctl', d)
    oblige(en, 'success', r_ is True, case)
    pad = lambda x: mktext([lib.Pad(3, False), num('%.9f', x)])
    dd = lambda sep: [x for j in range(3) for x in ((sep if j else ''), num('%d', d[j]))]
    tri = lambda x: [pad(x), ', ', pad(x), ', ', pad(x)]
    cell = lambda r, g, b: ['{', fixed(D[0](r, g, b)), ', ', fixed(D[1](r, g, b)), ', ', fixed(D[2](r, g, b)), '}', comma(b, d[2], ',\n\t\t  ', '\n ')]
    line = lambda r, g: ['\t\t{ ', loop(d[2], lambda b: cell(r, g, b)), '}', comma(g, d[1], ',\n', '\n')]
    plane = lambda r: ['\t{\n', loop(d[1], lambda g: line(r, g)), '\t}', comma(r, d[0], ', ', '\n')]
    want = ['// '] + dd(' x ') + [' 3D LUT generated by "convertCLFtoLUT"\n\nconst float min3d[3] = {'] + tri(lo) + ['};\nconst float max3d[3] = {'] + tri(hi) + \
        ['};\n\nconst float cube[', num('%d', d[0]), '][', num('%d', d[1]), '][', num('%d', d[2]), '][3] = \n{\n', loop(d[0], plane), '};\n\n',
         MAIN % '  lookup3D_f(cube, min3d, max3d, r, g, b, r, g, b);\n']
    same_text(en, 'the file', written(en, 'a.ctl'), mktext(want), case, 'void main')


# ---------------------------------------------------------------- clf

def table_checks(en, c, node, dims, V, what, case, exact=False):
    got = c.m(node, 'getLUTDimensions')
    oblige(en, '%s: as many dimensions' % what, eq(lib.seq_len(en, got), len(dims)), case)
    for j, d in enumerate(dims): oblige(en, '%s: dimension %d' % (what, j), eq(en.getitem(got, j), d), case)
    vs = c.m(node, 'getLUTValues')
    total = 1
    for d in dims: total = mul(total, d)
    oblige(en, '%s: as many entries' % what, eq(lib.seq_len(en, vs), total), case)
    # entry by position: any position of every axis
    ix = [en.fresh('at', 'i') if conc(d) is None else en.choose(list(range(int(conc(d)))), '%s: channel' % what) for d in dims]
    for x, d in zip(ix, dims): en.assume(band(le(0, x), lt(x, d)))
    k = 0
    for x, d in zip(ix, dims): k = add(mul(k, d), x)
    en.assume(band(le(0, k), lt(k, total)))
    r, w = en.getitem(vs, k), V(*ix)
    oblige(en, '%s: every entry at its position' % what, eq(r, w) if exact else band(le(r - w, real(1e-9)), le(w - r, real(1e-9))), case)


def class_name(en, n): return en.st(en.st(n).cls).name


@scenario('C25', 'clf written', ['Range.Range.process'])
def clf_nodes(en): clf_written(en, 'shapers')


@sizes('C25', 'clf written, the cube')
def clf_cube(en, known): clf_written(en, 'cube', [3, 2, 4] if known else None)


def clf_written(en, what, known=None):
    fsmodel.attach(en).oracle = lambda e, p: False
    c = Ctx(en, 'clf')
    d = known or [en.const('d%d' % j, 'i') for j in range(3)]
    for x in d: en.assume(le(2, x))
    dl = en.mklist(d)
    lo, hi, a, b = en.const('lo'), en.const('hi'), en.const('a', 'i'), en.const('b', 'i')
    en.assume(band(lt(lo, hi), le(2, a), le(2, b)))
    D = [en.fn('D%d' % j, 3) for j in range(3)]

    def three(ix): return D[ix[3]](*ix[:3]) if isinstance(ix[3], int) else ite(eq(ix[3], 0), D[0](*ix[:3]), ite(eq(ix[3], 1), D[1](*ix[:3]), D[2](*ix[:3])))
    data = en.mkcells(tuple(d) + (3,), three)
    A, Z = en.fn('A', 1), en.fn('Z', 1)
    has_in, has_out = en.choose([(x, y) for x in (True, False) for y in (True, False)] if what != 'cube' else [(False, False)], 'shapers')
    sin = en.mkcells((mul(a, 3),), lambda ix: A(ix[0])) if has_in else None
    sout = en.mkcells((mul(b, 3),), lambda ix: Z(ix[0])) if has_out else None
    via = en.choose(['writeCLF1D3D1D', 'write1D3D1D'], 'by')

    def case(ev):
        n = [max(2, min(int(ev(x)), 4)) for x in d]
        t = [[[[((3 * r + 5 * g + 7 * q + k) % 13) / 13.0 for k in range(3)] for q in range(n[2])] for g in range(n[1])] for r in range(n[0])]
        unit = ev(lo) == 0 and ev(hi) == 1
        return {'kind': 'writeclf', 'n': n, 'samples': t, 'in': [((5 * k) % 7) / 7.0 for k in range(12)] if has_in else None, 'out': [((3 * k) % 7) / 7.0 for k in range(9)] if has_out else None,
                'range': [0.0, 1.0] if unit else [-0.5, 1.0] if ev(hi) == 1 else [0.0, 4.0] if ev(lo) == 0 else [0.25, 0.5], 'values': [0.1, 0.4, 0.9]}
    r_ = en.call(en.getattr(cls(en, 'LutFormatCLF'), via), ['a.clf', sin, a, lo, hi, data, dl, sout, b, real(0), real(1)], {})
    oblige(en, 'success', r_ is True, case)
    written(en, 'a.clf')
    p = c.call('ProcessList', 'a.clf')
    k = lib.seq_len(en, c.m(p, 'getProcesses'))
    if not isinstance(k, int): raise Unsupported('how many nodes')
    nodes = [en.getitem(p, j) for j in range(k)]
    unit = band(eq(lo, 0), eq(hi, 1))
    ranged = has_in and not en.decide(unit)
    want = (['Range'] if ranged else []) + (['LUT1D'] if has_in else []) + ['LUT3D'] + (['LUT1D'] if has_out else [])
    names = [class_name(en, n) for n in nodes]
    oblige(en, 'the shaper, the cube and the shaper', names == want, case)
    if names != want: return
    if ranged:
        x = c.reals('x', 3)
        r = c.m(nodes[0], 'process', lib.arr_from(en, x), 3)
        from contracts import specs
        for j in range(3): oblige(en, 'the input range to 0..1', eq(en.getitem(r, j), specs.range_(Sym, x[j], '16f', '16f', (lo, hi, real(0), real(1)), True, 'clamp')), case)
        nodes = nodes[1:]
    if has_in:
        table_checks(en, c, nodes[0], [a, 3], lambda i, q: A(add(mul(i, 3), q)), 'input shaper', case)
        oblige(en, 'the input shaper is linear', en.equal(c.m(nodes[0], 'getAttribute', 'interpolation'), 'linear'), case)
        nodes = nodes[1:]
    if what == 'cube': table_checks(en, c, nodes[0], d + [3], lambda r, g, q, k: three((r, g, q, k)), 'cube', case)
    if has_out:
        table_checks(en, c, nodes[1], [b, 3], lambda i, q: Z(add(mul(i, 3), q)), 'output shaper', case)
        oblige(en, 'the output shaper is linear', en.equal(c.m(nodes[1], 'getAttribute', 'interpolation'), 'linear'), case)


# ---------------------------------------------------------------- readers
#
# Files of known sizes (stated at each scenario) and any numbers, with blank lines, metadata and white space between
# the sections.

def unit(x): return ite(lt(x, 0), real(0), ite(lt(real(1), x), real(1), x))


def head_maps(en, c, nodes, lo, hi, case):
    """The nodes before the table map [lo,hi] to [0,1]."""
    x = c.reals('x', 3)
    en.assume(lt(lo, hi))
    cur = lib.arr_from(en, x)
    for n in nodes:
        if class_name(en, n) != 'Range': raise Unsupported('a %s before the table' % class_name(en, n))
        cur = c.m(n, 'process', cur, 3)
    for j in range(3):
        y, w = en.getitem(cur, j), rdiv(sub(x[j], lo), sub(hi, lo))
        oblige(en, 'the input range to 0..1', eq(unit(y), unit(w)), case)


def read_nodes(en, c, name, via, args):
    r = en.call(en.getattr(cls(en, name), via), args, {})
    k = lib.seq_len(en, r)
    if not isinstance(k, int): raise Unsupported('how many nodes')
    return [en.getitem(r, j) for j in range(k)]


def word(v): return mktext([Piece('%s', v)]) if conc(v) is None else '%d' % v if isinstance(v, int) else '%s' % float(conc(v))


def row(en, vs, lead='', gap=' ', end=''):
    return mktext([lead] + [y for j, x in enumerate(vs) for y in ([gap] if j else []) + [word(x)]] + [end, '\n'])


@scenario('C25', 'spi1d read', ['Range.Range.process'])
def spi1d_read(en):
    """1 to 4 entries of 1 or 3 components, any numbers."""
    fs = fsmodel.attach(en)
    c = Ctx(en, 'clf')
    n, ch = en.choose([(3, 3), (1, 3), (4, 1), (2, 3)], 'entries')
    style = en.choose(['plain', 'blank', 'spaced'], 'layout')
    lo, hi = en.const('lo'), en.const('hi')
    v = [[en.const('v%d_%d' % (i, j)) for j in range(ch)] for i in range(n)]
    b = '\n' if style == 'blank' else ''
    s = {'plain': '', 'blank': '', 'spaced': '\t '}[style]
    fs.put(en, 'a.spi1d', mktext([b, 'Version 1\n', b, s, 'From ', s, word(lo), ' ', word(hi), s, '\n', b, 'Length %d%s\n' % (n, s), b, 'Components %d\n' % ch, b, s, '{', s, '\n', b] +
           [y for i in range(n) for y in (row(en, v[i], s + ' ', ' ' + s, s), b)] + ['}\n', b]))

    def case(ev):
        return {'kind': 'handspi', 'three': False, 'd': [n], 'ch': ch, 't': [float(ev(x)) for r in v for x in r], 'range': [0.0, 1.0] if ev(lo) == 0 and ev(hi) == 1 else [-0.5, 1.5], 'style': style}
    en.assume(lt(lo, hi))
    via = en.choose(['readSPI1D', 'read'], 'by')
    interp = en.choose(['linear', 'cubic'], 'interpolation')
    nodes = read_nodes(en, c, 'LutFormatSPI', via, ['a.spi1d', False, interp])
    oblige(en, 'a table', bool(nodes) and class_name(en, nodes[-1]) == 'LUT1D', case)
    if not nodes or class_name(en, nodes[-1]) != 'LUT1D': return
    head_maps(en, c, nodes[:-1], lo, hi, case)
    exact_table(en, c, nodes[-1], [n, ch], [x for r in v for x in r], case)
    oblige(en, 'the interpolation asked for', en.equal(c.m(nodes[-1], 'getAttribute', 'interpolation'), interp), case)


def exact_table(en, c, node, dims, want, case):
    got = c.m(node, 'getLUTDimensions')
    oblige(en, 'as many dimensions', eq(lib.seq_len(en, got), len(dims)), case)
    for j, d in enumerate(dims): oblige(en, 'dimension %d' % j, eq(en.getitem(got, j), d), case)
    vs = c.m(node, 'getLUTValues')
    n = lib.seq_len(en, vs)
    oblige(en, 'as many entries', eq(n, len(want)), case)
    if n != len(want): return
    for k, w in enumerate(want): oblige(en, 'entry %d at its position' % k, eq(en.getitem(vs, k), w), case)


@scenario('C25', 'spi3d read', ['Range.Range.process'])
def spi3d_read(en):
    """2x3x2, 3x2x4 and 2x2x2 entries, any numbers."""
    fs = fsmodel.attach(en)
    c = Ctx(en, 'clf')
    d = en.choose([[2, 3, 2], [3, 2, 4], [2, 2, 2]], 'size')
    s = en.choose(['', '\t '], 'layout')
    v = {(r, g, b): [en.const('v%d%d%d_%d' % (r, g, b, j)) for j in range(3)] for r in range(d[0]) for g in range(d[1]) for b in range(d[2])}
    fs.put(en, 'a.spi3d', mktext(['SPILUT 1.0', s, '\n', s, '3 3', s, '\n%d %d %d\n' % tuple(d)] +
           [row(en, [r, g, b] + v[r, g, b], s, ' ' + s, s) for r in range(d[0]) for g in range(d[1]) for b in range(d[2])]))
    flat_ = [x for r in range(d[0]) for g in range(d[1]) for b in range(d[2]) for x in v[r, g, b]]

    def case(ev): return {'kind': 'handspi', 'three': True, 'd': d, 'ch': 3, 't': [float(ev(x)) for x in flat_], 'range': [0.0, 1.0], 'style': 'spaced' if s else 'plain'}
    via = en.choose(['readSPI3D', 'read'], 'by')
    interp = en.choose(['linear', 'trilinear', 'tetrahedral'], 'interpolation')
    nodes = read_nodes(en, c, 'LutFormatSPI', via, ['a.spi3d', False, interp])
    oblige(en, 'a table', bool(nodes) and class_name(en, nodes[-1]) == 'LUT3D', case)
    if not nodes or class_name(en, nodes[-1]) != 'LUT3D': return
    head_maps(en, c, nodes[:-1], real(0), real(1), case)
    exact_table(en, c, nodes[-1], d + [3], flat_, case)
    oblige(en, 'the interpolation asked for', en.equal(c.m(nodes[-1], 'getAttribute', 'interpolation'), 'tetrahedral' if interp == 'tetrahedral' else 'trilinear'), case)


CSP_STYLES = {'plain': ('', [], '', ''), 'blank': ('\n\n', [], '\n', '\n'), 'notes': ('', ['1D\n', '3\n', '0.0 1.0\n', '\n', '2 2 2\n'], '\n', ''), 'spaced': ('\n', ['{\n'], '', ' \t\n')}


def csp_file(en, kind_, style, pre, dims, rows):
    gap, meta, after, between = CSP_STYLES[style]
    end = ' \t' if style == 'spaced' else ''
    t = ['CSPLUTV100', end, '\n', kind_, end, '\n', gap, 'BEGIN METADATA', end, '\n'] + meta + ['END METADATA', end, '\n', gap]
    for a, b in pre: t += ['%d%s\n' % (len(a), end), row(en, a, end, ' ', end), row(en, b, '', ' ' + end, end)]
    t += [gap, ' '.join('%d' % x for x in dims), end, '\n']
    for r in rows: t += [row(en, r, end, ' ' + end, end), between]
    return mktext(t + [after])


def csp_read(en, kind_):
    fs = fsmodel.attach(en)
    c = Ctx(en, 'clf')
    three = kind_ == '3D'
    d = en.choose([[2, 3, 2], [3, 2, 4]] if three else [[3], [1], [4]], 'size')
    style = en.choose(sorted(CSP_STYLES), 'layout')
    lo, hi = en.const('lo'), en.const('hi')
    en.assume(lt(lo, hi))
    ix = [(r, g, b) for b in range(d[2]) for g in range(d[1]) for r in range(d[0])] if three else range(d[0])
    v = {i: [en.const('v%s_%d' % (''.join(map(str, i)) if three else i, j)) for j in range(3)] for i in ix}
    fs.put(en, 'a.csp', csp_file(en, kind_, style, [([lo, hi], [real(0), real(1)])] * 3, d, [v[i] for i in ix]))
    flat_ = [x for i in sorted(v) for x in v[i]]

    def case(ev):
        g, m, a, b = CSP_STYLES[style]
        p = [[0.0, 1.0] if ev(lo) == 0 and ev(hi) == 1 else [-0.5, 1.5], [0.0, 1.0]]
        return {'kind': 'handcsp', 'three': three, 'd': d, 't': [float(ev(x)) for x in flat_], 'pre': [p] * 3, 'blank': [g.count('\n')] * 16, 'meta': [x.strip() for x in m], 'pad': ' \t' if style == 'spaced' else '', 'between': bool(b)}
    via = en.choose(['readCSP', 'read'], 'by')
    nodes = read_nodes(en, c, 'LutFormatCSP', via, ['a.csp'])
    kind3 = 'LUT3D' if three else 'LUT1D'
    oblige(en, 'a table', bool(nodes) and class_name(en, nodes[-1]) == kind3, case)
    if not nodes or class_name(en, nodes[-1]) != kind3: return
    head_maps(en, c, nodes[:-1], lo, hi, case)
    exact_table(en, c, nodes[-1], d + [3], flat_, case)


@scenario('C25', 'csp 1D read', ['Range.Range.process'])
def csp1d_read(en):
    """1, 3 and 4 entries; the prelut holds a range only."""
    csp_read(en, '1D')


@scenario('C25', 'csp 3D read', ['Range.Range.process'])
def csp3d_read(en):
    """2x3x2 and 3x2x4 entries; the prelut holds a range only."""
    csp_read(en, '3D')


@scenario('C25', 'csp prelut', ['Range.Range.process'])
def csp_prelut(en):
    """2 to 4 knots of any position and value in one channel, 2 or 3 in the others; all channels cover the same range."""
    fsmodel.attach(en)
    c = Ctx(en, 'clf')
    k = en.choose([0, 1, 2], 'channel')
    m = en.choose([2, 3, 4], 'knots')
    other = en.choose([2, 3], 'knots of the others') if m < 4 else 2
    lo, hi = en.const('lo'), en.const('hi')
    en.assume(lt(lo, hi))
    a = [lo] + [en.const('a%d' % j) for j in range(1, m - 1)] + [hi]
    for x, y in zip(a, a[1:]): en.assume(lt(x, y))
    b = [en.const('b%d' % j) for j in range(m)]
    oa = [lo, rdiv(add(lo, hi), real(2)), hi] if other == 3 else [lo, hi]
    ob = [real(0), real(0.25), real(1)] if other == 3 else [real(0), real(1)]
    pre = [(a, b) if j == k else (oa, ob) for j in range(3)]

    def case(ev):
        l, h = (0.0, 1.0) if ev(lo) == 0 and ev(hi) == 1 else (-0.5, 1.5)
        xs = [l + (h - l) * t for t in {2: [0, 1], 3: [0, 0.3, 1], 4: [0, 0.2, 0.7, 1]}[m]]
        ys = [float(ev(x)) for x in b]
        if ys == [0.0] * m: ys = [0.1, 0.4, 0.6, 1.0][:m]
        o = [[l + (h - l) * t for t in ([0, 0.5, 1] if other == 3 else [0, 1])], [0.0, 0.25, 1.0] if other == 3 else [0.0, 1.0]]
        return {'kind': 'handcsp', 'three': False, 'd': [2], 't': [0.0] * 3 + [1.0] * 3, 'pre': [[xs, ys] if j == k else o for j in range(3)], 'blank': [0] * 16, 'meta': [], 'pad': '', 'between': False}
    r = en.call(en.getattr(cls(en, 'LutFormatCSP'), 'generateCLFPrelut'), [en.mklist([en.mklist([en.mklist(p), en.mklist(q)]) for p, q in pre])], {})
    n = lib.seq_len(en, r)
    if not isinstance(n, int): raise Unsupported('how many nodes')
    nodes = [en.getitem(r, j) for j in range(n)]
    lut = nodes and class_name(en, nodes[-1]) == 'LUT1D'
    head_maps(en, c, nodes[:-1] if lut else nodes, lo, hi, case)
    if not lut:
        # the range alone
        oblige(en, 'no table only where the prelut is a range', band(*([m == 2, other == 2] + [eq(b[0], 0), eq(b[-1], 1)])), case)
        return
    got = c.m(nodes[-1], 'getLUTDimensions')
    N_, ch = [conc(en.getitem(got, j)) for j in range(2)]
    oblige(en, 'three channels', ch == 3, case)
    if ch != 3: return
    if N_ is None: raise Unsupported('how many entries')
    oblige(en, 'at least two entries', N_ >= 2, case)
    vs = c.m(nodes[-1], 'getLUTValues')
    for i in range(int(N_)):
        x = add(lo, rdiv(mul(sub(hi, lo), real(i)), real(N_ - 1)))
        for j, (p, q) in enumerate(pre):
            v = en.getitem(vs, 3 * i + j)
            for s in range(len(p) - 1):
                # v - q[s] = (x - p[s]) / (p[s+1] - p[s]) * (q[s+1] - q[s])
                inside = band(le(p[s], x), le(x, p[s + 1]))
                if en.known(bnot(inside)): continue
                w = mul(sub(x, p[s]), sub(q[s + 1], q[s]))
                oblige(en, 'entry %d, channel %d lies on the prelut' % (i, j), bor(bnot(inside), eq(mul(sub(v, q[s]), sub(p[s + 1], p[s])), w)), case)
