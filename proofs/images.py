"""Proof scenarios of image filtering (C27)."""
import z3
from pyvc import lib
from pyvc import engine as E_
from pyvc.vals import *
from pyvc.sym import Sym, Ctx, DEPTHS, oblige
from pyvc import contracts as K
from pyvc.loops import split_index
from .luts import with_contract

I, O, R_ = z3.IntSort(), AbSort, z3.RealSort()
SCEN = {}


def scenario(pid, name, uses=()):
    def deco(fn):
        fn.modules = ('aces.filterImageWithCLF',)
        SCEN.setdefault(pid, []).append((name, fn, tuple(uses)))
        return fn
    return deco


def ext(name, fn): return E_.Ext(name, lambda e, a, k: fn(*a, **k))


def by_place(en, qual, fn):
    """A contract that is given the arguments by position."""
    with_contract(en, qual, None)
    en.contracts[qual].apply = lambda e, loc, f: fn(*[loc[a.arg] for a in f.node.args.args])


def same_items(en, a, b):
    """The same elements in the same order."""
    if a is b: return True
    if a is None or b is None: return False
    x, y = en.items(a), en.items(b)
    return len(x) == len(y) and all(p is q or isinstance(p, E_.Ref) and isinstance(q, E_.Ref) and p.id == q.id or isinstance(p, str) and p == q for p, q in zip(x, y))


# ---------------------------------------------------------------- pixels
#
# A row of pixels is known by what was done to the image: SL(a, b, x) its elements a..b, APP(node, stride, x) what a
# node makes of it. One element of the latter is a function of the node, the channel and the pixel (C13 proves that of
# every node and list).

PIX = z3.Const('PIX', O)
LENP = z3.Function('LENP', O, I)
AT = z3.Function('AT', O, I, R_)
SL = z3.Function('SL', I, I, O, O)
APP = z3.Function('APP', O, I, O, O)


class Buf(object):
    def size(self, en, e):
        nm = e.decl().name()
        if nm == 'SL': return mkint(e.arg(1) - e.arg(0))
        if nm == 'APP': return self.size(en, e.arg(2))
        return mkint(LENP(e))

    def at(self, en, e, i):
        nm = e.decl().name()
        if nm == 'SL': return self.at(en, e.arg(2), add(mkint(e.arg(0)), i))
        if nm == 'APP':
            s = conc(mkint(e.arg(1)))
            if s is None: raise Unsupported('a stride that is not known')
            s = int(s)
            if s == 0:
                n = self.size(en, e.arg(2))
                if conc(n) is None: raise Unsupported('a row without its stride')
                s = int(conc(n))
            q, c = split_index(en, i, s, 0)
            px = [zr(self.at(en, e.arg(2), add(mul(q, s), j))) for j in range(s)]
            vs = [N('r', z3.Function('G%d_%d' % (s, j), *([O] + [R_] * s + [R_]))(e.arg(0), *px)) for j in range(s)]
            if isinstance(c, int): return vs[c]
            v = vs[-1]
            for j in range(s - 2, -1, -1): v = ite(eq(c, j), vs[j], v)
            return v
        return N('r', AT(e, zi(i)))

    def len(self, en, v): return self.size(en, v.e)

    def getitem(self, en, v, k):
        n = self.size(en, v.e)
        if isinstance(k, slice):
            if k.step not in (None, 1): raise Unsupported('slice step')
            a, b = lib.norm_slice(en, k, n)
            return Ab(SL(zi(a), zi(b), v.e), self)
        return self.at(en, v.e, lib.index_norm(en, k, n))

    def seq(self, en, v): return self.size(en, v.e), lambda i: self.at(en, v.e, i)
    def np_array(self, en, v, dtype): return v if dtype == 'f' else self.no('an array of integers')
    np_asarray = np_array
    def no(self, what): raise Unsupported(what)

    def getattr(self, en, v, name):
        if name in ('copy', 'astype', 'tolist'): return ext(name, lambda *a: v)
        raise Unsupported('%s of pixels' % name)


BUF = Buf()


class Node(object):
    """A process node or list: known by its bit depths and by what it does to pixels."""
    def __init__(self, **depths): self.depths = depths
    def truth(self, en, v): return True

    def getattr(self, en, v, name):
        if name == 'process':
            def process(values, stride=0, verbose=False):
                if not isinstance(values, Ab) or values.model is not BUF: raise Unsupported('values of an abstract node')
                n = BUF.size(en, values.e)
                if stride == 0 and conc(n) is None or stride != 0 and exact_div(n, stride) is None:
                    raise Unsupported('a row that is not whole pixels')
                return Ab(APP(v.e, zi(stride), values.e), BUF)
            return ext(name, process)
        if name in self.depths: return ext(name, lambda: self.depths[name])
        raise Unsupported('%s of an abstract node' % name)


def node(name, **d): return Ab(z3.Const(name, O), Node(**d))


def image(en):
    ch = en.choose([3, 4], 'channels')
    w, h = en.const('w', 'i'), en.const('h', 'i')
    en.assume(band(le(1, w), le(1, h)))
    n = mul(mul(w, h), ch)
    en.assume(B(LENP(PIX) == zi(n)))
    return ch, w, h, n


def pixel(nodes, ch, q, c):
    """Channel c of pixel q of the image, after the nodes."""
    vs = [N('r', AT(PIX, zi(add(mul(q, ch), j)))) for j in range(ch)]
    for nd in nodes:
        G = [z3.Function('G%d_%d' % (ch, j), *([O] + [R_] * ch + [R_])) for j in range(ch)]
        vs = [N('r', g(nd.e, *[zr(x) for x in vs])) for g in G]
    return vs[c]


def rows(en, name):
    c = Ctx(en, 'aces.filterImageWithCLF')
    ch, w, h, n = image(en)
    row = en.const('row', 'i')
    en.assume(band(le(0, row), lt(row, h)))
    I_, O_ = [node(x) if en.choose([True, False], x) else None for x in ('InRange', 'OutRange')]
    P = node('list')
    old = en.fn('OLD', 1, argsort='i')
    out = en.mkcells((n,), lambda ix: old(ix[0]), arr=True, dtype='f')
    verbose = en.choose([False, True], 'verbose')

    def case(ev):
        W, H = [max(1, min(int(ev(x)), 4)) for x in (w, h)]
        return {'kind': 'rows', 'w': W, 'h': H, 'c': ch, 'row': min(int(ev(row)), H - 1), 'data': [((7 * k) % 11) / 11.0 for k in range(W * H * ch)], 'nodes': [], 'in': '10i' if I_ else '16f', 'out': '8i' if O_ else '32f'}
    nodes = [x for x in (I_, P, O_) if x is not None]
    if name == 'filterRow_parallel':
        px = Ab(SL(zi(mul(mul(row, w), ch)), zi(mul(mul(add(row, 1), w), ch)), PIX), BUF)
        r = c.call(name, row, w, h, ch, px, I_, P, O_, out, verbose)
        q = en.fresh('pixel', 'i')
        en.assume(band(le(0, q), lt(q, w)))
        oblige(en, 'as many values', eq(lib.seq_len(en, r), mul(w, ch)), case)
        for k in range(ch):
            oblige(en, 'channel %d of every pixel' % k, eq(en.getitem(r, add(mul(q, ch), k)), pixel(nodes, ch, add(mul(row, w), q), k)), case)
        return
    r = c.call(name, row, w, h, ch, Ab(PIX, BUF), I_, P, O_, out, verbose)
    q = en.fresh('pixel', 'i')
    en.assume(band(le(0, q), lt(q, w)))
    for k in range(ch):
        oblige(en, 'channel %d of every pixel of the row' % k, eq(en.getitem(out, add(mul(add(mul(row, w), q), ch), k)), pixel(nodes, ch, add(mul(row, w), q), k)), case)
    o = en.fresh('other', 'i')
    a, b = mul(mul(row, w), ch), mul(mul(add(row, 1), w), ch)
    en.assume(band(le(0, o), lt(o, n), bor(lt(o, a), le(b, o))))
    oblige(en, 'the other rows stay', eq(en.getitem(out, o), old(o)), case)


for _n in ('filterRow_stride', 'filterRow_pixel', 'filterRow_parallel'):
    scenario('C27', _n)(lambda en, n=_n: rows(en, n))


# ---------------------------------------------------------------- the whole image

def stub(en):
    """The process pool: results in the order of the arguments, each worked out on copies (documented behaviour of
    multiprocessing, trusted)."""
    pool = E_.ExtClass('Pool')
    res = E_.ExtClass('AsyncResult')

    def meth(cls, name, f):
        x = E_.Ext(name, f)
        x.method = True
        cls.attrs[name] = x

    def run(e, f, xs):
        before = dict(e.heap)
        r = e.call(e.builtins['map'], [f, xs], {})
        if any(e.heap.get(i) is not st for i, st in before.items() if not isinstance(st, E_.ModS) and i in e.heap):
            raise Unsupported('effects of another process')
        return r

    def map_(e, a, k): return run(e, a[1], a[2])

    def async_(e, a, k): return e.alloc('inst', E_.InstS(res, {'r': run(e, a[1], a[2])}))
    meth(pool, '__init__', lambda e, a, k: None)
    for nm in ('map', 'imap'): meth(pool, nm, map_)
    meth(pool, 'map_async', async_)
    for nm in ('close', 'join', 'terminate', '__exit__'): meth(pool, nm, lambda e, a, k: None)
    meth(pool, '__enter__', lambda e, a, k: a[0])
    meth(res, 'get', lambda e, a, k: e.st(a[0]).attrs['r'])
    for nm in ('wait', 'ready'): meth(res, nm, lambda e, a, k: None)
    en.poolclass = pool
    en.extmods['timeit'].attrs['default_timer'] = E_.Ext('default_timer', lambda e, a, k: e.fresh('time'))


def only_by_contract(en):
    def no(*a): raise Unsupported('images read or written in another way')
    for nm in ('ImageInput', 'ImageOutput'):
        fac = E_.ExtClass(nm)
        for m in ('open', 'create'): fac.attrs[m] = E_.Ext(m, no)
        en.extmods['OpenImageIO'].attrs[nm] = fac


def range_node(i, o): return node('RANGE_%s_%s' % (i, o))


def range_applied(en, loc, f):
    """What a fresh Range node does: rescales between its bit depths (C02)."""
    v = loc[f.node.args.args[1].arg]
    if not isinstance(v, Ab) or v.model is not BUF: return NotImplemented
    s = loc[f.node.args.args[0].arg]
    i, o = [en.call(en.getattr(s, m), [], {}) for m in ('getInBitDepth', 'getOutBitDepth')]
    if not isinstance(i, str) or not isinstance(o, str): raise Unsupported('bit depths of a Range')
    xs = [en.fresh('any') for _ in range(2)]
    r = en.call(en.getattr(s, 'process'), [lib.arr_from(en, xs)], {})
    from fractions import Fraction
    for j, x in enumerate(xs):
        if not en.known(eq(en.getitem(r, j), mul(x, N('r', Fraction(SIZE[o], SIZE[i]))))): raise Unsupported('a Range that does more than rescale')
    if i == o: return v
    return en.call(NODE_PROCESS(en, range_node(i, o)), [v], {'stride': loc.get('stride', 0)})


def NODE_PROCESS(en, n): return n.model.getattr(en, n, 'process')


DEPTH = ['8i', '10i', '12i', '16i', '16f', '32f']
SIZE = {'8i': 255, '10i': 1023, '12i': 4095, '16i': 65535, '16f': 1, '32f': 1}


def whole(en, threads):
    c = Ctx(en, 'aces.filterImageWithCLF')
    stub(en)
    ch, w, h, n = image(en)
    src, lin, lout, arg = en.choose([('8i', '8i', '16f', None), ('10i', '16f', '32f', None), ('16f', '16f', '12i', '12i'), ('32f', '10i', '8i', '16f'), ('12i', '12i', '12i', '8i'), ('16i', '32f', '16i', 'junk')], 'depths')
    dst = arg if arg in DEPTH else src
    P = node('list', getInBitDepth=lin, getOutBitDepth=lout)
    seen = []
    meta, names = en.mklist([]), en.mklist(['r', 'g', 'b'])
    by_place(en, 'filterImageWithCLF.readPixelArray', lambda path, *a: (Ab(PIX, BUF), src, w, h, ch, meta, names) if path == 'in' else (None, '10i', 0, 0, 0, None, None))

    def wrote(*a):
        seen.append(dict(zip(('outputPath', 'pixels', 'bitDepth', 'width', 'height', 'channels', 'metadata', 'channelnames'), a)))
        return None
    by_place(en, 'filterImageWithCLF.writePixelArray', wrote)
    only_by_contract(en)
    with_contract(en, 'Range.Range.process', None)
    en.contracts['Range.Range.process'].apply = range_applied

    def case(ev):
        W, H = [max(1, min(int(ev(x)), 4)) for x in (w, h)]
        return {'kind': 'image', 'src': src, 'w': W, 'h': H, 'c': ch, 'data': [(7 * k) % 200 if src in ('8i', '10i', '12i', '16i') else ((7 * k) % 32) * 256 if src == '16f' else ((7 * k) % 11) / 11.0 for k in range(W * H * ch)],
                'nodes': [{'type': 'Matrix', 'in': lin, 'out': lout, 'dims': [3, 3], 'm': [0.0, 0.0, 1.0, 1.0, 0.0, 0.0, 0.0, 1.0, 0.0], 'name': 'a'}], 'outdepth': arg, 'threads': threads, 'bps': True, 'cubic': False, 'version': 20000}
    c.call('filterImageWithCLF', 'in', 'out', P, False, arg, threads)
    oblige(en, 'the image is written once', len(seen) == 1, case)
    if not seen: return
    got = seen[0]
    oblige(en, 'to the path given', got['outputPath'] == 'out', case)
    oblige(en, 'in the depth asked for, or else that of the image', got['bitDepth'] == dst, case)
    for nm, x in (('width', w), ('height', h), ('channels', ch)): oblige(en, nm, eq(got[nm], x), case)
    oblige(en, 'the metadata and channel names', same_items(en, got['metadata'], meta) and same_items(en, got['channelnames'], names), case)
    px = got['pixels']
    oblige(en, 'as many values', eq(lib.seq_len(en, px), n), case)
    nodes = ([range_node(src, lin)] if src != lin else []) + [P] + ([range_node(lout, dst)] if lout != dst else [])
    x, y = en.fresh('column', 'i'), en.fresh('row', 'i')
    en.assume(band(le(0, x), lt(x, w), le(0, y), lt(y, h)))
    q = add(mul(y, w), x)
    for k in range(ch):
        oblige(en, 'channel %d of every pixel' % k, eq(en.getitem(px, add(mul(q, ch), k)), pixel(nodes, ch, q, k)), case)


scenario('C27', 'the whole image, one thread')(lambda en: whole(en, 1))
scenario('C27', 'the whole image, several threads')(lambda en: whole(en, 4))


@scenario('C27', 'an image that cannot be read')
def unread(en):
    c = Ctx(en, 'aces.filterImageWithCLF')
    stub(en)
    seen = []
    by_place(en, 'filterImageWithCLF.readPixelArray', lambda *a: (None, '10i', 0, 0, 0, None, None))
    by_place(en, 'filterImageWithCLF.writePixelArray', lambda *a: seen.append(a))
    only_by_contract(en)
    c.call('filterImageWithCLF', 'in', 'out', node('list', getInBitDepth='16f', getOutBitDepth='16f'), False, None, en.choose([1, 4], 'threads'))
    oblige(en, 'nothing is written', not seen)


# ---------------------------------------------------------------- reading and writing images

def meth(cls, name, f):
    x = E_.Ext(name, f)
    x.method = True
    cls.attrs[name] = x


def oiio(en):
    """OpenImageIO as documented: what is written is recorded, what is read is given."""
    o = en.extmods['OpenImageIO'].attrs
    spec, out, inp, attr = [E_.ExtClass(x) for x in ('ImageSpec', 'ImageOutput', 'ImageInput', 'ParamValue')]
    en.oiio = {'written': [], 'created': True, 'opened': True, 'attr': attr, 'spec': spec, 'inp': inp}

    def setattr_(e, o_, **k):
        st = e.st(o_)
        a = dict(st.attrs)
        a.update(k)
        e.put(o_, E_.InstS(st.cls, a))

    def attribute(e, a, k):
        st = e.st(a[0]).attrs
        setattr_(e, a[0], _attrs=st['_attrs'] + ((a[1], a[-1]),))
    meth(spec, 'set_format', lambda e, a, k: setattr_(e, a[0], format=a[1]))
    meth(spec, 'attribute', attribute)
    o['ImageSpec'] = E_.Ext('ImageSpec', lambda e, a, k: e.alloc('inst', E_.InstS(spec, {'_attrs': ()})))

    def open_(e, a, k):
        setattr_(e, a[0], path=a[1], spec=a[2])
        return e.oiio['opened']

    def write(e, a, k):
        me = e.st(a[0]).attrs
        px = a[2]
        e.oiio['written'].append((me.get('path'), dict(e.st(me['spec']).attrs), a[1], lib.seq_len(e, px), lib.snapshot_seq(e, px)[1], e.st(px.base if isinstance(px, E_.View) else px).dtype if isinstance(px, (E_.Ref, E_.View)) else None))
        return True
    meth(out, 'open', open_)
    meth(out, 'write_image', write)
    meth(out, 'close', lambda e, a, k: None)
    fac = E_.ExtClass('ImageOutput')
    fac.attrs['create'] = E_.Ext('create', lambda e, a, k: e.alloc('inst', E_.InstS(out, {})) if e.oiio['created'] else None)
    o['ImageOutput'] = fac
    fac = E_.ExtClass('ImageInput')
    fac.attrs['open'] = E_.Ext('open', lambda e, a, k: e.oiio['image'] if e.known_path(a[0]) else None)
    o['ImageInput'] = fac
    en.known_path = lambda p: p == 'in'


def attrib(en, name, type_, value): return en.alloc('inst', E_.InstS(en.oiio['attr'], {'name': name, 'type': type_, 'value': value}))


TYPE = {'8i': 'uint8', '10i': 'uint16', '12i': 'uint16', '16i': 'uint16', '16f': 'half', '32f': 'float'}
BITS = {'8i': 8, '10i': 10, '12i': 12, '16i': 16}


@scenario('C27', 'writing the pixels')
def write_pixels(en):
    oiio(en)
    c = Ctx(en, 'aces.filterImageWithCLF')
    depth = en.choose(DEPTH, 'depth')
    ch = en.choose([1, 3, 4], 'channels')
    w, h = en.const('w', 'i'), en.const('h', 'i')
    en.assume(band(le(1, w), le(1, h)))
    n = mul(mul(w, h), ch)
    V = en.fn('V', 1, argsort='i')
    px = en.mkcells((n,), lambda ix: V(ix[0]), arr=True, dtype='f')
    had = en.choose([True, False], 'bits per sample in the metadata')
    meta = en.mklist([attrib(en, 'note', 'string', 'kept')] + ([attrib(en, 'oiio:BitsPerSample', 'int', 16)] if had else []))
    names = en.mklist(['r', 'g', 'b', 'a'][:ch])
    HALF = []

    def pack(*a):
        HALF.append(a[-1])
        return a[-1]
    by_place(en, 'filterImageWithCLF.npHalfArrayToOIIOFloatPixels', pack)

    def case(ev):
        W, H = [max(1, min(int(ev(x)), 4)) for x in (w, h)]
        top = float(SIZE[depth])
        vals = [-0.25, 1.5 / top, 0.5, 1.25, 1.0, 0.3, 0.4999, 2.5 / top]
        return {'kind': 'image', 'src': '32f', 'w': W, 'h': H, 'c': max(ch, 3), 'data': [vals[k % 8] for k in range(W * H * max(ch, 3))],
                'nodes': [{'type': 'Matrix', 'in': '32f', 'out': '32f', 'dims': [3, 3], 'm': [1.0, 0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 1.0], 'name': 'a'}], 'outdepth': depth, 'threads': 1, 'bps': True, 'cubic': False, 'version': 20000}
    c.call('writePixelArray', 'out', px, depth, w, h, ch, meta, names)
    oblige(en, 'one image is written', len(en.oiio['written']) == 1, case)
    if len(en.oiio['written']) != 1: return
    path, spec, fmt, m, get, dt = en.oiio['written'][0]
    oblige(en, 'to the path given', path == 'out', case)
    oblige(en, 'in the type of the depth', spec.get('format') == TYPE[depth] and fmt == TYPE[depth], case)
    for nm, x in (('width', w), ('height', h), ('nchannels', ch)): oblige(en, nm, eq(spec[nm], x), case)
    oblige(en, 'the channel names', same_items(en, spec.get('channelnames'), names), case)
    at = dict(spec['_attrs'])
    oblige(en, 'the metadata', at.get('note') == 'kept', case)
    if depth in BITS: oblige(en, 'bits per sample', at.get('oiio:BitsPerSample') == BITS[depth], case)
    oblige(en, 'as many values', eq(m, n), case)
    k = en.fresh('k', 'i')
    en.assume(band(le(0, k), lt(k, n)))
    got, v = get(k), V(k)
    if depth not in BITS:
        oblige(en, 'half-floats are packed', bool(HALF) == (depth == '16f'), case)
        oblige(en, 'every value at its place', eq(got, v), case)
        return
    top, shift = SIZE[depth], {'10i': 64, '12i': 16}.get(depth, 1)
    g = en.fresh('code', 'i')
    # the nearest code value of the clamped one (either one halfway between two)
    vc = ite(lt(v, 0), real(0), ite(lt(real(top), v), real(top), v))
    q, r = divmod_linear(got, shift) if shift > 1 else (got, 0)
    oblige(en, 'the low bits are zero', eq(mul(q, shift), got), case)
    d = sub(vc, lib.R(q))
    oblige(en, 'the nearest code value', band(le(d, real(0.5)), le(real(-0.5), d)), case)


@scenario('C27', 'an image that cannot be written')
def unwritten(en):
    oiio(en)
    c = Ctx(en, 'aces.filterImageWithCLF')
    what = en.choose(['created', 'opened'], 'not')
    en.oiio[what] = None if what == 'created' else False
    px = en.mkcells((6,), lambda ix: real(0), arr=True, dtype='f')
    c.call('writePixelArray', 'out', px, '8i', 2, 1, 3, en.mklist([]), en.mklist(['r', 'g', 'b']))
    oblige(en, 'nothing is written', not en.oiio['written'])


@scenario('C27', 'reading the pixels')
def read_pixels(en):
    oiio(en)
    c = Ctx(en, 'aces.filterImageWithCLF')
    o = en.oiio
    kind, bps, depth = en.choose([('uint8', None, '8i'), ('uint8', 8, '8i'), ('uint16', None, '16i'), ('uint16', 16, '16i'), ('uint16', 10, '10i'), ('uint16', 12, '12i'), ('half', None, '16f'), ('half', 16, '16f'), ('float', 32, '32f'), ('float', None, '32f')], 'image')
    ch = en.choose([1, 3, 4], 'channels')
    w, h = en.const('w', 'i'), en.const('h', 'i')
    en.assume(band(le(1, w), le(1, h)))
    n = mul(mul(w, h), ch)
    integer = kind.startswith('uint')
    V = en.fn('V', 1, argsort='i', sort='i' if integer else 'r')
    shift = {10: 64, 12: 16}.get(bps, 1) if kind == 'uint16' else 1
    k0 = z3.Int('k!')
    top = {'uint8': 255, 'uint16': 65535}.get(kind)
    if integer: en.assume(B(z3.ForAll([k0], z3.And(V(N('i', k0)).e >= 0, V(N('i', k0)).e * shift <= top), patterns=[V(N('i', k0)).e])))
    data = en.mkcells((n,), lambda ix: mul(V(ix[0]), shift) if integer else V(ix[0]), arr=True, dtype='i' if integer else 'f')
    attrs = en.mklist([attrib(en, 'note', 'string', 'kept')] + ([attrib(en, 'oiio:BitsPerSample', 'int', bps)] if bps else []))
    names = en.mklist(['c%d' % j for j in range(ch)])
    fmt = en.alloc('inst', E_.InstS(E_.ExtClass('TypeDesc'), {'basetype': kind}))
    spec = en.alloc('inst', E_.InstS(o['spec'], {'format': fmt, 'width': w, 'height': h, 'nchannels': ch, 'channelnames': names, 'extra_attribs': attrs}))
    asked = []

    def read_image(e, a, k):
        asked.append(a[1] if len(a) > 1 else None)
        return data
    meth(o['inp'], 'spec', lambda e, a, k: spec)
    meth(o['inp'], 'read_image', read_image)
    meth(o['inp'], 'close', lambda e, a, k: None)
    o['image'] = en.alloc('inst', E_.InstS(o['inp'], {}))
    unpacked = []

    def unpack(*a):
        unpacked.append(a[-1])
        return a[-1]
    by_place(en, 'filterImageWithCLF.oiioFloatPixelsToNPHalfArray', unpack)

    def case(ev):
        W, H = [max(1, min(int(ev(x)), 4)) for x in (w, h)]
        return {'kind': 'image', 'src': depth, 'w': W, 'h': H, 'c': max(ch, 3), 'data': [(37 * k) % 250 if integer else ((7 * k) % 32) * 256 if kind == 'half' else ((7 * k) % 11) / 11.0 for k in range(W * H * max(ch, 3))],
                'nodes': [{'type': 'Matrix', 'in': '32f', 'out': '32f', 'dims': [3, 3], 'm': [1.0, 0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 1.0], 'name': 'a'}], 'outdepth': '32f', 'threads': 1, 'bps': bool(bps), 'cubic': False, 'version': 20000}
    r = c.call('readPixelArray', 'in')
    px, bd, W, H, C, meta, nm = [en.getitem(r, j) for j in range(7)]
    oblige(en, 'read in the type of the file', asked == [kind], case)
    oblige(en, 'the bit depth of the image', bd == depth, case)
    for what, x, y in (('width', W, w), ('height', H, h), ('channels', C, ch)): oblige(en, what, eq(x, y), case)
    oblige(en, 'the channel names', same_items(en, nm, names), case)
    oblige(en, 'the metadata', same_items(en, meta, attrs), case)
    oblige(en, 'half-floats are unpacked', bool(unpacked) == (kind == 'half'), case)
    oblige(en, 'as many values', eq(lib.seq_len(en, px), n), case)
    k = en.fresh('k', 'i')
    en.assume(band(le(0, k), lt(k, n)))
    oblige(en, 'every code value at its place', eq(en.getitem(px, k), V(k)), case)
