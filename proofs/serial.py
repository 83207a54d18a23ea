"""Proof scenarios of writing and reading: arrays (C18)."""
import z3
from pyvc import lib
from pyvc import engine as E_
from pyvc.vals import *
from pyvc.sym import Sym, Ctx, oblige
from pyvc import contracts as K
from pyvc import fsmodel
from . import lists

SCEN = {}


def scenario(pid, name, uses=()):
    def deco(fn):
        for p in pid.split(): SCEN.setdefault(p, []).append((name, fn, tuple(uses)))
        return fn
    return deco


def element(en, tag): return en.call(en.elementClass, [tag], {})
def children(en, el): return en.st(el).attrs['_children']
def attrib(en, el): return en.st(en.st(el).attrs['attrib']).d


def exc_name(en, x):
    c = en.st(x.value).cls
    return c.name if isinstance(c, E_.ExtClass) else en.st(c).name


# ---------------------------------------------------------------- C18

WIDTH = {'integer16bit': 16, 'integer32bit': 32, 'integer64bit': 64, 'hex16bit': 16, 'hex32bit': 32, 'hex64bit': 64, 'raw': 16}
SHAPES = [1, 3, 'matrix3', 'matrix4', 'matrix5', 'cube']


def mkdims(en, shape):
    """Dimensions, number of values."""
    if shape in (1, 3):
        n = en.const('n', 'i')
        en.assume(le(1, n))
        return [n, shape], mul(n, shape)
    if shape == 'cube':
        d = [en.const('d%d' % j, 'i') for j in range(3)]
        for x in d: en.assume(le(1, x))
        return d + [3], mul(mul(mul(d[0], d[1]), d[2]), 3)
    r, c = en.const('r', 'i'), int(shape[-1])
    en.assume(le(1, r))
    return [r, c, en.const('last', 'i')], mul(r, c)


def same_dims(en, got, dims):
    oblige(en, 'as many dimensions', eq(lib.seq_len(en, got), len(dims)))
    for j, d in enumerate(dims): oblige(en, 'dimension %d' % j, eq(en.getitem(got, j), d))


def array_case(enc, dims, ev, val=None):
    d = [max(1, min(int(ev(x)), 5)) if not isinstance(x, int) else x for x in dims]
    n = d[0] * d[1] * d[2] * 3 if len(d) == 4 else d[0] * d[1]
    v = [val(j) for j in range(n)] if val else [[0.5, -2.0, 0.0, 1.0, 6.103515625e-05][j % 5] for j in range(n)]
    return {'kind': 'array', 'encoding': enc, 'dims': d, 'values': [repr(x) for x in v], 'integers': False, 'np': False, 'how': 'init'}


def round_trip(en, enc, shape, form, how, scalar):
    c = Ctx(en)
    arr = en.getattr(en.import_module('aces.clf.Array'), 'Array')
    dims, total = mkdims(en, shape)
    V = en.fn('V', 1) if scalar is None else z3.Function('VAL', z3.IntSort(), AbSort)
    get = (lambda ix: V(ix[0])) if scalar is None else (lambda ix: Ab(V(zi(ix[0])), K.scalars(scalar)))
    data = en.mkcells((total,), get, arr=form == 'array', dtype=lib.dtype(scalar or 32) if form == 'array' else None)
    raw, fe = enc == 'raw', 'string' if enc in ('raw', 'string') else enc
    if how == 'constructor': a = c.call(arr, en.mklist(dims), data, False, raw, fe)
    else:
        a = c.call(arr)
        for nm, v in (('setDimensions', en.mklist(dims)), ('setValues', data), ('setRawHalfs', raw), ('setFloatEncoding', fe)): c.m(a, nm, v)
    up = element(en, 'up')
    el = c.m(a, 'write', up)
    ch = children(en, up)
    oblige(en, 'one element', band(eq(lib.seq_len(en, ch), 1), en.equal(en.st(en.getitem(ch, 0)).attrs['tag'], 'Array')))
    if enc not in ('string', 'raw', 'unknown'): oblige(en, 'names its encoding', en.equal(attrib(en, el).get('floatEncoding'), enc))
    b = c.call(arr, rawHalfs=raw)
    c.m(b, 'read', en.getitem(ch, 0))
    same_dims(en, c.m(b, 'getDimensions'), dims)
    got = c.m(b, 'getValues')
    oblige(en, 'as many values', eq(lib.seq_len(en, got), total), lambda ev: array_case(enc, dims, ev))
    k = en.const('k', 'i')
    en.assume(band(le(0, k), lt(k, total)))
    return V, k, en.getitem(got, k), dims


@scenario('C18', 'decimal text')
def c18_text(en):
    shape, form = en.choose(SHAPES, 'shape'), en.choose(['list', 'array'], 'values')
    enc = en.choose(['string', 'unknown'], 'encoding')
    how = en.choose(['constructor', 'setters'], 'made by') if shape == 3 else 'constructor'
    V, k, r, dims = round_trip(en, enc, shape, form, how, None)
    case = lambda ev: array_case('other' if enc == 'unknown' else enc, dims, ev, lambda j: ev(V(j)))
    oblige(en, 'every value to within 1e-9', band(le(r - V(k), real(1e-9)), le(V(k) - r, real(1e-9))), case)


def make_enc(enc):
    def fn(en):
        K.pattern_axioms(en)
        shape, form = en.choose(SHAPES, 'shape'), en.choose(['list', 'array'], 'values')
        how = en.choose(['constructor', 'setters'], 'made by') if shape == 3 else 'constructor'
        V, k, r, dims = round_trip(en, enc, shape, form, how, WIDTH[enc])
        oblige(en, 'every value bit for bit', mkbool(r.e == V(zi(k))) if isinstance(r, Ab) else K.opaque(en, r), lambda ev: array_case(enc, dims, ev))
    return fn


for _e in WIDTH: scenario('C18', 'encoding %s' % _e, K.CODECS)(make_enc(_e))


@scenario('C18', 'refusal', K.CODECS)
def c18_refuse(en):
    c = Ctx(en)
    fs = list(en.st(c['featureSets']).d)
    f = en.choose(fs, 'features')
    c.features(f)
    on = bool(en.st(c['featureSets']).d[f] & en.st(c['featureSets']).d['Duiker Research'])
    arr = en.getattr(en.import_module('aces.clf.Array'), 'Array')
    how = en.choose(['write', 'set', 'matrix', 'lut1d', 'lut3d'], 'how')
    enc = en.choose([x for x in WIDTH if x != 'raw'], 'encoding')
    case = lambda ev: {'kind': 'encrefuse', 'encoding': enc, 'features': 'CLF' if not on else f, 'how': how if how in ('write', 'set') else 'matrix'}
    try:
        if how == 'set':
            a = c.call(arr)
            c.m(a, 'setFloatEncoding', enc)
            if on: oblige(en, 'the encoding is kept', en.equal(c.m(a, 'getFloatEncoding'), enc), case)
        else:
            n, V = en.const('n', 'i'), en.fn('V', 1)
            en.assume(le(1, n))
            if how == 'write':
                K.pattern_axioms(en)
                V = z3.Function('VAL', z3.IntSort(), AbSort)
                data = en.mkcells((mul(n, 3),), lambda ix: Ab(V(zi(ix[0])), K.scalars(WIDTH[enc])))
                a = c.call(arr, en.mklist([n, 3]), data, floatEncoding=enc)
                c.m(a, 'write', element(en, 'up'))
            else:
                if on: return
                cls = {'matrix': 'Matrix', 'lut1d': 'LUT1D', 'lut3d': 'LUT3D'}[how]
                node = c.call(cls)
                dims = {'matrix': [3, 3], 'lut1d': [n, 3], 'lut3d': [2, 2, 2]}[how]
                data = en.mkcells((9 if how == 'matrix' else 24 if how == 'lut3d' else mul(n, 3),), lambda ix: V(ix[0]))
                c.m(node, 'setMatrix' if how == 'matrix' else 'setArray', en.mklist(dims) if how != 'lut1d' else 3, data, floatEncoding=enc)
                c.m(node, 'write', element(en, 'up'))
        ok = True
    except E_.PyRaise as x:
        ok = False
        oblige(en, 'refused with the error of an unsupported extension', not on and exc_name(en, x) == 'UnsupportedExtensionError', case)
    oblige(en, 'refused exactly when the set is off', ok == on, case)


# ---------------------------------------------------------------- C17

TAGFORMS = ['plain', 'namespace', 'dash', 'underscore']


def retag(en, el, form):
    """The tags of a tree as other programs write them."""
    if form == 'plain': return
    a = en.st(el).attrs
    t = a['tag']
    if not isinstance(t, str): raise Unsupported('symbolic tag')
    if form == 'namespace': t = '{urn:AMPAS:CLF:v1.2}' + t
    elif len(t) > 3 and t != 'ProcessList': t = t[:3] + {'dash': '-', 'underscore': '_'}[form] + t[3:]
    en.setattr(el, 'tag', t)
    for x in en.st(a['_children']).items: retag(en, x, form)


def same_text(en, a, b):
    if a is None or b is None: return a is b
    return en.equal(a, b)


def same_tree(en, what, a, b, case=None):
    """Two trees: tags, attributes, texts, children in order."""
    x, y = en.st(a).attrs, en.st(b).attrs
    oblige(en, '%s: tag' % what, en.equal(x['tag'], y['tag']), case)
    p, q = attrib(en, a), attrib(en, b)
    oblige(en, '%s: the same attributes' % what, sorted(p) == sorted(q), case)
    for k in p:
        if k in q: oblige(en, '%s: attribute %s' % (what, k), en.equal(p[k], q[k]), case)
    oblige(en, '%s: text' % what, same_text(en, x['text'], y['text']), case)
    u, v = en.st(x['_children']).items, en.st(y['_children']).items
    oblige(en, '%s: children' % what, len(u) == len(v), case)
    for k, (i, j) in enumerate(zip(u, v)): same_tree(en, '%s/%d' % (what, k), i, j, case)


def words(en, *names):
    """Arbitrary texts other than the words that are read as booleans."""
    out = []
    for nm in names:
        s = en.const(nm, 's')
        for w in ('True', 'False', 'true', 'false', ''): en.assume(bnot(en.equal(s, w)))
        out.append(s)
    return out


def through(en, c, nodes, form='plain'):
    """The nodes of a list written to a tree and read back."""
    pl = c.call('ProcessList')
    for n in nodes: c.m(pl, 'addProcess', n)
    root = c.m(c.m(pl, 'write'), 'getroot')
    oblige(en, 'one element per node', len(en.st(children(en, root)).items) == len(nodes))
    retag(en, root, form)
    q = c.call('ProcessList')
    c.m(q, 'read', root)
    got = [en.getitem(q, j) for j in range(len(nodes))] if lib.seq_len(en, c.m(q, 'getProcesses')) == len(nodes) else None
    oblige(en, 'as many nodes', got is not None)
    return got, root, q


def rewritten(en, c, node):
    up = element(en, 'up')
    c.m(node, 'write', up)
    return en.getitem(children(en, up), 0)


def compare(en, c, node, new, keys, process=True, case=None):
    oblige(en, 'the same class', en.st(node).cls == en.st(new).cls, case)
    for k in keys:
        a, b = c.m(node, 'getAttribute', k), c.m(new, 'getAttribute', k)
        oblige(en, 'attribute %s' % k, en.equal(a, b) if type(a) == type(b) or not isinstance(a, bool) else False, case)
    if process:
        px = c.reals('x', 4)
        a, b = [outcome(en, lambda: c.m(n, 'process', en.mklist(px), 4)) for n in (node, new)]
        if isinstance(a, str) or isinstance(b, str): oblige(en, 'the same error when processing', isinstance(a, str) and isinstance(b, str) and a == b, case)
        else:
            for i in range(4): oblige(en, 'channel %d is processed alike' % i, eq(en.getitem(a, i), en.getitem(b, i)), case)


def outcome(en, f):
    try:
        return f()
    except E_.PyRaise as x:
        return exc_name(en, x)


def spec_num(ev, x): return float(ev(x))


def desc(en, c, node, texts, dyn):
    for t in texts: c.m(node, 'addElement', c.call('Description', t))
    for d in dyn: c.m(node, 'setDynamicParam', d)


KEYS = ['inBitDepth', 'outBitDepth', 'id', 'name']


def check_node(en, make, keys, forms=TAGFORMS, process=True):
    """make(c, id, name) -> node, monitor description (ev -> dict)."""
    c = Ctx(en)
    c.features('All')
    form = en.choose(forms, 'tags')
    i, nm = words(en, 'id', 'name')
    node, spec = make(c, i, nm)
    extra = en.choose(['nothing else', 'metadata'], 'with')
    k = list(keys)
    if extra == 'metadata':
        d1, d2, v1, p1, p2 = words(en, 'd1', 'd2', 'custom', 'p1', 'p2')
        desc(en, c, node, [d1, d2], [p1, p2])
        c.m(node, 'setAttribute', 'custom', v1)
        byp = en.choose([None, True, False], 'bypass')
        if byp is not None:
            c.m(node, 'setAttribute', 'bypass', byp)
            k.append('bypass')
        k.append('custom')
    first = rewritten(en, c, node)

    def case(ev):
        s = dict(spec(ev), name='nm', id='i')
        if extra == 'metadata': s.update(descriptions=['one', 'two'], dynamic=['p', 'q'], attributes=[['custom', 'v']], **({} if byp is None else {'bypass': byp}))
        return {'kind': 'xml', 'nodes': [s], 'attributes': [], 'elements': [], 'info': None, 'tag': {'namespace': 'ns', 'dash': 'dash', 'underscore': 'under', 'plain': 'plain'}[form], 'through': 'tree'}
    got, root, q = through(en, c, [node], form)
    if not got: return
    new = got[0]
    compare(en, c, node, new, k, process, case)
    if extra == 'metadata':
        for p in (p1, p2): oblige(en, 'a dynamic parameter', en.truthval(c.m(new, 'getDynamicParam', p)), case)
        other = en.const('other', 's')
        en.assume(bnot(bor(en.equal(other, p1), en.equal(other, p2))))
        oblige(en, 'no other dynamic parameter', bnot(en.truthval(c.m(new, 'getDynamicParam', other))), case)
        texts = [en.st(x).attrs['text'] for x in en.st(children(en, first)).items if en.st(x).attrs['tag'] == 'Description']
        oblige(en, 'the descriptions are written in order', len(texts) == 2 and band(en.equal(texts[0], d1), en.equal(texts[1], d2)), case)
    same_tree(en, 'written again', first, rewritten(en, c, new), case)


DEP = ['16f', '10i']


@scenario('C17', 'Range')
def c17_range(en):
    which = en.choose([(), (0, 2), (1, 3), (0, 1, 2, 3), (0,)], 'bounds')
    style = en.choose(['', 'clamp', 'noClamp'], 'style')
    dflt = en.choose([None, True], 'default')

    def make(c, i, nm):
        b = c.reals('b', 4)
        if len(which) == 4 or dflt: en.assume(bnot(eq(b[0], b[1])))
        n = c.call('Range', '10i', '16f', i, nm, style=style, defaultRange=dflt)
        for j, s in enumerate(('setMinInValue', 'setMaxInValue', 'setMinOutValue', 'setMaxOutValue')):
            if j in which: c.m(n, s, b[j])
        return n, lambda ev: dict(type='Range', style=style, default=dflt, bounds=[spec_num(ev, b[j]) if j in which else None for j in range(4)], **{'in': '10i', 'out': '16f'})
    check_node(en, make, KEYS + ['style', 'defaultRange'], TAGFORMS if not style and not dflt else ['plain', 'namespace'], process=not dflt)


CDLSTYLES = ['Fwd', 'Rev', 'FwdNoClamp', 'RevNoClamp', 'v1.2_Fwd', 'noClampRev']
CDLUSE = ()


@scenario('C17', 'ASC CDL', CDLUSE)
def c17_cdl(en):
    which = en.choose(['', 'sopx', 's', 'op', 'x'], 'set')
    cls = en.choose(['ASCCDL', 'ColorCorrection'], 'class')
    style = en.choose(CDLSTYLES, 'style') if cls == 'ASCCDL' and which in ('sopx', '') else 'Fwd'

    def make(c, i, nm):
        if cls == 'ASCCDL': n = c.call(cls, '16f', '10i', i, nm, style)
        else: n = c.call(cls)
        v = {}
        for k, f in (('s', 'setSlope'), ('o', 'setOffset'), ('p', 'setPower')):
            if k in which:
                v[k] = c.reals(k, 3)
                if k in 'sp':
                    for x in v[k]: en.assume(lt(0, x))
                c.m(n, f, *v[k])
        if 'x' in which:
            v['x'] = c.reals('x', 1)
            en.assume(lt(0, v['x'][0]))
            c.m(n, 'setSaturation', v['x'][0])
        num = lambda ev, k: [spec_num(ev, y) for y in v[k]] if k in v else None
        return n, lambda ev: dict(type=cls, style=style, slope=num(ev, 's'), offset=num(ev, 'o'), power=num(ev, 'p'), sat=num(ev, 'x')[0] if 'x' in v else None, **{'in': '16f', 'out': '10i'})
    check_node(en, make, KEYS + ['style'], TAGFORMS if which == 'sopx' and style == 'Fwd' else ['plain'])


CHANNELS = [(), (None,), ('R', 'G', 'B'), (None, 'B'), ('G',), ('B', 'B')]


@scenario('C17', 'Gamma', CDLUSE)
def c17_gamma(en):
    chans = en.choose(CHANNELS, 'parameters for')
    style = en.choose(['basicFwd', 'basicRev', 'moncurveFwd', 'moncurveRev'], 'style')

    def make(c, i, nm):
        n = c.call('Gamma', '16f', '10i', i, nm, style)
        v = []
        for j, ch in enumerate(chans):
            g, o = c.reals('g%d_' % j, 1)[0], c.reals('o%d_' % j, 1)[0]
            en.assume(lt(1, g))
            if style[0] == 'm': en.assume(bnot(eq(o, 0)))
            v.append((g, o, ch))
            c.m(n, 'setGamma', g, o, *(() if ch is None else (ch,)))
        if style[0] == 'm' and set(chans) != set('RGB') and None not in chans: return n, None
        return n, lambda ev: dict(type='Gamma', style=style, params=[[spec_num(ev, g), spec_num(ev, o), ch] for g, o, ch in v], **{'in': '16f', 'out': '10i'})
    check_node(en, make, KEYS + ['style'], TAGFORMS if chans == (None,) else ['plain'])


@scenario('C17', 'Log', CDLUSE)
def c17_log(en):
    chans = en.choose(CHANNELS, 'parameters for')
    style = en.choose(['log10', 'log2', 'antiLog10', 'antiLog2', 'linToLog', 'logToLin'], 'style')

    def make(c, i, nm):
        n = c.call('Log', '16f', '10i', i, nm, style)
        v = []
        for j, ch in enumerate(chans):
            p = c.reals('p%d_' % j, 5)
            en.assume(lt(0, p[0]))
            en.assume(lt(p[2], p[1]))
            v.append((p, ch))
            c.m(n, 'setLogParams', *(p + ([] if ch is None else [ch])))
        return n, lambda ev: dict(type='Log', style=style, params=[[spec_num(ev, y) for y in p] + [ch] for p, ch in v], **{'in': '16f', 'out': '10i'})
    check_node(en, make, KEYS + ['style'], TAGFORMS if chans == (None,) else ['plain'])


@scenario('C17', 'ExposureContrast', CDLUSE)
def c17_ec(en):
    some = en.choose([True, False], 'set')
    style = en.choose(['linear', 'video', 'log', 'linearRev'], 'style')

    def make(c, i, nm):
        n = c.call('ExposureContrast', '16f', '10i', i, nm, style)
        p = c.reals('p', 3)
        en.assume(lt(0, p[2]))
        if some: c.m(n, 'setExposureContrastPivot', *p)
        return n, lambda ev: dict(type='ExposureContrast', style=style, params=[spec_num(ev, y) for y in p] if some else None, **{'in': '16f', 'out': '10i'})
    check_node(en, make, KEYS + ['style'])


def lut_checks(en, c, node, new, keys, dims, V, case):
    """Attributes exactly, the table to the printed precision (C18)."""
    compare(en, c, node, new, keys, False, case)
    got = c.m(new, 'getLUTDimensions')
    oblige(en, 'as many dimensions', eq(lib.seq_len(en, got), len(dims)), case)
    for j, d in enumerate(dims): oblige(en, 'dimension %d' % j, eq(en.getitem(got, j), d), case)
    k = en.const('k', 'i')
    total = 1
    for d in dims: total = mul(total, d)
    en.assume(band(le(0, k), lt(k, total)))
    r = en.getitem(c.m(new, 'getLUTValues'), k)
    oblige(en, 'every entry to within 1e-9', band(le(r - V(k), real(1e-9)), le(V(k) - r, real(1e-9))), case)


def make_lut(cls, maps):
    def fn(en):
        c = Ctx(en)
        c.features('All')
        form = en.choose(TAGFORMS if maps != 3 else ['plain'], 'tags')
        i, nm, v1, d1, p1 = words(en, 'id', 'name', 'custom', 'd1', 'p1')
        interp = en.choose(['linear', 'cubic'] if cls == 'LUT1D' else ['trilinear', 'tetrahedral'], 'interpolation')
        kw = {}
        for a in ('halfDomain', 'rawHalfs') if cls == 'LUT1D' and maps == 0 else ():
            f = en.choose(['', True, False], a)
            if a == 'rawHalfs' and f is True: return      # the table is then its bit patterns: C18
            if f != '': kw[a] = f
        odep = en.choose(['32f', '10i'], 'output depth') if form == 'plain' else '32f'
        node = c.call(cls, '16f', odep, i, nm, interp, **kw)
        V = en.fn('V', 1)
        if cls == 'LUT1D':
            n, cols = en.const('n', 'i'), en.choose([1, 3], 'columns')
            en.assume(le(2, n))
            dims = [n, cols]
            arg = cols
        else:
            d = [en.const('d%d' % j, 'i') for j in range(3)]
            for x in d: en.assume(le(2, x))
            dims, arg = d + [3], en.mklist(d)
        total = 1
        for x in dims: total = mul(total, x)
        A = []
        for m in range(maps):
            K_ = en.const('m%d' % m, 'i')
            en.assume(le(1, K_))
            I, O = en.fn('I%d' % m, 1), en.fn('O%d' % m, 1, 'i')
            A.append((K_, I, O))
        ref = lambda m: en.mklist([en.mkcells((A[m][0],), lambda ix: A[m][1](ix[0])), en.mkcells((A[m][0],), lambda ix: A[m][2](ix[0]))])
        if maps: c.m(node, 'setIndexMaps', *[ref(m) for m in range(maps)])
        c.m(node, 'setArray', arg, en.mkcells((total,), lambda ix: V(ix[0])))
        c.m(node, 'setAttribute', 'custom', v1)
        desc(en, c, node, [d1], [p1])

        def case(ev):
            num = lambda x: min(max(2, int(ev(x))), 4)
            s = dict(type=cls, interp=interp, name='nm', id='i', descriptions=['one'], dynamic=['p'], attributes=[['custom', 'v']], **{'in': '16f', 'out': odep})
            if cls == 'LUT1D': s.update(columns=cols, half=kw.get('halfDomain'), table=[0.5 + j for j in range(num(n) * cols)])
            else:
                dd = [num(x) for x in d]
                s.update(dims=dd, table=[0.25 * j for j in range(dd[0] * dd[1] * dd[2] * 3)])
            if maps: s['maps'] = [[[0.5, 1.25, 7.0], [0.0, 3.0, float(5 + m)]] for m in range(maps)]
            return {'kind': 'xml', 'nodes': [s], 'attributes': [], 'elements': [], 'info': None, 'tag': {'namespace': 'ns', 'dash': 'dash', 'underscore': 'under', 'plain': 'plain'}[form], 'through': 'tree'}
        got, root, q = through(en, c, [node], form)
        if not got: return
        new = got[0]
        lut_checks(en, c, node, new, KEYS + ['interpolation', 'custom'] + sorted(kw), dims, V, case)
        oblige(en, 'the dynamic parameter', en.truthval(c.m(new, 'getDynamicParam', p1)), case)
        for m in range(maps):
            K_, I, O = A[m]
            oblige(en, 'size of index map %d' % m, eq(c.m(new, 'getIndexMapDimensions', m), K_), case)
            vals = c.m(new, 'getIndexMapValues', m)
            j = en.const('j%d' % m, 'i')
            en.assume(band(le(0, j), lt(j, K_)))
            for w, F in ((0, I), (1, O)):
                x = en.getitem(vals, w)
                oblige(en, 'length of index map %d' % m, eq(lib.seq_len(en, x), K_), case)
                oblige(en, 'index map %d, %s' % (m, ('inputs', 'outputs')[w]), eq(en.getitem(x, j), F(j)), case)
        first, again = rewritten(en, c, node), rewritten(en, c, new)
        tags = lambda e: [en.st(x).attrs['tag'] for x in en.st(children(en, e)).items]
        oblige(en, 'the same elements in the same order', tags(first) == tags(again), case)
        oblige(en, 'the description', [band(True, en.equal(en.st(x).attrs['text'], d1)) for x in en.st(children(en, again)).items if en.st(x).attrs['tag'] == 'Description'] == [True], case)
        oblige(en, 'the same attributes', sorted(attrib(en, first)) == sorted(attrib(en, again)), case)
    return fn


for _c, _m in (('LUT1D', 0), ('LUT1D', 1), ('LUT1D', 3), ('LUT3D', 0), ('LUT3D', 1), ('LUT3D', 3)):
    scenario('C17', '%s, %d index maps' % (_c, _m))(make_lut(_c, _m))


@scenario('C17', 'Matrix')
def c17_matrix(en):
    cols = en.choose([3, 4], 'columns')
    rows = en.choose([3, 4], 'rows') if cols == 4 else 3
    form = en.choose(TAGFORMS, 'tags')
    odep = en.choose(['16f', '10i'], 'output depth')
    c = Ctx(en)
    c.features('All')
    i, nm, v1, d1, p1 = words(en, 'id', 'name', 'custom', 'd1', 'p1')
    node = c.call('Matrix', '16f', odep, i, nm)
    M = c.reals('m', rows * cols)
    c.m(node, 'setMatrix', en.mklist([rows, cols, 3]), en.mklist(M))
    c.m(node, 'setAttribute', 'custom', v1)
    desc(en, c, node, [d1], [p1])
    case = lambda ev: {'kind': 'xml', 'nodes': [{'type': 'Matrix', 'in': '16f', 'out': odep, 'dims': [rows, cols, 3], 'm': [spec_num(ev, x) for x in M], 'id': 'i', 'name': 'nm', 'descriptions': ['d'], 'dynamic': ['p'], 'attributes': [['custom', 'v']]}],
                       'attributes': [], 'elements': [], 'info': None, 'tag': {'namespace': 'ns', 'dash': 'dash', 'underscore': 'under', 'plain': 'plain'}[form], 'through': 'tree'}
    got, root, q = through(en, c, [node], form)
    if not got: return
    new = got[0]
    compare(en, c, node, new, KEYS + ['custom'], False, case)
    oblige(en, 'the dynamic parameter', en.truthval(c.m(new, 'getDynamicParam', p1)), case)
    scale = {'16f': 1, '10i': 1023}[odep]
    # each column of the matrix as what the unit vectors are mapped to
    for j in range(cols + 1):
        x = en.mklist([real(1.0 if k == j else 0.0) for k in range(cols)])
        a, b = [c.m(n, 'process', en.mklist(en.items(x)), cols) for n in (node, new)]
        for k in range(cols):
            p, q_ = en.getitem(a, k), en.getitem(b, k)
            oblige(en, 'column %d to within 1e-9' % j, band(le(p - q_, real(1e-9 * scale * 2)), le(q_ - p, real(1e-9 * scale * 2))), case)
    first, again = rewritten(en, c, node), rewritten(en, c, new)
    oblige(en, 'the same attributes', sorted(attrib(en, first)) == sorted(attrib(en, again)), case)
    oblige(en, 'the description', [band(True, en.equal(en.st(x).attrs['text'], d1)) for x in en.st(children(en, again)).items if en.st(x).attrs['tag'] == 'Description'] == [True], case)


@scenario('C17', 'Reference')
def c17_ref(en):
    fs = fsmodel.attach(en)
    fs.oracle = lambda e, p: False
    c = Ctx(en)
    c.features('All')
    form = en.choose(TAGFORMS, 'tags')
    i, nm, d1, p1 = words(en, 'id', 'name', 'd1', 'p1')
    path, base, alias = en.choose([('a.clf', '', ''), ('a.clf', '/d', 'al'), ('', '', 'al'), ('', '/d', '')], 'path, base path, alias')
    node = c.call('Reference', '16f', '10i', i, nm, path, base, alias)
    desc(en, c, node, [d1], [p1])
    case = lambda ev: {'kind': 'xml', 'nodes': [{'type': 'Reference', 'in': '16f', 'out': '10i', 'id': 'i', 'name': 'nm', 'ref': [path, base, alias], 'descriptions': ['d'], 'dynamic': ['p']}],
                       'attributes': [], 'elements': [], 'info': None, 'tag': {'namespace': 'ns', 'dash': 'dash', 'underscore': 'under', 'plain': 'plain'}[form], 'through': 'tree'}
    first = rewritten(en, c, node)
    got, root, q = through(en, c, [node], form)
    if not got: return
    compare(en, c, node, got[0], KEYS + ['path', 'basePath', 'alias'], False, case)
    oblige(en, 'the dynamic parameter', en.truthval(c.m(got[0], 'getDynamicParam', p1)), case)
    same_tree(en, 'written again', first, rewritten(en, c, got[0]), case)


@scenario('C17', 'lists and groups')
def c17_lists(en):
    """Metadata of the list; order and nesting of its nodes."""
    c = Ctx(en)
    c.features('All')
    form = en.choose(['plain', 'namespace'], 'tags')
    nodes = en.choose([(), ('Range',), ('Gamma', 'Range', 'Gamma'), ('ASCCDL', ('Range', ('Log',)), 'Range'), (('Gamma', 'Range'), 'Range', ())], 'nodes')
    meta = en.choose(['none', 'attributes', 'elements', 'info'], 'metadata') if nodes in ((), ('Gamma', 'Range', 'Gamma')) else 'all'
    ids = []

    def node(x):
        nm = words(en, 'name%d' % len(ids))[0]
        ids.append(nm)
        if isinstance(x, tuple):
            g = c.call('Group', '16f', '10i', 'i', nm)
            for y in x: c.m(g, 'addProcess', node(y))
            return g
        n = c.call(x, '16f', '10i', 'i', nm)
        if x == 'Gamma': c.m(n, 'setGamma', en.const('g%d' % len(ids)))
        return n
    pl = c.call('ProcessList')
    for x in nodes: c.m(pl, 'addProcess', node(x))
    w = words(en, 'a0', 'a1', 'a2', 'a3', 'a4', 'e0', 'e1', 'e2', 'i0', 'i1')
    if meta in ('attributes', 'all'):
        for k, v in zip(('setName', 'setID', 'setInverseOf', 'setCompCLFversion'), w): c.m(pl, k, v)
        c.m(pl, 'setAttribute', 'custom', w[4])
    if meta in ('elements', 'all'):
        for k, v in zip(('Description', 'InputDescriptor', 'OutputDescriptor', 'Description'), w[5:8] + [w[5]]): c.m(pl, 'addElement', c.call(k, v))
    if meta in ('info', 'all'):
        which = en.choose([(1, 1), (1, 0), (0, 1), (0, 0)], 'info')
        c.m(pl, 'addElement', c.call('Info', w[8] if which[0] else '', w[9] if which[1] else ''))
    root = c.m(c.m(pl, 'write'), 'getroot')

    def mspec(x):
        if isinstance(x, tuple): return {'type': 'Group', 'nodes': [mspec(y) for y in x], 'name': 'g'}
        d = {'type': x, 'name': 'n', 'in': '16f', 'out': '10i'}
        d.update({'Range': dict(bounds=[None] * 4), 'Gamma': dict(style='basicFwd', params=[[1.5, 0.0, None]]), 'Log': dict(style='log10', params=[]), 'ASCCDL': dict(style='Fwd')}[x])
        return d
    case = lambda ev: {'kind': 'xml', 'nodes': [mspec(x) for x in nodes], 'attributes': [['name', 'a'], ['id', 'b'], ['inverseOf', 'c'], ['compCLFversion', '1.0'], ['custom', 'x']] if meta in ('attributes', 'all') else [],
                       'elements': [['Description', 'a'], ['InputDescriptor', 'b'], ['OutputDescriptor', 'c'], ['Description', 'd']] if meta in ('elements', 'all') else [],
                       'info': ['rel' if which[0] else '', 'copy' if which[1] else ''] if meta in ('info', 'all') else None, 'tag': {'namespace': 'ns', 'plain': 'plain'}[form], 'through': 'tree'}
    # what is written
    kids = en.st(children(en, root)).items
    texts = [(en.st(x).attrs['tag'], en.st(x).attrs['text']) for x in kids if en.st(x).attrs['tag'] in ('Description', 'InputDescriptor', 'OutputDescriptor')]
    want = [('Description', w[5]), ('InputDescriptor', w[6]), ('OutputDescriptor', w[7]), ('Description', w[5])] if meta in ('elements', 'all') else []
    oblige(en, 'descriptions and descriptors in order', len(texts) == len(want) and band(True, *[band(a == p, en.equal(b, q)) for (a, b), (p, q) in zip(texts, want)]), case)
    if meta in ('info', 'all'):
        inf = [x for x in kids if en.st(x).attrs['tag'] == 'Info']
        ok = len(inf) == 1
        oblige(en, 'one info element', ok, case)
        sub = [(en.st(x).attrs['tag'], en.st(x).attrs['text']) for x in en.st(children(en, inf[0])).items] if ok else []
        want = [(t, v) for t, v, f in zip(('AppRelease', 'Copyright'), w[8:10], which) if f]
        oblige(en, 'the info texts', len(sub) == len(want) and band(True, *[band(a == p, en.equal(b, q)) for (a, b), (p, q) in zip(sub, want)]), case)
    d = attrib(en, root)
    if meta in ('attributes', 'all'):
        for k, v in zip(('name', 'id', 'inverseOf', 'compCLFversion', 'custom'), w): oblige(en, 'the list\'s %s is written' % k, k in d and en.equal(d[k], v), case)
    first = fsmodel.FS.copy(fsmodel.attach(en), en, root)
    retag(en, root, form)
    q = c.call('ProcessList')
    c.m(q, 'read', root)
    if meta in ('attributes', 'all'):
        for k, v in zip(('getName', 'getID', 'getInverseOf', 'getCompCLFversion'), w): oblige(en, 'the list\'s %s' % k, en.equal(c.m(q, k), v), case)
        oblige(en, 'the custom attribute', en.equal(c.m(q, 'getAttribute', 'custom'), w[4]), case)
    at = [0]

    def same(obj, shape):
        ps = c.m(obj, 'getProcesses')
        oblige(en, 'as many nodes', eq(lib.seq_len(en, ps), len(shape)), case)
        for j, x in enumerate(shape):
            n = en.getitem(ps, j)
            cn = 'Group' if isinstance(x, tuple) else x
            oblige(en, 'class of node', en.st(n).cls == c[cn], case)
            oblige(en, 'name of node', en.equal(c.m(n, 'getAttribute', 'name'), ids[at[0]]), case)
            at[0] += 1
            if isinstance(x, tuple): same(n, x)
    same(q, nodes)
    again = c.m(c.m(q, 'write'), 'getroot')
    tree_no_white(en, first, again, case)


def tree_no_white(en, a, b, case, at='list'):
    x, y = en.st(a).attrs, en.st(b).attrs
    oblige(en, 'rewritten: tag in %s' % at, en.equal(x['tag'], y['tag']), case)
    p, q = attrib(en, a), attrib(en, b)
    oblige(en, 'rewritten: attributes of %s' % x['tag'], sorted(p) == sorted(q) and band(True, *[en.equal(p[k], q[k]) for k in p]), case)
    u, v = en.st(x['_children']).items, en.st(y['_children']).items
    oblige(en, 'rewritten: children of %s' % x['tag'], len(u) == len(v), case)
    if not u: oblige(en, 'rewritten: text of %s' % x['tag'], same_text(en, x['text'], y['text']), case)
    for i, j in zip(u, v): tree_no_white(en, i, j, case, x['tag'])


# ---------------------------------------------------------------- C20

AUTO = ('ExposureContrast', 'Gamma', 'Log', 'Reference')
PLAIN = ('Range', 'Matrix', 'ASC_CDL', 'ColorCorrection', 'LUT1D', 'LUT3D')
OTHER = ('Description', 'Info')
UNKNOWN = ('Mystery', 'range', 'LUT2D')
CLASSOF = {'ASC_CDL': 'ASCCDL', 'Dynamic': 'Range'}


def doc_child(en, x):
    """An element of a document; a list stands for a group."""
    if isinstance(x, tuple):
        g = element(en, 'Group')
        for y in x: en.call(en.getattr(g, 'append'), [doc_child(en, y)], {})
        return g
    el = element(en, 'Range' if x == 'Dynamic' else x)
    if x == 'Dynamic':
        d = element(en, 'DynamicParameter')
        en.call(en.getattr(d, 'set'), ['param', 'x'], {})
        en.call(en.getattr(el, 'append'), [d], {})
    if x not in OTHER:
        for k in ('inBitDepth', 'outBitDepth'): en.call(en.getattr(el, 'set'), [k, '16f'], {})
    if x == 'Description': en.setattr(el, 'text', 't')
    return el


def offences(items, auto, duiker):
    """Conditions under which strict reading must fail, with the errors that may be raised."""
    out = []
    for x in items:
        if isinstance(x, tuple): out += offences(x, auto, duiker) + [(bnot(duiker), 'UnsupportedExtensionError')]
        elif x in UNKNOWN: out.append((True, 'UnknownProcessNodeError'))
        elif x in AUTO + ('Dynamic',): out.append((bnot(auto), 'UnsupportedExtensionError'))
    return out


def known(items): return [x for x in items if x not in OTHER + UNKNOWN]


def check_doc(en, items, pre=False):
    c = Ctx(en)
    fs = fsmodel.attach(en)
    fs.oracle = lambda e, p: False
    strict = en.choose([True, False], 'strict')
    F = en.const('features', 'i')
    en.assume(band(le(0, F), le(F, 15)))
    bit = lambda k: mkbool((F.e / 2 ** k) % 2 == 1)
    auto, duiker = bit(0), bit(1)
    c.features(F)
    form = en.choose(['plain', 'namespace'], 'tags') if len(items) == 1 else 'plain'
    root = element(en, 'ProcessList')
    for x in items: en.call(en.getattr(root, 'append'), [doc_child(en, x)], {})
    retag(en, root, form)
    lst = lambda x: ['Group', [lst(y) for y in x]] if isinstance(x, tuple) else x
    ok = lambda x: all(ok(y) for y in x) if isinstance(x, tuple) else x in ('Mystery',) or x not in UNKNOWN
    case = lambda ev: {'kind': 'strict', 'doc': [lst(x) for x in items], 'features': int(ev(F)), 'strict': strict, 'how': {'keyword': 'read', 'init gzip': 'gzip'}.get(how, how), 'ns': form != 'plain'} if all(ok(x) for x in items) else None
    pl = c.call('ProcessList')
    if pre:
        m = en.const('m', 'i')
        en.assume(le(0, m))
        K.set_private(en, pl, '_processes', lists.node_list(en, m))
    off = offences(items, auto, duiker)
    fs.put(en, 'f.clf', fsmodel.Xml(root))
    fs.put(en, 'f.gz', fsmodel.Gz(fsmodel.Xml(root)))
    try:
        how = en.choose(['read', 'keyword', 'file', 'gzip', 'init', 'init gzip'] if not pre and not isinstance(items[0], tuple) else ['read', 'file'], 'how') if len(items) == 1 else 'read'
        if 'gzip' in how and not en.truth(duiker): return          # not a document without that set
        f = 'f.gz' if 'gzip' in how else 'f.clf'
        if how == 'read': c.m(pl, 'read', root, *([strict] if strict else []))
        elif how == 'keyword': c.m(pl, 'read', root, strict=strict)
        elif how.startswith('init'): pl = c.call('ProcessList', f, *([strict] if strict else []))
        else: c.m(pl, 'readFile', f, *([strict] if strict else []))
    except E_.PyRaise as x:
        nm = exc_name(en, x)
        oblige(en, 'an error only when reading strictly what is refused', strict and bor(False, *[o for o, e in off if e == nm]), case)
        return
    oblige(en, 'no error only when nothing is refused', bnot(bor(False, *[o for o, e in off])) if strict else True, case)

    def same(obj, shape, skip=0):
        ps = c.m(obj, 'getProcesses')
        oblige(en, 'as many nodes', eq(lib.seq_len(en, ps), add(len(shape), skip)), case)
        if pre and obj == pl:
            q = en.const('q', 'i')
            here = band(le(0, q), lt(q, m))
            if en.decide(here):
                y = en.getitem(ps, q)
                oblige(en, 'what the list held stays first', mkbool(y.e == lists.NODE(q.e)) if isinstance(y, Ab) else K.opaque(en, y), case)
        for j, x in enumerate(shape):
            n = en.getitem(ps, add(skip, j))
            oblige(en, 'known nodes in order', en.st(n).cls == c['Group' if isinstance(x, tuple) else CLASSOF.get(x, x)], case)
            if isinstance(x, tuple): same(n, known(x))
            if x == 'Dynamic': oblige(en, 'dynamic parameters are kept exactly with their set', mkbool(zb(en.truthval(c.m(n, 'getDynamicParam', 'x'))) == zb(auto)), case)
    same(pl, known(items), m if pre else 0)


ALLTAGS = PLAIN + AUTO + ('Dynamic',) + OTHER + UNKNOWN


@scenario('C20', 'one element')
def c20_one(en):
    check_doc(en, (en.choose(list(ALLTAGS), 'element'),), en.choose([False, True], 'any nodes before'))


@scenario('C20', 'one element in a group')
def c20_group(en):
    x = en.choose(list(ALLTAGS) + [()], 'element')
    check_doc(en, en.choose([((x,),), (((x,),),), ((x, 'Range'),), (('Range', x),)], 'nesting'))


@scenario('C20', 'two elements')
def c20_two(en):
    a = en.choose(list(ALLTAGS) + [('Gamma',)], 'first')
    b = en.choose(['Range', 'Gamma', 'Dynamic', 'Mystery', 'Description', ('Range',)], 'second')
    check_doc(en, (a, b) if en.choose([True, False], 'order') else (b, a))


@scenario('C20', 'three elements')
def c20_three(en):
    pool = ['Range', 'Log', 'Mystery', ('Log', 'Mystery'), ('Range',)]
    check_doc(en, tuple(en.choose(pool, w) for w in ('first', 'second', 'third')))


@scenario('C20', 'CDL styles')
def c20_cdl(en):
    c = Ctx(en)
    F = en.const('features', 'i')
    en.assume(band(le(0, F), le(F, 15)))
    auto = mkbool(F.e % 2 == 1)
    c.features(F)
    style = en.choose(['Fwd', 'Rev', 'FwdNoClamp', 'RevNoClamp', 'v1.2_Fwd', 'noClampFwd', 'v1.2_Rev', 'noClampRev'], 'style')
    node = c.call('ASCCDL', style=style)
    gated = style in ('v1.2_Fwd', 'noClampFwd', 'v1.2_Rev', 'noClampRev')
    s = en.choose([3, 4, 0], 'stride')
    case = lambda ev: {'kind': 'cdlgate', 'style': style, 'features': int(ev(F)), 'stride': s or 3}
    try:
        c.m(node, 'process', en.mklist(c.reals('x', s or 3)), s)
    except E_.PyRaise as x:
        oblige(en, 'an error only for an Autodesk style with its set off', gated and band(bnot(auto), exc_name(en, x) == 'UnsupportedExtensionError'), case)
        return
    oblige(en, 'no error only for a style that is allowed', True if not gated else auto, case)


# ---------------------------------------------------------------- C19

def features_any(en, c):
    F = en.const('features', 'i')
    en.assume(band(le(0, F), le(F, 15)))
    c.features(F)
    return F, mkbool(F.e % 2 == 1), mkbool((F.e / 2) % 2 == 1)


def file_case(ev, nodes, F): 
    names = {0: 'CLF', 1: 'Autodesk', 2: 'Duiker Research', 3: 'All'}
    return {'kind': 'file', 'nodes': nodes, 'values': [0.1, 0.4, 0.9, 0.3, 0.6, 1.0], 'stride': 3, 'features': names[int(ev(F)) % 4], 'text': 'plain', 'init': True, 'over': True}


RANGE = {'type': 'Range', 'in': '16f', 'out': '16f', 'style': 'clamp', 'bounds': [0.25, 0.5, 0.0, 1.0], 'name': 'a'}


@scenario('C19', 'writing any list')
def c19_write(en):
    """A list of any nodes: the file holds the tree that write makes, gzipped when asked for."""
    c, on, pl, m, v, s = lists.setup(en, 'ProcessList')
    fs = fsmodel.attach(en)
    F, auto, duiker = features_any(en, c)
    en.flags = en.alloc('flags', lists.FileS())
    gz, sc = en.choose([(a, b) for a in (False, True) for b in (False, True)], 'gzip, self-contained')
    path = en.choose(['a.clf', '/x/b.clfz', 'a.clf.gz'], 'path')
    nm = words(en, 'listname')[0]
    c.m(pl, 'setName', nm)
    case = lambda ev: file_case(ev, [RANGE], F)
    try:
        if gz or sc: c.m(pl, 'writeFile', path, sc, gz)
        else: c.m(pl, 'writeFile', path)
    except E_.PyRaise as x:
        oblige(en, 'refused only when gzipping with the set off', gz and band(bnot(duiker), exc_name(en, x) == 'UnsupportedExtensionError'), case)
        oblige(en, 'nothing is written when refused', path not in fs.content(en), case)
        return
    oblige(en, 'not refused only when allowed', duiker if gz else True, case)
    got = fs.content(en).get(path)
    oblige(en, 'only this file', set(fs.content(en)) == {path}, case)
    oblige(en, 'gzipped exactly when asked for', isinstance(got, fsmodel.Gz) == gz, case)
    if gz and isinstance(got, fsmodel.Gz): got = got.c
    ok = isinstance(got, fsmodel.Xml)
    oblige(en, 'an XML document', ok, case)
    if not ok: return
    oblige(en, 'a ProcessList', en.equal(en.st(got.root).attrs['tag'], 'ProcessList'), case)
    oblige(en, 'with its attributes', en.equal(attrib(en, got.root).get('name'), nm), case)
    ch = children(en, got.root)
    oblige(en, 'one element per node', eq(lib.seq_len(en, ch), m), case)
    j = en.const('j', 'i')
    en.assume(band(le(0, j), lt(j, m)))
    nd = lists.NODE(j.e)
    y = en.getitem(ch, j)
    oblige(en, 'element j is node j as written', mkbool(y.e == lists.WR(nd, z3.And(z3.BoolVal(sc), z3.Or(lists.KIND(nd) == 1, lists.KIND(nd) == 2)))) if isinstance(y, Ab) else K.opaque(en, y), case)


@scenario('C19', 'errors')
def c19_errors(en):
    """What reading a document raises does not depend on how the file holds it."""
    c = Ctx(en)
    fs = fsmodel.attach(en)
    fs.oracle = lambda e, p: False
    F, auto, duiker = features_any(en, c)
    strict, how = en.choose([(a, b) for a in (False, True) for b in ('readFile', 'init')], 'strict, how')
    doc = en.choose(['unknown', 'number', 'array', 'dims', 'extension', 'inner', 'fine', 'broken', 'absent'], 'document')
    root = element(en, 'ProcessList')
    put = lambda up, x: en.call(en.getattr(up, 'append'), [x], {})
    if doc == 'unknown': put(root, element(en, 'Unknown'))
    elif doc == 'extension': put(root, element(en, 'Log'))
    elif doc == 'inner':
        put(root, element(en, 'Group'))
        put(en.getitem(children(en, root), 0), element(en, 'Unknown'))
    elif doc == 'number':
        r = element(en, 'Range')
        t = element(en, 'minInValue')
        en.setattr(t, 'text', 'abc')
        put(r, t)
        put(root, r)
    elif doc in ('array', 'dims'):
        r, t = element(en, 'Matrix'), element(en, 'Array')
        en.call(en.getattr(t, 'set'), ['dim', 'a b' if doc == 'dims' else '1 2 3'], {})
        en.setattr(t, 'text', '0 x')
        put(r, t)
        put(root, r)
    else: put(root, element(en, 'Range'))
    x = fsmodel.Xml(root) if doc != 'broken' else 'not xml'
    if doc != 'absent':
        fs.put(en, 'plain', x)
        fs.put(en, 'zipped', fsmodel.Gz(x))
    docs = {'unknown': 0, 'number': 1, 'array': 2, 'dims': 3, 'extension': 4, 'broken': 6}

    def case(ev):
        f = {2: 'Duiker Research', 3: 'All'}.get(int(ev(F)) % 4)
        return {'kind': 'fileerr', 'doc': ['<ProcessList><Unknown/></ProcessList>', '<ProcessList><Range inBitDepth="16f" outBitDepth="16f"><minInValue>abc</minInValue></Range></ProcessList>',
                '<ProcessList><LUT1D><Array dim="2 1">0 x</Array></LUT1D></ProcessList>', '<ProcessList><Matrix><Array dim="a b">0 1</Array></Matrix></ProcessList>', '<ProcessList><Log/></ProcessList>', '', 'not xml'][docs[doc]], 'strict': strict, 'features': f} if f and doc in docs else None

    def go(f):
        try:
            if how == 'init': p = c.call('ProcessList', f, strict)
            else:
                p = c.call('ProcessList')
                c.m(p, 'readFile', f, strict)
            return 'none', p
        except E_.PyRaise as x: return exc_name(en, x), None
    a, p = go('plain')
    want = {'unknown': 'UnknownProcessNodeError' if strict else 'none', 'inner': None, 'number': 'ValueError', 'array': 'ValueError', 'dims': 'ValueError', 'fine': 'none', 'extension': None}.get(doc)
    if want: oblige(en, 'the plain file gives %s' % want, a == want, case)
    if doc in ('broken', 'absent'): oblige(en, 'no list comes from a broken or absent file', a != 'none', case)
    if not en.truth(duiker): return
    b, q = go('zipped')
    if doc in ('broken', 'absent'): oblige(en, 'nor from a zipped one', b != 'none', case)
    else: oblige(en, 'the same error', a == b, case)
    if p is not None and q is not None: tree_no_white(en, c.m(c.m(p, 'write'), 'getroot'), c.m(c.m(q, 'write'), 'getroot'), case)


@scenario('C19', 'lists read back')
def c19_back(en):
    c = Ctx(en)
    fs = fsmodel.attach(en)
    fs.oracle = lambda e, p: False
    kind = en.choose(['Range', 'ASCCDL', 'Gamma', 'ExposureContrast', 'Log', 'Group', 'Matrix', 'LUT1D', 'LUT3D', 'empty'], 'node')
    c.features('All')
    i, nm, d1, ln, dp = words(en, 'id', 'name', 'd1', 'listname', 'p1')
    pl = c.call('ProcessList')
    c.m(pl, 'setName', ln)
    c.m(pl, 'addElement', c.call('Description', d1))
    spec = []
    V = en.fn('V', 1)
    dims = None

    def small(cls):
        n = c.call(cls, '16f', '10i', i, nm)
        if cls == 'Range':
            b = c.reals('b', 2)
            c.m(n, 'setMinInValue', b[0])
            c.m(n, 'setMinOutValue', b[1])
            spec.append(lambda ev: {'type': 'Range', 'in': '16f', 'out': '10i', 'bounds': [spec_num(ev, b[0]), None, spec_num(ev, b[1]), None], 'name': 'a'})
        elif cls == 'ASCCDL':
            o = c.reals('o', 3)
            c.m(n, 'setOffset', *o)
            spec.append(lambda ev: {'type': 'ASCCDL', 'in': '16f', 'out': '10i', 'style': 'Fwd', 'offset': [spec_num(ev, x) for x in o], 'name': 'a'})
        elif cls == 'Gamma':
            g = en.const('g')
            en.assume(lt(0, g))
            c.m(n, 'setGamma', g)
            spec.append(lambda ev: {'type': 'Gamma', 'in': '16f', 'out': '10i', 'style': 'basicFwd', 'params': [[spec_num(ev, g), 0.0, None]], 'name': 'a'})
        elif cls == 'ExposureContrast':
            e = c.reals('e', 3)
            en.assume(lt(0, e[2]))
            c.m(n, 'setExposureContrastPivot', *e)
            spec.append(lambda ev: {'type': 'ExposureContrast', 'in': '16f', 'out': '10i', 'style': 'linear', 'params': [spec_num(ev, x) for x in e], 'name': 'a'})
        elif cls == 'Log':
            spec.append(lambda ev: {'type': 'Log', 'in': '16f', 'out': '10i', 'style': 'log10', 'params': [], 'name': 'a'})
        return n
    if kind == 'Group':
        n = c.call('Group', '16f', '10i', i, nm)
        c.m(n, 'addProcess', small('Range'))
        c.m(n, 'addProcess', small('Gamma'))
    elif kind in ('Matrix', 'LUT1D', 'LUT3D'):
        n = c.call(kind, '16f', '10i', i, nm)
        if kind == 'LUT1D':
            k_ = en.const('n', 'i')
            en.assume(le(2, k_))
            dims = [k_, 3]
            c.m(n, 'setArray', 3, en.mkcells((mul(k_, 3),), lambda ix: V(ix[0])))
        elif kind == 'LUT3D':
            d = [en.const('d%d' % j, 'i') for j in range(3)]
            for x in d: en.assume(le(2, x))
            dims = d + [3]
            c.m(n, 'setArray', en.mklist(d), en.mkcells((mul(mul(mul(d[0], d[1]), d[2]), 3),), lambda ix: V(ix[0])))
        else: c.m(n, 'setMatrix', en.mklist([3, 3, 3]), en.mkcells((9,), lambda ix: V(ix[0])))
    elif kind != 'empty': n = small(kind)
    if kind != 'empty':
        c.m(n, 'setDynamicParam', dp)
        c.m(pl, 'addProcess', n)
    F, auto, duiker = features_any(en, c)
    case = lambda ev: file_case(ev, [f(ev) for f in spec], F) if spec else None
    c.m(pl, 'writeFile', 'plain')
    # read under any features: what was written gzipped with the set on is read with it on
    reads = ['plain']
    if en.truth(duiker):
        c.m(pl, 'writeFile', 'zipped', False, True)
        reads.append('zipped')
    init = en.choose([True, False], 'by the constructor')
    qs = []
    for f in reads:
        if init: q = c.call('ProcessList', f)
        else:
            q = c.call('ProcessList')
            c.m(q, 'readFile', f)
        qs.append(q)
    c.features('All')
    for f, q in zip(reads, qs):
        oblige(en, 'the name', en.equal(c.m(q, 'getName'), ln), case)
        ps = c.m(q, 'getProcesses')
        oblige(en, 'as many nodes', eq(lib.seq_len(en, ps), 0 if kind == 'empty' else 1), case)
        if kind == 'empty' or lib.seq_len(en, ps) != 1: continue
        new = en.getitem(ps, 0)
        oblige(en, 'the same class', en.st(new).cls == en.st(n).cls, case)
        for k in KEYS: oblige(en, 'attribute %s' % k, en.equal(c.m(n, 'getAttribute', k), c.m(new, 'getAttribute', k)), case)
        if dims: lut_checks(en, c, n, new, KEYS, dims, V, case)
        elif kind == 'Matrix':
            for j in range(4):
                x = [real(1.0 if k == j else 0.0) for k in range(3)]
                a, b = [c.m(z, 'process', en.mklist(x), 3) for z in (n, new)]
                for k in range(3):
                    p, q_ = en.getitem(a, k), en.getitem(b, k)
                    oblige(en, 'the matrix to within 1e-9', band(le(p - q_, real(2e-6)), le(q_ - p, real(2e-6))), case)
        else:
            px = c.reals('x', 3)
            a, b = [outcome(en, lambda: c.m(z, 'process', en.mklist(px), 3)) for z in (pl, q)]
            if isinstance(a, str) or isinstance(b, str): oblige(en, 'the same error', isinstance(a, str) and isinstance(b, str) and a == b, case)
            else:
                for k in range(3): oblige(en, 'channel %d: the file and the list agree' % k, eq(en.getitem(a, k), en.getitem(b, k)), case)
    if len(qs) == 2 and not dims and kind != 'Matrix': tree_no_white(en, *[c.m(c.m(q, 'write'), 'getroot') for q in qs] + [case])
