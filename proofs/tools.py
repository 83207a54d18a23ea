"""Proof scenarios of the command line tools (C29): their options and what they do with them."""
import z3
from pyvc import lib
from pyvc import engine as E_
from pyvc.vals import *
from pyvc.sym import Sym, Ctx, oblige
from pyvc import contracts as K
from .luts import ext, with_contract, clf_name

O = AbSort
SCEN = {}


def scenario(name, module):
    def deco(fn):
        fn.modules = (module,)
        SCEN.setdefault('C29', []).append((name, fn, ()))
        return fn
    return deco


class Opaque(object):
    """A value nobody looks into."""


def opaque(name): return Ab(z3.Const(name, O), Opaque())


def kept_list(en, seen):
    """Reading a list only notes what is read into what."""
    def readFile(en_, l): seen.append((l['self'], l['clfPath']))
    with_contract(en, 'ProcessList.ProcessList.readFile', readFile)


def same(en, a, b):
    """Equal values; sequences element by element, whatever their kind."""
    if isinstance(b, list):
        if a is None or isnum(a) or isinstance(a, (str, T)): return False
        xs = en.items(a)
        return len(xs) == len(b) and band(*[same(en, x, y) for x, y in zip(xs, b)])
    if isinstance(b, E_.Ref): return isinstance(a, E_.Ref) and a.id == b.id
    if isinstance(b, Ab): return isinstance(a, Ab) and mkbool(a.e == b.e)
    if b is None: return a is None
    if a is None: return False
    return en.equal(a, b)


def span(ev, lo, hi):
    """The counter-model's range if it is one, otherwise another."""
    lo, hi = float(ev(lo)), float(ev(hi))
    return [lo, hi] if -16 <= lo < hi <= 16 else [0.25, 2.0]


@scenario('convertCLFtoLUT', 'aces.convertCLFtoLUT')
def clf_to_lut(en):
    c = Ctx(en, 'aces.convertCLFtoLUT')
    fmt = en.choose([None, '1D', '3D', '1D_3D_1D'], 'data format')
    cli, n = {}, {x: en.const(x, 'i') for x in ('r1', 'r3', 'a', 'b', 'd')}
    f = {x: en.const(x) for x in ('lo', 'hi', 'i0', 'i1', 'o0', 'o1')}
    paths = en.choose(['both', 'both', 'no lut', 'no clf'], 'paths') if fmt is None else 'both'
    long = en.choose([True, False], 'long names')
    if paths != 'no clf': cli['--clf' if long else '-c'] = 'dir/in.clf'
    if paths != 'no lut': cli['--lut' if long else '-l'] = 'out/x.spi1d'
    if fmt: cli[{'1D': '--generate1d', '3D': '--generate3d', '1D_3D_1D': '--generate1d3d1d'}[fmt]] = True
    want = {'lutPath': 'out/x.spi1d', 'lutDataFormat': fmt or '1D'}
    if fmt in (None, '1D', '3D'):
        if en.choose([False, True], 'range'): cli['--inputMinValue'], cli['--inputMaxValue'] = f['lo'], f['hi']
        elif en.choose([False, True], 'maximum'): cli['--inputMaxValue'] = f['hi']
        want['inputMin'], want['inputMax'] = cli.get('--inputMinValue', real(0)), cli.get('--inputMaxValue', real(1))
    if fmt in (None, '1D'):
        if en.choose([False, True], 'resolution'): cli['--lutResolution1d'] = n['r1']
        want['lutResolution1d'] = cli.get('--lutResolution1d', 1024)
    elif fmt == '3D':
        if en.choose([False, True], 'resolution'): cli['--lutResolution3d'] = n['r3']
        want['lutResolution3d'] = cli.get('--lutResolution3d', 33)
    else:
        if en.choose([False, True], 'resolution'): cli['--lutResolution1d3d1d'] = [n['a'], n['b'], n['d']]
        want['lutResolution1d3d1d'] = cli.get('--lutResolution1d3d1d', [1024, 33, 2])
        if en.choose([False, True], 'shaper in'): cli['--shaperIn'] = ['log2', f['i0'], f['i1']]
        if en.choose([False, True], 'shaper out'): cli['--shaperOut'] = ['linear', f['o0'], f['o1']]
        want['shaperIn'] = cli.get('--shaperIn', [None, real(0), real(1)])
        want['shaperOut'] = cli.get('--shaperOut', [None, real(0), real(1)])
    if en.choose([False, True], 'format named'): cli['--format'] = 'clf'
    en.cli = cli
    seen, wrote = [], []
    kept_list(en, seen)
    def write(en_, l): wrote.append(dict(l))
    with_contract(en, 'Registry.Registry.write', write)
    c.call('main')
    if paths != 'both':
        oblige(en, 'nothing is written without both paths', not wrote)
        return
    oblige(en, 'one file is written', len(wrote) == 1)
    if len(wrote) != 1: return
    w = wrote[0]
    case = lambda ev: {'kind': 'clicl2lut', 'fmt': fmt, 'res': [5, 3, 4, 3, 2], 'range': [-0.5, 1.5], 'short': True, 'missing': None,
                       'ext': {'3D': 'spi3d', '1D_3D_1D': 'csp'}.get(fmt, 'spi1d'), 'given': ['res', 'lo', 'hi', 'in', 'out'],
                       'in': ['linear'] + span(ev, f['i0'], f['i1']), 'out': ['linear'] + span(ev, f['o0'], f['o1'])}
    oblige(en, 'the list read from the named file', any(isinstance(w['processList'], E_.Ref) and w['processList'].id == l.id and p == 'dir/in.clf' for l, p in seen))
    for k, x in want.items(): oblige(en, 'the %s asked for' % k, same(en, w[k], x), case)


@scenario('convertLUTtoCLF', 'aces.convertLUTtoCLF')
def lut_to_clf(en):
    c = Ctx(en, 'aces.convertLUTtoCLF')
    flags = {x: en.choose([False, True], x) for x in ('inverse', 'inversesUseIndexMaps', 'inversesUseHalfDomain')}
    paths, ok = en.choose(['both', 'no lut', 'no clf'], 'paths'), en.choose([True, False], 'readable')
    long = en.choose([True, False], 'long names')
    cli = {'--' + k: True for k, v in flags.items() if v}
    if paths != 'no clf': cli['--clf' if long else '-c'] = 'out/x.clf'
    if paths != 'no lut': cli['--lut' if long else '-l'] = 'dir/in.csp'
    en.cli = cli
    lc = Ctx(en, 'aces.lutFormats')
    seen, wrote = [], []

    def read(en_, l):
        for k, x in list(flags.items()) + [('lutPath', 'dir/in.csp'), ('interpolation', 'linear'), ('returnProcessNodes', False)]:
            oblige(en, 'the file is read with %s' % k, same(en, l[k], x))
        if not ok: return None
        pl = lc.call(en.getattr(lc['clf'], 'ProcessList'))
        lc.m(pl, 'addProcess', lc.call(en.getattr(lc['clf'], 'Range'), '16f', '16f', 'r', 'r'))
        seen.append(pl)
        return pl
    with_contract(en, 'Registry.Registry.read', read)
    def writeFile(en_, l): wrote.append((l['self'], l['clfPath']))
    with_contract(en, 'ProcessList.ProcessList.writeFile', writeFile)
    c.call('main')
    if paths != 'both' or not ok:
        oblige(en, 'nothing is written', not wrote)
        return
    oblige(en, 'the list that was read is written to the named file',
           len(wrote) == 1 and len(seen) == 1 and wrote[0][0].id == seen[0].id and wrote[0][1] == 'out/x.clf')


@scenario('convertOCIOtoCLF: options', 'aces.convertOCIOtoCLF')
def ocio_main(en):
    c = Ctx(en, 'aces.convertOCIOtoCLF')
    flags = {x: en.choose([False, True], x) for x in ('inversesUseIndexMaps', 'inversesUseHalfDomain')}
    src, dst = en.choose([[], ['A']], 'source'), en.choose([[], ['B']], 'destination')
    paths = en.choose(['both', 'no config', 'no output'], 'paths')
    long = en.choose([True, False], 'long names')
    cli = {'--' + k: True for k, v in flags.items() if v}
    if src: cli['--source' if long else '-s'] = src[0]
    if dst: cli['--destination' if long else '-d'] = dst[0]
    if paths != 'no config': cli['--config' if long else '-c'] = 'cfg/config.ocio'
    if paths != 'no output': cli['--output' if long else '-o'] = 'out/x.clf'
    en.cli = cli
    seen = []
    def conv(en_, l): seen.append({k: en.items(v) if isinstance(v, E_.Ref) else v for k, v in l.items()})
    with_contract(en, 'convertOCIOtoCLF.convertOCIOtoCLF', conv)
    c.call('main')
    if paths != 'both' or not (src or dst):
        oblige(en, 'nothing is converted without paths or colour spaces', not seen)
        return
    want = dict(flags, configPath='cfg/config.ocio', clfPath='out/x.clf', sourceColorSpaceNames=src, destColorSpaceNames=dst)
    oblige(en, 'one conversion', len(seen) == 1)
    for k, x in want.items(): oblige(en, 'with the %s asked for' % k, len(seen) == 1 and seen[0][k] == x)


class Config(object):
    """An OCIO configuration: a search path and named colour spaces with a transform per direction."""
    def __init__(self, search): self.search = search

    def getattr(self, en, v, name):
        if name == 'getSearchPath': return ext(name, lambda: self.search)
        if name == 'getColorSpace': return ext(name, lambda n: Ab(z3.Const('space', O), Space(n)))
        raise Unsupported('%s of a configuration' % name)


class Space(object):
    def __init__(self, name): self.name = name

    def getattr(self, en, v, name):
        if name == 'getTransform': return ext(name, lambda d: Ab(z3.Const('transform!%s!%s' % (self.name, d), O), Opaque()))
        raise Unsupported('%s of a colour space' % name)


@scenario('convertOCIOtoCLF: the list', 'aces.convertOCIOtoCLF')
def ocio_list(en):
    """Bounded: up to two colour spaces per side whose transforms give none to two nodes."""
    c = Ctx(en, 'aces.convertOCIOtoCLF')
    src, dst = en.choose([(a, b) for a in ([], ['A'], ['A', 'B'], ['A', 'A']) for b in ([], ['B'], ['C', 'B'])], 'colour spaces')
    counts = en.choose([(1, 1, 1, 1), (3, 1, 2, 0), (0, 2, 0, 1), (0, 0, 0, 0)], 'nodes per transform')
    maps, half = en.choose([False, True], 'index maps'), en.choose([False, True], 'half domain')
    base, search = en.choose([('cfg/config.ocio', 'luts'), ('/x/config.ocio', 'a/b')], 'configuration')
    cfgs = []

    def create(p):
        cfgs.append(p)
        return Ab(z3.Const('config', O), Config(search))
    O_ = en.extmods['PyOpenColorIO'].attrs
    O_['Config'].attrs['CreateFromFile'] = ext('CreateFromFile', create)
    O_['Constants'].attrs.update(COLORSPACE_DIR_TO_REFERENCE='to', COLORSPACE_DIR_FROM_REFERENCE='from')
    plan = [(s, 'to', '%s to reference - node %d' % (s, 0), 'Convert %s to reference' % s) for s in src] + \
           [(s, 'from', 'reference to %s - node %d' % (s, 0), 'Convert reference to %s' % s) for s in dst]
    made, calls, wrote = [], [], []

    def conv(en_, l):
        i = len(calls)
        calls.append(l['ocioTransform'])
        for k, x in (('lutSearchPath', base[:base.rindex('/')] + '/' + search), ('inversesUseIndexMaps', maps), ('inversesUseHalfDomain', half)):
            oblige(en, 'transforms are converted with %s' % k, same(en, l[k], x))
        out = [c.call(en.getattr(c['clf'], 'Range'), '16f', '16f', 'n%d_%d' % (i, j), 'old') for j in range(counts[i % 4])]
        made.append(out)
        return en.mklist(out)
    with_contract(en, 'convertOCIOtoCLF.convertTransformsToProcessNodes', conv)
    def writeFile(en_, l): wrote.append((l['self'], l['clfPath']))
    with_contract(en, 'ProcessList.ProcessList.writeFile', writeFile)
    c.call('convertOCIOtoCLF', base, c.lst(src), c.lst(dst), 'out/x.clf', maps, half)
    oblige(en, 'the configuration named', cfgs == [base])
    order = ['transform!%s!%s' % (s, d) for s, d, _, _ in plan]
    got = [str(t.e) if isinstance(t, Ab) else None for t in calls]
    oblige(en, 'sources to the reference, then the reference to the destinations', got == order)
    nodes = [nd for out in made for nd in out]
    if not nodes:
        oblige(en, 'no file without nodes', not wrote)
        return
    oblige(en, 'one file', len(wrote) == 1 and wrote[0][1] == 'out/x.clf')
    if len(wrote) != 1 or got != order: return
    ps = en.items(c.m(wrote[0][0], 'getProcesses'))
    oblige(en, 'all nodes, in order', [p.id for p in ps] == [p.id for p in nodes])
    for (s, d, _, text), out in zip(plan, made):
        for j, nd in enumerate(out):
            name = ('%s to reference - node %d' if d == 'to' else 'reference to %s - node %d') % (s, j)
            oblige(en, 'nodes are named after their colour space', same(en, c.m(nd, 'getAttribute', 'name'), name))
            ds = [K.private(en, x, '_comment') for x in en.items(K.private(en, nd, '_elements')) if clf_name(en, c, x) == 'Description']
            oblige(en, 'nodes are described', text in ds)


@scenario('filterImageWithCLF', 'aces.filterImageWithCLF')
def filter_main(en):
    c = Ctx(en, 'aces.filterImageWithCLF')
    cpus = 8
    m, q = en.const('m', 'i'), en.const('q', 'i')
    cli = {}
    paths = en.choose(['all', 'no input', 'no output', 'no clf'], 'paths')
    long = en.choose([True, False], 'long names')
    if paths != 'no input': cli['--input' if long else '-i'] = 'a.exr'
    if paths != 'no output': cli['--output' if long else '-o'] = 'b.exr'
    if paths != 'no clf': cli['--clf' if long else '-c'] = 'l.clf'
    if en.choose([False, True], 'verbose'): cli['--verbose' if long else '-v'] = True
    if en.choose([False, True], 'threads'): cli['--multithreaded' if long else '-m'] = m
    d = en.choose([None, '8i', '10i', '12i', '16i', '16f', '32f'], 'depth')
    if d: cli['--outputBitDepth'] = d
    if en.choose([False, True], 'compression'): cli['--compression'], cli['--quality'] = 'zip', q
    en.cli = cli
    seen, got = [], []
    kept_list(en, seen)
    def filt(en_, l): got.append(dict(l))
    with_contract(en, 'filterImageWithCLF.filterImageWithCLF', filt)
    c.call('main')
    if paths != 'all':
        oblige(en, 'nothing is filtered without the three paths', not got)
        return
    oblige(en, 'one image is filtered', len(got) == 1)
    if len(got) != 1: return
    g = got[0]
    oblige(en, 'through the list read from the named file', any(isinstance(g['processList'], E_.Ref) and g['processList'].id == l.id and p == 'l.clf' for l, p in seen))
    threads = real_int(m, cpus) if cli.get('--multithreaded' if long else '-m') is not None else cpus
    want = {'inputPath': 'a.exr', 'outputPath': 'b.exr', 'outBitDepth': d, 'multithreaded': threads,
            'compression': cli.get('--compression'), 'compressionQuality': cli.get('--quality', -1)}
    for k, x in want.items(): oblige(en, 'with the %s asked for' % k, same(en, g[k], x))
    oblige(en, 'verbose as asked', g['verbose'] is bool(cli.get('--verbose' if long else '-v', False)))


def real_int(m, cpus): return ite(lt(m, 1), 1, ite(lt(cpus, m), cpus, m))


@scenario('writing a list in a format', 'aces.lutFormats')
def format_write(en):
    """A format's writer is handed the samples of the list, the grid they were taken on and its limits."""
    c = Ctx(en, 'aces.lutFormats')
    LF = c['LutFormat']
    base = en.getattr(LF, 'LutFormat')
    style = en.choose(['write1D', 'write3D', 'write1D3D1D', 'read'], 'style')
    r1, r3 = en.const('r1', 'i'), en.const('r3', 'i')
    a, b, d = en.const('a', 'i'), en.const('b', 'i'), en.const('d', 'i')
    lo, hi = en.const('lo'), en.const('hi')
    pl = opaque('list')
    si, so = ['linear', en.const('i0'), en.const('i1')], ['log2', en.const('o0'), en.const('o1')]
    res = c.lst([a, b, d])
    got, ok = [], en.choose([True, False], 'written')
    t = [opaque('t%d' % i) for i in range(7)]

    def asked(l, **w):
        for k, x in w.items(): oblige(en, 'the list is sampled with %s' % k, same(en, l[k], x))

    def s1(en_, l):
        asked(l, processList=pl, lutResolution1d=r1, inputMin=lo, inputMax=hi)
        return t[0]

    def s3(en_, l):
        asked(l, processList=pl, lutResolution3d=[r3, r3, r3], inputMin=lo, inputMax=hi)
        return t[1]

    def s131(en_, l):
        asked(l, processList=pl, lutResolution1d3d1d=[a, [b, b, b], d], shaperIn=si, shaperOut=so)
        return tuple(t)
    for nm, fn in (('sample1D', s1), ('sample3D', s3), ('sample1D3D1D', s131)): with_contract(en, 'Sampling.' + nm, fn)

    def writer(nm):
        def fn(en_, l):
            got.append((nm, dict(l)))
            return ok
        return fn
    for nm in ('write1D', 'write3D', 'write1D3D1D'): with_contract(en, 'LutFormat.LutFormat.' + nm, writer(nm))
    r = c.m(base, 'write', pl, 'x.out', style, r1, r3, res, lo, hi, c.lst(si), c.lst(so))
    if style == 'read':
        oblige(en, 'nothing is written in another style', not got and r is False)
        return
    oblige(en, 'one file in the style asked for', [g[0] for g in got] == [style])
    if len(got) != 1 or got[0][0] != style: return
    want = {'write1D': dict(samples=t[0], lutResolution1d=r1, inputMin=lo, inputMax=hi),
            'write3D': dict(samples=t[1], lutResolution3d=[r3] * 3, inputMin=lo, inputMax=hi),
            'write1D3D1D': dict(zip(('samples1dIn', 'inputMin', 'inputMax', 'samples3d', 'samples1dOut', 'outputMin', 'outputMax'), t),
                                lutResolution1dIn=a, lutResolution3d=[b] * 3, lutResolution1dOut=d)}[style]
    for k, x in dict(want, lutPath='x.out').items(): oblige(en, 'written with %s' % k, same(en, got[0][1][k], x))
    oblige(en, 'success is reported', r is ok)
    oblige(en, 'the resolutions handed in are left alone', same(en, res, [a, b, d]))
