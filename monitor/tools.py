"""Kinds for C29: the command line tools, run through their main functions."""
import gzip
from .base import *
from .nodes import *
from . import luts
from .luts import tool, ocio, gen_tame, rebuild, Oiio, _tools
import numpy as np


class argv(object):
    def __init__(self, args): self.args = args
    def __enter__(self):
        self.old, sys.argv = sys.argv, ['tool'] + [str(a) for a in self.args]
    def __exit__(self, *a): sys.argv = self.old


def main(M, args):
    with argv(args):
        try: M.main()
        except SystemExit as e: raise AssertionError('the options %s were refused: %s' % (args, e))


def clf_tool(name): return tool(name, 'nothing_at_all', types_module())


def types_module():
    import types
    return types.ModuleType('nothing_at_all')


def read(path):
    return open(path, 'rb').read() if os.path.exists(path) else None


def wrote(cl, nodes, path):
    p = cl.ProcessList()
    p.setID('x')
    p.setCompCLFversion(1.0)
    for s in nodes: p.addProcess(rebuild(cl, s))
    p.writeFile(path)


EXTS = {'1D': ['spi1d', 'csp', 'ctl'], '3D': ['spi3d', 'csp', 'ctl'], '1D_3D_1D': ['csp', 'clf'], None: ['spi1d']}


@kind('clicl2lut', [('C29', 60, 400)])
class CliClfToLut(object):
    @staticmethod
    def gen(rng, i):
        fmt = ['1D', '3D', '1D_3D_1D', None][i % 4]
        lo = round(rng.uniform(-1, 0.5), 3)
        return {'fmt': fmt, 'ext': pick(rng, EXTS[fmt]), 'res': [rng.randint(3, 9), rng.randint(2, 4), rng.randint(3, 6), rng.randint(2, 4), rng.randint(2, 5)],
                'range': [lo, lo + rng.randint(1, 4)], 'given': [g for g in ('res', 'lo', 'hi', 'in', 'out', 'format') if rng.random() < 0.7],
                'short': rng.random() < 0.5, 'missing': pick(rng, [None] * 6 + ['clf', 'lut']),
                'in': pick(rng, [['log2', -6.0, 3.5], ['linear', 0.125, 4.0], ['log2', -8.5, 0.75], ['linear', -1.5, 0.5]]),
                'out': pick(rng, [['linear', -0.25, 2.0], ['linear', 0.25, 3.0], ['log2', -4.0, 2.5], ['log2', 0.5, 6.0]])}

    @staticmethod
    def check(c):
        M = clf_tool('convertCLFtoLUT')
        L = M.lutFormats
        given, fmt = c['given'], c['fmt']
        if fmt in ('3D', '1D_3D_1D') and 'res' not in given: given = given + ['res']     # the default is slow
        kw, args = {}, []
        if fmt: args.append({'1D': '--generate1d', '3D': '--generate3d', '1D_3D_1D': '--generate1d3d1d'}[fmt])
        if fmt != '1D_3D_1D':
            if 'lo' in given:
                args += ['--inputMinValue=%r' % c['range'][0]]
                kw['inputMin'] = c['range'][0]
            if 'hi' in given:
                args += ['--inputMaxValue', c['range'][1]]
                kw['inputMax'] = c['range'][1]
        if 'res' in given:
            if fmt in (None, '1D'):
                args += ['--lutResolution1d', c['res'][0]]
                kw['lutResolution1d'] = c['res'][0]
            elif fmt == '3D':
                args += ['--lutResolution3d', c['res'][1]]
                kw['lutResolution3d'] = c['res'][1]
            else:
                args += ['--lutResolution1d3d1d'] + c['res'][2:]
                kw['lutResolution1d3d1d'] = c['res'][2:]
        if fmt == '1D_3D_1D':
            kw['shaperIn'], kw['shaperOut'] = [None, 0.0, 1.0], [None, 0.0, 1.0]
            if 'in' in given:
                args += ['--shaperIn'] + [str(x) for x in c['in']]
                kw['shaperIn'] = c['in']
            if 'out' in given:
                args += ['--shaperOut'] + [str(x) for x in c['out']]
                kw['shaperOut'] = c['out']
        if 'format' in given: args += ['-f' if c['short'] else '--format', 'ctl']
        with Scratch() as d:
            src, out, ref = [os.path.join(d, x) for x in ('in.clf', 'out.' + c['ext'], 'ref.' + c['ext'])]
            wrote(M.clf, [{'type': 'Matrix', 'in': '16f', 'out': '16f', 'dims': [3, 3], 'm': [0.5, 0.25, 0.0, 0.0, 1.0, 0.125, 0.25, 0.0, 0.75]}], src)
            if c['missing'] != 'clf': args += ['-c' if c['short'] else '--clf', src]
            if c['missing'] != 'lut': args += ['-l' if c['short'] else '--lut', out]
            main(M, args)
            if c['missing']:
                expect(not os.path.exists(out), 'a file was written without', c['missing'])
                return
            L.Registry.write(M.clf.ProcessList(src), ref, fmt or '1D', **kw)
            expect(read(ref) is not None, 'no reference')
            expect(read(out) is not None, 'no file was written for', args)
            expect(read(out) == read(ref), 'convertCLFtoLUT', args, 'wrote', read(out)[:300], 'for', read(ref)[:300])


@kind('clilut2clf', [('C29', 60, 400)])
class CliLutToClf(object):
    @staticmethod
    def gen(rng, i):
        return {'flags': [f for f in ('inverse', 'inversesUseIndexMaps', 'inversesUseHalfDomain') if rng.random() < 0.5 and (f != 'inversesUseHalfDomain' or i % 10 == 0)],
                'n': rng.randint(2, 6), 'gap': round(rng.uniform(0.1, 0.9), 3), 'short': rng.random() < 0.5,
                'missing': pick(rng, [None] * 6 + ['clf', 'lut', 'file'])}

    @staticmethod
    def check(c):
        M = clf_tool('convertLUTtoCLF')
        with Scratch() as d:
            src, out, ref = [os.path.join(d, x) for x in ('in.spi1d', 'out.clf', 'ref.clf')]
            n = c['n']
            with open(src, 'w') as fp:
                fp.write('Version 1\nFrom 0.0 %r\nLength %d\nComponents 1\n{\n%s\n}\n' % (2.0, n, '\n'.join('%r' % (k * k * c['gap']) for k in range(n))))
            args = ['--' + f for f in c['flags']]
            lut = os.path.join(d, 'x.unknown') if c['missing'] == 'file' else src
            if c['missing'] != 'clf': args += ['-c' if c['short'] else '--clf', out]
            if c['missing'] != 'lut': args += ['-l' if c['short'] else '--lut', lut]
            main(M, args)
            if c['missing']:
                expect(not os.path.exists(out), 'a file was written without', c['missing'])
                return
            p = M.lutFormats.Registry.read(src, 'inverse' in c['flags'], 'linear', 'inversesUseIndexMaps' in c['flags'], 'inversesUseHalfDomain' in c['flags'])
            p.writeFile(ref)
            expect(read(out) is not None, 'no file was written for', args)
            expect(read(out) == read(ref), 'convertLUTtoCLF', args, 'wrote', read(out)[:600], 'for', read(ref)[:600])


@kind('cliocio', [('C29', 60, 400)])
class CliOcio(object):
    @staticmethod
    def gen(rng, i):
        names = ['A', 'lin b', 'C']
        spaces = {}
        for nm in names:
            for d in ('to', 'from'):
                spaces[nm + '/' + d] = [pick(rng, [['m', round(rng.uniform(-2, 2), 3)], ['l', pick(rng, [2, 10]), pick(rng, ['forward', 'inverse'])],
                                                  ['f', pick(rng, ['forward', 'inverse'])], ['x']]) for _ in range(rng.randint(0, 3))]
        return {'spaces': spaces, 'src': [pick(rng, names) for _ in range(rng.randint(0, 3))], 'dst': [pick(rng, names) for _ in range(rng.randint(0, 3))],
                'maps': rng.random() < 0.5, 'missing': pick(rng, [None] * 6 + ['config', 'output'])}

    @staticmethod
    def check(c):
        stub, M = ocio()
        with Scratch() as d:
            os.mkdir(os.path.join(d, 'luts'))
            f = os.path.join(d, 'luts', 'a.spi1d')
            with open(f, 'w') as fp: fp.write('Version 1\nFrom 0 1\nLength 3\nComponents 1\n{\n0\n0.25\n1\n}\n')

            def mk(t):
                if t[0] == 'm': return stub.MatrixTransform([t[1], 0., 0., 0., 0., 1., 0., 0., 0., 0., 1., 0., 0., 0., 0., 1.], [0.0] * 4, 'forward')
                if t[0] == 'l': return stub.LogTransform(t[1], t[2])
                if t[0] == 'f': return stub.FileTransform('a.spi1d', 'linear', t[1])
                return stub.Other()

            class Space(object):
                def __init__(self, n): self.n = n
                def getTransform(self, direction): return stub.GroupTransform([mk(t) for t in c['spaces'][self.n + '/' + direction]])

            class Config(object):
                @staticmethod
                def CreateFromFile(p):
                    expect(p == os.path.join(d, 'config.ocio'), 'the configuration', p)
                    return Config()
                def getSearchPath(self): return 'luts'
                def getColorSpace(self, n): return Space(n)

            class Constants(object):
                COLORSPACE_DIR_TO_REFERENCE, COLORSPACE_DIR_FROM_REFERENCE = 'to', 'from'
            stub.Config, stub.Constants = Config, Constants
            out, args = os.path.join(d, 'out.clf'), []
            if c['missing'] != 'config': args += ['-c', os.path.join(d, 'config.ocio')]
            if c['missing'] != 'output': args += ['--output', out]
            for s in c['src']: args += ['-s', s]
            for s in c['dst']: args += ['--destination', s]
            if c['maps']: args.append('--inversesUseIndexMaps')
            main(M, args)
            want = []
            for side, names in (('to', c['src']), ('from', c['dst'])):
                for s in names:
                    pns = []
                    for t in c['spaces'][s + '/' + side]:
                        pns += M.convertTransformsToProcessNodes(mk(t), os.path.join(d, 'luts'), c['maps'], False)
                    want += [(p, ('%s to reference - node %d' if side == 'to' else 'reference to %s - node %d') % (s, k),
                              ('Convert %s to reference' if side == 'to' else 'Convert reference to %s') % s) for k, p in enumerate(pns)]
            if c['missing'] or not want:
                expect(not os.path.exists(out), 'a file was written without', c['missing'] or 'nodes')
                return
            expect(os.path.exists(out), 'no file was written for', args)
            got = M.clf.ProcessList(out).getProcesses()
            expect([type(p).__name__ for p in got] == [type(w[0]).__name__ for w in want], 'nodes', [type(p).__name__ for p in got], 'for', [w[1] for w in want])
            text = read(out).decode('utf-8')
            px = [0.3, 0.55, 0.8]
            for p, (w, name, descr) in zip(got, want):
                expect(p.getAttribute('name') == name, 'node name', p.getAttribute('name'), 'for', name)
                expect(any(getattr(e, '_comment', None) == descr for e in p._elements) if hasattr(p, '_elements') else descr in text, 'description', descr)
                a, b = p.process(np.array(px, np.float32), 3), w.process(np.array(px, np.float32), 3)
                expect(all(close(x, y, 1e-5, 1e-5) for x, y in zip(a, b)), name, 'maps', px, 'to', list(a), 'for', list(b))


@kind('clifilter', [('C29', 60, 300)])
class CliFilter(object):
    @staticmethod
    def gen(rng, i):
        return {'threads': pick(rng, [None, -3, 0, 1, 2, 64]), 'depth': pick(rng, [None, '8i', '10i', '12i', '16i', '16f', '32f']), 'verbose': rng.random() < 0.5,
                'compression': pick(rng, [None, 'zip', 'lzw']), 'quality': pick(rng, [None, 55]), 'short': rng.random() < 0.5,
                'missing': pick(rng, [None] * 6 + ['input', 'output', 'clf'])}

    @staticmethod
    def check(c):
        import inspect, multiprocessing
        stub = _tools.get('oiio')
        if stub is None: stub = _tools['oiio'] = Oiio()
        M = tool('filterImageWithCLF', 'OpenImageIO', stub)
        calls, old = [], M.filterImageWithCLF
        sig = inspect.signature(old)

        def record(*a, **k):
            b = sig.bind(*a, **k)
            b.apply_defaults()
            calls.append(dict(b.arguments))
        with Scratch() as d:
            src = os.path.join(d, 'l.clf')
            wrote(M.clf, [{'type': 'Matrix', 'in': '16f', 'out': '16f', 'dims': [3, 3], 'm': [0.5, 0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 0.75]}], src)
            args = []
            for o, v in (('input', 'a.exr'), ('output', 'b.tif'), ('clf', src)):
                if c['missing'] != o: args += ['-' + o[0] if c['short'] else '--' + o, v]
            if c['threads'] is not None: args += ['--multithreaded=%d' % c['threads']]
            if c['depth']: args += ['--outputBitDepth', c['depth']]
            if c['verbose']: args += ['-v' if c['short'] else '--verbose']
            if c['compression']: args += ['--compression', c['compression']]
            if c['quality'] is not None: args += ['--quality', c['quality']]
            M.filterImageWithCLF = record
            try: main(M, args)
            finally: M.filterImageWithCLF = old
        if c['missing']:
            expect(not calls, 'an image was filtered without', c['missing'])
            return
        expect(len(calls) == 1, 'images filtered:', len(calls))
        a, n = calls[0], multiprocessing.cpu_count()
        want = {'inputPath': 'a.exr', 'outputPath': 'b.tif', 'outBitDepth': c['depth'], 'verbose': c['verbose'], 'compression': c['compression'],
                'compressionQuality': -1 if c['quality'] is None else c['quality'], 'multithreaded': n if c['threads'] is None else min(n, max(1, c['threads']))}
        for k, v in want.items(): expect(a[k] == v, k, a[k], 'for', v)
        expect(close(a['processList'].process(np.array([1.0, 1.0, 1.0], np.float32), 3)[0], 0.5, 1e-5), 'the list that was read')
