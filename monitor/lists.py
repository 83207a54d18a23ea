"""Monitors of process lists, groups, references, XML and feature sets: C14-C20."""
import copy
import gzip
import os
import numpy as np
import xml.etree.ElementTree as ET
from contracts import specs
from .base import *
from .nodes import *


def plist(nodes, build_=build):
    p = clf().ProcessList()
    for s in nodes: p.addProcess(build_(s))
    return p


SAFE = ['Range', 'Matrix', 'ASCCDL', 'ColorCorrection', 'LUT1D', 'LUT3D', 'Gamma', 'ExposureContrast', 'Log']


def gen_chain(rng, lo=0, hi=5, types=SAFE):
    out = []
    for k in range(rng.randint(lo, hi)):
        s = gen_node(rng, types)
        if s['type'] == 'Matrix': s = dict(gen_matrix(rng, 3), **{'in': s['in'], 'out': s['out']})
        s['name'] = pick(rng, ['a', 'b', 'c', 'node%d' % k])
        out.append(s)
    return out


class Probe(object):
    """A node that records how it is processed and applies an affine map."""
    def __init__(self, log, k, attrs=None, i='16f', o='16f'):
        self.log, self.k, self.attrs, self.i, self.o = log, k, attrs or {}, i, o

    def process(self, values, stride=0, verbose=False):
        self.log.append((self.k, [float(v) for v in values], stride))
        return values * np.float32(self.k % 3 + 1) + np.float32(self.k)

    def getAttribute(self, n): return self.attrs.get(n)
    def getNodeType(self): return 'Probe'
    def getInBitDepth(self): return self.i
    def getOutBitDepth(self): return self.o


@kind('compose', [('C14', 450, 5000)])
class Compose(object):
    @staticmethod
    def gen(rng, i):
        nodes = gen_chain(rng, i % 5, max(i % 5, 4))
        S = pick(rng, [3, 4, 5])
        n = pick(rng, [1, 2, 3])
        v = values(rng, n * S)
        if rng.random() < 0.3: v = [x * 1.000000119 + 1e-9 for x in v]
        return {'nodes': nodes, 'values': v, 'stride': S if n > 1 else pick(rng, [0, S]), 'container': pick(rng, ['list', 'array', 'array64']), 'nostride': rng.random() < 0.5}

    @staticmethod
    def check(c):
        pl = plist(c['nodes'])
        buf = buffer(c)
        before = [float(x) for x in buf]
        cur = np.array(before, dtype=np.float32)
        for s in c['nodes']: cur = build(s).process(np.array(cur), c['stride'])
        for rep in range(2):
            out = pl.process(buf) if c['nostride'] and not c['stride'] else pl.process(buf, c['stride'])
            expect(all(same(a, b) for a, b in zip(buf, before)), 'the values passed in were changed')
            expect(len(out) == len(cur) and all(same(a, b) for a, b in zip(out, cur)), 'list gives', [float(x) for x in out], 'composition', [float(x) for x in cur])
        expect(len(pl) == len(c['nodes']), 'length is', len(pl))
        got = list(pl)
        expect(got == [pl[k] for k in range(len(pl))] and got == list(pl.getProcesses()), 'iteration and indexing disagree')
        for k, s in enumerate(c['nodes']): expect(got[k].getNodeType() in (s['type'], 'ASC_CDL'), 'order of nodes')
        for nm in ('a', 'b', 'c', 'node1', 'absent'):
            want = None
            for g in got:
                if g.getAttribute('name') == nm:
                    want = g
                    break
            expect(pl.getProcess(nm) is want, 'getProcess of', nm)


@kind('probe', [('C14', 150, 1500)])
class Probes(object):
    """Which node is called when, with what values and which stride."""
    @staticmethod
    def gen(rng, i):
        return {'n': i % 7, 'values': values(rng, 6), 'stride': pick(rng, [0, 1, 2, 3, 6]), 'container': pick(rng, ['list', 'array', 'array64']),
                'group': rng.random() < 0.3}

    @staticmethod
    def check(c):
        log = []
        pl = clf().Group() if c['group'] else clf().ProcessList()
        for k in range(c['n']): pl.addProcess(Probe(log, k))
        buf = buffer(dict(c, container='array')) if c['group'] else buffer(c)
        out = pl.process(buf, c['stride'])
        cur = np.array([float(x) for x in c['values']], np.float32)
        expect([e[0] for e in log] == list(range(c['n'])), 'nodes are processed in the order', [e[0] for e in log])
        for k, v, st in log:
            expect(st == c['stride'], 'stride', st, 'is passed on')
            expect(all(same(a, b) for a, b in zip(v, cur)), 'node', k, 'gets', v, 'not', [float(x) for x in cur])
            cur = cur * np.float32(k % 3 + 1) + np.float32(k)
        expect(all(same(a, b) for a, b in zip(out, cur)), 'result')


# ---------------------------------------------------------------- C15

FALSE = [None, False, '', 0]


@kind('bypass', [('C15', 500, 6000)])
class Bypass(object):
    @staticmethod
    def gen(rng, i):
        nodes = gen_chain(rng, 1, 5)
        for s in nodes:
            if s['type'] != 'ColorCorrection' and rng.random() < 0.7: s['in'], s['out'] = pick(rng, DEPTHS), pick(rng, DEPTHS)
            if rng.random() < 0.5: s['bypass'] = pick(rng, [True, True, True, False])
        return {'nodes': nodes, 'values': values(rng, 8), 'stride': 4, 'container': pick(rng, ['list', 'array']),
                'features': pick(rng, ['All', 'All', 'All', 'CLF', 'Duiker Research', 'Autodesk']), 'how': pick(rng, ['list', 'group', 'xml', 'xmlgroup'])}

    @staticmethod
    def check(c):
        nodes = c['nodes']
        styles = ['v1.2_Fwd', 'noClampFwd', 'v1.2_Rev', 'noClampRev']
        if c['features'] in ('CLF', 'Duiker Research'):
            nodes = [dict(s, style='Fwd') if s.get('style') in styles else s for s in nodes]
        cl = clf()
        if c['how'] in ('group', 'xmlgroup'):
            pl = cl.ProcessList()
            g = cl.Group()
            for s in nodes: g.addProcess(build(s))
            pl.addProcess(g)
        else: pl = plist(nodes)
        if c['how'].startswith('xml'):
            root = pl.write().getroot()
            for e in root.iter():
                if e.get('bypass') and len(c['values']) % 2 == 0: e.set('bypass', e.get('bypass').lower())
            q = cl.ProcessList()
            q.read(ET.fromstring(ET.tostring(root)))
            pl = q
        features(c['features'])
        on = c['features'] in ('All', 'Autodesk')
        inner = pl[0] if 'group' in c['how'] else pl
        procs = inner.getProcesses()
        out = pl.process(buffer(c), c['stride'])
        cur = np.array(c['values'], dtype=np.float32)
        for k, s in enumerate(nodes):
            if s.get('bypass') and on:
                if 0 < k < len(nodes) - 1:
                    a, b = procs[k - 1].getAttribute('outBitDepth'), procs[k + 1].getAttribute('inBitDepth')
                    if a != b: cur = np.array([float(x) / specs.size(a) * specs.size(b) for x in cur], np.float32)
            else:
                cur = procs[k].process(np.array(cur), c['stride'])
        scale = max([1.0] + [abs(float(x)) for x in cur if not isbad(float(x))])
        for a, b in zip(out, cur): expect(close(a, b, 1e-6, 3e-4) or abs(float(a) - float(b)) < 1e-4 * scale, 'result', [float(x) for x in out], 'not', [float(x) for x in cur])
        expect(len(out) == len(cur), 'length')


@kind('bypassprobe', [('C15', 250, 2500)])
class BypassProbe(object):
    @staticmethod
    def gen(rng, i):
        n = rng.randint(1, 6)
        return {'marks': [pick(rng, [None, True, False, True]) for _ in range(n)], 'depths': [[pick(rng, DEPTHS), pick(rng, DEPTHS)] for _ in range(n)],
                'group': i % 2 == 1, 'stride': pick(rng, [0, 3]), 'values': [f32(rng.uniform(-2, 3)) for _ in range(6)], 'features': pick(rng, ['All', 'Autodesk', 'CLF', 'Duiker Research', 'All'])}

    @staticmethod
    def check(c):
        cl = clf()
        log = []
        pl = cl.Group() if c['group'] else cl.ProcessList()
        n = len(c['marks'])
        for k in range(n): pl.addProcess(Probe(log, k, {'bypass': c['marks'][k]}, c['depths'][k][0], c['depths'][k][1]))
        features(c['features'])
        on = c['features'] in ('All', 'Autodesk')
        out = pl.process(np.array(c['values'], np.float32), c['stride'])
        want = [k for k in range(n) if not (on and c['marks'][k])]
        expect([e[0] for e in log] == want, 'processed', [e[0] for e in log], 'not', want)
        cur = np.array(c['values'], np.float64)
        for k in range(n):
            if k in want: cur = cur * (k % 3 + 1) + k
            elif 0 < k < n - 1:
                a, b = c['depths'][k - 1][1], c['depths'][k + 1][0]
                cur = cur / specs.size(a) * specs.size(b)
        for a, b in zip(out, cur): expect(close(a, b, 1e-5, 1e-5), 'result', [float(x) for x in out], 'not', list(cur))


# ---------------------------------------------------------------- C16

def gen_tree(rng, depth):
    """nodes, groups and references to lists of such, as descriptions with inline files."""
    out = []
    for k in range(rng.randint(1, 3)):
        r = rng.random()
        if depth and r < 0.3: out.append({'type': 'Group', 'nodes': gen_tree(rng, depth - 1), 'name': 'g%d' % k})
        elif depth and r < 0.65: out.append({'type': 'Ref', 'nodes': gen_tree(rng, depth - 1), 'name': 'r%d' % k, 'missing': rng.random() < 0.15,
                                             'form': pick(rng, ['path', 'base', 'read'])})
        else:
            s = gen_chain(rng, 1, 1, ['Range', 'Matrix', 'ASCCDL', 'Gamma', 'LUT1D'])[0]
            s['in'] = s['out'] = '16f'
            if s['type'] == 'Range' and s.get('default') and 'bounds' in s: s['default'] = None
            s['name'] = 'n%d' % k
            out.append(s)
    return out


def realise(d, s, counter):
    """The real node for a tree description; referenced lists are written under d."""
    cl = clf()
    if s['type'] == 'Group':
        g = cl.Group('16f', '16f', '', s['name'])
        for x in s['nodes']: g.addProcess(realise(d, x, counter))
        return g
    if s['type'] == 'Ref':
        counter[0] += 1
        fn = 'ref%d.clf' % counter[0]
        if not s['missing']:
            p = cl.ProcessList()
            for x in s['nodes']: p.addProcess(realise(d, x, counter))
            p.writeFile(os.path.join(d, fn))
        if s['form'] == 'base': return cl.Reference('16f', '16f', '', s['name'], fn, d)
        if s['form'] == 'path': return cl.Reference('16f', '16f', '', s['name'], os.path.join(d, fn), '', 'alias')
        r = cl.Reference()
        r.read(ET.fromstring('<Reference name="%s" inBitDepth="16f" outBitDepth="16f" path="%s" basePath="%s"/>' % (s['name'], fn, d)))
        return r
    return build(s)


def flatten(nodes):
    out = []
    for s in nodes:
        if s['type'] == 'Group' or (s['type'] == 'Ref' and not s['missing']): out.extend(flatten(s['nodes']))
        elif s['type'] != 'Ref': out.append(s)
    return out


def shape_of(nodes, contained):
    """The tags the XML must have, nested for groups."""
    out = []
    for s in nodes:
        if s['type'] == 'Group': out.append(['Group', shape_of(s['nodes'], contained)])
        elif s['type'] == 'Ref':
            if contained and not s['missing']: out.extend(shape_of(s['nodes'], contained))
            else: out.append('Reference')
        else: out.append({'ASCCDL': 'ASC_CDL'}.get(s['type'], s['type']))
    return out


TAGS = ['Range', 'Matrix', 'ASC_CDL', 'Gamma', 'LUT1D', 'LUT3D', 'Log', 'ExposureContrast', 'ColorCorrection', 'Group', 'Reference']


def tags_of(e):
    return [['Group', tags_of(x)] if x.tag == 'Group' else x.tag for x in e if x.tag in TAGS]


@kind('tree', [('C16', 140, 1500)])
class Tree(object):
    @staticmethod
    def gen(rng, i): return {'nodes': gen_tree(rng, 3), 'values': values(rng, 8), 'stride': pick(rng, [4, 4, 0]), 'order': rng.randrange(3)}

    @staticmethod
    def check(c):
        cl = clf()
        with Scratch() as d:
            pl = cl.ProcessList()
            n = [0]
            for s in c['nodes']: pl.addProcess(realise(d, s, n))
            cur = np.array(c['values'], np.float32)
            for s in flatten(c['nodes']): cur = build(s).process(np.array(cur), c['stride'])
            scale = max([1.0] + [abs(float(x)) for x in cur if not isbad(float(x))])

            def judge(p, what):
                out = p.process(list(c['values']), c['stride'])
                expect(len(out) == len(cur), 'length')
                for a, b in zip(out, cur):
                    expect(close(a, b, 1e-4 * scale, 1e-3), what, 'gives', [float(x) for x in out], 'not', [float(x) for x in cur])
            judge(pl, 'the list')
            for contained in [(False, True), (True, False), (True, True)][c['order']]:
                e = pl.write(writeSelfContained=contained).getroot()
                expect(tags_of(e) == shape_of(c['nodes'], contained), 'self-contained' if contained else 'referencing', 'XML holds', tags_of(e), 'not', shape_of(c['nodes'], contained))
                f = os.path.join(d, 'out%d.clf' % contained)
                pl.writeFile(f, writeSelfContained=contained)
                judge(cl.ProcessList(f), 'the %s file' % ('self-contained' if contained else 'referencing'))
            e = pl.write().getroot()
            expect(tags_of(e) == shape_of(c['nodes'], False), 'written by default as', tags_of(e))
            # groups directly
            for k, s in enumerate(c['nodes']):
                if s['type'] == 'Group':
                    g = pl[k]
                    expect(tags_of(g.write(ET.Element('x'), True)) == shape_of(s['nodes'], True), 'self-contained group')
                    expect(tags_of(g.write(ET.Element('x'))) == shape_of(s['nodes'], False), 'referencing group')


@kind('groupprobe', [('C16', 80, 600)])
class GroupProbe(object):
    @staticmethod
    def gen(rng, i): return {'n': i % 6, 'stride': pick(rng, [0, 1, 3]), 'values': values(rng, 6)}

    @staticmethod
    def check(c):
        g = clf().Group()
        log = []
        for k in range(c['n']): g.addProcess(Probe(log, k, {'name': 'p%d' % (k // 2)}))
        out = g.process(np.array(c['values'], np.float32), c['stride'])
        cur = np.array(c['values'], np.float32)
        expect([e[0] for e in log] == list(range(c['n'])), 'order', [e[0] for e in log])
        for k, v, st in log:
            expect(st == c['stride'], 'stride', st)
            expect(all(same(a, b) for a, b in zip(v, cur)), 'values of child', k)
            cur = cur * np.float32(k % 3 + 1) + np.float32(k)
        expect(all(same(a, b) for a, b in zip(out, cur)), 'result')
        ps = g.getProcesses()
        for k in range(c['n']): expect(g.getProcess('p%d' % (k // 2)) is ps[k // 2 * 2], 'getProcess')
        expect(g.getProcess('none') is None, 'getProcess of an absent name')


@kind('refmissing', [('C16', 40, 200)])
class RefMissing(object):
    @staticmethod
    def gen(rng, i): return {'args': [['nowhere.clf', '', ''], ['nowhere.clf', '/nonexistent', ''], ['', '', 'only-alias'], ['', '/tmp', '']][i % 4], 'values': values(rng, 6), 'stride': 3}

    @staticmethod
    def check(c):
        cl = clf()
        r = cl.Reference('16f', '16f', 'i', 'n', *c['args'])
        out = r.process(list(c['values']), c['stride'])
        expect(all(same(a, b) for a, b in zip(out, c['values'])) and len(out) == len(c['values']), 'values change')
        pl = cl.ProcessList()
        pl.addProcess(r)
        for contained in (False, True):
            e = pl.write(writeSelfContained=contained).getroot()
            expect(tags_of(e) == ['Reference'], 'written as', tags_of(e))
            for k, v in zip(('path', 'basePath', 'alias'), c['args']): expect((e[0].get(k) or '') == v, 'attribute', k)


# ---------------------------------------------------------------- C17

TEXTS = ['plain', 'with spaces  inside', 'a & b < c > "d"', "it's", u'caf\u00e9 \u2603', '0.5', 'x=1;y=2', 'Range', 'ends with dot.', '100%']


FIELDS = ('_attributes', '_valueElements', '_elements', '_processes', '_dynamicParams', '_values', '_params', '_array', '_indexMaps', '_dimension',
          '_dimensions', '_children', '_comment', '_elementType', '_nodeType', '_floatEncoding', '_rawHalfs', '_resolvedPath', '_useCachedProcess')


def state(o, seen=None):
    """Comparable state of a node, list or element."""
    if isinstance(o, (str, bool, type(None))): return o
    if isinstance(o, (np.generic,)): return float(o)
    if isinstance(o, (int, float)): return float(o)
    if isinstance(o, np.ndarray): return [float(x) for x in o]
    if isinstance(o, (list, tuple)): return [state(x) for x in o]
    if isinstance(o, dict): return {k: state(v) for k, v in o.items()}
    d = {k: state(v) for k, v in vars(o).items() if k in FIELDS}
    d['class'] = type(o).__name__
    return d


def differ(a, b, path=''):
    """Where two states differ: arrays to print precision, the rest exactly."""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k == 'interpolation' and k not in a: continue       # an unset interpolation reads as the default one
            if k not in a or k not in b: return '%s.%s is %s' % (path, k, 'gone' if k in a else 'new')
            r = differ(a[k], b[k], '%s.%s' % (path, k))
            if r: return r
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b): return '%s has %d entries instead of %d' % (path, len(b), len(a))
        for k, (x, y) in enumerate(zip(a, b)):
            r = differ(x, y, '%s[%d]' % (path, k))
            if r: return r
        return None
    if isinstance(a, float) and isinstance(b, float):
        if '._array' in path or '_elements' in path and '_values[' in path and '_values[0][' not in path and '_values[1][' not in path:
            if abs(a - b) <= 1e-9 + 6e-8 * abs(a): return None
        elif same(a, b): return None
        return '%s is %r instead of %r' % (path, b, a)
    if isinstance(a, (bool, float)) and isinstance(b, str) or isinstance(b, bool) and isinstance(a, str):
        return None if str(a) == str(b) or isinstance(a, float) and not isinstance(b, bool) and float(b) == a else '%s is %r instead of %r' % (path, b, a)
    return None if a == b else '%s is %r instead of %r' % (path, b, a)


def gen_meta(rng, s):
    s['id'] = pick(rng, ['', 'id1', pick(rng, TEXTS)])
    s['name'] = pick(rng, ['', 'nm', pick(rng, TEXTS)])
    if rng.random() < 0.4: s['descriptions'] = [pick(rng, TEXTS) for _ in range(rng.randint(1, 3))]
    if rng.random() < 0.3: s['dynamic'] = [pick(rng, ['exposure', 'contrast', 'x y']) for _ in range(rng.randint(1, 2))]
    if rng.random() < 0.3: s['bypass'] = pick(rng, [True, False])
    if rng.random() < 0.2: s['attributes'] = [['custom', pick(rng, TEXTS)], ['foo', 'bar baz']][:rng.randint(1, 2)]
    if s['type'] == 'ColorCorrection': s['id'] = s['name'] = ''
    if s.get('maps'): s['maps'] = [[m[0], [float(int(y)) for y in m[1]]] for m in s['maps']]
    if s['type'] == 'Range' and rng.random() < 0.5: s['bounds'] = [None if b is None else b * 1.1234567890123 for b in s['bounds']]
    if s['type'] in ('ASCCDL', 'ColorCorrection') and rng.random() < 0.5:
        for k in ('slope', 'offset', 'power'):
            if s.get(k): s[k] = [x / 3.0 for x in s[k]]
        if s.get('sat'): s['sat'] = s['sat'] / 3.0
        s.pop('twice', None)
    if s['type'] in ('Gamma', 'Log', 'ExposureContrast') and s.get('params') and rng.random() < 0.5:
        s['params'] = [[x / 3.0 if isinstance(x, float) else x for x in p] for p in s['params']] if isinstance(s['params'][0], list) else [x / 3.0 for x in s['params']]
    return s


def gen_any(rng, depth=1):
    r = rng.random()
    if depth and r < 0.12: return gen_meta(rng, {'type': 'Group', 'nodes': [gen_any(rng, depth - 1) for _ in range(rng.randint(0, 3))]})
    if r < 0.2: return gen_meta(rng, {'type': 'Reference', 'ref': [pick(rng, ['p.clf', 'a b.clf']), pick(rng, ['', 'base dir']), pick(rng, ['', 'al'])]})
    return gen_meta(rng, gen_node(rng))


@kind('xml', [('C17', 420, 5000)])
class Xml(object):
    @staticmethod
    def gen(rng, i):
        types = list(GENS)
        nodes = [gen_meta(rng, GENS[types[i % len(types)]](rng))] + [gen_any(rng) for _ in range(rng.randint(0, 2))]
        return {'nodes': nodes, 'attributes': [[k, pick(rng, TEXTS)] for k in ('name', 'id', 'inverseOf') if rng.random() < 0.5] + [['compCLFversion', pick(rng, ['1.0', '2', '1.2.3'])]],
                'elements': [[pick(rng, ['Description', 'InputDescriptor', 'OutputDescriptor']), pick(rng, TEXTS)] for _ in range(rng.randint(0, 3))],
                'info': pick(rng, [None, ['app 1', ''], ['', u'\u00a9 me'], ['a', 'b']]),
                'tag': pick(rng, ['plain', 'plain', 'ns', 'dash', 'under']), 'through': pick(rng, ['tree', 'text', 'file'])}

    @staticmethod
    def check(c):
        cl = clf()
        pl = plist(c['nodes'])
        for k, v in c['attributes']: pl.setAttribute(k, v)
        for k, v in c['elements']: pl.addElement(getattr(cl, k)(v))
        if c['info']: pl.addElement(cl.Info(*c['info']))
        before = state(pl)
        root = pl.write().getroot()
        expect(differ(before, state(pl)) is None, 'writing changes the list:', differ(before, state(pl)))
        q = cl.ProcessList()
        if c['tag'] != 'plain':
            for e in root.iter():
                t = e.tag
                if t in ('ProcessList',) and c['tag'] != 'ns': continue
                if c['tag'] == 'ns': e.tag = '{urn:AMPAS:CLF:v1.2}' + t
                else:
                    sep = '-' if c['tag'] == 'dash' else '_'
                    if len(t) > 3: e.tag = t[:3] + sep + t[3:]
        if c['through'] == 'file' and c['tag'] == 'plain':
            with Scratch() as d:
                f = os.path.join(d, 'x.clf')
                pl.writeFile(f)
                q = cl.ProcessList(f)
        elif c['through'] == 'text': q.read(ET.fromstring(ET.tostring(root)))
        else: q.read(root)
        want = state(pl)
        want['_valueElements'] = {}
        r = differ(strip(want), strip(state(q)))
        expect(r is None, r)
        alike(pl.getProcesses(), q.getProcesses(), c)


KEYS = ['inBitDepth', 'outBitDepth', 'id', 'name', 'style', 'interpolation', 'halfDomain', 'rawHalfs', 'defaultRange', 'path', 'basePath', 'alias', 'custom', 'foo']


def alike(ps, qs, c):
    """Nodes in order: classes, attributes, dynamic parameters, results."""
    expect(len(ps) == len(qs), len(qs), 'nodes instead of', len(ps))
    for p, q, s in zip(ps, qs, c['nodes']):
        expect(type(p).__name__ == type(q).__name__, 'a', type(p).__name__, 'comes back as', type(q).__name__)
        for k in KEYS:
            if k == 'interpolation' and p.getAttribute(k) is None: continue
            a, b = p.getAttribute(k), q.getAttribute(k)
            expect(a == b or str(a) == str(b) or (not a and not b and k in KEYS[4:9]), 'attribute', k, 'is', b, 'not', a)
        for k in s.get('dynamic', []) + ['never set']: expect(bool(p.getDynamicParam(k)) == bool(q.getDynamicParam(k)), 'dynamic parameter', k)
        if s['type'] == 'Group': alike(p.getProcesses(), q.getProcesses(), s)
        elif s['type'] in ('Range', 'ASCCDL', 'ColorCorrection', 'Gamma', 'Log', 'ExposureContrast'):
            v = [0.1, 0.45, 1.2, -0.3, 200.0, 0.9]
            a, b = [quiet(n, v) for n in (p, q)]
            expect(type(a) == type(b) and (isinstance(a, str) and a == b or not isinstance(a, str) and all(same(x, y) for x, y in zip(a, b))), s['type'], 'gives', b, 'not', a)


def quiet(n, v):
    try:
        return [float(x) for x in n.process(np.array(v, np.float32), 3)]
    except Exception as e:
        return type(e).__name__


def strip(x):
    """Attributes that carry nothing: the written text is what is compared."""
    if isinstance(x, dict):
        y = {k: strip(v) for k, v in x.items()}
        if y.get('class') in ('Array',): y.pop('_rawHalfs', None)
        if y.get('class') in ('Description', 'InputDescriptor', 'OutputDescriptor', 'Comment') and y.get('_comment') is None: y['_comment'] = ''
        return y
    if isinstance(x, list): return [strip(v) for v in x]
    return x


@kind('xmlhand', [('C17', 1, 1)])
class XmlHand(object):
    """Hand-written documents as other programs write them."""
    @staticmethod
    def gen(rng, i): return {}

    @staticmethod
    def check(c):
        cl = clf()
        doc = u'''<?xml version="1.0" encoding="UTF-8"?>
<ProcessList xmlns="urn:AMPAS:CLF:v1.2" id="top" name="hand" compCLFversion="1.2">
 <Description>d1</Description><InputDescriptor>in</InputDescriptor><OutputDescriptor>out</OutputDescriptor>
 <Info><AppRelease>rel</AppRelease><Copyright>copy</Copyright><Release>2</Release></Info>
 <Range inBitDepth="10i" outBitDepth="16f" defaultRange="true" style="clamp"><minInValue>64</minInValue><maxInValue> 940 </maxInValue>
  <minOutValue>-0.125</minOutValue><maxOutValue>1.0625</maxOutValue></Range>
 <ASC_CDL id="cc" inBitDepth="16f" outBitDepth="16f" style="Rev"><SOPNode><Description>x</Description><Slope>1.1 1.2 1.3</Slope><Offset>0.1 -0.2
  0.3</Offset><Power>0.9 1 1.1</Power></SOPNode><SatNode><Saturation>0.8</Saturation></SatNode></ASC_CDL>
 <ColorCorrection id="cc2"><SOPNode><Slope>2 2 2</Slope></SOPNode></ColorCorrection>
 <LUT1D inBitDepth="16f" outBitDepth="16f" halfDomain="false" rawHalfs="false"><IndexMap dim="2">0@0 1023@1</IndexMap><Array dim="2 1">
   0
   0.75</Array></LUT1D>
 <Gamma style="basicFwd" inBitDepth="16f" outBitDepth="16f" bypass="true"><GammaParams gamma="2.2"/><GammaParams channel="G" gamma="2.4" offset="0.25"/></Gamma>
 <Log style="linToLog" inBitDepth="16f" outBitDepth="16f"><LogParams gamma="0.5" refWhite="600" refBlack="80" highlight="0.9" shadow="0.1" channel="B"/></Log>
 <ExposureContrast style="video" inBitDepth="16f" outBitDepth="16f"><ECParams exposure="-1.5" contrast="0.55" pivot="0.4"/><DynamicParameter param="EXPOSURE"/></ExposureContrast>
</ProcessList>'''.encode('utf-8')
        p = cl.ProcessList()
        p.read(ET.fromstring(doc))
        expect([type(n).__name__ for n in p] == ['Range', 'ASCCDL', 'ColorCorrection', 'LUT1D', 'Gamma', 'Log', 'ExposureContrast'], 'nodes', [type(n).__name__ for n in p])
        expect((p.getID(), p.getName(), p.getCompCLFversion()) == ('top', 'hand', '1.2'), 'attributes of the list')
        expect([getattr(e, '_comment', None) for e in p._elements[:3]] == ['d1', 'in', 'out'], 'descriptions')
        out = p[0].process(np.array([64, 940, 502, 0, 1023], np.float32))
        want = [-0.125, 1.0625, 0.46875, -0.125, 1.0625]
        expect(all(close(a, b, 1e-5) for a, b in zip(out, want)), 'range', out)
        m = specs.cdl(Conc, [0.4, 0.5, 0.6], 'Rev', [1.1, 1.2, 1.3], [0.1, -0.2, 0.3], [0.9, 1, 1.1], 0.8, '16f', '16f')
        expect(all(close(a, b, 1e-5) for a, b in zip(p[1].process([0.4, 0.5, 0.6]), m)), 'cdl')
        expect(all(close(a, b, 1e-5) for a, b in zip(p[2].process([0.1, 0.2, 0.7]), [0.2, 0.4, 1.0])), 'color correction')
        expect(close(p[3].process([511.5])[0], 0.375, 1e-5), 'lut')
        expect(p[4].getAttribute('bypass') is True, 'bypass')
        expect(close(p[4].process([0.5, 0.5, 0.5])[1], 0.5 ** 2.4, 1e-5), 'gamma')
        expect(p[6].getDynamicParam('EXPOSURE') and not p[6].getDynamicParam('CONTRAST'), 'dynamic parameter')
        m = [specs.exposure_contrast(Conc, x, 'video', -1.5, 0.55, 0.4, '16f', '16f') for x in (0.2, 0.5, 0.9)]
        expect(all(close(a, b, 1e-5) for a, b in zip(p[6].process([0.2, 0.5, 0.9]), m)), 'exposure')
        m = [specs.log(Conc, 0.3, 'linToLog', q, '16f', '16f') for q in ((0.6, 685., 95., 1., 0.), (0.6, 685., 95., 1., 0.), (0.5, 600., 80., 0.9, 0.1))]
        expect(all(close(a, b, 1e-5) for a, b in zip(p[5].process([0.3, 0.3, 0.3]), m)), 'log')


from contracts.specs import Conc


# ---------------------------------------------------------------- C18

ENC = ['string', 'integer16bit', 'integer32bit', 'integer64bit', 'hex16bit', 'hex32bit', 'hex64bit', 'raw', 'other']


def enc_value(rng, e):
    r = rng.random()
    if e in ('integer16bit', 'hex16bit', 'raw'):
        u = pick(rng, [0, 32768, 1, 32769, 1023, 1024, 31743, 31744, 64511, 64512]) if r < 0.4 else rng.randrange(65536)
        if 31744 < u < 32768 or u > 64512: u = 15360
        return bits_half(u)
    if e in ('integer32bit', 'hex32bit'):
        u = pick(rng, [0, 1 << 31, 1, 0x7f7fffff, 0x7f800000, 0xff800000, 0x00800000, 0x007fffff, 0x80000001]) if r < 0.4 else rng.getrandbits(32)
        v = np.uint32(u).view(np.float32)
        return float(v) if v == v else 1.5
    if e in ('integer64bit', 'hex64bit'):
        u = pick(rng, [0, 1 << 63, 1, 0x7fefffffffffffff, 0x7ff0000000000000, 0xfff0000000000000, 0x0010000000000000]) if r < 0.4 else rng.getrandbits(64)
        v = np.uint64(u).view(np.float64)
        return float(v) if v == v else 1.5
    return pick(rng, [0.0, -0.0, 1e-9, -1.5e-9, 123456.789, 1e9, -65504.0, rng.uniform(-2, 2), rng.random(), rng.uniform(-1e4, 1e4)])


@kind('array', [('C18', 700, 8000)])
class Arr(object):
    @staticmethod
    def gen(rng, i):
        e = ENC[i % 9]
        dims = pick(rng, [[rng.randint(1, 9), 1], [rng.randint(1, 9), 3], [3, 3], [3, 4, 3], [4, 5, 4], [2, 3, 4, 3], [1, 1], [rng.randint(2, 4), 2, 2, 3]])
        n = dims[0] * dims[1] if len(dims) < 4 else dims[0] * dims[1] * dims[2] * 3
        v = [enc_value(rng, e) for _ in range(n)]
        return {'encoding': e, 'dims': dims, 'values': [repr(x) for x in v], 'integers': rng.random() < 0.3, 'np': rng.random() < 0.4, 'how': pick(rng, ['init', 'set'])}

    @staticmethod
    def check(c):
        A = sub('clf.Array').Array
        v = [float(x) for x in c['values']]
        e = c['encoding']
        raw = e == 'raw'
        dt = {'integer16bit': np.float16, 'hex16bit': np.float16, 'raw': np.float16, 'integer64bit': np.float64, 'hex64bit': np.float64}.get(e, np.float32)
        data = np.array(v, dtype=dt) if c['np'] else list(v)
        fe = 'string' if raw else 'unknown' if e == 'other' else e
        if c['how'] == 'init': a = A(list(c['dims']), data, c['integers'], raw, fe)
        else:
            a = A()
            a.setDimensions(list(c['dims']))
            a.setValues(data)
            a.setValuesAreIntegers(c['integers'])
            a.setRawHalfs(raw)
            a.setFloatEncoding(fe)
        el = a.write(ET.Element('LUT1D'))
        el = ET.fromstring(ET.tostring(el))
        b = A(rawHalfs=raw)
        b.read(el)
        expect(list(b.getDimensions()) == c['dims'], 'dimensions', b.getDimensions())
        got = b.getValues()
        expect(len(got) == len(v), len(got), 'values instead of', len(v))
        if e not in ('string', 'raw', 'other'): expect(el.get('floatEncoding') == e, 'floatEncoding attribute', el.get('floatEncoding'))
        for k, (x, y) in enumerate(zip(got, v)):
            if e in ('string', 'other'):
                w = float(data[k])
                ok = abs(float(x) - w) <= 1e-9 + 1.2e-7 * abs(w)
            else: ok = dt(x).tobytes() == dt(y).tobytes()
            expect(ok, 'value', k, 'is', repr(x), 'instead of', repr(y))


@kind('arraytext', [('C18', 1, 1)])
class ArrText(object):
    """The text itself: one row per line, all values printed."""
    @staticmethod
    def gen(rng, i): return {}

    @staticmethod
    def check(c):
        A = sub('clf.Array').Array
        for dims, cols in (([4, 3], 3), ([3, 4, 3], 4), ([2, 2, 2, 3], 3), ([5, 1], 1)):
            n = dims[0] * dims[1] if len(dims) < 4 else 24
            v = [k / 7.0 for k in range(n)]
            el = A(dims, v).write(ET.Element('x'))
            rows = [r.split() for r in el.text.strip().split('\n')]
            expect(len(rows) == n // cols and all(len(r) == cols for r in rows), 'rows of', dims)
            expect(el.get('dim').split() == [str(d) for d in dims], 'dim attribute')
            flat = [float(x) for r in rows for x in r]
            expect(all(abs(a - b) <= 6e-10 for a, b in zip(flat, v)), 'printed values', flat)


@kind('encrefuse', [('C18', 42, 42)])
class EncRefuse(object):
    @staticmethod
    def gen(rng, i): return {'encoding': ENC[1 + i % 6], 'features': ['CLF', 'Autodesk'][i % 2], 'how': ['write', 'set', 'matrix'][i % 3]}

    @staticmethod
    def check(c):
        A = sub('clf.Array').Array
        features(c['features'])
        if c['how'] == 'write': raises(['UnsupportedExtensionError'], A([2, 1], [0.0, 1.0], floatEncoding=c['encoding']).write, ET.Element('x'))
        elif c['how'] == 'set': raises(['UnsupportedExtensionError'], A([2, 1], [0.0, 1.0]).setFloatEncoding, c['encoding'])
        else:
            m = clf().Matrix()
            m.setMatrix([3, 3], [1.0, 0, 0, 0, 1, 0, 0, 0, 1], floatEncoding=c['encoding'])
            p = clf().ProcessList()
            p.addProcess(m)
            raises(['UnsupportedExtensionError'], p.write)
        A([2, 1], [0.0, 1.0]).write(ET.Element('x'))
        for f in ('All', 'Duiker Research'):
            features(f)
            A([2, 1], [0.0, 1.0], floatEncoding=c['encoding']).write(ET.Element('x'))
            A([2, 1], [0.0, 1.0]).setFloatEncoding(c['encoding'])


# ---------------------------------------------------------------- C19

@kind('file', [('C19', 160, 1600)])
class File(object):
    @staticmethod
    def gen(rng, i):
        nodes = gen_chain(rng, 1, 4)
        for s in nodes:
            if s.get('maps'): s['maps'] = [[m[0], [float(int(y)) for y in m[1]]] for m in s['maps']]
            if s['type'] in ('LUT1D', 'LUT3D', 'Matrix') and rng.random() < 0.3: s['encoding'] = pick(rng, ['integer32bit', 'hex32bit', 'integer64bit', 'hex64bit'])
            if rng.random() < 0.2: s['descriptions'] = [pick(rng, TEXTS)]
            if rng.random() < 0.15: s['bypass'] = pick(rng, [True, False])
        if rng.random() < 0.2: nodes = [{'type': 'Group', 'nodes': nodes, 'name': 'g'}] + gen_chain(rng, 0, 1)
        return {'nodes': nodes, 'values': values(rng, 12), 'stride': pick(rng, [3, 4]), 'features': pick(rng, ['All', 'All', 'Duiker Research', 'Autodesk', 'CLF']),
                'text': pick(rng, TEXTS), 'init': rng.random() < 0.5, 'over': rng.random() < 0.3}

    @staticmethod
    def check(c):
        cl = clf()
        nodes = c['nodes']
        if c['features'] in ('Autodesk', 'CLF'): nodes = [dict(s, encoding=None, **({'nodes': [dict(t, encoding=None) for t in s['nodes']]} if s.get('nodes') else {})) for s in nodes]
        with Scratch() as d:
            pl = plist(nodes)
            pl.setName(c['text'])
            pl.addElement(cl.Description(c['text']))
            a, b = os.path.join(d, 'a.clf'), os.path.join(d, 'b.clfz')
            on = c['features'] in ('All', 'Duiker Research')
            features(c['features'] if c['features'] != 'CLF' else 'CLF')
            auto = c['features'] in ('All', 'Autodesk')
            if c.get('over'):
                # the files exist already and hold another, longer list
                old = plist([{'type': 'Matrix', 'in': '16f', 'out': '16f', 'dims': [3, 3], 'm': [float(k) for k in range(9)]}] * 12)
                old.writeFile(a)
                if on: old.writeFile(b, writeGzip=True)
            pl.writeFile(a)
            if on:
                pl.writeFile(b, writeGzip=True)
                with open(b, 'rb') as f: expect(f.read(2) == b'\x1f\x8b', 'the file is not gzipped')
            else:
                raises(['UnsupportedExtensionError'], pl.writeFile, b, False, True)
                expect(not os.path.exists(b) or os.path.getsize(b) == 0, 'a refused file was written')
            with open(a, 'rb') as f: expect(f.read(2) != b'\x1f\x8b', 'the plain file is gzipped')
            ps = [cl.ProcessList(a) if c['init'] else fresh(cl, a)]
            if on: ps.append(cl.ProcessList(b) if c['init'] else fresh(cl, b))
            features('All')
            want = pl.process(list(c['values']), c['stride'])
            outs = [p.process(list(c['values']), c['stride']) for p in ps]
            if on:
                expect(all(same(x, y) for x, y in zip(*outs)), 'plain and gzipped files differ')
                r = differ(strip(state(ps[0])), strip(state(ps[1])))
                expect(r is None, 'plain and gzipped files differ:', r)
            expect(ps[0].getName() == c['text'], 'name', ps[0].getName())
            scale = max([1.0] + [abs(float(x)) for x in want if not isbad(float(x))])
            if c['features'] not in ('Duiker Research', 'CLF') or not any('dynamic' in s for s in nodes):
                # printed tables: judged node by node with the original's tables rounded
                cur = np.array(c['values'], np.float32)
                for p, o in zip(ps, outs):
                    expect(len(o) == len(want), 'length')
                    bad = [k for k in range(len(want)) if not (close(o[k], want[k], 2e-4 * scale, 2e-3))]
                    if bad and not chaotic(nodes, c):
                        raise Wrong('file gives %s, the list %s' % ([float(x) for x in o], [float(x) for x in want]))


def chaotic(nodes, c):
    """Whether a disturbance of a few units in the last place moves the result this much."""
    a = plist(nodes).process(list(c['values']), c['stride'])
    for e in (3e-7, -3e-7):
        b = plist(nodes).process([v * (1 + e) + e * 1e-2 for v in c['values']], c['stride'])
        scale = max([1.0] + [abs(float(x)) for x in a if not isbad(float(x))])
        if any(not close(x, y, 1e-4 * scale, 1e-3) for x, y in zip(a, b)): return True
    return False


def fresh(cl, f):
    p = cl.ProcessList()
    p.readFile(f)
    return p


@kind('fileerr', [('C19', 24, 24)])
class FileErr(object):
    """An error in the document is the same error plain and gzipped."""
    DOCS = ['<ProcessList><Unknown/></ProcessList>', '<ProcessList><Range inBitDepth="16f" outBitDepth="16f"><minInValue>abc</minInValue></Range></ProcessList>',
            '<ProcessList><LUT1D><Array dim="2 1">0 x</Array></LUT1D></ProcessList>', '<ProcessList><Matrix><Array dim="a b">0 1</Array></Matrix></ProcessList>',
            '<ProcessList><Log/></ProcessList>', '<ProcessList><Range></ProcessList>', 'not xml', '']

    @staticmethod
    def gen(rng, i): return {'doc': FileErr.DOCS[i % 8], 'strict': i // 8 % 2 == 0, 'features': ['All', 'Duiker Research', 'All'][i // 8]}

    @staticmethod
    def check(c):
        cl = clf()
        features(c['features'])
        got = []
        with Scratch() as d:
            for z in (False, True):
                f = os.path.join(d, 'z' if z else 'p')
                with (gzip.open(f, 'wb') if z else open(f, 'wb')) as fp: fp.write(c['doc'].encode())
                try:
                    p = cl.ProcessList()
                    p.readFile(f, c['strict'])
                    got.append('no error')
                except Exception as e:
                    got.append(type(e).__name__)
        if c['doc'].startswith('<P') and c['doc'].endswith('</ProcessList>') and '<Range></' not in c['doc']:
            expect(got[0] == got[1], 'plain raises', got[0], 'gzipped', got[1])
            if 'abc' in c['doc'] or '0 x' in c['doc'] or 'a b' in c['doc']: expect(got[0] == 'ValueError', 'error', got)
        else:
            expect(got[0] != 'no error' and got[1] != 'no error', 'a broken document is read', got)


# ---------------------------------------------------------------- C20

CHILD = {'Range': '<Range inBitDepth="16f" outBitDepth="16f"><minInValue>0</minInValue></Range>',
         'Matrix': '<Matrix inBitDepth="16f" outBitDepth="16f"><Array dim="3 3 3">1 0 0 0 1 0 0 0 1</Array></Matrix>',
         'ASC_CDL': '<ASC_CDL inBitDepth="16f" outBitDepth="16f" style="Fwd"/>', 'ColorCorrection': '<ColorCorrection/>',
         'LUT1D': '<LUT1D inBitDepth="16f" outBitDepth="16f"><Array dim="2 1">0 1</Array></LUT1D>',
         'LUT3D': '<LUT3D inBitDepth="16f" outBitDepth="16f"><Array dim="2 2 2 3">' + '0 ' * 24 + '</Array></LUT3D>',
         'ExposureContrast': '<ExposureContrast inBitDepth="16f" outBitDepth="16f" style="log"/>', 'Gamma': '<Gamma inBitDepth="16f" outBitDepth="16f" style="basicFwd"/>',
         'Log': '<Log inBitDepth="16f" outBitDepth="16f" style="log2"/>', 'Reference': '<Reference inBitDepth="16f" outBitDepth="16f"/>',
         'Dynamic': '<Range inBitDepth="16f" outBitDepth="16f"><DynamicParameter param="x"/></Range>',
         'Unknown': '<Mystery a="b"/>', 'Description': '<Description>t</Description>', 'Info': '<Info><AppRelease>r</AppRelease></Info>'}
AUTO = ['ExposureContrast', 'Gamma', 'Log', 'Reference', 'Dynamic']
CLS = {'ASC_CDL': 'ASCCDL', 'Dynamic': 'Range'}


def gen_doc(rng, depth=2):
    out = []
    for _ in range(rng.randint(0, 4)):
        if depth and rng.random() < 0.3: out.append(['Group', gen_doc(rng, depth - 1)])
        else: out.append(pick(rng, list(CHILD)) if rng.random() < 0.4 else pick(rng, ['Range', 'Matrix', 'ASC_CDL', 'LUT1D', 'Description']))
    return out


def doc_text(items, ns):
    s = ''
    for x in items:
        if isinstance(x, list): s += '<Group inBitDepth="16f" outBitDepth="16f">' + doc_text(x[1], ns) + '</Group>'
        else: s += CHILD[x]
    return s


def doc_names(items):
    return [['Group', doc_names(x[1])] if isinstance(x, list) else CLS.get(x, x) for x in items if isinstance(x, list) or x not in ('Unknown', 'Description', 'Info')]


def names_of(procs): return [['Group', names_of(p.getProcesses())] if type(p).__name__ == 'Group' else type(p).__name__ for p in procs]


def offending(items, auto, duiker):
    """The errors that strict reading may raise."""
    out = set()
    for x in items:
        if isinstance(x, list):
            if not duiker: out.add('UnsupportedExtensionError')
            out |= offending(x[1], auto, duiker)
        elif x == 'Unknown': out.add('UnknownProcessNodeError')
        elif x in AUTO and not auto: out.add('UnsupportedExtensionError')
    return out


@kind('strict', [('C20', 900, 9000)])
class Strict(object):
    @staticmethod
    def gen(rng, i):
        doc = gen_doc(rng)
        if i % 3 == 0: doc = [pick(rng, list(CHILD) + [['Group', [pick(rng, list(CHILD))]], ['Group', [['Group', [pick(rng, list(CHILD))]]]]])]
        return {'doc': doc, 'features': pick(rng, ['All', 'CLF', 'Autodesk', 'Duiker Research', 3, 0, 1, 2]), 'strict': rng.random() < 0.6,
                'how': pick(rng, ['read', 'file', 'gzip', 'init']), 'ns': rng.random() < 0.3}

    @staticmethod
    def check(c):
        cl = clf()
        text = '<ProcessList%s>%s</ProcessList>' % (' xmlns="urn:x"' if c['ns'] else '', doc_text(c['doc'], c['ns']))
        bits = {'All': 15, 'CLF': 0, 'Autodesk': 1, 'Duiker Research': 2}.get(c['features'], c['features'])
        features(bits)
        bad = offending(c['doc'], bits & 1, bits & 2)
        with Scratch() as d:
            f = os.path.join(d, 'f.clf')

            def go():
                if c['how'] == 'read':
                    p = cl.ProcessList()
                    p.read(ET.fromstring(text), c['strict']) if c['strict'] else p.read(ET.fromstring(text))
                    return p
                z = c['how'] == 'gzip' and bits & 2
                with (gzip.open(f, 'wb') if z else open(f, 'wb')) as fp: fp.write(text.encode())
                if c['how'] == 'init': return cl.ProcessList(f, c['strict'])
                p = cl.ProcessList()
                p.readFile(f, c['strict'])
                return p
            if c['strict'] and bad:
                raises(sorted(bad), go)
                return
            p = go()
            expect(names_of(p.getProcesses()) == doc_names(c['doc']), 'nodes are', names_of(p.getProcesses()), 'not', doc_names(c['doc']))
            if 'Dynamic' in c['doc']:
                k = [x for x in c['doc'] if isinstance(x, list) or x not in ('Unknown', 'Description', 'Info')].index('Dynamic')
                expect(bool(p[k].getDynamicParam('x')) == bool(bits & 1), 'dynamic parameter')


@kind('cdlgate', [('C20', 64, 64)])
class CdlGate(object):
    @staticmethod
    def gen(rng, i): return {'style': CDL[i % 8], 'features': i // 8 % 4, 'stride': 3 if i < 32 else 4}

    @staticmethod
    def check(c):
        n = clf().ASCCDL(style=c['style'])
        features(c['features'])
        v = np.array([0.1, 0.2, 0.3, 0.4][:c['stride']], np.float32)
        if c['style'] in CDL[4:] and not c['features'] & 1: raises(['UnsupportedExtensionError'], n.process, v, c['stride'])
        else: n.process(v, c['stride'])
