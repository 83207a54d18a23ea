"""Plants the bugs of a batch file and confirms each: plant.py BATCH.py [id ...]

A batch defines SEEDS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks)].
Every step runs in a copy of /repo that is bind-mounted over /repo in a namespace of its own,
so /repo itself is never touched. Results: applies, demo clean, demo patched, tests, check."""
import concurrent.futures as cf
import json
import os
import runpy
import shutil
import subprocess
import sys

SEEDED = '/verif/seeded'
W = '/tmp/w'
BOOT = '''import os, sys, tempfile, shutil
sys.dont_write_bytecode = True
sys.path.insert(0, '/opt/vp/py2')
import warnings
warnings.filterwarnings('ignore')
import py2compat
sys.path.insert(0, os.path.join(os.getcwd(), 'python'))
import io
import numpy as np
import aces.clf as clf


def close(a, b, tol=1e-4):
    a, b = [float(x) for x in a], [float(x) for x in b]
    return len(a) == len(b) and all(abs(x - y) <= tol * max(1.0, abs(x), abs(y)) for x, y in zip(a, b))


def need(ok, *what):
    if not ok:
        sys.stderr.write(' '.join(map(str, what)) + '\\n')
        sys.exit(1)

'''
SH = '''#!/bin/sh
# exit 0: the behaviour is right; 1: it is broken
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def ns(tree, cmd, timeout=1200):
    """Runs cmd with tree in the place of /repo."""
    try:
        return subprocess.run(['unshare', '-Urm', 'bash', '-c', 'mount --bind %s /repo && cd /repo && %s' % (tree, cmd)],
                              capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess(cmd, 99, '', 'timeout')


def make(s):
    d = os.path.join(SEEDED, s['id'])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    tree = os.path.join(W, s['id'])
    shutil.rmtree(tree, ignore_errors=True)
    shutil.copytree('/repo', tree, symlinks=True)
    for f, old, new in s['edits']:
        p = os.path.join(tree, f)
        t = open(p).read()
        if t.count(old) != 1: raise SystemExit('%s: %d places match in %s: %r' % (s['id'], t.count(old), f, old))
        open(p, 'w').write(t.replace(old, new))
    diff = subprocess.run(['git', '-C', tree, 'diff'], capture_output=True, text=True).stdout
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    open(os.path.join(d, 'demo.py'), 'w').write(BOOT + s['demo'].lstrip('\n'))
    open(os.path.join(d, 'demo.sh'), 'w').write(SH)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    return tree


def confirm(s, tree):
    d = os.path.join(SEEDED, s['id'])
    r = {}
    a = subprocess.run(['sh', d + '/demo.sh'], cwd='/repo', capture_output=True, text=True, timeout=300)
    b = ns(tree, 'sh %s/demo.sh' % d, 300)
    r['demo'] = (a.returncode, b.returncode)
    r['err'] = (a.stderr[-300:], b.stderr[-200:])
    o = '%s/%s.json' % (W, s['id'])
    ns(tree, 'bash /opt/vp/test.sh %s' % o, 600)
    r['tests'] = len(json.load(open(o))['passed']) if os.path.exists(o) else None
    return r


def build(tree): return ns(tree, 'bash /opt/vp/build.sh', 300).returncode


def check(pid, tree, tier='quick'):
    """In a copy of /verif, so that several can run at the same time."""
    v = tree + '.verif'
    shutil.rmtree(v, ignore_errors=True)
    subprocess.run(['git', 'clone', '-q', '/verif', v]) if False else shutil.copytree(
        '/verif', v, ignore=shutil.ignore_patterns('.git', 'evidence', 'seeded', '__pycache__'))
    r = ns(tree, 'mount --bind %s /verif && cd /verif && VERIF_SEED=1 python3-vt check.py %s %s' % (v, pid, tier))
    shutil.rmtree(v, ignore_errors=True)
    return r


def whole(s):
    tree = make(s)
    r = confirm(s, tree)
    r['build'] = build(tree)
    c = check(s['property'], tree)
    r['check'] = c.returncode
    r['out'] = c.stdout[-900:] + c.stderr[-300:]
    shutil.rmtree(tree, ignore_errors=True)
    return s, r


def main(a):
    seeds = runpy.run_path(a[0])['SEEDS']
    if a[1:]: seeds = [s for s in seeds if s['id'] in a[1:]]
    with cf.ThreadPoolExecutor(3) as ex:
        for s, r in ex.map(whole, seeds):
            good = r['demo'][0] == 0 and r['demo'][1] not in (0, 99) and r['tests'] == 5 and r['build'] == 0
            print('%-28s %s %s  demo %s tests %s build %s check %s' % (s['id'], s['property'], 'VALID' if good else 'INVALID', r['demo'], r['tests'], r['build'],
                  'CAUGHT' if r['check'] == 1 else 'rc %s' % r['check']), flush=True)
            if not good: print('    ', r['err'])
            print('     ' + r['out'].replace('\n', '\n     ')[:900], flush=True)
            if not good: shutil.rmtree(os.path.join(SEEDED, s['id']), ignore_errors=True)


if __name__ == '__main__': main(sys.argv[1:])
