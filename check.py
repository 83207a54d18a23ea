#!/usr/bin/env python3-vt
"""Decides one property of /repo's current tree: check.py PROPERTY [quick|thorough].

1. pyvc verifies the contracts of the functions the property uses and the property's proof
   scenarios over them (from the source as it is now), in a pool of processes.
2. At the same time the run-time contract monitor runs the same code under the repository's
   interpreter on generated inputs.
3. Counter-models of failed obligations are turned into inputs and run against the code.
Exit 0: nothing failed. Exit 1 and a VIOLATION line otherwise (see DESIGN.md, Verdicts)."""
import json
import multiprocessing as mp
import os
import re
import subprocess
import sys
import tempfile
import time

T0 = time.time()
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
PYPY = '/opt/venv/bin/python'
LIMIT = {'quick': 800, 'thorough': 3400}      # of the whole check
CORES = min(8, os.cpu_count() or 8)


def known_findings(pid):
    """The (kind, case) of the listed findings of the property."""
    out = []
    path = os.path.join(HERE, 'known-findings.txt')
    for line in open(path) if os.path.exists(path) else []:
        if not line.startswith('known: property=%s ' % pid): continue
        rest = line.split(None, 2)[2]
        kind, rest = rest.split(None, 1)
        case, end = json.JSONDecoder().raw_decode(rest)
        out.append({'kind': kind, 'case': case, 'what': rest[end:].strip()})
    return out


# ---------------------------------------------------------------- the monitor

class Monitor(object):
    def __init__(self, pid, seed, tier, parts, budget, tmp):
        self.outs, self.procs = [], []
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
        for i in range(parts):
            o = os.path.join(tmp, 'mon%d.json' % i)
            self.outs.append(o)
            self.procs.append(subprocess.Popen([PYPY, os.path.join(HERE, 'monitor', 'run.py'), pid, str(seed), tier, o,
                                                str(i), str(parts), str(budget)], env=env, cwd=tmp,
                                               stdout=subprocess.DEVNULL, stderr=open(o + '.err', 'w')))

    def result(self, limit):
        end = time.time() + limit
        tot = {'evaluations': 0, 'distinct': 0, 'samples': [], 'failures': [], 'kinds': {}, 'cut': False, 'lost': []}
        for p, o in zip(self.procs, self.outs):
            try:
                p.wait(max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
            if not os.path.exists(o):
                tot['lost'].append('a monitor process ended with %s: %s' % (p.returncode, open(o + '.err').read()[-500:]))
                continue
            r = json.load(open(o))
            for k in ('evaluations', 'distinct'): tot[k] += r[k]
            tot['samples'] += r['samples']
            tot['failures'] += r['failures']
            tot['cut'] = tot['cut'] or r['cut']
            for k, n in r['kinds'].items(): tot['kinds'][k] = tot['kinds'].get(k, 0) + n
        return tot


def judge(cases, tmp):
    """Runs counter-models against the code; the message of each that fails."""
    if not cases: return []
    a, b = os.path.join(tmp, 'judge.json'), os.path.join(tmp, 'judged.json')
    json.dump(cases, open(a, 'w'))
    try:
        subprocess.run([PYPY, os.path.join(HERE, 'monitor', 'run.py'), '--judge', a, b], cwd=tmp, timeout=300,
                       env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        return json.load(open(b))
    except (subprocess.TimeoutExpired, IOError, ValueError):
        return [None] * len(cases)


# ---------------------------------------------------------------- the proofs

def work(job):
    from pyvc import driver, contracts as K
    from proofs import registry
    kind, key, broken, limit = job[:4]
    if len(job) > 4:
        from pyvc import engine
        engine.EFFORT *= job[4]
        driver.FULL_MS *= job[4]
    if kind == 'contract':
        name, fn, uses = key, K.ALL[key].prove, K.ORDER[:K.ORDER.index(key)]
    else:
        name, fn, uses = [s for s in registry.SCEN[kind] if s[0] == key][0]
    try:
        return job, driver.verify(name, fn, K.available(uses, broken), limit).as_dict()
    except MemoryError:
        err = 'out of memory'
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(sys.exc_info()[2])[-1]
        err = 'engine: %s: %s (%s:%d)' % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno)
    return job, {'scenario': name, 'paths': 0, 'error': err, 'seconds': 0, 'solver_seconds': 0, 'functions': [],
                 'contracts_applied': [], 'obligations': [], 'loops_summarised': 0, 'vacuous_obligations': 0}


def again(pid, results, end):
    """Scenarios with an obligation that was not discharged, with more effort: a proof found now is a
    proof. (Solver limits count time: a busy machine can miss what it finds otherwise.)"""
    jobs = []
    for (kind, key), r in results:
        if kind == pid and any(o['status'] != 'discharged' for o in r['obligations']):
            broken = tuple(sorted(k for (q, k), x in results if q == 'contract' and not accepted(x)))
            jobs.append((kind, key, broken, max(30, end - time.time()), 3))
    if not jobs: return results
    res = dict(results)
    pool = mp.Pool(min(CORES, len(jobs)), maxtasksperchild=1)
    try:
        it = pool.imap_unordered(work, jobs, 1)
        for _ in jobs:
            try:
                job, r = it.next(timeout=max(1, end - time.time()))
            except (StopIteration, mp.TimeoutError):
                break
            if accepted(r): res[job[:2]] = r
    finally:
        pool.terminate()
        pool.join()
    return sorted(res.items())


def needed(uses):
    """The contracts and those their own proofs use."""
    from pyvc import contracts as K
    todo = set(uses)
    return [q for q in K.ORDER if q in todo]


def prove(pid, procs, end):
    """[(job, outcome)] of the contracts and scenarios of the property."""
    from pyvc import contracts as K
    from proofs import registry
    scen = registry.SCEN.get(pid, [])
    if not scen: return [], []
    limit = max(30, end - time.time())
    uses = sorted({u for _, _, us in scen for u in us})
    jobs = [('contract', q, (), limit) for q in needed(uses)] + [(pid, n, (), limit) for n, _, _ in scen]
    slow = ('Tetrahedral', 'Trilinear', 'NoClamp', 'noClamp')
    jobs.sort(key=lambda j: not any(s in j[1] for s in slow))
    broken, results, undone = set(), {}, []
    while jobs:
        left = set(jobs)
        pool = mp.Pool(procs, maxtasksperchild=1)
        try:
            it = pool.imap_unordered(work, jobs, 1)
            while left:
                try:
                    job, r = it.next(timeout=max(1, end - time.time()))
                except (StopIteration, mp.TimeoutError):
                    break
                left.discard(job)
                results[job[:2]] = r
        finally:
            pool.terminate()
            pool.join()
        undone = sorted(j[1] for j in left)
        if left: break
        bad = {k for (kind, k), r in results.items() if kind == 'contract' and not accepted(r)} - broken
        if not bad: break
        broken |= bad
        # whatever relied on a contract that does not hold is verified again with the body
        jobs = [(kind, k, tuple(sorted(broken)), max(30, end - time.time())) for (kind, k), r in results.items()
                if set(r['contracts_applied']) & bad]
    return [(k, r) for k, r in sorted(results.items())], undone


def accepted(r): return not r['error'] and r['obligations'] and all(o['status'] == 'discharged' for o in r['obligations'])


def confront(results, m, tmp):
    """Counter-models against the code: the obligations that failed and the inputs on which the code fails."""
    failing, cases = [], []
    for (kind, key), r in results:
        for o in r['obligations']:
            if o['status'] != 'discharged' and kind != 'contract':
                failing.append((key, o))
    for (kind, key), r in results:
        for o in r['obligations']:
            if o['status'] != 'discharged' and o['case'] and o['case'].get('kind') and len(cases) < 40:
                case = {k: v for k, v in o['case'].items() if k != 'kind'}
                cases.append({'kind': o['case']['kind'], 'case': case, 'obligation': '%s: %s' % (key, o['name'])})
    msgs = judge(cases, tmp)
    # a KeyError outside the code under test: the counter-model did not describe a whole case
    found = [dict(c, message=x, source='counter-model of an obligation') for c, x in zip(cases, msgs)
             if x and not re.match(r'raises KeyError.*\(\w+\.py:\d+', x)]
    found += [dict(f, source='run-time contract monitor') for f in m['failures']]
    return failing, found


def main(argv):
    pid = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get('VERIF_TIER') or 'quick'
    if tier not in LIMIT: tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    end = T0 + LIMIT[tier]
    evid = os.path.join(HERE, 'evidence')
    os.makedirs(evid, exist_ok=True)
    from proofs import registry
    has_proof = bool(registry.SCEN.get(pid))
    with tempfile.TemporaryDirectory(prefix='clfcheck') as tmp:
        mparts = (3 if has_proof else 7) if tier == 'quick' else CORES // 2
        mon = Monitor(pid, seed, tier, mparts, LIMIT[tier] * 0.6, tmp)
        results, undone = prove(pid, CORES - 2 if tier == 'quick' else CORES - 2, end - 150)
        m = mon.result(max(5, end - 90 - time.time()))

        failing, found = confront(results, m, tmp)
        if failing and not found and end - 60 - time.time() > 60:
            results = again(pid, results, end - 60)
            failing, found = confront(results, m, tmp)

        # known findings
        known = known_findings(pid)
        kmsgs = judge([{'kind': k['kind'], 'case': k['case']} for k in known], tmp)
        for k, x in zip(known, kmsgs):
            if x: print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    kset = {(k['kind'], json.dumps(k['case'], sort_keys=True)) for k in known}
    found = [f for f in found if (f['kind'], json.dumps(f['case'], sort_keys=True)) not in kset]

    write_evidence(evid, pid, tier, seed, results, undone, m, found, failing)
    for n in os.listdir(evid):
        if n.startswith('replay-%s-' % pid): os.unlink(os.path.join(evid, n))
    if m['lost'] and not found:
        print('the monitor gave no answer: %s' % m['lost'][0])
        return 2
    names = ['%s: %s' % (key, o['name']) for key, o in failing]
    if found:
        # one line for each kind of failure, the first is enough to fail
        seen = set()
        for f in found:
            if f['kind'] in seen: continue
            seen.add(f['kind'])
            path = os.path.join(evid, 'replay-%s-%s.json' % (pid, f['kind']))
            json.dump({'property': pid, 'kind': f['kind'], 'case': f['case'], 'message': f['message'], 'source': f['source'],
                       'obligation': f.get('obligation'), 'failed_obligations': names[:20],
                       'how': PYPY + ' /verif/monitor/run.py --replay ' + path}, open(path, 'w'), indent=1)
            print('%s [%s]' % (f['message'][:300], f['source']))
            if f.get('obligation'): print('failed obligation: %s' % f['obligation'])
            print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if failing:
        path = os.path.join(evid, 'replay-%s-obligations.json' % pid)
        json.dump({'property': pid, 'obligations': [dict(o, scenario=key) for key, o in failing[:30]]}, open(path, 'w'), indent=1)
        for key, o in failing[:5]: print('obligation not discharged (%s): %s: %s %s' % (o['status'], key, o['name'], o['path']))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
        return 1
    for (kind, key), r in results:
        if r['error']: print('UNDECIDED by proof (bounded monitor decides): %s: %s' % (key, r['error']))
    for k in undone: print('UNDECIDED by proof (out of time): %s' % k)
    n = sum(len(r['obligations']) for _, r in results)
    print('%s holds: %d obligations discharged, %d monitored cases, %.0f s' % (pid, n, m['evaluations'], time.time() - T0))
    return 0


def write_evidence(evid, pid, tier, seed, results, undone, m, found, failing):
    from pyvc import contracts as K
    from proofs import registry
    import trust
    obls = [(kind, key, o) for (kind, key), r in results for o in r['obligations']]
    by = {}
    for _, _, o in obls:
        if o['status'] == 'discharged': by[o['by']] = by.get(o['by'], 0) + 1
    cov = {
        'evaluations': m['evaluations'], 'distinct_nontrivial': m['distinct'],
        'rule': 'run-time contract monitor: seeded generators of the kinds %s; two cases are distinct when their JSON differs; '
                'every case runs the real code and judges its result against the specification' % sorted(m['kinds']),
        'samples': m['samples'][:3], 'monitored_kinds': m['kinds'], 'monitor_cut_short': m['cut'],
    }
    level = trust.LEVEL.get(pid, 'exploration')
    if registry.SCEN.get(pid):
        funcs = sorted({f for _, r in results for f in r['functions']})
        cov.update({
            'obligations': len(obls), 'discharged': sum(o['status'] == 'discharged' for _, _, o in obls),
            'checker_cmd': 'python3-vt check.py %s %s' % (pid, tier),
            'trusted_base': trust.BASE + trust.EXTRA.get(pid, []),
            'by_back_end': by,
            'solver_seconds': round(sum(r['solver_seconds'] for _, r in results), 1),
            'paths': sum(r['paths'] for _, r in results),
            'vacuous_obligations': sum(r['vacuous_obligations'] for _, r in results),
            'loops_summarised': sum(r['loops_summarised'] for _, r in results),
            'functions_verified': funcs,
            'contracts_proved': sorted(k for (kind, k), r in results if kind == 'contract' and accepted(r)),
            'contracts_failed_body_used': sorted(k for (kind, k), r in results if kind == 'contract' and not accepted(r)),
            'scenarios': [{'name': k, 'obligations': len(r['obligations']), 'seconds': r['seconds'], 'contracts_applied': r['contracts_applied']}
                          for (kind, k), r in results],
            'undecided': ['%s: %s' % (k, r['error']) for (kind, k), r in results if r['error']] + undone,
            'bounded': trust.BOUNDED.get(pid, ''),
        })
    if failing: cov['failed_obligations'] = ['%s: %s (%s)' % (k, o['name'], o['status']) for k, o in failing[:50]]
    d = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
         'assumptions': trust.ASSUME + trust.EXTRA.get(pid, []), 'wall_s': round(time.time() - T0, 1),
         'violations': len(found) + (1 if failing and not found else 0)}
    path = os.path.join(evid, pid + '.json')
    json.dump(d, open(path + '.tmp', 'w'), indent=1)
    os.replace(path + '.tmp', path)


if __name__ == '__main__': sys.exit(main(sys.argv))
