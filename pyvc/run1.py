"""Developer entry: run scenarios of the named properties and print a table."""
import sys
sys.path.insert(0, '/verif')
from collections import Counter
from multiprocessing import Pool
from pyvc import driver, contracts as K


def one(job):
    kind, key, name, fn, uses = job
    try:
        return kind, key, driver.verify(name, fn, K.available(uses), 600).as_dict()
    except Exception:
        import traceback
        return kind, key, {'scenario': name, 'paths': 0, 'error': traceback.format_exc()[-1500:], 'seconds': 0, 'solver_seconds': 0, 'obligations': []}


def main(args):
    import importlib
    from proofs import registry
    jobs = []
    for a in args:
        if a == 'contracts':
            for i, q in enumerate(K.ORDER): jobs.append(('contract', q, q, K.ALL[q].prove, K.ORDER[:i]))
        else:
            pid, _, pat = a.partition(':')
            for name, fn, uses in registry.SCEN.get(pid, []):
                if pat in name: jobs.append(('prop', pid, name, fn, uses))
    global JOBS
    JOBS = jobs
    with Pool(8) as p:
        for kind, key, d in p.imap_unordered(idx, range(len(jobs))):
            c = Counter(x['status'] for x in d['obligations'])
            print('%-10s %-40s paths %4d %6.1fs solver %6.1fs %s %s' % (key, d['scenario'], d['paths'], d['seconds'],
                  d['solver_seconds'], dict(c), d['error'] or ''), flush=True)
            bad = [x for x in d['obligations'] if x['status'] != 'discharged']
            for x in bad[:2]: print('     ', x['status'], x['name'], x['path'], (x['detail'] or '')[:700], x['case'])


def idx(i): return one(JOBS[i])


if __name__ == '__main__': main(sys.argv[1:])
