"""Monitor runner (repository interpreter).

run.py PID SEED TIER OUT.json     all cases of the property
run.py --replay FILE              the recorded failing input again; exit 1 if it still fails
run.py --judge IN.json OUT.json   judges a list of {kind, case}"""
import json
import os
import sys
import time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from monitor import base
from monitor import numeric
try:
    from monitor import lists
except ImportError as e:
    if 'lists' not in str(e): raise
try:
    from monitor import luts
    from monitor import tools
except ImportError as e:
    if 'luts' not in str(e): raise

FIXED = os.path.join(base.VERIF, 'monitor', 'cases.jsonl')


def fixed(pid):
    """Recorded inputs of past defects: always tried."""
    if not os.path.exists(FIXED): return []
    out = []
    for line in open(FIXED):
        d = json.loads(line)
        if d['property'] == pid: out.append((d['kind'], d['case']))
    return out


def run(pid, seed, tier, part=0, parts=1, budget=None):
    t0 = time.time()
    r = {'property': pid, 'evaluations': 0, 'distinct': 0, 'samples': [], 'failures': [], 'kinds': {}, 'cut': False}
    try:
        base.clf()
    except BaseException as e:
        r['failures'].append({'kind': 'import', 'case': {}, 'message': 'the package does not load: %s: %s' % (type(e).__name__, e)})
        return r
    seen = set()
    for nm, case in (fixed(pid) if part == 0 else []):
        r['evaluations'] += 1
        m = base.run_case(nm, case)
        if m: r['failures'].append({'kind': nm, 'case': case, 'message': m})
    for nm, q, t in base.PROPS.get(pid, []):
        K = base.KINDS[nm]
        count = q if tier == 'quick' else t
        rng = base.rng_for(seed, pid, nm)
        done = 0
        bad = 0
        for i in range(count):
            state = rng.random()
            import random
            crng = random.Random('%s/%s/%s/%d' % (seed, pid, nm, i))
            if i % parts != part: continue
            if budget and time.time() - t0 > budget:
                r['cut'] = True
                break
            case = base.clean(K.gen(crng, i))
            text = json.dumps(case, sort_keys=True)
            if text not in seen:
                seen.add(text)
                r['distinct'] += 1
            m = base.run_case(nm, case)
            done += 1
            if m:
                bad += 1
                r['failures'].append({'kind': nm, 'case': case, 'message': m})
                if bad >= 5: break
            elif done <= 1 and len(text) < 3000: r['samples'].append({'kind': nm, 'case': case})
        r['kinds'][nm] = done
        r['evaluations'] += done
    r['seconds'] = round(time.time() - t0, 1)
    return r


def main(a):
    if a[0] == '--replay':
        d = json.load(open(a[1]))
        if 'kind' not in d:
            print('no failing input was found; the failed obligations are in the file')
            print(json.dumps(d.get('obligations', d), indent=1)[:4000])
            return 1
        base.clf()
        m = base.run_case(d['kind'], d['case'])
        print('%s: %s' % ('FAILS' if m else 'passes', m or d['kind']))
        return 1 if m else 0
    if a[0] == '--judge':
        base.clf()
        out = []
        for d in json.load(open(a[1])):
            out.append(base.run_case(d['kind'], d['case']) if d['kind'] in base.KINDS else None)
        json.dump(out, open(a[2], 'w'))
        return 0
    pid, seed, tier, out = a[:4]
    part, parts = (int(a[4]), int(a[5])) if len(a) > 5 else (0, 1)
    budget = float(a[6]) if len(a) > 6 else None
    r = run(pid, seed, tier, part, parts, budget)
    json.dump(r, open(out, 'w'))
    return 0


if __name__ == '__main__': sys.exit(main(sys.argv[1:]))
