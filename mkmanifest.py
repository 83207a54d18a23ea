"""Writes MANIFEST.json from properties.jsonl, trust.py and the proof registry."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import trust
T_PROOF = 'contract-based deductive verification (pyvc: VC generation from the real source, z3/cvc5); counter-models replayed, run-time contract monitor beside it'
T_MON = 'bounded: run-time monitoring of the contracts on generated inputs (functions outside the deductive verifier\'s reach)'
T_MIX = 'contract-based deductive verification (pyvc) of the functions named in DESIGN.md; the rest bounded, by run-time contract monitoring'
checks = []
for line in open('properties.jsonl'):
    p = json.loads(line)['id']
    lv = trust.LEVEL.get(p, 'exploration')
    note = trust.NOTE.get(p) or ('Proved for all inputs over the reals from the current source; trusted: pyvc, its library models, z3; floats as reals.' if lv == 'proof'
                                 else 'Bounded: seeded generated inputs judged against the contract on the real code; nothing is proved.')
    if trust.BOUNDED.get(p): note += ' Bounded part: ' + trust.BOUNDED[p]
    checks.append({'property': p, 'quick_cmd': 'python3-vt check.py %s quick' % p, 'thorough_cmd': 'python3-vt check.py %s thorough' % p,
                   'technique': (T_MIX if trust.BOUNDED.get(p) else T_PROOF) if lv == 'proof' else T_MON, 'level': lv, 'level_note': note})
json.dump({'version': 1, 'setup_cmd': 'python3-vt -c "import z3, lib2to3; print(z3.get_version_string())"', 'checks': checks, 'not_applicable': [],
           'notes': 'See DESIGN.md. Known findings: known-findings.txt.'}, open('MANIFEST.json', 'w'), indent=1)
