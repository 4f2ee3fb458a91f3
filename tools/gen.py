import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
sys.path.insert(0, os.path.join(H, 'tools'))
import props
PY = 'python3'
NOTE = ('z3 shows every assertion for all values inside the boxes and sizes stated per harness in the evidence (exact real arithmetic; '
        'double constants snapped to nearby rationals); the encoding is rebuilt from the current /repo on each run by executing the real functions '
        'on symbolic arrays. Trusted: the vsym interpreter (validated against concrete runs on each execution), JAX tracing, basix, z3. '
        'Bounded, not a proof beyond the boxes and sizes.')
with open(os.path.join(H, 'properties.jsonl'), 'w') as f:
    for k, p in sorted(props.P.items()):
        q = {a: p[a] for a in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
        assert len(q['title']) <= 80, q['title']
        f.write(json.dumps(q) + '\n')
m = {'version': 1, 'setup_cmd': f'{PY} run.py --selftest',
     'checks': [{'property': k, 'quick_cmd': f'{PY} run.py {k} --tier quick', 'thorough_cmd': f'{PY} run.py {k} --tier thorough',
                 'technique': 'symbolic execution of the real code on symbolic arrays, SMT (z3) over all values within bounds, counterexample replay',
                 'level': 'other', 'level_note': (p['notes'] + ' ' if p['notes'] else '') + NOTE}
                for k, p in sorted(props.P.items()) if not p['na']],
     'not_applicable': [{'property': k, 'reason': p['na']} for k, p in sorted(props.P.items()) if p['na']]}
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks', len(m['not_applicable']), 'n/a')
