#!/usr/bin/env python3
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m = json.load(open(V + '/harness/map.json')); props = [json.loads(l) for l in open(V + '/properties.jsonl')]
na = json.load(open(V + '/harness/not_applicable.json'))
checks, nas = [], []
for p in props:
    i = p['id']
    if i in m:
        checks.append({'property': i, 'quick_cmd': f'python3 check.py {i}', 'thorough_cmd': f'VERIF_TIER=thorough python3 check.py {i}', 'technique': m[i].get('technique', 'runtime monitoring: randomized multi-step workloads on the real code against an online reference model and invariant monitors'),
            'level': m[i].get('level', 'exploration'), 'level_note': m[i].get('note', 'Held on the executions generated (counts in the evidence file). The repository\'s own sources are compiled and run; the Substrate/Frontier crates they import are replaced by the re-implementations in /verif/shim, which are trusted (and checked by the repository\'s own unit tests, which pass on them).')})
    else: nas.append({'property': i, 'reason': na.get(i, 'No monitor has been built for this property yet.')})
json.dump({'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': checks, 'not_applicable': nas, 'notes': 'No hooks in /repo: the monitors observe the pallets through their public storage, calls and events.'}, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(nas), 'not applicable')
