#!/usr/bin/env python3
"""replay a failing input:  replay.py replays/Cxx.json"""
import json
import sys
import check

r = json.load(open(sys.argv[1]))
if r.get('inputs') is None and not r.get('rng'):
    print(json.dumps(r, indent=1))
    sys.exit(1)
if r.get('rng'):
    seed, unit, k = r['rng'].rsplit('/', 2)
    req = {'seed': seed, 'seconds': 600, 'runs': int(k) + 1, 'jobs': [{'unit': unit}]}
else:
    req = {'jobs': [{'unit': r['unit'], 'given': [r['inputs']]}]}
print(json.dumps(check.concrete(r['property'].lower(), req, 900), indent=1))
