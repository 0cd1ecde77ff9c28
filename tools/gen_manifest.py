"""Writes /verif/MANIFEST.json from the specs that exist"""
import ast, json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
import check
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
NA = {}
checks, na = [], []
for p in props:
    i = p['id']
    spec = os.path.join(here, 'specs', i.lower() + '.py')
    if i in NA or not os.path.exists(spec):
        na.append({'property': i, 'reason': NA.get(i, 'not under contract yet')})
        continue
    sym, nat, meta = check.units_of(i.lower())
    level = meta.get('LEVEL', 'proof' if sym else 'exploration')
    note = meta.get('NOTE', '')
    bounded = meta.get('BOUNDED')
    text = ('Every obligation generated from the current source of the functions involved is discharged for all inputs (%d contract units). '
            'Trusted: pyvc (the Python semantics of the interpreter), its contracts of builtins and the standard library, z3/cvc5.' % len(sym))
    if meta.get('TRUSTED'):
        text += ' Also trusted: ' + '; '.join(meta['TRUSTED']) + '.'
    if bounded:
        text += ' Bounded stand-ins (not counted as proved): ' + '; '.join(bounded) + '.'
    if note:
        text += ' ' + note
    checks.append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i,
                   'evidence_file': 'evidence/%s.json' % i,
                   'technique': 'contract-based deductive verification: contracts on the real functions, verification conditions by symbolic interpretation of their source, z3/cvc5; contracts also executed against the real code to replay counterexamples',
                   'level': level, 'level_note': text})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo. fix: commits are listed in KNOWN_FINDINGS.txt.'}, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed,', len(na), 'not')
