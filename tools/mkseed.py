"""Writes /verif/seeded/<id>/ from the definitions in tools/seeds.py and confirms each:
   mkseed.py [--check] [id...]      (--check: also run the property's check on the changed tree)"""
import json, os, re, shutil, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, 'tools'))
from seeds import SEEDS
PY = '/opt/venv/bin/python'
args = sys.argv[1:]
docheck = '--check' in args
ids = [a for a in args if not a.startswith('-')]
for sid, s in sorted(SEEDS.items()):
    if ids and not any(sid.startswith(i) for i in ids):
        continue
    work = '/tmp/seed_%s' % sid
    shutil.rmtree(work, ignore_errors=True)
    subprocess.check_call(['cp', '-a', '/repo', work])
    out = os.path.join(here, 'seeded', sid)
    os.makedirs(out, exist_ok=True)
    with open(out + '/demo.py', 'w') as f:
        f.write(s['demo'].lstrip('\n'))
    with open(out + '/demo.sh', 'w') as f:
        f.write('#!/bin/bash\n# exit 0 when the property holds, nonzero when it is broken; keeps to a scratch directory\n'
                'HERE="$(cd "$(dirname "$0")" && pwd)"\nT="$(mktemp -d)" || exit 9\ntrap \'rm -rf "$T"\' EXIT\n'
                'PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3\n'
                'PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 SCRATCH="$T" timeout 120 "$PY" -W ignore "$HERE/demo.py"\n')
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
              open(out + '/meta.json', 'w'), indent=1)
    before = subprocess.run(['bash', out + '/demo.sh'], cwd=work, capture_output=True, text=True)
    for fn, old, new in s['edits']:
        p = os.path.join(work, 'abl/vpath/base', fn)
        t = open(p).read()
        if t.count(old) != 1:
            print(sid, 'EDIT MATCHES %d TIMES' % t.count(old), repr(old))
        open(p, 'w').write(t.replace(old, new))
    d = subprocess.run(['git', 'diff'], cwd=work, capture_output=True, text=True).stdout
    open(out + '/patch.diff', 'w').write(d)
    after = subprocess.run(['bash', out + '/demo.sh'], cwd=work, capture_output=True, text=True)
    t = subprocess.run([PY, '-B', '-m', 'pytest', 'tests', '-q', '-p', 'no:cacheprovider'], cwd=work, capture_output=True, text=True,
                       env=dict(os.environ, PYTHONPATH=work))
    tests = t.stdout.strip().splitlines()[-1] if t.stdout else t.stderr[-200:]
    good = before.returncode == 0 and after.returncode != 0 and 'failed' not in tests and '222 passed' in tests
    print(sid, 'OK ' if good else 'BAD', 'demo %d -> %d' % (before.returncode, after.returncode), tests)
    if not good:
        print(before.stderr[-600:], after.stderr[-300:], t.stdout[-600:] if 'failed' in tests else '')
    if docheck:
        p = subprocess.run([sys.executable, 'check.py', s['property'], 'quick'], cwd=here, capture_output=True, text=True,
                           env=dict(os.environ, VERIF_REPO=work))
        lines = p.stdout.strip().splitlines()
        v = [l for l in lines if l.startswith('VIOLATION')]
        print('   check', s['property'], 'exit', p.returncode, 'CAUGHT' if v else 'MISSED',
              'no-input' if v and 'no-failing' in v[0] else '', '|', [l.strip()[:200] for l in lines if 'failing input' in l or 'open:' in l][:2])
    shutil.rmtree(work, ignore_errors=True)
