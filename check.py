#!/usr/bin/env python3
"""check.py Cxx - decides one property on /repo's current source.

1. every proof unit of specs/cxx.py: the verifier reads the functions it needs from
   /repo, generates the obligations of the contracts and discharges them;
2. the same contracts are executed against the real code on concrete values (bounded
   cross-check; also replays the counterexamples of the verifier).

exit 0: all obligations discharged, no concrete run violates a contract
exit 1: VIOLATION property=<id> replay=<path> [no-failing-input-found]
"""
import ast
import json
import os
import pwd
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
VT = next((p for p in ('/opt/veriftools/pyvenv/bin/python', shutil.which('python3-vt') or '') if p and os.path.exists(p)),
          'python3-vt')
PY = next((p for p in ('/opt/venv/bin/python',) if os.path.exists(p)), sys.executable)
NOBODY = 65534


def units_of(spec):
    with open(os.path.join(HERE, 'specs', spec + '.py')) as f:
        tree = ast.parse(f.read())
    names = [n.name for n in tree.body if isinstance(n, ast.FunctionDef)]
    sym = [n for n in names if n.startswith(('unit_', 'proof_'))]
    nat = [n for n in names if n.startswith(('unit_', 'native_'))]
    meta = {'LABELS': {}}
    for n in tree.body:
        if isinstance(n, ast.FunctionDef) and n.name in sym:
            # every contract clause written in a unit must give rise to an obligation
            meta['LABELS'][n.name] = sorted({
                c.args[0].value for c in ast.walk(n)
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == 'ensure'
                and isinstance(c.args[0], ast.Constant)})
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id.isupper():
            try:
                meta[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    return sym, nat, meta


def prove(spec, unit, deadline):
    limit = max(30, int(deadline - time.time()))
    env = dict(os.environ, PYTHONPATH=HERE, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    cmd = [VT, '-W', 'ignore', '-m', 'pyvc.engine', spec, unit, '--limit', str(limit)]
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, env=env, timeout=limit + 60)
        return json.loads(p.stdout.strip().splitlines()[-1])
    except subprocess.TimeoutExpired:
        return {'unit': unit, 'crash': 'time limit'}
    except Exception as e:
        return {'unit': unit, 'crash': '%s: %s' % (e, p.stderr[-2000:])}


def concrete(spec, req, timeout):
    "run contracts concretely, unprivileged, inside of a scratch directory"
    scratch = tempfile.mkdtemp(prefix='vp_%s_' % spec)
    os.chmod(scratch, 0o755)
    home = os.path.join(scratch, 'w')
    os.mkdir(home)
    os.chmod(home, 0o777)
    # a private copy of the code under test: readable for the unprivileged user
    code = os.path.join(scratch, 'code')
    shutil.copytree(os.path.join(REPO, 'abl'), os.path.join(code, 'abl'), ignore=shutil.ignore_patterns('__pycache__', '*.pyc'))
    subprocess.run(['chmod', '-R', 'a+rX', code], check=True)
    env = {'PATH': '/usr/bin:/bin', 'HOME': home, 'TMPDIR': home, 'LANG': 'C.UTF-8', 'PYTHONDONTWRITEBYTECODE': '1',
           'PYTHONHASHSEED': '0', 'VERIF_REPO': code, 'VERIF_TIER': os.environ.get('VERIF_TIER', 'quick')}

    def drop():
        if os.getuid() == 0:
            os.setgroups([])
            os.setgid(NOBODY)
            os.setuid(NOBODY)
        os.setsid()
    try:
        p = subprocess.Popen([PY, '-B', '-W', 'ignore', os.path.join(HERE, 'native', 'run.py'), spec],
                             stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             cwd=home, env=env, preexec_fn=drop, text=True)
        try:
            out, err = p.communicate(json.dumps(req), timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            out, err = p.communicate()
            return {'error': 'concrete runs did not end within %d s' % timeout, 'stderr': err[-1500:],
                    'hang': True}
        try:
            return {'results': json.loads(out)}
        except ValueError:
            return {'error': 'concrete runs broke', 'stderr': err[-3000:]}
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def known_findings():
    path = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    out = []
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('finding: '):
                parts = dict(x.split('=', 1) for x in line[9:].split(' | ')[0].split())
                out.append((parts.get('property'), parts.get('id'), line.split(' | ', 1)[1].strip()))
    return out


def main():
    pid = sys.argv[1]
    spec = pid.lower()
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    os.environ['VERIF_TIER'] = tier
    thorough = tier == 'thorough'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    sym, nat, meta = units_of(spec)
    # the proofs end by a deadline; the time that is left goes to the search for failing inputs
    deadline = t0 + (480 if not thorough else 750)
    secs = meta.get('NATIVE_SECONDS', 6) * (5 if thorough else 1)
    runs = meta.get('NATIVE_RUNS', 400) * (8 if thorough else 1)

    with ThreadPoolExecutor(8) as ex:
        proofs = [(u, ex.submit(prove, spec, u, deadline)) for u in sym]
        conc = [(u, ex.submit(concrete, spec, {'seed': seed, 'seconds': secs, 'runs': runs,
                                               'jobs': [{'unit': u}]}, secs * 4 + 60)) for u in nat]
        proofs = [(u, f.result()) for u, f in proofs]
        conc = [(u, f.result()) for u, f in conc]

    found = []           # (unit, obligation, detail, inputs)
    open_ = []           # (unit, obligation, reason)
    tot = {'obligations': 0, 'discharged': 0, 'backend': {}, 'functions': {}, 'contracts': set(), 'loops': set(),
           'trusted': set(), 'solver_s': 0.0, 'queries': 0, 'paths': 0, 'covers': {}}
    names = {}
    evaluations = rejected = ensured = 0

    for u, r in conc:
        if 'error' in r:
            if r.get('hang'):
                found.append((u, 'ends', r['error'], None, None))
            else:
                found.append((u, 'the code under test can be run', r['error'] + ' ' + r['stderr'], None, None))
            continue
        x = r['results'][0]
        evaluations += x['runs']
        rejected += x['rejected']
        ensured += x['ensured']
        for v in x['violations']:
            found.append((u, v['obligation'], v['detail'], v['inputs'], v.get('rng')))
    for u, r in proofs:
        if 'crash' in r:
            open_.append((u, 'verifier', r['crash']))
            continue
        for k, (g, d) in r['obligations'].items():
            tot['obligations'] += g
            tot['discharged'] += d
            n = names.setdefault(u + ': ' + k, [0, 0])
            n[0] += g
            n[1] += d
        for k, n in r['backend'].items():
            tot['backend'][k] = tot['backend'].get(k, 0) + n
        for k, n in r['functions'].items():
            tot['functions'][k] = tot['functions'].get(k, 0) + n
        for k in ('contracts', 'loops', 'trusted'):
            tot[k] |= set(r[k])
        tot['solver_s'] += r['solver_s']
        tot['queries'] += r['queries']
        tot['paths'] += r['paths']
        for k, n in r['covers'].items():
            tot['covers'][k] = tot['covers'].get(k, 0) + n
        for f in r['failures']:
            rep = None
            if u in nat and f['inputs']:
                q = concrete(spec, {'jobs': [{'unit': u, 'given': f['inputs']}]}, 120)
                if 'results' in q and q['results'][0]['violations']:
                    rep = q['results'][0]['violations'][0]
            if rep is not None:
                found.append((u, rep['obligation'], rep['detail'], rep['inputs'], None))
            else:
                open_.append((u, f['obligation'], 'failed on path %s: %s' % (f['path'], f['detail'])))
        for s in r['unsupported']:
            open_.append((u, 'verification conditions', s))
        if u in nat and r.get('candidates'):
            q = concrete(spec, {'jobs': [{'unit': u, 'given': r['candidates'][:40]}]}, 120)
            if 'results' in q and q['results'][0]['violations']:
                v = q['results'][0]['violations'][0]
                found.append((u, v['obligation'], v['detail'], v['inputs'], None))
        if not r['failures'] and not r['unsupported'] and not r['obligations']:
            open_.append((u, 'vacuity', 'no obligation was generated'))
        if not r['failures'] and not r['unsupported']:
            for k in meta['LABELS'].get(u, ()):
                if k not in r['obligations']:
                    open_.append((u, 'vacuity', 'clause %r gave no obligation' % k))
        for k in meta.get('COVERS', {}).get(u, ()):
            if not r['covers'].get(k):
                open_.append((u, 'vacuity', 'situation %r was not reached' % k))

    if open_ and not found and nat:
        # the proof is open: search harder for a failing input
        with ThreadPoolExecutor(8) as ex:
            more = [(u, k, ex.submit(concrete, spec, {'seed': seed * 1000 + k, 'seconds': 25, 'runs': 10 ** 6,
                                                      'jobs': [{'unit': u}]}, 120))
                    for u in nat for k in range(max(1, 8 // max(1, len(nat))))]
            for u, k, f in more:
                r = f.result()
                if 'error' in r:
                    continue
                evaluations += r['results'][0]['runs']
                for v in r['results'][0]['violations']:
                    found.append((u, v['obligation'], v['detail'], v['inputs'], v.get('rng')))

    known = [(i, t) for p, i, t in known_findings() if p == pid]
    kept, printed = [], set()
    for f in found:
        hit = [t for i, t in known if i == '%s/%s' % (f[0], f[1].replace(' ', '_'))]
        if hit:
            if hit[0] not in printed:
                print('KNOWN-FINDING: property=%s %s' % (pid, hit[0]))
            printed.add(hit[0])
        else:
            kept.append(f)
    found = kept

    rdir = os.path.join(HERE, 'replays')
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    nviol = 0
    lines = []
    if found:
        f = found[0]
        path = os.path.join(rdir, '%s.json' % pid)
        with open(path, 'w') as fh:
            json.dump({'property': pid, 'unit': f[0], 'obligation': f[1], 'detail': f[2], 'inputs': f[3], 'rng': f[4],
                       'how': 'python3 /verif/replay.py %s' % path,
                       'all': [list(x) for x in found[:20]],
                       'open_obligations': [list(x) for x in open_[:20]]}, fh, indent=1)
        lines.append('VIOLATION property=%s replay=%s' % (pid, path))
        nviol = len(found)
    elif open_:
        path = os.path.join(rdir, '%s.json' % pid)
        with open(path, 'w') as fh:
            json.dump({'property': pid, 'unit': open_[0][0], 'obligation': open_[0][1],
                       'verifier_output': open_[0][2], 'all': [list(x) for x in open_[:50]]}, fh, indent=1)
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
        nviol = len(open_)

    level = meta.get('LEVEL', 'proof' if sym else 'exploration')
    cov = {
        'obligations': tot['obligations'], 'discharged': tot['discharged'],
        'checker_cmd': 'python3 /verif/check.py %s %s' % (pid, tier),
        'trusted_base': sorted(tot['trusted']) + list(meta.get('TRUSTED', ())) + BASE,
        'obligations_by_name': {k: v[0] for k, v in sorted(names.items())},
        'back_ends': tot['backend'], 'solver_queries': tot['queries'], 'solver_s': round(tot['solver_s'], 2),
        'paths': tot['paths'],
        'functions_under_contract': sorted(tot['functions']),
        'functions_replaced_by_their_contract': sorted(tot['contracts']),
        'loops_with_invariant': sorted(tot['loops']),
        'bounded_cross_check': {'label': 'bounded: concrete executions of the contracts, not counted as proof',
                                'units': nat, 'runs': evaluations, 'rejected_by_assumptions': rejected,
                                'contract_evaluations': ensured, 'bound': '%d runs or %d s per unit' % (runs, secs)},
    }
    if meta.get('BOUNDED'):
        cov['bounded_stand_ins'] = list(meta['BOUNDED'])
    if level == 'exploration':
        cov.update({'evaluations': evaluations, 'distinct_nontrivial': max(0, evaluations - rejected),
                    'rule': meta.get('RULE', 'random values'), 'samples': meta.get('SAMPLES', [nat])})
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': list(meta.get('ASSUMPTIONS', ())), 'wall_s': round(time.time() - t0, 2), 'violations': nviol}
    with open(os.path.join(HERE, 'evidence', '%s.json' % pid), 'w') as fh:
        json.dump(ev, fh, indent=1)
    print('%s: %d obligations, %d discharged, %d paths, solver %.1f s, %d concrete runs, %.1f s' % (
        pid, tot['obligations'], tot['discharged'], tot['paths'], tot['solver_s'], evaluations, time.time() - t0))
    for x in found[:5]:
        print('  failing input: %s / %s: %s %s' % (x[0], x[1], str(x[2])[:300], str(x[3])[:300]))
    for x in open_[:8]:
        print('  open: %s / %s: %s' % (x[0], x[1], str(x[2])[-700:]))
    for l in lines:
        print(l)
    sys.exit(1 if lines else 0)


BASE = ['pyvc: the symbolic semantics of Python in pyvc/interp.py',
        'pyvc: contracts of builtins and of the standard library in pyvc/models.py, pyvc/regex.py',
        'z3 4.8/cvc5 as back ends; Python integers are mathematical in both']

if __name__ == '__main__':
    main()
