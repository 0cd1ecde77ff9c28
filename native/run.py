"""run units concretely:  run.py SPEC MODE...   (JSON request on stdin, JSON on stdout)

request: {"seed": n, "seconds": s, "runs": n, "jobs": [{"unit": name, "given": [..]|null}]}
"""
import json
import os
import random
import signal
import sys
import threading
import time
import importlib.util
import warnings

warnings.simplefilter('ignore')
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(os.path.dirname(HERE), 'specs'), os.environ.get('VERIF_REPO', '/repo')]
sys.dont_write_bytecode = True
import pv  # noqa


def on_alarm(*a):
    raise pv.Violated('ends within %d s' % LIMIT)


LIMIT = 20
signal.signal(signal.SIGALRM, on_alarm)


def main():
    spec = sys.argv[1]
    req = json.load(sys.stdin)
    real_out = os.dup(1)
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    sp = importlib.util.spec_from_file_location(spec, os.path.join(os.path.dirname(HERE), 'specs', spec + '.py'))
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    # the registry made on import would start a cleaner thread, which would run into what a unit puts in place of time.sleep
    start = threading.Thread.start
    threading.Thread.start = lambda self: None
    try:
        import abl.vpath.base
    finally:
        threading.Thread.start = start
    assert abl.vpath.base.__file__.startswith(os.environ.get('VERIF_REPO', '/repo') + '/'), abl.vpath.base.__file__
    out = []
    for job in req['jobs']:
        fn = getattr(m, job['unit'])
        r = {'unit': job['unit'], 'runs': 0, 'rejected': 0, 'ensured': 0, 'violations': []}
        pv.S.ensured = 0
        if job.get('given') is not None:
            for g in job['given']:
                signal.alarm(LIMIT)
                st = pv.run(fn, g, random.Random(1))
                r['runs'] += 1
                if st[0] == 'rejected':
                    r['rejected'] += 1
                if st[0] == 'violated':
                    r['violations'].append({'obligation': st[1], 'detail': st[2], 'inputs': st[3]})
                    break
        else:
            t0 = time.time()
            k = 0
            while k < req.get('runs', 300) and time.time() - t0 < req.get('seconds', 5):
                rng = random.Random('%s/%s/%d' % (req.get('seed', 1), job['unit'], k))
                signal.alarm(LIMIT)
                st = pv.run(fn, None, rng)
                r['runs'] += 1
                if st[0] == 'rejected':
                    r['rejected'] += 1
                if st[0] == 'violated':
                    r['violations'].append({'obligation': st[1], 'detail': st[2], 'inputs': st[3],
                                            'rng': '%s/%s/%d' % (req.get('seed', 1), job['unit'], k)})
                    break
                k += 1
        r['ensured'] = pv.S.ensured
        r['covered'] = dict(pv.S.covered)
        out.append(r)
    os.write(real_out, json.dumps(out).encode())
    os.close(real_out)
    os._exit(0)


if __name__ == '__main__':
    main()
