'''Self-test of the simulator: one seed is one execution.

Runs the same cases several times - with another number of workers, in another order of arrival, under another hash
seed - and compares the event log digest of every case.  `./check Cxx --determinism [--runs N] [--seed S]`.
Also proves that the replay path reproduces what the search saw (both call run_case on the same JSON).
'''
import os, sys, json, shutil, subprocess, time
from . import core


def logs(prop, seed, tier, n, workers):
    base = core.scratch_root()
    if hasattr(prop, 'prepare'):
        prop.prepare()
    b = core.Batch(prop, seed, tier, n, workers, base)
    r = {}
    try:
        for i, res in b.run(time.monotonic() + 3000, lambda: n):
            r[i] = 'error' if 'error' in res else [res['log'], sorted(v['sig'] for v in res['viol'])]
    finally:
        b.close()
        shutil.rmtree(base, ignore_errors=True)
    return r


def main(prop, seed, tier, runs):
    if os.environ.get('CCSIM_DET'):
        print(json.dumps(logs(prop, seed, tier, runs, int(os.environ['CCSIM_DET']))))
        return 0
    got = []
    for workers, hs in ((8, '0'), (3, '1'), (5, '4242')):
        env = dict(os.environ, CCSIM_DET=str(workers), PYTHONHASHSEED=hs)
        p = subprocess.run([sys.executable] + sys.argv, env=env, stdout=subprocess.PIPE)
        got.append(json.loads(p.stdout.decode().strip().splitlines()[-1]))
        print('%d workers, PYTHONHASHSEED=%s: %d cases' % (workers, hs, len(got[-1])), flush=True)
    diff = [i for i in got[0] if any(g.get(i) != got[0][i] for g in got[1:])]
    for i in diff[:10]:
        print('case %s: %s' % (i, [g.get(i) for g in got]))
    print('%s seed %d: %d of %d cases had the same event log in all %d executions' % (
        prop.ID, seed, len(got[0]) - len(diff), len(got[0]), len(got)))
    return 1 if diff else 0
