'''Simulation core: seeds, workers, search loop, minimiser, replay, evidence.

A check is `gen(rng, tier) -> case` + `run(ctx, case) -> outcome`.  A case is
plain JSON and contains every decision of the run (definition, command line,
fault plan, schedule, key strokes, helper behaviour ...); running a case is a
pure function of the case and the code in /repo.  One integer (VERIF_SEED)
determines the whole batch of cases.
'''
import os, sys, json, time, hashlib, random, tempfile, shutil, signal, traceback, collections
import multiprocessing as mp

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('CCSIM_REPO', '/repo')
KNOWN = os.path.join(ROOT, 'known_findings.txt')


class HarnessError(Exception):
    '''The harness itself (not the code under test) could not do its work.'''


class Outcome:
    def __init__(self):
        self.viol = []            # list of dicts {sig, detail}
        self.counters = collections.Counter()
        self.states = set()       # distinct states / interleavings (short strings)
        self.nontrivial = False
        self.ticks = 0            # simulated (logical) time
        self.log = hashlib.sha256()
        self.note = ''

    def violation(self, sig, detail):
        self.viol.append({'sig': sig, 'detail': detail[:4000]})

    def event(self, *a):
        '''Append to the deterministic event log.'''
        self.ticks += 1
        self.log.update(repr(a).encode('utf-8', 'backslashreplace'))
        if os.environ.get('CCSIM_TRACE'):
            sys.stderr.write(repr(a)[:300] + '\n')

    def pack(self):
        return {'viol': self.viol, 'counters': dict(self.counters), 'states': sorted(self.states),
                'nontrivial': self.nontrivial, 'ticks': self.ticks, 'log': self.log.hexdigest()[:16],
                'note': self.note}


def sub_seed(*a):
    return int.from_bytes(hashlib.sha256(repr(a).encode()).digest()[:8], 'big')


def h8(x):
    return hashlib.sha256(x if isinstance(x, bytes) else str(x).encode()).hexdigest()[:8]


# ---------------------------------------------------------------------------
class Ctx:
    '''Per-worker environment; tools are created lazily and torn down at the end.'''

    def __init__(self, base):
        self.base = base
        self.tools = {}
        os.makedirs(base, exist_ok=True)
        os.chmod(base, 0o755)

    def tool(self, name, make):
        if name not in self.tools:
            self.tools[name] = make(self)
        return self.tools[name]

    def drop(self, name):
        t = self.tools.pop(name, None)
        if t is not None:
            try:
                t.close()
            except Exception:
                pass

    def close(self):
        for n in list(self.tools):
            self.drop(n)
        shutil.rmtree(self.base, ignore_errors=True)


def scratch_root():
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK | os.X_OK) and _exec_ok('/dev/shm') else '/tmp'
    d = tempfile.mkdtemp(prefix='ccsim.', dir=base)
    os.chmod(d, 0o755)
    return d


def _exec_ok(d):
    p = os.path.join(d, '.ccsim-x%d' % os.getpid())
    try:
        with open(p, 'w') as fh:
            fh.write('#!/bin/sh\nexit 0\n')
        os.chmod(p, 0o755)
        import subprocess
        return subprocess.call([p]) == 0
    except OSError:
        return False
    finally:
        try:
            os.unlink(p)
        except OSError:
            pass


# ---------------------------------------------------------------------------
def case_of(prop, seed, i, tier):
    rng = random.Random(sub_seed(seed, prop.ID, i))
    case = prop.gen(rng, tier, i)
    # a case is data: force it through JSON so that a replay file is the same object
    return json.loads(json.dumps(case))


def run_case(prop, ctx, case):
    out = Outcome()
    prop.run(ctx, case, out)
    return out.pack()


def _worker(prop, base, seed, tier, q_in, q_out):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    os.setpgid(0, 0)
    ctx = Ctx(base)
    try:
        while True:
            i = q_in.get()
            if i is None:
                break
            t = time.monotonic()
            try:
                case = case_of(prop, seed, i, tier)
                res = run_case(prop, ctx, case)
            except Exception:
                res = {'error': traceback.format_exc()}
                # a broken tool must not poison the following cases
                for n in list(ctx.tools):
                    ctx.drop(n)
            res['wall'] = time.monotonic() - t
            q_out.put((i, res))
    finally:
        ctx.close()
        q_out.put((None, None))


class Batch:
    '''Runs cases [0, n) over worker processes; yields (i, result) as they finish.'''

    def __init__(self, prop, seed, tier, n, workers, base):
        self.prop, self.seed, self.tier, self.n = prop, seed, tier, n
        self.q_in, self.q_out = mp.Queue(), mp.Queue()
        self.ps = []
        for w in range(workers):
            p = mp.Process(target=_worker, args=(prop, os.path.join(base, 'w%d' % w), seed, tier, self.q_in, self.q_out))
            p.start()
            self.ps.append(p)

    def run(self, deadline, stop_at):
        '''stop_at() -> index bound: cases >= bound need not be started any more.'''
        import queue
        nxt = 0
        inflight = 0
        width = len(self.ps) * 2
        while True:
            while inflight < width and nxt < min(self.n, stop_at()) and time.monotonic() < deadline:
                self.q_in.put(nxt)
                nxt += 1
                inflight += 1
            if inflight == 0:
                break
            try:
                i, res = self.q_out.get(timeout=5)
            except queue.Empty:
                if time.monotonic() > deadline + 120 or not any(p.is_alive() for p in self.ps):
                    break
                continue
            if i is None:
                continue
            inflight -= 1
            yield i, res

    def close(self):
        for _ in self.ps:
            self.q_in.put(None)
        t = time.monotonic() + 10
        for p in self.ps:
            p.join(max(0.1, t - time.monotonic()))
            if p.is_alive():
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    p.kill()
                p.join(5)


# ---------------------------------------------------------------------------
def ddmin_list(lst):
    '''Candidates obtained by deleting chunks of a list (large chunks first).'''
    n = len(lst)
    size = n
    seen = set()
    while size >= 1:
        for s in range(0, n, size):
            c = lst[:s] + lst[s + size:]
            k = json.dumps(c, sort_keys=True)
            if k not in seen:
                seen.add(k)
                yield c
        size //= 2


def shrink_key(case, key):
    v = case.get(key)
    if isinstance(v, list) and v:
        for c in ddmin_list(v):
            d = dict(case)
            d[key] = c
            yield d


def minimise(prop, ctx, case, sig, budget_s=45, budget_n=250):
    t = time.monotonic()
    tries = 0
    changed = True
    while changed and hasattr(prop, 'shrink'):
        changed = False
        for cand in prop.shrink(case):
            if time.monotonic() - t > budget_s or tries >= budget_n:
                return case, tries
            if cand == case:
                continue
            tries += 1
            try:
                cand = json.loads(json.dumps(cand))
                res = run_case(prop, ctx, cand)
            except Exception:
                for n in list(ctx.tools):
                    ctx.drop(n)
                continue
            if any(v['sig'] == sig for v in res['viol']):
                case = cand
                changed = True
                break
    return case, tries


# ---------------------------------------------------------------------------
def load_known(prop_id):
    r = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding='utf-8'):
            line = line.strip()
            if line.startswith('finding: '):
                parts = line[len('finding: '):].split(' ', 2)
                kv = dict(p.split('=', 1) for p in parts[:2])
                if kv.get('property') == prop_id:
                    r[kv['key']] = parts[2] if len(parts) > 2 else ''
    return r


def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + '.tmp%d' % os.getpid()
    with open(tmp, 'w') as fh:
        json.dump(obj, fh, indent=1, sort_keys=False, ensure_ascii=True)
        fh.write('\n')
    os.rename(tmp, path)


def confirm(prop, base, case, sig, times=2):
    '''Re-run a failing case in fresh environments; True when it fails the same way each time.'''
    logs = []
    for k in range(times):
        ctx = Ctx(os.path.join(base, 'c%d' % k))
        try:
            res = run_case(prop, ctx, case)
        except Exception:
            return False, traceback.format_exc()
        finally:
            ctx.close()
        if not any(v['sig'] == sig for v in res['viol']):
            return False, 'not reproduced: ' + json.dumps(res['viol'])[:500]
        logs.append(res['log'])
    return True, logs


def survey(prop, seed, tier, n=None, workers=None, cap=None):
    '''Development aid: run everything, list the violation signatures met.'''
    n = n or prop.RUNS[tier]
    base = scratch_root()
    if hasattr(prop, 'prepare'):
        prop.prepare()
    batch = Batch(prop, seed, tier, n, workers or min(8, os.cpu_count() or 2), base)
    sigs = collections.OrderedDict()
    cnt = collections.Counter()
    done = 0
    walls = []
    t0 = time.monotonic()
    try:
        for i, res in batch.run(time.monotonic() + (cap or 3000), lambda: n):
            done += 1
            walls.append(res['wall'])
            if 'error' in res:
                sigs.setdefault('ERROR ' + res['error'].strip().splitlines()[-1][:200], []).append((i, res['error']))
                continue
            cnt.update(res['counters'])
            cnt['nontrivial'] += res['nontrivial']
            for v in res['viol']:
                sigs.setdefault(v['sig'], []).append((i, v['detail']))
    finally:
        batch.close()
        shutil.rmtree(base, ignore_errors=True)
    for k, v in sigs.items():
        v.sort()
        print('== %s: %d cases %s' % (k, len(v), [i for i, _ in v[:12]]))
        for i, d in v[:3]:
            print('   [%d] %s' % (i, d[:1200]))
    print(dict(sorted(cnt.items())))
    print('%d cases in %.1fs; slowest %.2fs mean %.3fs' % (done, time.monotonic() - t0, max(walls), sum(walls) / len(walls)))
    return 0


def search(prop, seed, tier, n=None, workers=None, cap=None):
    t0 = time.monotonic()
    n = n or prop.RUNS[tier]
    cap = cap or {'quick': 240, 'thorough': 3000}[tier]
    workers = workers or min(8, os.cpu_count() or 2)
    base = scratch_root()
    known = load_known(prop.ID)
    print('%s seed=%d tier=%s cases=%d workers=%d' % (prop.ID, seed, tier, n, workers), flush=True)
    if hasattr(prop, 'prepare'):
        prop.prepare()
    results = {}
    errors = {}
    fails = {}
    bound = [n]

    def stop_at():
        return bound[0]

    batch = Batch(prop, seed, tier, n, workers, base)
    flaky = []
    code = 0
    new_viol = None
    try:
        for i, res in batch.run(t0 + cap, stop_at):
            if 'error' in res:
                errors[i] = res['error']
                continue
            results[i] = res
            unknown = [v for v in res['viol'] if v['sig'] not in known]
            if unknown:
                fails[i] = unknown
                # all lower-numbered cases still finish, so the reported case is the same on every run
                bound[0] = min(bound[0], i)
    finally:
        batch.close()
    wall_search = time.monotonic() - t0
    try:
        for i in sorted(fails):
            case = case_of(prop, seed, i, tier)
            v = fails[i][0]
            ok, info = confirm(prop, base, case, v['sig'])
            if not ok:
                flaky.append((i, v['sig'], info))
                print('note: case %d reported %s but did not reproduce (%s): not reported as a violation' %
                      (i, v['sig'], str(info)[-400:]), flush=True)
                continue
            ctx = Ctx(os.path.join(base, 'min'))
            try:
                small, tries = minimise(prop, ctx, case, v['sig'])
            finally:
                ctx.close()
            ok, _ = confirm(prop, base, small, v['sig'], 1)
            if not ok:
                small = case
            ctx = Ctx(os.path.join(base, 'fin'))
            try:
                res = run_case(prop, ctx, small)
            finally:
                ctx.close()
            vv = [x for x in res['viol'] if x['sig'] == v['sig']][0]
            path = os.path.join(ROOT, 'replays', '%s-%s.json' % (prop.ID, h8(v['sig'] + json.dumps(small))))
            write_json(path, {'property': prop.ID, 'sig': v['sig'], 'detail': vv['detail'], 'seed': seed,
                              'index': i, 'tier': tier, 'log': res['log'], 'minimise_tries': tries, 'case': small})
            new_viol = (v['sig'], vv['detail'], path, i)
            break
    finally:
        shutil.rmtree(base, ignore_errors=True)
    nerr = len(errors)
    for i in sorted(errors)[:3]:
        print('note: harness error in case %d:\n%s' % (i, errors[i]), flush=True)
    write_evidence(prop, seed, tier, results, time.monotonic() - t0, wall_search, new_viol, flaky, errors, workers, n)
    hit = collections.Counter()
    for res in results.values():
        for v in res['viol']:
            if v['sig'] in known:
                hit[v['sig']] += 1
    for k, text in known.items():
        print('KNOWN-FINDING: property=%s %s [key=%s, met in %d cases of this run]' % (prop.ID, text, k, hit[k]))
    if new_viol:
        sig, detail, path, i = new_viol
        print('case %d (seed %d): %s\n%s' % (i, seed, sig, detail))
        print('VIOLATION property=%s replay=%s' % (prop.ID, path), flush=True)
        return 1
    if not results or nerr > max(3, len(results) // 4):
        print('ERROR: the harness failed in %d cases' % nerr)
        return 3
    print('%s: held on %d cases (%d nontrivial), %d distinct states, %.1fs' % (
        prop.ID, len(results), sum(r['nontrivial'] for r in results.values()),
        len(set(s for r in results.values() for s in r['states'])), time.monotonic() - t0))
    return code


def write_evidence(prop, seed, tier, results, wall, wall_search, viol, flaky, errors, workers, n):
    cnt = collections.Counter()
    states = set()
    ticks = 0
    for r in results.values():
        cnt.update(r['counters'])
        states.update(r['states'])
        ticks += r['ticks']
    nontriv = [i for i in sorted(results) if results[i]['nontrivial']]
    samples = []
    for i in nontriv[:4]:
        samples.append(('case %d: ' % i + (results[i]['note'] or json.dumps(case_of(prop, seed, i, tier))))[:600])
    runs = cnt.get('runs', len(results))
    ev = {
        'property': prop.ID, 'tier': tier, 'seed': seed, 'level': prop.LEVEL,
        'coverage': {
            'evaluations': len(results),
            'distinct_nontrivial': len(nontriv),
            'rule': prop.RULE,
            'samples': samples or ['none'],
            'cases_requested': n,
            'simulated_runs': runs,
            'runs_per_hour': int(runs / max(wall_search, 1e-3) * 3600),
            'seeds_per_hour': int(len(results) / max(wall_search, 1e-3) * 3600),
            'simulated_time': '%d logical events (the code has no timers; one tick per seam event)' % ticks,
            'faults_injected': {k[6:]: v for k, v in sorted(cnt.items()) if k.startswith('fault:')},
            'probes': {k[6:]: v for k, v in sorted(cnt.items()) if k.startswith('probe:')},
            'events': {k: v for k, v in sorted(cnt.items()) if ':' not in k},
            'distinct_states': len(states),
            'state_measure': prop.STATES,
            'components': prop.COMPONENTS,
            'workers': workers,
            'log_digest': h8(''.join(results[i]['log'] for i in sorted(results))),
            'unreproduced_alarms': [[i, s] for i, s, _ in flaky],
            'harness_errors': len(errors),
        },
        'assumptions': prop.ASSUMPTIONS,
        'wall_s': round(wall, 2),
        'violations': 1 if viol else 0,
    }
    write_json(os.path.join(ROOT, 'evidence', prop.ID + '.json'), ev)


def replay(path, load_prop):
    d = json.load(open(path))
    prop = load_prop(d['property'])
    if hasattr(prop, 'prepare'):
        prop.prepare()
    base = scratch_root()
    ctx = Ctx(os.path.join(base, 'r'))
    try:
        res = run_case(prop, ctx, d['case'])
    finally:
        ctx.close()
        shutil.rmtree(base, ignore_errors=True)
    got = [v for v in res['viol'] if v['sig'] == d.get('sig')]
    print('replay of %s: event log %s (recorded %s)' % (path, res['log'], d.get('log')))
    for v in res['viol']:
        print('%s\n%s' % (v['sig'], v['detail']))
    if got:
        print('VIOLATION property=%s replay=%s' % (prop.ID, path))
        return 1
    print('no violation' if not res['viol'] else 'a different violation')
    return 1 if res['viol'] else 0
