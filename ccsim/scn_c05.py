'''C05 scenario: a history of generations in one process, sequential or interleaved.

Interleavings are decided by a seeded scheduler: exactly one thread holds the
baton; at a traced event inside the package (line or call) the scheduler may
pass it on.  Everything else about the threads is deterministic.
'''
import sys, os, json, threading, random


def make_config(argv):
    from crazy_complete import config
    c = config.Config()
    for name, arg in argv:
        f = getattr(c, name)
        f(*[tuple(a) if isinstance(a, list) and name == 'set_bash_completions_version' else a for a in arg])
    return c


def load(m):
    from crazy_complete import json_source, yaml_source
    return (json_source if m['fmt'] == 'json' else yaml_source).load_from_file(m['file'])


def snap_model(m):
    from crazy_complete import dictionary_source
    return json.dumps(dictionary_source.commandline_to_dictionaries(m), default=repr)


def snap_config(c):
    return repr(sorted((k, repr(v)) for k, v in vars(c).items() if not k.startswith('_')))


def do(op, models, configs):
    from crazy_complete import bash, fish, zsh, json_source, yaml_source, help_converter
    kind = op['target']
    try:
        if op['model'] < 0:
            # a definition that is refused, or a help text
            if kind == 'help':
                return ['ok', help_converter.from_file_to_yaml(op['file'])]
            load({'fmt': op['fmt'], 'file': op['file']})
            return ['ok', '']
        m = models[op['model']]
        if kind == 'json':
            return ['ok', json_source.commandline_to_json(m)]
        if kind == 'yaml':
            return ['ok', yaml_source.commandline_to_yaml(m)]
        gen = {'bash': bash, 'fish': fish, 'zsh': zsh}[kind]
        return ['ok', gen.generate_completion(m, configs[op['config']])]
    except Exception as e:
        return ['error', type(e).__name__ + ': ' + str(e)]


class Sched:
    def __init__(self, seed, n, mean, lines):
        self.rng = random.Random(seed)
        self.mean = mean
        self.lines = lines
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.alive = set(range(n))
        self.cur = None
        self.left = 1
        self.switches = 0
        self.events = 0
        self.trace = []

    def interval(self):
        return 1 + int(self.rng.expovariate(1.0 / self.mean))

    def start(self):
        self.cur = self.rng.choice(sorted(self.alive))
        self.left = self.interval()
        self.sem[self.cur].release()

    def event(self, me):
        self.events += 1
        self.left -= 1
        if self.left > 0:
            return
        self.left = self.interval()
        nxt = self.rng.choice(sorted(self.alive))
        if nxt != me:
            self.pass_on(me, nxt)
            self.sem[me].acquire()

    def pass_on(self, me, nxt):
        self.switches += 1
        if len(self.trace) < 4000:
            self.trace.append((self.events, nxt))
        self.cur = nxt
        self.sem[nxt].release()

    def done(self, me):
        self.alive.discard(me)
        if self.alive:
            self.left = self.interval()
            self.pass_on(me, self.rng.choice(sorted(self.alive)))


def threads(req, models, configs):
    progs = req['threads']
    pkg = os.path.join(os.environ.get('CCSIM_REPO_DIR', req['repo']), 'crazy_complete') + os.sep
    s = Sched(req['schedule'], len(progs), req['mean'], req['lines'])
    results = [[] for _ in progs]

    def body(me):
        s.sem[me].acquire()

        def local(frame, event, arg):
            if event == 'line':
                s.event(me)
            return local

        def tracer(frame, event, arg):
            if event == 'call' and frame.f_code.co_filename.startswith(pkg):
                s.event(me)
                return local if s.lines else None
            return None
        sys.settrace(tracer)
        try:
            for op in progs[me]:
                results[me].append(do(op, models, configs))
        finally:
            sys.settrace(None)
            s.done(me)
    ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(progs))]
    for t in ts:
        t.start()
    s.start()
    for t in ts:
        t.join()
    return results, {'switches': s.switches, 'events': s.events, 'trace': s.trace}


def run(req):
    try:
        models = [load(m) for m in req['models']]
        configs = [make_config(c) for c in req['configs']]
    except (ImportError, AttributeError) as e:
        return {'unavailable': repr(e)}
    r = {}
    before = [snap_model(m) for m in models], [snap_config(c) for c in configs]
    if 'threads' in req:
        r['results'], r['sched'] = threads(req, models, configs)
        after = [snap_model(m) for m in models], [snap_config(c) for c in configs]
        r['changed'] = [['model', i, -1] for i in range(len(models)) if before[0][i] != after[0][i]] + \
                       [['config', i, -1] for i in range(len(configs)) if before[1][i] != after[1][i]]
        return r
    r['results'] = []
    r['changed'] = []
    for n, op in enumerate(req['ops']):
        r['results'].append(do(op, models, configs))
        after = [snap_model(m) for m in models], [snap_config(c) for c in configs]
        for k, what in enumerate(('model', 'config')):
            for i in range(len(after[k])):
                if before[k][i] != after[k][i]:
                    r['changed'].append([what, i, n])
        before = after
    return r
