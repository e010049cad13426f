'''C05: generated text depends only on the definition, the configuration and the included files.'''
import json, os
from .. import defgen, core
from ..genclient import server
from .c02 import mutate_docs

ID = 'C05'
LEVEL = 'exploration'
RUNS = {'quick': 520, 'thorough': 14000}
RULE = 'a case counts as nontrivial if at least two generations of the same process were compared, threads switched at least twice, or two environments were compared'
STATES = 'distinct (mode, order of (definition kind, target) pairs, schedule switch trace / environment) tuples'
COMPONENTS = {'real': ['generators, loaders and serialisers of crazy_complete called in process', 'crazy-complete entry script (environment mode)', 'CPython threads and hash randomisation'],
              'stub': ['thread scheduler (seeded baton, switches at traced lines/calls of the package)', 'wall clock (LD_PRELOAD seam)', 'process environment']}
ASSUMPTIONS = ['thread switches happen only at line or call boundaries of the package\'s own Python code',
               'reference text comes from a fresh process with PYTHONHASHSEED=0']

SETTERS = [('set_abbreviate_commands', [[True], [False]]), ('set_abbreviate_options', [[True]]), ('set_repeatable_options', [[True]]),
           ('set_inherit_options', [[True]]), ('set_option_stacking', [[False]]), ('set_long_option_argument_separator', [['space'], ['equals']]),
           ('set_vim_modeline', [[False]]), ('set_zsh_compdef', [[False]]), ('set_keep_comments', [[True]]), ('set_line_length', [[40], [0 + 120]]),
           ('set_fish_inline_conditions', [[True]]), ('set_debug', [[True]]), ('set_function_prefix', [['_my_$PROG'], ['__x']]), ('add_comments', [[['c1', 'c2']]]),
           ('include_many_files', [[['inc.sh']], [['inc.sh', 'inc.sh']]]), ('disable_hidden', [[True]]), ('disable_final', [[True]]), ('disable_groups', [[True]]),
           ('disable_repeatable', [[True]]), ('disable_when', [[True]])]
TARGETS = ['bash', 'fish', 'zsh', 'bash', 'fish', 'zsh', 'yaml', 'json']


def config(rng, p):
    return [[n, rng.choice(v)] for n, v in SETTERS if rng.random() < p]


def definition(rng, i, big):
    docs = defgen.rich(rng, rng.choice(['prog', 'prog', 'tool']), big)
    fmt = rng.choice(['json', 'yaml'])
    name = 'def%d.%s' % (i, fmt)
    if fmt == 'yaml' and rng.random() < .5:
        return name, fmt, alias_yaml(rng, docs)
    return name, fmt, defgen.to_json(docs) if fmt == 'json' else defgen.to_yaml(docs)


def alias_yaml(rng, docs):
    '''Two options of one command share the completer through a define.'''
    o = docs[0].setdefault('options', [])
    o.append({'option_strings': ['--shared-a'], 'complete': 'shared_completer'})
    o.append({'option_strings': ['--shared-b'], 'complete': 'shared_completer'})
    return defgen.to_yaml([{'prog': '%defines%', 'shared_completer': defgen.completer(rng)}] + docs)


def gen(rng, tier, i):
    mode = rng.choice(['seq', 'seq', 'threads', 'env'])
    files = {'inc.sh': '_inc() { :; }\n', 'help.txt': defgen.help_text(rng)}
    if mode == 'env':
        name, fmt, text = definition(rng, 0, rng.choice([1, 2, 4, 6]))
        files[name] = text
        t = rng.choice(TARGETS)
        argv = [a for a in defgen.config_argv(rng, .15) if True]
        envs = []
        for _ in range(rng.randint(2, 3)):
            envs.append({'hashseed': rng.choice(['0', '1', '4242']), 'cwd': rng.choice(['w', 'w', 'hold', 'w/deep']), 'abs': rng.random() < .5,
                         'env': {k: rng.choice(v) for k, v in {
                             'LC_ALL': ['C', 'C.UTF-8', 'POSIX', 'de_DE.UTF-8', ''], 'TZ': ['UTC', 'Asia/Tokyo', 'EST5'], 'COLUMNS': ['20', '300', ''],
                             'HOME': ['/', '@W@/w', ''], 'USER': ['alice', 'bob'], 'SHELL': ['/bin/zsh', '/bin/bash'], 'LANG': ['C', 'fr_FR.UTF-8'], 'LANGUAGE': ['de', 'fr', ''],
                             'TERM': ['dumb', 'xterm'], 'PYTHONIOENCODING': ['', 'utf-8'], 'DEBUG': ['1', ''], 'VERBOSE': ['1', ''], 'NO_COLOR': ['1', ''],
                             'SOURCE_DATE_EPOCH': ['0', '1700000000'], 'PATH': ['@W@/bin:/usr/bin:/bin', '/usr/bin:/bin', '/bin:/usr/bin:/sbin']}.items() if rng.random() < .5},
                         'clock': rng.choice([0, 0, 86400 * 400, -86400 * 3650, 3600 * 7, 1]), 'noise': rng.random() < .3, 'dest': rng.choice(['stdout', 'file'])})
        return {'mode': mode, 'files': files, 'name': name, 'fmt': fmt, 'target': t, 'argv': argv, 'envs': envs, 'prior': rng.random() < .3}
    models = []
    n = rng.randint(1, 3)
    for k in range(n):
        name, fmt, text = definition(rng, k, rng.choice([0, 1, 1, 2, 4] if mode == 'seq' else [0, 1, 1, 2]))
        files[name] = text
        models.append({'file': name, 'fmt': fmt})
    # definitions that share names with others but differ elsewhere
    if rng.random() < .3 and models:
        files['twin.json'] = json.dumps([{'prog': 'prog', 'options': [{'option_strings': ['--alpha'], 'complete': ['file_list', {'separator': ':', 'duplicates': True}]}]}])
        models.append({'file': 'twin.json', 'fmt': 'json'})
    files['bad.json'] = defgen.to_json(mutate_docs(defgen.rich(rng, 'prog', 1), rng.choice(['unknown_completer', 'unknown_key', 'pos_zero']), 0))
    configs = [config(rng, rng.choice([0, .1, .3])) for _ in range(rng.randint(1, 3))]

    def op():
        if rng.random() < .12:
            return rng.choice([{'model': -1, 'target': 'help', 'file': 'help.txt'}, {'model': -1, 'target': 'load', 'fmt': 'json', 'file': 'bad.json'}])
        return {'model': rng.randrange(len(models)), 'target': rng.choice(TARGETS), 'config': rng.randrange(len(configs))}
    case = {'mode': mode, 'files': files, 'models': models, 'configs': configs}
    if mode == 'seq':
        ops = [op() for _ in range(rng.randint(2, 7))]
        if rng.random() < .5:
            ops.append(dict(rng.choice(ops)))
        case['ops'] = ops
    else:
        case['threads'] = [[op() for _ in range(rng.randint(1, 2))] for _ in range(rng.randint(2, 4))]
        if rng.random() < .5:
            case['threads'][1] = [dict(o) for o in case['threads'][0]]
        case['schedule'] = rng.getrandbits(32)
        case['lines'] = rng.random() < .6
        case['mean'] = rng.choice([3, 20, 100, 400, 1500]) if case['lines'] else rng.choice([2, 10, 50, 200])
    return case


def api(srv, case, extra):
    world = {'w/' + p: c for p, c in case['files'].items()}
    r = srv.run(world, [], mode='api', keep=True,
                extra={'scenario': 'c05', 'module': 'scn_c05', 'models': case['models'], 'configs': case['configs'], 'repo': core.REPO, **extra})
    try:
        if r['status'] != 'exit:0':
            return r, None
        return r, json.load(open(r['W'] + '.io/result'))
    finally:
        srv.discard(r)


def run(ctx, case, out):
    if case['mode'] == 'env':
        return run_env(ctx, case, out)
    srv = server(ctx)
    ref = {}

    def reference(o):
        k = json.dumps(o, sort_keys=True)
        if k not in ref:
            r, x = api(srv, case, {'ops': [o]})
            out.counters['runs'] += 1
            if x is None or 'unavailable' in x:
                raise core.HarnessError('reference: %s %s %r' % (r['status'], x, r['stderr'][-400:]))
            ref[k] = x['results'][0]
        return ref[k]
    if case['mode'] == 'seq':
        r, x = api(srv, case, {'ops': case['ops']})
        progs = [case['ops']]
    else:
        r, x = api(srv, case, {k: case[k] for k in ('threads', 'schedule', 'lines', 'mean')})
        progs = case['threads']
    out.counters['runs'] += 1
    if x is not None and 'unavailable' in x:
        raise core.HarnessError(x['unavailable'])
    if x is None:
        out.violation('C05/process-died', '%s: %s %r' % (case['mode'], r['status'], r['stderr'][-800:]))
        return
    res = [x['results']] if case['mode'] == 'seq' else x['results']
    names = lambda o: '%s>%s' % (o.get('file') if o['model'] < 0 else case['models'][o['model']]['file'], o['target'])
    kinds = '|'.join(','.join('%s>%s' % (o['model'], o['target']) for o in p) for p in progs)
    if case['mode'] == 'threads':
        sc = x['sched']
        out.counters['thread_switches'] += sc['switches']
        out.counters['scheduler_events'] += sc['events']
        out.counters['fault:preemption'] += sc['switches']
        out.ticks += sc['events']
        out.nontrivial = sc['switches'] >= 2
        out.states.add(core.h8(kinds + repr(sc['trace'])))
        out.event(sc['switches'], sc['events'], core.h8(repr(sc['trace'])))
    else:
        out.nontrivial = len(case['ops']) >= 2
        out.states.add(kinds + core.h8(json.dumps(case['configs'])))
    out.note = '%s %s' % (case['mode'], [[names(o) for o in p] for p in progs])
    for t, p in enumerate(progs):
        for n, o in enumerate(p):
            got, want = res[t][n], reference(o)
            out.event(t, n, core.h8(repr(got)))
            if got[0] == 'error':
                out.counters['fault:failed-generation'] += 1
            if got != want:
                d = diff(got, want)
                out.violation('C05/%s-differs' % ('history' if case['mode'] == 'seq' else 'thread'),
                              '%s, generation %d of %s: %s' % (out.note, n, names(o), d))
                return
    if x['changed']:
        what, idx, n = x['changed'][0]
        out.violation('C05/%s-modified' % what, '%s: %s %d was modified by generation %d (%s)' % (
            out.note, what, idx, n, names(progs[0][n]) if n >= 0 else 'threads'))


def diff(a, b):
    if a[0] != b[0]:
        return '%r instead of %r' % ([a[0], a[1][-200:]], [b[0], b[1][-200:]])
    for x, y in zip(a[1].split('\n') + ['<end>'], b[1].split('\n') + ['<end>']):
        if x != y:
            return 'got line %r, a fresh process gives %r' % (x[:250], y[:250])
    return 'same lines'


def run_env(ctx, case, out):
    base = {'w/' + p: c for p, c in case['files'].items()}
    base['w/deep'] = {'dir': 1}
    first = None
    results = []
    envs = [{'hashseed': '0', 'cwd': 'w', 'abs': False, 'env': {}, 'clock': 0, 'noise': False, 'dest': 'stdout'}] + case['envs']
    for k, e in enumerate(envs):
        srv = server(ctx, e['hashseed'])
        world = dict(base)
        if e['noise']:
            for n in ('out.x', 'config.yaml', 'crazy-complete.yaml', '.crazy-complete', 'def.yaml'):
                world[os.path.join(e['cwd'], n)] = 'noise: 1\n'
            world['tmp/x'] = 'y'
        pre = {'w': '', 'hold': '../w/', 'w/deep': '../'}[e['cwd']]
        argv = list(case['argv']) + [case['target'], pre + case['name']]
        if e['dest'] == 'file':
            argv += ['-o', 'result.out']
        plan = [('clock', '*', 0, 'jump', e['clock'])] if e['clock'] else []
        r = srv.run(world, argv, plan, cwd=e['cwd'], env=e['env'])
        out.counters['runs'] += 1
        if e['clock']:
            out.counters['fault:clock-skew'] += 1
        data = r['stdout']
        if e['dest'] == 'file':
            f = r['after'].get(os.path.normpath(e['cwd'] + '/result.out'))
            data = f[2] if f else b''
        elif r['status'] == 'exit:0':
            data = data[:-1]      # print() adds a newline on stdout
        out.event(k, r['status'], core.h8(data))
        out.states.add('env|%s|%s' % (case['target'], core.h8(json.dumps(e, sort_keys=True))))
        utf8 = e['env'].get('LC_ALL', 'C.UTF-8')
        results.append((r['status'], data))
        if k == 0:
            continue
        if results[0][0] != r['status']:
            # non-UTF-8 stdout may be unable to take the text: reported as a failure, not as other text
            if e['dest'] == 'stdout' and r['status'] == 'exit:3' and b'UnicodeEncodeError' in r['stderr']:
                out.counters['unencodable_stdout'] += 1
                continue
            out.violation('C05/environment-status', '%s %s %s: exit %s in %s, %s in the plain environment; stderr %r' % (
                case['argv'], case['target'], case['name'], r['status'], e, results[0][0], r['stderr'][-500:]))
            return
        if r['status'] == 'exit:0':
            out.nontrivial = True
            if data != results[0][1]:
                out.violation('C05/environment-differs', '%s %s %s in %s: %s' % (
                    case['argv'], case['target'], case['name'], e,
                    diff(['ok', data.decode('utf-8', 'replace')], ['ok', results[0][1].decode('utf-8', 'replace')])))
                return
    out.note = 'env %s %s' % (case['target'], len(envs))


def shrink(case):
    if case['mode'] == 'env':
        for c in core.ddmin_list(case['envs']):
            if c:
                yield {**case, 'envs': c}
        for k, e in enumerate(case['envs']):
            for kk in list(e['env']):
                ee = {a: b for a, b in e['env'].items() if kk != a}
                yield {**case, 'envs': case['envs'][:k] + [{**e, 'env': ee}] + case['envs'][k + 1:]}
            for kk, v in (('hashseed', '0'), ('cwd', 'w'), ('clock', 0), ('noise', False), ('dest', 'stdout')):
                if e[kk] != v:
                    yield {**case, 'envs': case['envs'][:k] + [{**e, kk: v}] + case['envs'][k + 1:]}
        if case['argv']:
            yield {**case, 'argv': []}
        return
    if case['mode'] == 'seq':
        for c in core.ddmin_list(case['ops']):
            if c:
                yield {**case, 'ops': c}
    else:
        for c in core.ddmin_list(case['threads']):
            if c:
                yield {**case, 'threads': c}
        for k, p in enumerate(case['threads']):
            if len(p) > 1:
                for c in core.ddmin_list(p):
                    if c:
                        yield {**case, 'threads': case['threads'][:k] + [c] + case['threads'][k + 1:]}
    for k, c in enumerate(case['configs']):
        if c:
            yield {**case, 'configs': case['configs'][:k] + [[]] + case['configs'][k + 1:]}
    used = [o for p in (case.get('threads') or [case.get('ops')]) for o in p]
    for m in range(len(case['models'])):
        if case['models'][m]['fmt'] != 'json' or not any(o['model'] == m for o in used):
            continue
        f = case['models'][m]['file']
        docs = json.loads(case['files'][f])
        for c in core.ddmin_list(docs[1:]):
            yield {**case, 'files': {**case['files'], f: json.dumps([docs[0]] + c)}}
        for k, d in enumerate(docs):
            for key in ('options', 'positionals'):
                if d.get(key):
                    for c in core.ddmin_list(d[key]):
                        yield {**case, 'files': {**case['files'], f: json.dumps(docs[:k] + [{**d, key: c}] + docs[k + 1:])}}
