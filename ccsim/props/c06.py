'''C06: every input file is taken as one consistent version.'''
import json, os, shlex, itertools
from .. import defgen, core
from ..genclient import server, fired as fired_ops
from .c02 import mutate_docs

ID = 'C06'
LEVEL = 'exploration'
RUNS = {'quick': 420, 'thorough': 12000}
RULE = 'a case counts as nontrivial if a replacement happened after the first and before the last file operation of the run, or the definition was delivered through a pipe'
STATES = 'distinct (input kind, target, replaced file, operation before which it was replaced, delivery) tuples'
COMPONENTS = {'real': ['crazy-complete entry script incl. batch mode', 'all loaders', 'include files', 'generators'],
              'stub': ['the other program that replaces files (atomic rename between two file operations of the run, LD_PRELOAD seam)', 'chunk sizes of reads', 'pkg-config']}
ASSUMPTIONS = ['other programs replace input files by an atomic rename', 'a Python definition keeps to one file']


def version(rng, fmt, k, bad=False):
    prog = rng.choice(['prog', 'prog', 'prog%d' % k])
    docs = defgen.rich(rng, prog, rng.choice([0, 1, 1, 2, 3]))
    if fmt == 'help':
        return 'usage: x\n' if bad else defgen.help_text(rng, prog)
    if bad:
        m = rng.choice(['unknown_completer', 'unknown_key', 'pos_zero', 'garbage', 'empty'])
        if m == 'garbage':
            return rng.choice(['{', '[1, 2', 'x: [', '}{', ''])
        if m == 'empty':
            return ''
        docs = mutate_docs(docs, m, 0)
    else:
        docs[0].setdefault('options', []).append({'option_strings': ['--version-%d' % k], 'complete': ['choices', ['v%d' % k]]})
    if fmt == 'json':
        return defgen.to_json(docs)
    if fmt == 'yaml':
        t = defgen.to_yaml(docs, rng.randint(0, 3))
        if rng.random() < .3 and not bad:
            t = defgen.to_yaml([{'prog': '%defines%', 'shared_completer': ['choices', ['def%d' % k]]}] +
                               [docs[0]] + docs[1:]).replace('["choices", ["v%d"]]' % k, '"shared_completer"', 1)
        return t + rng.choice(['', '', '# %s\n' % ('pad ' * rng.randint(1, 4000))])
    post = rng.choice(['', '', 'import sys\nsys.exit(0)', 'raise SystemExit()', 'def main():\n    pass'])
    return defgen.to_python(docs, body_pre='X = %d' % k, body_post=post + '\nparser.add_argument("--late-%d")' % k if not post.startswith(('import sys', 'raise')) else post) + \
        rng.choice(['', '# %s\n' % ('pad ' * rng.randint(1, 4000))])


def gen(rng, tier, i):
    fmt = rng.choice(['json', 'yaml', 'yaml', 'python', 'help'])
    target = 'yaml' if fmt == 'help' else rng.choice(['bash', 'fish', 'zsh', 'yaml', 'json'])
    nver = rng.choice([2, 2, 2, 3])
    vers = [version(rng, fmt, k, bad=(k > 0 and rng.random() < .15)) for k in range(nver)]
    case = {'fmt': fmt, 'target': target, 'vers': vers, 'incs': [], 'argv': defgen.config_argv(rng, .05) if target in ('bash', 'fish', 'zsh') else [],
            'deliver': 'file', 'chunk': rng.choice([0, 0, 1, 7, 512, 4096]), 'repl': [], 'batch': None, 'dest': rng.choice(['stdout', 'new', 'old'])}
    if target in ('bash', 'fish', 'zsh') and rng.random() < .45:
        case['incs'] = [['# inc %d version %d\n%s' % (j, k, 'x%d=%d\n' % (k, j) * rng.choice([1, 5, 2000])) for k in range(2)] for j in range(rng.randint(1, 2))]
        if rng.random() < .3:
            case['twice'] = True
    x = rng.random()
    if x < .22:
        case['deliver'] = rng.choice(['pipe', 'pipe', 'stdin-file', 'fd', 'fifo', 'fifo'])
    elif x < .32 and target in ('bash', 'fish', 'zsh'):
        case['deliver'] = 'inc-pipe'
        case['incs'] = case['incs'][:1] or [['a=1\n' * 3000, 'b=1\n']]
        case.pop('twice', None)
    elif x < .38 and fmt in ('json', 'yaml') and target in ('json', 'yaml'):
        case['dest'] = 'self'
    else:
        # which file is replaced by which version before which fraction of the operations
        for _ in range(rng.choice([1, 1, 1, 2])):
            if case['incs'] and rng.random() < .4:
                j = rng.randrange(len(case['incs']))
                case['repl'].append(['inc%d' % j, 1, rng.random()])
            else:
                case['repl'].append(['def', rng.randrange(1, nver), rng.random()])
        if rng.random() < .15:
            case['batch'] = rng.choice(['plain', 'replaced'])
    return case


def run(ctx, case, out):
    srv = server(ctx)
    ext = {'json': '.json', 'yaml': '.yaml', 'python': '.py', 'help': '.txt'}[case['fmt']]
    dname = 'def' + ext

    def world(dv, iv):
        w = {'bin/pkg-config': {'x': '#!/bin/sh\nexit 1\n'}, 'w/' + dname: case['vers'][dv]}
        for j, v in enumerate(iv):
            w['w/inc%d' % j] = case['incs'][j][v]
        if case['dest'] == 'old':
            w['w/out.x'] = 'old content\n'
        return w

    def argv(defpath=None, incpath=None):
        a = list(case['argv'])
        if case['fmt'] in ('python', 'help') or defpath:
            a += ['--input-type', case['fmt']]
        for j in range(len(case['incs'])):
            a += ['--include-file', incpath or 'inc%d' % j] * (2 if case.get('twice') and not incpath else 1)
        a += [case['target'], defpath or dname]
        if case['dest'] == 'self':
            a += ['-o', dname]
        elif case['dest'] != 'stdout':
            a += ['-o', 'out.x']
        return a

    def outcome(r):
        if r['status'] != 'exit:0':
            return ('fail', b'', r['status'])
        if case['dest'] == 'stdout':
            return ('ok', r['stdout'], '')
        f = r['after'].get('w/' + (dname if case['dest'] == 'self' else 'out.x'))
        return ('ok', f[2] if f else None, '')
    inc0 = [0] * len(case['incs'])
    refs = {}

    def ref(dv, iv):
        k = (dv, tuple(iv))
        if k not in refs:
            r = srv.run(world(dv, iv), argv())
            out.counters['runs'] += 1
            refs[k] = (outcome(r), r)
        return refs[k]
    base, rbase = ref(0, inc0)
    where = '%s to %s: ' % (case['fmt'], case['target'])
    if base[0] != 'ok':
        out.counters['probe:definition_refused'] += 1
    plan = []
    if case['chunk']:
        plan.append(('read', '*', 0, 'short', case['chunk']))
        out.counters['fault:read:short'] += 1

    def check(r, allowed, what, keys):
        for op, act in fired_ops(r)[0]:
            if act != 'short':
                out.counters['fault:%s:%s' % (op, act)] += 1
        got = outcome(r)
        out.event(what, got[0], core.h8(got[1] or b''))
        out.note = where + what
        if r['status'] == 'hang':
            out.violation('C06/hang', where + what)
            return
        for a in allowed:
            if a[0] == got[0] and (got[0] == 'fail' or a[1] == got[1]):
                return
        if got[0] == 'fail':
            out.violation('C06/spurious-error', '%s%s: fails (%s) although every version involved (%s) is accepted; stderr %r' % (where, what, got[2], keys, r['stderr'][-500:]))
        else:
            d = b''
            best = None
            for a in allowed:
                if a[0] == 'ok' and a[1] is not None and got[1] is not None:
                    n = next((i for i, (x, y) in enumerate(zip(a[1].split(b'\n'), got[1].split(b'\n'))) if x != y), -1)
                    d += b' | vs a version: line %d %r' % (n, got[1].split(b'\n')[n][:120])
            out.violation('C06/mixture', '%s%s: succeeds with a result that no version (%s) produces: %s' % (where, what, keys, d.decode('utf-8', 'replace')[:900]))

    if case['deliver'] in ('pipe', 'stdin-file', 'fd', 'fifo'):
        w = world(0, inc0)
        w['hold/stream'] = w.pop('w/' + dname)
        kw = {'stdin': 'hold/stream'} if case['deliver'] == 'stdin-file' else {'stdin_pipe': 'hold/stream'}
        path = {'fd': '/dev/fd/0', 'fifo': 'fifo'}.get(case['deliver'], '/dev/stdin')
        if case['deliver'] == 'fifo':
            w['w/fifo'] = {'link': '/dev/stdin'}
        if case['dest'] == 'self':
            case = {**case, 'dest': 'stdout'}
        r = srv.run(w, argv(path), plan, **kw)
        out.counters['runs'] += 1
        out.counters['fault:unseekable-input'] += 1
        out.nontrivial = True
        out.states.add('%s>%s|%s|%s' % (case['fmt'], case['target'], case['deliver'], case['chunk']))
        check(r, [base], 'definition delivered through %s in chunks of %s' % (case['deliver'], case['chunk']), ['regular file'])
        return
    if case['deliver'] == 'inc-pipe':
        w = world(0, inc0)
        w['hold/stream'] = w.pop('w/inc0')
        r = srv.run(w, argv(None, '/dev/stdin'), plan, stdin_pipe='hold/stream')
        out.counters['runs'] += 1
        out.counters['fault:unseekable-input'] += 1
        out.nontrivial = True
        out.states.add('%s>%s|%s|%s' % (case['fmt'], case['target'], case['deliver'], case['chunk']))
        check(r, [base], 'include file delivered through a pipe in chunks of %s' % case['chunk'], ['regular file'])
        return
    if case['dest'] == 'self':
        case2 = {**case, 'dest': 'stdout'}
        r0 = srv.run(world(0, inc0), [a for a in argv() if a not in ('-o',)][:-1])
        want = ('ok', r0['stdout'][:-1], '') if r0['status'] == 'exit:0' else ('fail', b'', '')
        r = srv.run(world(0, inc0), argv(), plan)
        out.counters['runs'] += 2
        out.states.add('%s>%s|self|%s' % (case['fmt'], case['target'], case['chunk']))
        out.nontrivial = True
        check(r, [want], 'output written over the definition itself', ['separate output'])
        return
    # replacements before given operations of the run
    w = world(0, inc0)
    reach = {'def': {0}, **{'inc%d' % j: {0} for j in range(len(case['incs']))}}
    av = argv()
    if case['batch']:
        w['w/batch'] = shlex.join(av) + '\n'
        if case['batch'] == 'replaced':
            w['hold/batch'] = '# another version\n' * 20 + 'bash no-such-file.json\n'
        av = ['--batch', 'batch']
    probe = srv.run(w, av, plan)
    out.counters['runs'] += 1
    ops = [o for o in probe['ops'] if not o[2].startswith('tmp/')]
    n = len(probe['ops'])
    desc = []
    for f, v, frac in case['repl']:
        # before operation k of the whole run (1..n+1)
        k = 1 + int(frac * (n + 1))
        src = 'hold/%s.v%d.%d' % (f, v, k)
        dst = 'w/' + (dname if f == 'def' else f)
        w[src] = case['vers'][v] if f == 'def' else case['incs'][int(f[3:])][v]
        plan.append(('any', '*', k, 'replace', src, dst))
        reach[f].add(v)
        o = probe['ops'][k - 1] if k <= n else ['', 'end', '']
        desc.append('%s:=v%d before op %d (%s %s)' % (f, v, k, o[1], o[2]))
        out.states.add('%s>%s|%s|%s %s|%d' % (case['fmt'], case['target'], f, o[1], o[2], k))
        if 1 < k <= n:
            out.nontrivial = True
    if case['batch'] == 'replaced':
        # the batch file itself is replaced after it was opened
        first = next((i for i, o in enumerate(probe['ops']) if o[2] == 'w/batch' and o[1] == 'close'), None)
        if first is not None:
            plan.append(('any', '*', first + 1, 'replace', 'hold/batch', 'w/batch'))
            desc.append('batch file replaced before op %d' % (first + 1))
    r = srv.run(w, av, plan)
    out.counters['runs'] += 1
    for f in r['ops']:
        out.event(*f[1:])
    allowed = []
    names = sorted(reach)
    for combo in itertools.product(*[sorted(reach[f]) for f in names]):
        d = dict(zip(names, combo))
        allowed.append(ref(d['def'], [d['inc%d' % j] for j in range(len(case['incs']))])[0])
    if case.get('twice'):
        # a file that is included twice is read twice: each inclusion is one version
        return out.counters.update(['probe:included_twice'])
    check(r, allowed, '; '.join(desc) + (' in a batch' if case['batch'] else ''), '%d combinations' % len(allowed))


def shrink(case):
    for c in core.ddmin_list(case['repl']):
        if c:
            yield {**case, 'repl': c}
    if case['incs'] and case['deliver'] != 'inc-pipe' and not any(r[0] != 'def' for r in case['repl']):
        yield {**case, 'incs': []}
    for k, v in (('argv', []), ('chunk', 0), ('batch', None)):
        if case[k] != v:
            yield {**case, k: v}
    if case['fmt'] == 'json':
        for n, t in enumerate(case['vers']):
            try:
                docs = json.loads(t)
            except ValueError:
                continue
            for c in core.ddmin_list(docs[1:]):
                yield {**case, 'vers': case['vers'][:n] + [json.dumps([docs[0]] + c)] + case['vers'][n + 1:]}
    elif case['fmt'] == 'yaml':
        for n, t in enumerate(case['vers']):
            blocks = t.split('  - option_strings')
            for c in core.ddmin_list(blocks[1:]):
                yield {**case, 'vers': case['vers'][:n] + ['  - option_strings'.join([blocks[0]] + c)] + case['vers'][n + 1:]}
