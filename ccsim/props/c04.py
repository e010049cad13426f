'''C04: a batch does what its commands do when run one by one.'''
import json, errno, shlex
from .. import defgen, core
from ..genclient import server, fsdiff, fired as fired_ops
from .c01 import SYS
from .c02 import mutate_docs

ID = 'C04'
LEVEL = 'exploration'
RUNS = {'quick': 330, 'thorough': 9000}
RULE = 'a case counts as nontrivial if at least two command lines of the batch were carried out'
STATES = 'distinct (multiset of input kind>target>destination per line, position of the first failing line, fault) tuples'
COMPONENTS = {'real': ['crazy-complete entry script incl. batch mode', 'all loaders', 'generators', 'Python import system'],
              'stub': ['libc results named in the plan (LD_PRELOAD seam)', 'pkg-config']}
ASSUMPTIONS = ['Python definitions do not change the interpreter itself (monkey patching, chdir, environment)',
               'only success or failure of the exit status is compared, not its number']

PYHELP = 'TEXT = %r\nN = %d\n'


def gen(rng, tier, i):
    files = {}
    inputs = []   # (path, fmt, prog)
    for k in range(rng.randint(1, 4)):
        d = rng.choice(['', 'd1/', 'd2/', 'd3/'])
        prog = rng.choice(['prog', 'tool', 'prog', 'my-tool'])
        fmt = rng.choice(['json', 'yaml', 'python', 'python', 'help'])
        name = rng.choice(['def', 'prog', 'def', 'tool', 'json' if fmt == 'python' else 'x'])
        docs = defgen.rich(rng, prog, rng.choice([0, 1, 2]))
        if fmt == 'python':
            ext = rng.choice(['.py', '.py', '.py', ''])
            use = rng.random() < .5
            pre = ''
            post = ''
            if use:
                pre = 'import common'
                post = 'parser.description = common.TEXT\nparser.add_argument("--from-%d" % common.N)' if True else ''
                files[d + 'common.py'] = PYHELP % ('common of %s %d' % (d, k), k)
            if rng.random() < .15:
                post += '\nprint("noise")'
            if rng.random() < .12:
                post += '\nimport sys\nsys.exit(%d)' % rng.choice([0, 1])
            data = defgen.to_python(docs, body_pre=pre, body_post=post)
            path = d + name + ext
        elif fmt == 'help':
            data = defgen.help_text(rng, prog)
            path = d + name + '.txt'
        else:
            data = defgen.to_json(docs) if fmt == 'json' else defgen.to_yaml(docs)
            path = d + name + '.' + fmt
        files[path] = data
        inputs.append([path, fmt, prog])
    # the last writer of a path decides its kind
    byp = {}
    for p, f, g in inputs:
        byp[p] = [p, f, g]
    inputs = list(byp.values())
    if rng.random() < .3:
        files['bad.json'] = defgen.to_json(mutate_docs(defgen.rich(rng, 'prog', 1), 'unknown_key', 0))
    if rng.random() < .4:
        files['inc.sh'] = '_inc() { :; }\n'
    lines = []
    outs = []
    for k in range(rng.randint(2, 7)):
        x = rng.random()
        if x < .12:
            lines.append({'raw': rng.choice(['# a comment', '', '   ', '#', '  # indented comment'])})
            continue
        if x < .19:
            lines.append({'argv': rng.choice([['--version'], ['bash', 'missing.json'], ['--help'], ['bash'], ['bash', 'bad.json'], ['--no-such', 'bash', 'x'],
                                              ['--manual', 'exec'], ['--max-line-length', 'x', 'bash', 'x.json']])})
            continue
        if x < .25 and 'sub.batch' not in files:
            p, f, g = rng.choice(inputs)
            files['sub.batch'] = shlex.join(['--input-type=' + f, 'yaml' if f == 'help' else 'bash', p, '-o', 'subout']) + '\n'
            lines.append({'argv': ['--batch', 'sub.batch']})
            continue
        if outs and rng.random() < .3:
            p, f, g = rng.choice(outs)
        else:
            p, f, g = rng.choice(inputs)
        argv = []
        if f == 'help':
            t = 'yaml'
        else:
            t = rng.choice(['bash', 'fish', 'zsh', 'bash', 'fish', 'zsh', 'yaml', 'json'])
        if f in ('help', 'python') or rng.random() < .2:
            argv += ['--input-type', f]
        if f == 'python' and rng.random() < .2:
            argv += ['--parser-variable', rng.choice(['parser', 'parser', 'nope'])]
        argv += defgen.config_argv(rng, .12)
        if 'inc.sh' in files and rng.random() < .3:
            argv += ['--include-file', 'inc.sh'] * rng.randint(1, 2)
        argv += [t, p]
        y = rng.random()
        if y < .25:
            pass
        elif y < .35 and t in SYS:
            argv += [rng.choice(['-i', '-i', '-u'])]
        else:
            if t in ('json', 'yaml'):
                o = rng.choice(['gen1', 'gen2']) + '.' + t
                outs.append([o, t, g])
            else:
                o = rng.choice(['out%d.%s' % (k, t), 'shared.out', 'out %d' % k, "it's"])
            argv += ['-o', o]
        lines.append({'argv': argv, 'k': '%s>%s' % (f, t)})
    fault = None
    uniq = [l['argv'][-1] for l in lines if 'argv' in l and '-o' in l['argv'][:-1] and sum(m.get('argv', [''])[-1] == l['argv'][-1] for m in lines) == 1]
    if uniq and rng.random() < .3:
        fault = [rng.choice(['openw', 'write', 'close']), 'w/' + rng.choice(uniq), rng.choice(['EIO', 'ENOSPC', 'EACCES'])]
    elif rng.random() < .12:
        p = rng.choice(list(files))
        if sum(p in l.get('argv', []) for l in lines) == 1:
            fault = [rng.choice(['open', 'read']), 'w/' + p, 'EIO']
    return {'files': files, 'lines': lines, 'fault': fault, 'eol': rng.choice(['\n', '\n', '\n\n']), 'cols': rng.random() < .3}


def run(ctx, case, out):
    srv = server(ctx)
    plan = []
    if case['fault']:
        op, path, e = case['fault']
        plan.append((op, path, 1, 'errno', getattr(errno, e)))
    base = {'bin/pkg-config': {'x': '#!/bin/sh\nexit 1\n'}}
    for p in SYS.values():
        base[p.rsplit('/', 1)[0]] = {'dir': 1}
    for p, c in case['files'].items():
        base['w/' + p] = c
    text = []
    for l in case['lines']:
        if 'raw' in l:
            text.append(l['raw'])
        else:
            text.append(('  ' if case['cols'] else '') + shlex.join(l['argv']))
    body = case['eol'].join(text) + '\n'
    a = srv.run({**base, 'hold/batch': body}, ['--batch', '../hold/batch'], plan)
    out.counters['runs'] += 1
    fired, hit = fired_ops(a)
    for op, act in fired:
        out.counters['fault:%s:%s' % (op, act)] += 1
    for f in a['ops']:
        out.event(*f[1:])
    out.event(a['status'], core.h8(a['stdout']))
    # one by one
    world = dict(base)
    stdout = b''
    ok = True
    done = 0
    for n, l in enumerate(case['lines']):
        if 'raw' in l:
            continue
        r = srv.run(world, l['argv'], plan)
        out.counters['runs'] += 1
        stdout += r['stdout']
        if r['status'] == 'hang':
            raise core.HarnessError('hang')
        world = {p: ({'dir': 1} if v[0] == 'dir' else {'link': v[1]} if v[0] == 'link' else v[2]) for p, v in r['after'].items()}
        world['bin/pkg-config'] = base['bin/pkg-config']
        out.event(n, r['status'])
        if r['status'] != 'exit:0':
            ok = False
            out.counters['fault:failing-line'] += 1
            break
        done += 1
    final = {p: v for p, v in world.items() if not (isinstance(v, dict) and 'dir' in v)}
    got = {p: v[2] if v[0] == 'file' else {'link': v[1]} for p, v in a['after'].items() if v[0] != 'dir' and p not in ('hold/batch',)}
    norm = lambda d: {p: (v.encode() if isinstance(v, str) else v) for p, v in d.items() if p != 'bin/pkg-config' and not p.startswith('tmp/')}
    final, got = norm(final), norm(got)
    out.nontrivial = done >= 2
    out.states.add('%s|%d|%s' % (sorted(l.get('k', 'x') for l in case['lines']), -1 if ok else done, case['fault'] and case['fault'][0]))
    where = 'batch:\n%s\nplan %s: batch status %s, separate runs %s after %d commands; batch stderr %r; ' % (
        body, plan, a['status'], 'succeed' if ok else 'fail', done, a['stderr'][-300:])
    out.note = body.replace('\n', ' ; ')
    if a['status'] == 'hang':
        out.violation('C04/hang', where)
        return
    if (a['status'] == 'exit:0') != ok:
        out.violation('C04/status-differs', where)
        return
    if got != final:
        d = sorted(p for p in set(got) | set(final) if got.get(p) != final.get(p))
        p = d[0]
        x, y = got.get(p), final.get(p)
        det = '%s: batch %s, separate %s' % (p, 'absent' if x is None else len(x), 'absent' if y is None else len(y))
        if isinstance(x, bytes) and isinstance(y, bytes):
            for la, lb in zip(x.split(b'\n'), y.split(b'\n')):
                if la != lb:
                    det += ' first differing line: batch %r, separate %r' % (la[:200], lb[:200])
                    break
        out.violation('C04/files-differ', where + 'differing files %s; %s' % (d, det))
        return
    if a['stdout'] != stdout:
        out.violation('C04/stdout-differs', where + 'batch stdout %d bytes, separate %d bytes' % (len(a['stdout']), len(stdout)))


def shrink(case):
    for c in core.ddmin_list(case['lines']):
        if c:
            yield {**case, 'lines': c}
    if case['fault']:
        yield {**case, 'fault': None}
    for p in case['files']:
        if not any(p in l.get('argv', []) for l in case['lines']):
            f = dict(case['files'])
            del f[p]
            yield {**case, 'files': f}
    for k, l in enumerate(case['lines']):
        if 'argv' in l and len(l['argv']) > 2:
            for c in core.ddmin_list(l['argv']):
                if c:
                    yield {**case, 'lines': case['lines'][:k] + [{**l, 'argv': c}] + case['lines'][k + 1:]}
    if case['eol'] != '\n':
        yield {**case, 'eol': '\n'}
