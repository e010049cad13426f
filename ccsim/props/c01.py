'''C01: exit status 0 means the complete output was delivered.'''
import json, errno
from .. import defgen, core
from ..genclient import server, fsdiff, fired as fired_ops

ID = 'C01'
LEVEL = 'exploration'
RUNS = {'quick': 700, 'thorough': 16000}
RULE = ('a case counts as nontrivial if at least one injected write-side fault (not only configured, but reached) hit the '
        'destination while output was being delivered')
STATES = 'distinct (destination kind, target, fault op+action+outcome, number of write calls, exit class) tuples'
COMPONENTS = {'real': ['crazy-complete entry script', 'application, loaders, generators', 'CPython 3.12 I/O stack and exit path',
                       'kernel file system for the bytes that the plan lets through'],
              'stub': ['libc open/read/write/close/rename/unlink results (LD_PRELOAD seam)', 'pkg-config (script in the world)']}
ASSUMPTIONS = ['stdout is open when the program starts (a descriptor closed by the parent is replaced by CPython with None before the code runs)',
               'errors reported only after close() by the kernel (delayed write-back) are out of reach of any program that does not fsync']

SYS = {'bash': 'root/usr/share/bash-completion/completions/%s', 'fish': 'root/usr/share/fish/vendor_completions.d/%s.fish',
       'zsh': 'root/usr/share/zsh/site-functions/_%s'}


def gen(rng, tier, i):
    target = rng.choice(['bash', 'fish', 'zsh', 'bash', 'fish', 'zsh', 'json', 'yaml', 'help'])
    size = rng.choice([0, 1, 2, 2, 3, 4, 6, 8]) if rng.random() < .85 else rng.choice([20, 60, 150])
    prog = rng.choice(['prog', 'p', 'my-prog', 'prog.x'])
    dest = rng.choice(['stdout', 'stdout', 'stdout', 'new', 'new', 'old_short', 'old_long', 'old_long', 'link', 'nodir', 'isdir', 'readonly', 'install',
                       'install'])
    if target in ('json', 'yaml', 'help') and dest == 'install':
        dest = 'new'
    fmt = rng.choice(['json', 'json', 'yaml'])
    if target == 'help':
        data = defgen.help_text(rng, prog)
        fmt = 'help'
    else:
        if size > 8:
            docs = defgen.rich(rng, prog, 2)
            docs[0].setdefault('options', []).append(
                {'option_strings': ['--huge'], 'complete': ['choices', ['value-%d-%s' % (k, rng.choice(defgen.WORDS)) for k in range(size * 12)]]})
            fmt = 'json'
        else:
            docs = defgen.rich(rng, prog, size)
        data = defgen.to_json(docs) if fmt == 'json' else defgen.to_yaml(docs, rng.randint(0, 3))
    argv = defgen.config_argv(rng) if rng.random() < .5 and target not in ('json', 'yaml', 'help') else []
    # a history of faulted runs, then a clean one
    hist = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        rules = []
        for _ in range(rng.choice([1, 1, 1, 2])):
            rules.append(fault(rng))
        hist.append(rules)
    return {'target': target, 'prog': prog, 'fmt': fmt, 'data': data, 'dest': dest, 'argv': argv, 'hist': hist,
            'old': rng.choice(['old content\n', '', 'x' * 40]), 'api': not argv and target != 'help'}


def fault(rng):
    k = rng.choice(['limit', 'limit', 'write_errno', 'write_errno', 'short', 'eintr', 'close_errno', 'open_errno', 'kill', 'int', 'stderr', 'term'])
    n = rng.choice([1, 1, 1, 2, 3])
    if k == 'limit':
        return {'k': 'limit', 'frac': rng.choice([0, rng.random(), rng.random(), .999])}
    if k == 'write_errno':
        return {'k': k, 'n': n, 'e': rng.choice(['ENOSPC', 'EIO', 'EDQUOT', 'EFBIG', 'EPIPE', 'EROFS'])}
    if k == 'short':
        return {'k': k, 'n': rng.choice([0, 1, 2]), 'b': rng.choice([1, 7, 100, 1000, 4096])} if rng.random() < .8 else \
               {'k': k, 'n': 0, 'b': 997}
    if k == 'eintr':
        return {'k': k, 'n': n, 'op': rng.choice(['write', 'openw'])}
    if k == 'close_errno':
        return {'k': k, 'e': rng.choice(['EIO', 'ENOSPC', 'EDQUOT'])}
    if k == 'open_errno':
        return {'k': k, 'e': rng.choice(['EACCES', 'EROFS', 'ENOSPC', 'EMFILE', 'ETXTBSY', 'ENFILE'])}
    if k == 'stderr':
        return {'k': k, 'e': rng.choice(['ENOSPC', 'EIO'])}
    return {'k': k, 'n': n, 'op': rng.choice(['write', 'write', 'openw', 'close'])}


def rules_of(faults, path, total):
    r = []
    for f in faults:
        k = f['k']
        if k == 'limit':
            r.append(('write', path, 0, 'limit', int(total * f['frac'])))
        elif k == 'write_errno':
            r.append(('write', path, f['n'], 'errno', getattr(errno, f['e'])))
        elif k == 'short':
            r.append(('write', path, f['n'], 'short', f['b']))
        elif k == 'eintr':
            r.append((f['op'], path, f['n'], 'eintr'))
        elif k == 'close_errno':
            r.append(('close', path, 1, 'errno', getattr(errno, f['e'])))
        elif k == 'open_errno':
            r.append(('openw', path, 1, 'errno', getattr(errno, f['e'])))
        elif k == 'stderr':
            r.append(('write', '<stderr>', 1, 'errno', getattr(errno, f['e'])))
        else:
            r.append((f['op'], path, f['n'], k))
    return r


BENIGN = ('short', 'eintr')


def run(ctx, case, out):
    srv = server(ctx)
    target = 'yaml' if case['target'] == 'help' else case['target']
    infile = 'w/in.' + {'json': 'json', 'yaml': 'yaml', 'help': 'txt'}[case['fmt']]
    base_argv = case['argv'] + (['--input-type=help'] if case['fmt'] == 'help' else [])
    base_argv = base_argv + [target, infile[2:]]
    dest = case['dest']
    pc = {'bin/pkg-config': {'x': '#!/bin/sh\nexit 1\n'}}

    # reference: fault-free run into a fresh file
    ref = srv.run({infile: case['data'], **pc}, base_argv + ['-o', 'ref'])
    out.counters['runs'] += 1
    out.event('ref', ref['status'], core.h8(ref['after'].get('w/ref', (0, 0, b''))[2]))
    if ref['status'] != 'exit:0' or 'w/ref' not in ref['after']:
        # the definition is refused: nothing to deliver (C02's subject), except that status 0 needs a file
        if ref['status'] == 'exit:0':
            out.violation('C01/no-output-file', 'exit 0 but -o file does not exist; stderr=%r' % ref['stderr'][-500:])
        out.counters['probe:definition_refused'] += 1
        return
    E = ref['after']['w/ref'][2]
    if case['api']:
        r = srv.run({infile: case['data']}, [], mode='api', keep=True,
                    extra={'scenario': 'text', 'file': infile[2:], 'fmt': case['fmt'], 'shell': target})
        out.counters['runs'] += 1
        try:
            res = json.load(open(r['W'] + '.io/result'))
        except (OSError, ValueError):
            res = {}
        srv.discard(r)
        if 'text' in res:
            t = res['text'].encode('utf-8', 'surrogateescape').replace(r['W'].encode(), b'@W@')
            if t != E:
                out.violation('C01/file-differs-from-generated-text', 'len(generated)=%d len(file)=%d first difference at %d' % (
                    len(t), len(E), diffpos(t, E)))
                return

    prog = case['prog']
    plain = {'stdout': None, 'nodir': 'w/no/such/out', 'isdir': 'w/out', 'install': SYS.get(target, '%s') % prog}
    dp = plain.get(dest, 'w/out') if dest != 'stdout' else None
    path = dp or '<stdout>'
    want = E if dp else E + b'\n'
    if dest == 'stdout':
        dargv = []
    elif dest == 'install':
        dargv = ['-i']
    else:
        dargv = ['-o', dp[2:]]

    def world(content):
        w = {infile: case['data'], 'w/bystander': 'keep me', **pc}
        if dest == 'link':
            w['w/out'] = {'link': 'real'}
            if content is not None:
                w['w/real'] = content
        elif dest == 'isdir':
            w['w/out'] = {'dir': 1}
        elif dest == 'readonly':
            w['w/out'] = {'data': content or b'ro', 'mode': 0o444}
        elif dest == 'install':
            w[SYS[target].rsplit('/', 1)[0]] = {'dir': 1}
            if content is not None:
                w[dp] = content
        elif dp and dest != 'nodir' and content is not None:
            w[dp] = content
        return w

    real = {'link': 'w/real'}.get(dest, dp)
    cur = None
    if dest == 'old_short':
        cur = case['old'].encode()
    elif dest in ('old_long', 'link'):
        cur = case['old'].encode() + E + b'tail of a longer old file\n' * 40
    elif dest == 'readonly':
        cur = b'ro'
    must_fail = dest in ('nodir', 'isdir', 'readonly')

    for step, faults in enumerate(case['hist'] + [[]]):
        plan = rules_of(faults, path, len(want))
        r = srv.run(world(cur), base_argv + dargv, plan)
        out.counters['runs'] += 1
        fired, hit = fired_ops(r)
        for op, act in fired:
            out.counters['fault:%s:%s' % (op, act)] += 1
        for f in r['ops']:
            out.event(*f[1:])
        if path in hit:
            out.nontrivial = True
        after = r['after'].get(real) if real else None
        got = r['stdout'] if not dp else (after[2] if after and after[0] == 'file' else None)
        nw = sum(1 for o in r['ops'] if o[1] == 'write' and o[2] == path)
        out.states.add('%s|%s|%s|%d|%s' % (dest, target, sorted(set(fired)), min(nw, 9), r['status']))
        out.event(step, r['status'], core.h8(got or b''), len(got or b''))
        where = 'step %d (%s to %s, plan %s): ' % (step, target, dest, plan)
        tail = ' stderr=%r' % r['stderr'][-300:]
        changed = [p for p in fsdiff(r['before'], r['after']) if p != real and r['before'].get(p, r['after'].get(p))[0] != 'dir']
        acts = set(a for _, a in fired)
        killed = bool(acts & {'kill', 'term'}) or r['status'].startswith('signal')
        if r['status'] == 'hang':
            out.violation('C01/hang', where + 'did not terminate')
            return
        if r['status'] == 'exit:0':
            if must_fail and dp:
                out.violation('C01/success-on-unwritable', where + 'exit 0 although the destination cannot be written')
                return
            if got != want:
                out.violation('C01/exit0-incomplete', where + 'exit 0 but destination holds %s of %d bytes (first difference at %s)%s' % (
                    len(got) if got is not None else 'nothing', len(want), diffpos(got or b'', want), tail))
                return
            if [p for p in changed]:
                out.violation('C01/other-files-changed', where + 'exit 0, also changed %s' % changed)
                return
        else:
            if faults and plan and not acts - {'short', 'eintr', ''} and all(f['k'] in BENIGN for f in faults) and not must_fail:
                out.violation('C01/benign-fault-fatal', where + 'status %s although only short writes / EINTR were delivered%s' % (r['status'], tail))
                return
            if not fired and not must_fail:
                out.violation('C01/fails-without-fault', where + 'status %s without any fault%s' % (r['status'], tail))
                return
            if changed and not killed:
                out.violation('C01/failed-run-touched-other-files', where + 'failed run changed %s' % changed)
                return
            ok = got is None and (cur is None or must_fail or dest == 'isdir') or got == cur or (got is not None and want.startswith(got))
            if not ok:
                out.violation('C01/corrupt-after-failure', where + 'status %s, destination is neither the old content nor a prefix of the new output: %r' % (
                    r['status'], (got or b'')[:200]))
                return
            if not killed and not r['stderr'] and not '<stderr>' in hit:
                out.violation('C01/silent-failure', where + 'status %s and nothing on stderr' % r['status'])
                return
        if dp and r['stdout']:
            out.violation('C01/stdout-polluted', where + 'output went to a file but stdout has %r' % r['stdout'][:200])
            return
        if dp and not must_fail:
            cur = got
    out.note = '%s -> %s, %d bytes, faults %s' % (target, dest, len(want), json.dumps(case['hist']))


def diffpos(a, b):
    for k, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return k
    return min(len(a), len(b))


def shrink(case):
    for c in core.ddmin_list(case['hist']):
        yield {**case, 'hist': c}
    for k, fl in enumerate(case['hist']):
        for c in core.ddmin_list(fl):
            if c != fl:
                yield {**case, 'hist': case['hist'][:k] + [c] + case['hist'][k + 1:]}
    for c in core.ddmin_list(case['argv']) if len(case['argv']) % 2 == 0 else []:
        yield {**case, 'argv': c}
    yield from shrink_data(case)


def shrink_data(case, key='data', fmtkey='fmt'):
    '''Remove documents/options/positionals from a JSON definition.'''
    if case.get(fmtkey) != 'json':
        return
    docs = json.loads(case[key])
    for c in core.ddmin_list(docs):
        if c:
            yield {**case, key: defgen.to_json(c)}
    for di, d in enumerate(docs):
        for f in ('options', 'positionals'):
            if d.get(f):
                for c in core.ddmin_list(d[f]):
                    dd = dict(d)
                    dd[f] = c
                    yield {**case, key: defgen.to_json(docs[:di] + [dd] + docs[di + 1:])}
