'''C03: install and uninstall act on exactly one and the same system file.'''
import json, errno
from .. import defgen, core
from ..genclient import server, fsdiff, fired as fired_ops
from .c02 import mutate_docs

ID = 'C03'
LEVEL = 'exploration'
RUNS = {'quick': 330, 'thorough': 9000}
RULE = 'a case counts as nontrivial if its history contains at least two steps on the same program and at least one pkg-config or file system fault was met'
STATES = 'distinct (shell, operation, pkg-config behaviour, directory state, previously installed?, outcome) tuples'
COMPONENTS = {'real': ['crazy-complete entry script', 'path lookup incl. subprocess', 'generators', 'file removal and creation'],
              'stub': ['pkg-config (scripted per step)', '/usr/share/* completion directories (remapped into the world by the seam)', 'libc results named in the plan']}
ASSUMPTIONS = ['pkg-config does not hang', 'a write error in the middle of an installation is judged by C01',
               'the documented default directories are /usr/share/bash-completion/completions, /usr/share/fish/vendor_completions.d and /usr/share/zsh/site-functions']

DEF = {'bash': 'root/usr/share/bash-completion/completions', 'fish': 'root/usr/share/fish/vendor_completions.d', 'zsh': 'root/usr/share/zsh/site-functions'}
CUST = {'bash': 'custom/b', 'fish': 'custom/f x'}
NAME = {'bash': '%s', 'fish': '%s.fish', 'zsh': '_%s'}
PC = {
    'missing': None,
    'exit1': '#!/bin/sh\necho "Package not found" >&2\nexit 1\n',
    'exit1_out': '#!/bin/sh\necho "$HOME/custom/b"\nexit 3\n',
    'ok': None,
    'ok_noise': None,
    'ok_nonl': None,
    'ok_ws': None,
    'empty': '#!/bin/sh\nexit 0\n',
    'blank': '#!/bin/sh\nprintf "  \\n\\n"\nexit 0\n',
    'sig': '#!/bin/sh\necho "$HOME/custom/b"\nkill -9 $$\n',
    'sig_term': '#!/bin/sh\nkill -TERM $$\n',
    'noexec': 'x',
    'badbin': 'x',
    'badutf8': '#!/bin/sh\nprintf "\\377\\376\\n"\n',
    'eagain': None,
    'eacces': None,
}
OKBODY = '''#!/bin/sh
[ "$1" = "--variable=completionsdir" ] || { echo "usage" >&2; exit 2; }
case "$2" in
  bash-completion) d="$HOME/custom/b" ;;
  fish) d="$HOME/custom/f x" ;;
  *) echo "Package $2 was not found" >&2; exit 1 ;;
esac
%s
'''
OK = {'ok': 'echo "$d"', 'ok_noise': 'echo "some warning" >&2; echo "$d"', 'ok_nonl': 'printf %s "$d"', 'ok_ws': 'printf " %s \\n" "$d"'}


def gen(rng, tier, i):
    progs = rng.sample(['prog', 'my-prog', 'tool', 'tool.x', 'a', 'Prog', 'prog_x'], rng.randint(1, 3))
    defs = []
    for p in progs:
        while True:
            docs = defgen.rich(rng, p, rng.choice([0, 1, 2]))
            t = json.dumps(docs)
            # their validation runs grep, which the simulated PATH does not have
            if '"history"' not in t and '"mime_file"' not in t:
                break
        if rng.random() < .4:
            # other names of the program, some of which are programs with an installed file
            docs[0]['aliases'] = rng.sample([x for x in progs + ['other', 'alias-x'] if x != p], 1)
        defs.append([p, rng.choice(['json', 'yaml']), docs])
    shells = rng.choice([['bash'], ['fish'], ['zsh'], ['bash', 'fish', 'zsh'], ['bash', 'fish']])
    steps = []
    pc = rng.choice(list(PC))
    for _ in range(rng.randint(2, 7)):
        if rng.random() < .35:
            pc = rng.choice(list(PC))
        f = None
        x = rng.random()
        if x < .12:
            f = ['openw', rng.choice(['EACCES', 'EROFS', 'ENOSPC', 'EMFILE'])]
        elif x < .22:
            f = ['unlink', rng.choice(['EACCES', 'EPERM', 'EBUSY', 'EROFS', 'EIO'])]
        elif x < .27:
            f = ['write', 'ENOSPC']
        steps.append({'op': rng.choice(['i', 'i', 'i', 'u', 'u', 'both']), 'shell': rng.choice(shells), 'p': rng.randint(0, len(progs) - 1),
                      'v': rng.randint(0, 2), 'pc': pc, 'fault': f, 'bad': rng.random() < .08, 'dirs': rng.choice(['keep'] * 6 + ['drop', 'ro', 'mk', 'mk'])})
    return {'defs': defs, 'steps': steps, 'pre': [s for s in ('bash', 'fish', 'zsh') if rng.random() < .85], 'prec': rng.random() < .8,
            'others': rng.random() < .8}


def run(ctx, case, out):
    srv = server(ctx)
    refs = {}
    state = {}            # world-relative path -> world entry, below root/ and custom/
    for s in case['pre']:
        state[DEF[s]] = {'dir': 1}
    if case['prec']:
        for d in CUST.values():
            state[d] = {'dir': 1}
    if case['others']:
        for s in ('bash', 'fish', 'zsh'):
            for d in (DEF[s], CUST.get(s)):
                if d and d in state:
                    for n in ('bystander', 'other', 'alias-x', 'my', 'tool2', '_prog', 'prog '):
                        state[d + '/' + NAME[s] % n] = 'not yours, %s\n' % n
                    state[d + '/prog.bak'] = 'not yours either\n'
    touched = set()
    hitfault = False
    for k, st in enumerate(case['steps']):
        p, fmt, docs = case['defs'][st['p'] % len(case['defs'])]
        docs = json.loads(json.dumps(docs))
        docs[0]['help'] = 'version %d' % st['v']
        docs[0].setdefault('options', []).append({'option_strings': ['--v%d' % st['v']], 'help': 'o%d' % st['v']})
        if st['bad']:
            docs = mutate_docs(docs, 'unknown_key', 0)
        data = defgen.to_json(docs) if fmt == 'json' else defgen.to_yaml(docs)
        sh = st['shell']
        inn = 'in.' + fmt
        if not st['bad']:
            key = (p, sh, st['v'])
            if key not in refs:
                r = srv.run({'w/' + inn: data}, [sh, inn, '-o', 'ref'])
                out.counters['runs'] += 1
                if r['status'] != 'exit:0' or 'w/ref' not in r['after']:
                    out.counters['probe:definition_refused'] += 1
                    return
                refs[key] = r['after']['w/ref'][2]
            want = refs[key]
        # what is the directory?
        pc = st['pc']
        ok = pc in OK
        d = CUST[sh] if ok and sh in CUST else DEF[sh]
        # directory manipulation by the "administrator"
        inside = [q for q in state if q == d or q.startswith(d + '/')]
        if st['dirs'] == 'drop':
            for q in inside:
                del state[q]
        elif st['dirs'] == 'mk':
            state[d] = {'dir': 1}
        elif st['dirs'] == 'ro' and d in state:
            state[d] = {'dir': 1, 'mode': 0o555}
        target = d + '/' + NAME[sh] % p
        world = {q: (dict(v) if isinstance(v, dict) else v) for q, v in state.items()}
        late = {q: v['mode'] for q, v in world.items() if isinstance(v, dict) and 'mode' in v}
        world = {q: ({'dir': 1} if isinstance(v, dict) else v) for q, v in world.items()}
        world['w/' + inn] = data
        plan = []
        if ok:
            world['bin/pkg-config'] = {'x': OKBODY % OK[pc]}
        elif pc == 'noexec':
            world['bin/pkg-config'] = {'data': '#!/bin/sh\necho "$HOME/custom/b"\n', 'mode': 0o644}
        elif pc == 'badbin':
            world['bin/pkg-config'] = {'data': b'\x7fELF\x02\x01garbage', 'mode': 0o755}
        elif pc == 'eagain':
            world['bin/pkg-config'] = {'x': OKBODY % OK['ok']}
            plan.append(('fork', '<proc>', 0, 'errno', errno.EAGAIN))
            ok = False
        elif pc == 'eacces':
            world['bin/pkg-config'] = {'dir': 1}
        elif PC[pc]:
            world['bin/pkg-config'] = {'x': PC[pc]}
        if pc == 'eagain' and sh in CUST:
            d = DEF[sh]
            target = d + '/' + NAME[sh] % p
        if st['fault']:
            plan.append((st['fault'][0], target, 1, 'errno', getattr(errno, st['fault'][1])))
        flag = {'i': ['-i'], 'u': ['-u'], 'both': ['-i', '-u']}[st['op']]
        r = srv.run(world, flag + [sh, inn], plan, env={'PATH': '@W@/bin'}, chmods=late)
        out.counters['runs'] += 1
        fired, hit = fired_ops(r)
        for op, act in fired:
            out.counters['fault:%s:%s' % (op, act)] += 1
        if sh != 'zsh':
            out.counters['fault:pkg-config:%s' % pc] += 1
        hitfault = hitfault or bool(fired) or (sh != 'zsh' and not ok) or d not in state
        for f in r['ops']:
            out.event(*f[1:])
        out.event(k, r['status'])
        before = {q: v for q, v in r['before'].items() if not q.startswith(('w/', 'bin', 'tmp', 'hold', 'w'))}
        after = {q: v for q, v in r['after'].items() if not q.startswith(('w/', 'bin', 'tmp', 'hold', 'w'))}
        changed = fsdiff(before, after)
        was = target in before
        out.states.add('%s|%s|%s|%s|%s|%s|%s|%s' % (sh, st['op'], pc if sh != 'zsh' else '-', d in state, st['dirs'] == 'ro', was, sorted(set(fired)), r['status']))
        where = 'step %d: -%s %s for %s, pkg-config %s, directory %s, plan %s: status %s, changed %s; stderr=%r; ' % (
            k, st['op'], sh, p, pc, 'present' if d in state else 'absent', plan, r['status'], changed, (r['stderr'][-150:] if r['status'] != 'exit:3' else [l for l in r['stderr'].splitlines() if b'Error' in l or b'File' in l][-4:]))
        out.note = where
        wdiff = [q for q in fsdiff(r['before'], r['after']) if q not in changed]
        if r['status'] == 'hang':
            out.violation('C03/hang', where)
            return
        if wdiff:
            out.violation('C03/other-files-changed', where + 'changed %s' % wdiff)
            return
        rodir = any(q == d for q in late)
        feasible = not st['bad'] and st['op'] != 'both' and d in state
        dirfail = not feasible
        if st['op'] == 'i':
            dirfail = dirfail or (rodir and not was)
            faulted = any(op in ('openw', 'write') for op, _ in fired)
        else:
            dirfail = dirfail or not was or rodir
            faulted = any(op == 'unlink' for op, _ in fired)
        if r['status'] == 'exit:0':
            if st['bad'] or st['op'] == 'both':
                out.violation('C03/success-on-invalid', where)
                return
            if st['op'] == 'i':
                got = after.get(target)
                if got is None or got[0] != 'file' or got[2] != want:
                    out.violation('C03/install-wrong-file', where + 'expected %s with the complete script' % target)
                    return
                if [q for q in changed if q != target]:
                    out.violation('C03/install-touched-more', where)
                    return
            else:
                if not was:
                    out.violation('C03/uninstall-nothing-there', where + '%s was not installed but success was reported' % target)
                    return
                if changed != [target] or target in after:
                    out.violation('C03/uninstall-wrong-file', where + 'expected removal of exactly %s' % target)
                    return
        else:
            if not dirfail and not fired and not (pc == 'eagain'):
                out.violation('C03/fails-without-reason', where)
                return
            if pc == 'eagain' and not dirfail and not faulted:
                out.violation('C03/pkg-config-failure-fatal', where)
                return
            wfault = any(op == 'write' for op, _ in fired)
            bad = [q for q in changed if not (wfault and q == target)]
            if bad:
                out.violation('C03/failed-run-damaged', where)
                return
            if not r['stderr']:
                out.violation('C03/silent-failure', where)
                return
        if r['stdout']:
            out.violation('C03/stdout', where + 'stdout %r' % r['stdout'][:100])
            return
        if (p, sh) in touched and hitfault:
            out.nontrivial = True
        touched.add((p, sh))
        ro = {q for q in late}
        state = {}
        for q, v in after.items():
            if v[0] == 'dir':
                if q in ('root', 'custom') or not q.startswith(('root/', 'custom/')):
                    continue
                state[q] = {'dir': 1, 'mode': 0o555} if q in ro and st['dirs'] != 'mk' else {'dir': 1}
            elif v[0] == 'file':
                state[q] = v[2].decode('utf-8', 'surrogateescape')


def shrink(case):
    for c in core.ddmin_list(case['steps']):
        yield {**case, 'steps': c}
    if case['others']:
        yield {**case, 'others': False}
    for k, d in enumerate(case['defs']):
        if len(d[2]) > 1 or d[2][0].get('options') or d[2][0].get('positionals'):
            e = [d[0], d[1], [{'prog': d[0]}]]
            yield {**case, 'defs': case['defs'][:k] + [e] + case['defs'][k + 1:]}
    for k, s in enumerate(case['steps']):
        for key, val in (('fault', None), ('dirs', 'keep'), ('v', 0), ('bad', False)):
            if s[key] != val:
                yield {**case, 'steps': case['steps'][:k] + [{**s, key: val}] + case['steps'][k + 1:]}
