'''C02: a run that cannot use its input fails cleanly and touches nothing.'''
import json, errno
from .. import defgen, core
from ..genclient import server, fsdiff, fired as fired_ops
from .c01 import SYS, shrink_data

ID = 'C02'
LEVEL = 'exploration'
RUNS = {'quick': 900, 'thorough': 20000}
RULE = 'a case counts as nontrivial if the input was defective or an injected fault/interrupt was reached before output was written, and the run failed'
STATES = 'distinct (input kind, defect or fault, operation hit, destination, exit status) tuples'
COMPONENTS = {'real': ['crazy-complete entry script', 'all loaders and validators', 'generators', 'CPython 3.12 I/O and exit path'],
              'stub': ['libc open/read/write/close results (LD_PRELOAD seam)', 'signal delivery at the n-th operation or n-th Python call']}
ASSUMPTIONS = ["Python's own bytecode cache is switched off in the simulated environment",
               'after SIGKILL or SIGTERM temporary files may remain',
               'an interrupt may also strike after the output has been started; then the destination may hold a beginning of the new output']

DOC_MUTANTS = ['unknown_key', 'unknown_opt_key', 'dup_prog', 'missing_parent', 'unknown_completer', 'no_opt_strings', 'bad_opt_string', 'two_roots', 'opts_type',
               'pos_zero', 'hidden_rep', 'metavar_nocomplete', 'bad_when', 'bad_capture', 'opt_type', 'prog_type', 'no_prog', 'choices_arg', 'rep_twice', 'empty_list',
               'range_zero', 'bad_regex']
BYTE_MUTANTS = ['truncate', 'bad_utf8', 'empty', 'garbage', 'scalar']
PY_MUTANTS = ['raise', 'exit0', 'syntax', 'noparser', 'two_parsers', 'sysexit_msg', 'import_missing', 'print_raise', 'name_error_late']
FILE_MUTANTS = ['missing', 'isdir', 'mode000', 'dangling', 'notdir']


def mutate_docs(docs, m, rng_n):
    docs = json.loads(json.dumps(docs))
    d = docs[rng_n % len(docs)]
    opts = d.setdefault('options', [])
    if not opts:
        opts.append({'option_strings': ['--zz']})
    o = opts[rng_n % len(opts)]
    if m == 'unknown_key':
        d['hepl'] = 'x'
    elif m == 'unknown_opt_key':
        o['repeat'] = True
    elif m == 'dup_prog':
        docs.append({'prog': docs[-1]['prog']} if len(docs) > 1 else {'prog': docs[0]['prog'], 'help': 'again'})
    elif m == 'missing_parent':
        docs.append({'prog': docs[0]['prog'] + ' nowhere sub'})
    elif m == 'unknown_completer':
        o['complete'] = ['fiel']
    elif m == 'no_opt_strings':
        o['option_strings'] = []
    elif m == 'bad_opt_string':
        o['option_strings'] = ['--a b']
    elif m == 'two_roots':
        docs.append({'prog': 'other-root'})
    elif m == 'opts_type':
        d['options'] = 'none'
    elif m == 'pos_zero':
        d['positionals'] = [{'number': 0, 'complete': ['file']}]
    elif m == 'hidden_rep':
        o['hidden'], o['repeatable'] = True, True
    elif m == 'metavar_nocomplete':
        o.pop('complete', None)
        o.pop('optional_arg', None)
        o['metavar'] = 'X'
    elif m == 'bad_when':
        o['when'] = 'option_si --x'
    elif m == 'bad_capture':
        o['complete'] = ['file']
        o['capture'] = '1 x'
    elif m == 'opt_type':
        o['help'] = ['x']
    elif m == 'prog_type':
        d['prog'] = 5
    elif m == 'no_prog':
        d.pop('prog')
    elif m == 'choices_arg':
        o['complete'] = ['choices']
    elif m == 'rep_twice':
        docs = [docs[0]]
        docs[0]['positionals'] = [{'number': 1, 'repeatable': True}, {'number': 2}]
    elif m == 'empty_list':
        return []
    elif m == 'range_zero':
        o['complete'] = ['range', 1, 5, 0]
    elif m == 'bad_regex':
        o['complete'] = ['history', '(']
    return docs


def gen(rng, tier, i):
    fmt = rng.choice(['json', 'json', 'yaml', 'yaml', 'help', 'python', 'python'])
    target = 'yaml' if fmt == 'help' else rng.choice(['bash', 'fish', 'zsh', 'bash', 'fish', 'zsh', 'json', 'yaml'])
    docs = defgen.rich(rng, 'prog', rng.choice([0, 1, 2, 3, 4]))
    defect = None
    bad_input = True
    if fmt in ('json', 'yaml'):
        x = rng.random()
        if x < .3:
            defect = rng.choice(DOC_MUTANTS)
            if target in ('json', 'yaml') and fmt == 'json':
                target = rng.choice(['bash', 'fish', 'zsh'])
            docs = mutate_docs(docs, defect, rng.randint(0, 20))
        data = defgen.to_json(docs) if fmt == 'json' else (defgen.to_yaml(docs, rng.randint(0, 3)) if docs else '# nothing\n')
    elif fmt == 'help':
        data = defgen.help_text(rng)
    else:
        x = rng.random()
        pre = rng.choice(['', '', 'print("starting up")', 'import sys\nsys.stderr.write("hi\\n")', 'print("x" * 9000)'])
        if x < .5:
            defect = rng.choice(PY_MUTANTS)
            post = {'raise': 'raise RuntimeError("boom")', 'exit0': 'import sys\ndel parser\nsys.exit(0)', 'syntax': 'def f(:', 'noparser': 'del parser',
                    'two_parsers': 'other = argparse.ArgumentParser("second")', 'sysexit_msg': 'del parser\nraise SystemExit("gone")',
                    'import_missing': 'import no_such_module_ccsim', 'print_raise': 'print("half")\nraise ValueError("x")',
                    'name_error_late': 'undefined_name'}[defect]
        else:
            post = rng.choice(['', 'def main():\n    parser.parse_args()'])
        data = defgen.to_python(docs, body_pre=pre, body_post=post)
    ext = {'json': 'json', 'yaml': 'yaml', 'help': 'txt', 'python': rng.choice(['py', 'py', ''])}[fmt]
    argv = defgen.config_argv(rng, .05) if target in ('bash', 'fish', 'zsh') else []
    if defect == 'bad_when' and '--disable' in argv:
        # a condition that is switched off is not looked at
        argv = []
    case = {'fmt': fmt, 'target': target, 'data': data, 'ext': ext, 'defect': defect, 'filedef': None, 'bytedef': None, 'pos': rng.random(), 'faults': [],
            'incl': None, 'argv': argv,
            'dest': rng.choice(['stdout', 'old', 'old', 'new', 'install', 'uninstall', 'install_old']), 'batch': rng.random() < .12, 'call': None}
    if case['dest'] in ('install', 'uninstall', 'install_old') and target in ('json', 'yaml'):
        case['dest'] = 'old'
    if defect is None:
        x = rng.random()
        if x < .15:
            case['filedef'] = rng.choice(FILE_MUTANTS)
        elif x < .33:
            case['bytedef'] = rng.choice(BYTE_MUTANTS)
        elif x < .48 and target in ('bash', 'fish', 'zsh'):
            case['incl'] = [rng.choice(['missing', 'mode000', 'isdir', 'bad_utf8', 'ok', 'ok']) for _ in range(rng.randint(1, 3))]
            if rng.random() < .4:
                case['faults'] = [fault(rng, 'inc')]
        elif x < .62:
            case['call'] = [rng.choice(['int', 'int', 'term', 'kill']), rng.random()]
        else:
            case['faults'] = [fault(rng, 'in') for _ in range(rng.choice([1, 1, 2]))]
    if case['batch']:
        case['batchdef'] = rng.choice(['ok', 'missing', 'bad_utf8', 'unbalanced', 'bad_option', 'mode000'])
    return case


def fault(rng, which):
    k = rng.choice(['read_errno', 'read_errno', 'open_errno', 'open_errno', 'int', 'term', 'kill', 'short', 'eintr', 'stderr'])
    n = rng.choice([1, 1, 1, 2, 3])
    if k == 'read_errno':
        return {'k': k, 'w': which, 'n': n, 'e': rng.choice(['EIO', 'EISDIR', 'ENOMEM', 'ESTALE'])}
    if k == 'open_errno':
        return {'k': k, 'w': which, 'n': rng.choice([1, 1, 2]), 'e': rng.choice(['EACCES', 'ENOENT', 'EMFILE', 'EIO', 'ENFILE', 'ELOOP'])}
    if k == 'short':
        return {'k': k, 'w': which, 'b': rng.choice([1, 3, 64, 500])}
    if k == 'eintr':
        return {'k': k, 'w': which, 'n': n, 'op': rng.choice(['read', 'open'])}
    if k == 'stderr':
        return {'k': k, 'w': which, 'n': 1, 'e': 'EIO'}
    return {'k': k, 'w': which, 'n': n, 'op': rng.choice(['read', 'read', 'open', 'close'])}


def run(ctx, case, out):
    srv = server(ctx)
    inname = 'in' + ('.' + case['ext'] if case['ext'] else '')
    target, dest = case['target'], case['dest']
    data = case['data'].encode()
    bd = case['bytedef']
    if bd == 'truncate':
        data = data[:int(len(data) * case['pos'])]
    elif bd == 'bad_utf8':
        k = int(len(data) * case['pos'])
        data = data[:k] + b'\xff\xfe\x80' + data[k:]
    elif bd == 'empty':
        data = b''
    elif bd == 'garbage':
        data = b'{]:\n\t- "' + data
    elif bd == 'scalar':
        data = b'42\n'
    world = {'bin/pkg-config': {'x': '#!/bin/sh\nexit 1\n'}, 'w/bystander': 'keep me'}
    fd = case['filedef']
    if fd == 'isdir':
        world['w/' + inname] = {'dir': 1}
    elif fd == 'mode000':
        world['w/' + inname] = {'data': data, 'mode': 0}
    elif fd == 'dangling':
        world['w/' + inname] = {'link': 'nowhere'}
    elif fd == 'notdir':
        world['w/plain'] = 'x'
    elif fd != 'missing':
        world['w/' + inname] = data
    inpath = 'plain/' + inname if fd == 'notdir' else inname
    argv = list(case['argv'])
    if case['fmt'] in ('help', 'python') or not case['ext']:
        argv += ['--input-type=' + case['fmt']]
    incbad = False
    for k, kind in enumerate(case['incl'] or []):
        p = 'w/inc%d' % k
        argv += ['--include-file', p[2:]]
        if kind == 'ok':
            world[p] = 'included %d\n' % k
        else:
            incbad = True
            if kind == 'mode000':
                world[p] = {'data': 'x', 'mode': 0}
            elif kind == 'isdir':
                world[p] = {'dir': 1}
            elif kind == 'bad_utf8':
                world[p] = b'abc \xff\xfe\n'
    argv += [target, inpath]
    dp = None
    sysf = SYS.get(target, '%s') % 'prog'
    if dest in ('old', 'new'):
        dp = 'w/out'
        argv += ['-o', 'out']
        if dest == 'old':
            world[dp] = 'precious old content\n' * 300
    elif dest in ('install', 'install_old'):
        dp = sysf
        argv += ['-i']
        world[dp.rsplit('/', 1)[0]] = {'dir': 1}
        if dest == 'install_old':
            world[dp] = 'precious installed script\n' * 300
    elif dest == 'uninstall':
        dp = sysf
        argv += ['-u']
        world[dp] = 'precious installed script\n' * 300
    batchbad = False
    if case['batch']:
        import shlex
        line = shlex.join(argv)
        bk = case['batchdef']
        batchbad = bk != 'ok'
        if bk == 'unbalanced':
            line = '"' + line
        elif bk == 'bad_option':
            line = line + ' --no-such-option'
        b = ('# comment\n\n' + line + '\n').encode()
        if bk == 'bad_utf8':
            b = b'\xff' + b
        if bk != 'missing':
            world['w/batch'] = {'data': b, 'mode': 0} if bk == 'mode000' else b
        argv = ['--batch', 'batch']

    plan = []
    for f in case['faults']:
        path = 'w/' + inname if f['w'] == 'in' else 'w/inc0'
        k = f['k']
        if k == 'read_errno':
            plan.append(('read', path, f['n'], 'errno', getattr(errno, f['e'])))
        elif k == 'open_errno':
            plan.append(('open', path, f['n'], 'errno', getattr(errno, f['e'])))
        elif k == 'short':
            plan.append(('read', path, 0, 'short', f['b']))
        elif k == 'eintr':
            plan.append((f['op'], path, f['n'], 'eintr'))
        elif k == 'stderr':
            plan.append(('write', '<stderr>', f['n'], 'errno', getattr(errno, f['e'])))
            plan.append(('open', path, 1, 'errno', errno.EIO))
        else:
            plan.append((f['op'], path, f['n'], k))

    extra = {}
    want = None
    if case['call'] or (case['faults'] and not incbad and not batchbad):
        ref = srv.run(world, argv, [], extra={'count_calls': True} if case['call'] else {})
        out.counters['runs'] += 1
        want = ref
        out.event('ref', ref['status'])
        if case['call']:
            n = ref.get('calls') or 1
            extra = {'sig_at_call': [max(1, int(n * case['call'][1])), case['call'][0]]}
    r = srv.run(world, argv, plan, extra=extra)
    out.counters['runs'] += 1
    fired, hit = fired_ops(r)
    for op, act in fired:
        out.counters['fault:%s:%s' % (op, act)] += 1
    if case['call']:
        out.counters['fault:signal-at-call:%s' % case['call'][0]] += 1
    for k in ('defect', 'bytedef', 'filedef'):
        if case[k]:
            out.counters['fault:input:%s' % case[k]] += 1
    if incbad:
        out.counters['fault:include-file'] += 1
    if batchbad:
        out.counters['fault:batch:%s' % case['batchdef']] += 1
    for f in r['ops']:
        out.event(*f[1:])
    out.event(r['status'], core.h8(r['stdout']))
    changed = [p for p in fsdiff(r['before'], r['after'])]
    out.states.add('%s|%s|%s|%s|%s' % (case['fmt'], case['defect'] or bd or fd or (case['incl'] and 'incl') or (case['call'] and case['call'][0]), sorted(set(fired)), dest, r['status']))
    where = '%s to %s (%s), defect %s, plan %s, %s: status %s; ' % (
        case['fmt'], target, dest, case['defect'] or bd or fd or (incbad and case['incl']) or (batchbad and case['batchdef']), plan, extra, r['status'])
    tail = ' stderr=%r' % r['stderr'][-300:]
    out.note = where
    # truncated text may still be a valid definition / help text; arbitrary text is a valid help text
    surely_bad = bool(incbad or batchbad or fd or case['defect'] or (bd == 'bad_utf8' and not (case['fmt'] == 'python' and False)) or
                      (bd == 'truncate' and case['fmt'] == 'json') or
                      (bd in ('empty', 'garbage', 'scalar') and case['fmt'] != 'help'))
    hard = [a for o, a in fired if a in ('errno', 'kill', 'int', 'term')]
    if r['status'] == 'hang':
        out.violation('C02/hang', where + 'did not terminate')
        return
    if r['status'] == 'exit:0':
        if surely_bad:
            out.violation('C02/bad-input-accepted', where + 'exit 0 although the input is defective;' + tail)
            return
        if want is not None:
            if want['status'] == 'exit:0' and (r['stdout'] != want['stdout'] or fsdiff(r['after'], want['after'])):
                out.violation('C02/fault-changed-result', where + 'exit 0, but the result differs from the fault-free run' + tail)
        return
    out.nontrivial = bool(surely_bad or hard or case['call'] or bd)
    # failed
    if want is not None and want['status'] == 'exit:0' and not hard and not case['call']:
        out.violation('C02/benign-fault-fatal', where + 'only short reads / EINTR were delivered, but the run failed;' + tail)
        return
    killed = r['status'].startswith('signal') and r['status'] != 'signal:2' or bool({'kill', 'term'} & set(a for _, a in fired))
    stderr_hit = '<stderr>' in hit
    if not killed and not r['stderr'] and not stderr_hit:
        out.violation('C02/silent-failure', where + 'nothing on stderr')
        return
    if case['call'] or 'int' in [a for _, a in fired] or killed:
        # the signal may have struck while the output was being delivered
        started = any(o[1] in ('openw', 'unlink', 'rename') and o[2] == dp for o in r['ops'])
        wout = any(o[1] == 'write' and o[2] == '<stdout>' for o in r['ops'])
        if wout and want is not None and not dp and want['stdout'].startswith(r['stdout']):
            return
        if started and dp:
            out.counters['probe:signal_during_output'] += 1
            new = want['after'].get(dp) if want else None
            got = r['after'].get(dp)
            bad = [p for p in changed if p != dp]
            okd = got == r['before'].get(dp) or got == new or (got and new and new[2].startswith(got[2]))
            if (bad and not killed) or (want and not okd):
                out.violation('C02/interrupted-output', where + 'changed %s' % changed)
            return
    if r['stdout']:
        out.violation('C02/stdout-not-empty', where + 'stdout has %r;%s' % (r['stdout'][:200], tail))
        return
    if killed:
        changed = [p for p in changed if not p.startswith('tmp')]
    if changed:
        out.violation('C02/files-changed', where + 'changed %s;%s' % (changed, tail))


def shrink(case):
    if case['faults']:
        for c in core.ddmin_list(case['faults']):
            yield {**case, 'faults': c}
    if case['argv'] and len(case['argv']) > 1:
        yield {**case, 'argv': []}
    if case['batch']:
        yield {**case, 'batch': False}
    if case['dest'] != 'stdout':
        yield {**case, 'dest': 'stdout'}
    if case['incl']:
        for c in core.ddmin_list(case['incl']):
            yield {**case, 'incl': c}
    if not case['defect']:
        yield from shrink_data(case)
