'''C07: a completion answer does not depend on the session history.'''
import re
from .. import core, sess, session, shells
from . import c10

ID = 'C07'
LEVEL = 'exploration'
TECHNIQUE = 'deterministic simulation with fault injection: seeded session histories (completions, edits, interrupts, helper faults, world changes) in a real interactive shell, each answer compared with that of a freshly started shell in the same world'
RUNS = {'quick': 1500, 'thorough': 14000}
RULE = 'a case counts as nontrivial if at least two compared completions came after at least one other completion and had a non-empty answer'
STATES = 'distinct (shell, last two history events, line shape, number of answers class) tuples'
COMPONENTS = session.COMPONENTS
ASSUMPTIONS = ['completers that report the session itself (variable, history, pid, process) are left out', 'interrupts strike while a helper program is running']
K = {'choices': 3, 'exec': 3, 'exec_fast': 2, 'list': 3, 'kvl': 2, 'kvle': 2, 'kvp': 1, 'kvpe': 1, 'combine': 2, 'prefix': 1, 'range': 1, 'none': 1, 'misc': 6}
B = {'kinds': K, 'p_capture': 0.2, 'seps': 1, 'p_special': 0.2, 'nomisc': ['environment']}
PROFILES = [B, dict(B, p_nest=0.5), dict(B, p_when=0.6), dict(B, p_cfg=1.0), dict(B, subs=0.8), dict(B, pos=(1, 3), opts=(1, 3)), dict(B, p_old=0.5), dict(B, p_optarg=0.4)]
FILES = {'alpha.txt': 'a', 'al pha.md': 'b', 'beta': '', 'dir1': None, 'dir1/inner.txt': '', 'dir1/sub dir': None, 'dir2': None, "we'ird": '', '.hid': '', 'b:c': '', 'x,y': ''}
NEWFILES = ['new.txt', 'dir1/n2.txt', 'al,p', 'zz top', 'beta2.md']
MUT = ['"', "'", '\\', ' ', ',', '=', '-', '--', ':', '/', '~', '*', '#', 'x', '.', '[', '{', '@', '%', '+', '^']


def mutate(rng, text, prog):
    head = prog + ' '
    t = text[len(head):]
    for _ in range(rng.choice([1, 1, 2])):
        i = rng.randint(0, len(t))
        if rng.random() < 0.3 and i < len(t):
            t = t[:i] + t[i + 1:]
        else:
            t = t[:i] + rng.choice(MUT) + t[i:]
    return head + t


def texts(rng, d, shell, n, opt=None):
    '''Lines for a definition: well-formed ones and broken ones.'''
    lg = sess.LineGen(rng, d, shell, dict({'maxwords': rng.choice([2, 4, 7]), 'odd_values': rng.choice([0, 0.15])}, **(opt or {})))
    r = []
    for s in session.gen_lines(rng, lg, n, ['opt', 'arg', 'arg', 'arg', 'pos', 'pos']):
        cur = s['cur']
        if not cur and rng.random() < 0.25:
            cur = rng.choice(['a', 'al', 'd', 'dir1/', './', '/', '~', '/us', 'n', 'S', '"a', "'al", '1', '-', '--', 'pp:', 'pp:d', 'kf=', 'kc=', 'alpha.txt,', 'dir1:'])
        t = sess.render(shell, d['prog'], s['w'], s['q']) + cur
        if rng.random() < 0.12:
            t = mutate(rng, t, d['prog'])
        r.append(t)
    return r


def gen(rng, tier, i, profiles=PROFILES):
    shell = session.SHELLS[i % 3]
    d = sess.gen_def(rng, sess.profile(**rng.choice(profiles)))
    other = None
    if rng.random() < 0.5:
        other = sess.gen_def(rng, sess.profile(**dict(rng.choice(profiles), opts=(1, 4))), 'vq')
        if rng.random() < 0.4:
            # a second program with the same options
            other = core.json.loads(core.json.dumps(d))
            other['prog'] = other['root']['name'] = 'vq'
            if rng.random() < 0.5 and other['root']['opts'] and '"when"' not in core.json.dumps(other):
                del other['root']['opts'][0]
        elif other['helpers']:
            # helper programs are shared by name
            for h in other['helpers']:
                d['helpers'].setdefault(h, other['helpers'][h])
        if rng.random() < 0.6:
            # a program that looks like a subcommand or a variant of the first one
            name = rng.choice([d['prog'] + c for c in '+.x'] + [d['prog'] + rng.choice('-_') + n['name'] for n in d['root']['subs']] * 3)
            if '"when"' not in core.json.dumps(other):
                for n in d['root']['subs']:
                    if name.endswith(n['name']) and other['prog'] != name:
                        for a, b in zip(other['root']['opts'], n['opts']):
                            if a is not b and not set(b['s']) & {x for o in sess.all_options(other['root']) for x in o['s']}:
                                a['s'] = list(b['s'])
            other['prog'] = other['root']['name'] = name
    mine = texts(rng, d, shell, rng.randint(4, 9))
    extra = texts(rng, other, shell, 4) if other else []
    hl = sorted((h, l) for h, ls in session.helper_lines(d).items() for l in ls)
    for h, ls in session.ext_lines(d).items():
        hl += [(h, l) for l in ls]
    hs = sorted(d['helpers'])
    steps = []
    dirs = ['.', 'dir1', 'dir2']
    broken = {}
    for t in mine:
        pre = []
        while rng.random() < 0.45:
            ev = rng.choice(['line', 'line', 'line', 'other', 'other', 'intr', 'intr', 'cd', 'put', 'rm', 'accept', 'fail', 'cancel', 'helper', 'helper', 'fault', 'run'])
            if ev == 'line':
                pre.append(['line', rng.choice(mine + texts(rng, d, shell, 1)), rng.choice(['q', 't', 'tt', 'qt', 'qbq', 't', 'btb'])])
            elif ev == 'other' and extra:
                pre.append(['line', rng.choice(extra), rng.choice(['q', 't', 'tt', 'q'])])
            elif ev == 'intr' and hl:
                pre.append(['intr', *rng.choice(hl)])
            elif ev == 'cd':
                pre.append(['cd', rng.choice(dirs)])
            elif ev == 'put':
                pre.append(['put', rng.choice(NEWFILES), 'new'])
            elif ev == 'rm':
                pre.append(['rm', rng.choice(['alpha.txt', 'beta', 'new.txt', 'x,y'])])
            elif ev in ('accept', 'fail', 'cancel'):
                pre.append([ev])
            elif ev == 'helper' and hs:
                h = rng.choice(hs)
                if h in broken or rng.random() < 0.5:
                    broken.pop(h, None)
                    pre.append(['set-helper', h, sess.helper_text(d['helpers'][h])])
                elif d['helpers'][h].get('keys') is None:
                    pre.append(['set-helper', h, sess.helper_text({'v': ['hv%d' % rng.randint(0, 9), 'hw', 'h x'], 'desc': rng.random() < .3})])
            elif ev == 'fault' and hs:
                h = rng.choice(hs)
                f = rng.choice(sorted(session.FAULTY))
                broken[h] = 1
                pre.append(['set-helper', h, session.FAULTY[f]])
            elif ev == 'run':
                pre.append(['run', rng.choice(['true', 'false', 'x_y=1' if shell != 'fish' else 'set x_y 1', 'echo hi', d['prog'] + ' --nothing'])])
        if hs and rng.random() < 0.15:
            # every helper fails for a while
            f = session.FAULTY[rng.choice(sorted(session.FAULTY))]
            bad = rng.sample(hs, rng.randint(1, len(hs)))
            pre += [['set-helper', h, f] for h in bad]
            pre.append(['line', t if rng.random() < 0.6 else rng.choice(mine), rng.choice(['q', 't', 'tt'])])
            if rng.random() < 0.5:
                pre.append(['line', t, 'q'])
            pre += [['set-helper', h, sess.helper_text(d['helpers'][h])] for h in bad]
            for h in bad:
                broken.pop(h, None)
        if rng.random() < 0.25:
            # a line that looks similar
            x = rng.randint(len(d['prog']) + 1, len(t)) if len(t) > len(d['prog']) else len(t)
            pre.append(['line', rng.choice([t, t[:x], mutate(rng, t, d['prog'])]), rng.choice(['q', 't', 'tt', 'qt'])])
        steps.append({'raw': t, 'w': [], 'q': [], 'cur': '', 'mode': rng.choice(['edit', 'fresh']), 'pre': pre})
    case = {'shell': shell, 'def': d, 'steps': steps}
    if other:
        case['other'] = other
        case['otherfirst'] = rng.random() < 0.5
    return case


def shape(t):
    return re.sub(r'[a-zA-Z0-9]+', 'a', t)[-8:]


def clean(q, base):
    # underscore names: functions of the scripts themselves, where commands are completed
    return {'cands': sorted(c.replace(base, '@') for c in q['cands'] if not re.match(r'[-a-zA-Z=:]*_', c) or len(q['cands']) < 300), 'called': q['called'], 'opts': q['opts']}


def run(ctx, case, out):
    kind = case['shell']
    try:
        s = session.Session(ctx, case, out, files=FILES)
    except sess.GenFail as e:
        out.violation('generation', 'no script for a valid definition: %s' % e)
        return
    n = compared = 0
    try:
        if s.loaderr:
            out.violation(kind + ':load', 'the shell reports an error when the script is loaded: %s' % s.loaderr[-500:])
            return
        hist = []
        for i, step in enumerate(case['steps']):
            text, q = s.query(step)
            hist += [e[0] for e in step['pre']] + ['q']
            out.event(i, text, q['cands'])
            out.counters['runs'] += 1
            f = s.fresh()
            try:
                f.type(text)
                ref = f.query()
            finally:
                f.close()
            a = clean(q, s.sh.base)
            b = clean(ref, f.base)
            out.states.add(core.h8(repr((kind, hist[-3:], shape(text), min(len(b['cands']), 3)))))
            if b['cands']:
                out.counters['probe:nonempty'] += 1
                n += len(hist) > 1
            if kind == 'zsh' and ('KEYTIMEOUT' in q['cands'] or 'KEYTIMEOUT' in ref['cands']):
                out.counters['unspecified'] += 1      # parameters of the shell: which ones exist depends on the session
                continue
            if kind == 'zsh' and re.search(r'[ \'"]=[^ ]*$', text):
                out.counters['unspecified'] += 1      # =command: the table of commands that the shell has looked up
                continue
            if a != b:
                k = [x for x in a if a[x] != b[x]][0]
                if k == 'cands':
                    a[k], b[k] = [x for x in a[k] if x not in b[k]] or a[k], [x for x in b[k] if x not in a[k]] or b[k]
                out.violation('%s:%s' % (kind, k), 'step %d, line %r: after %s the session answers %r, a fresh shell %r (stderr %r)' % (i, text, hist[-8:], a[k], b[k], q['err'][:200]))
                return
        out.nontrivial = n >= 2
        out.note = 'shell %s, history %s, last line %r' % (kind, ' '.join(hist), text)
    except shells.Hang as e:
        out.violation(kind + ':hang', 'the completion did not return: %s' % e)
    except shells.Dead as e:
        out.violation(kind + ':dead', str(e))
    finally:
        session.pool(ctx).reset()


def shrink(case):
    yield from session.shrink(case)
    for i, s in enumerate(case['steps']):
        words = s['raw'].split(' ')
        for k in range(1, len(words) - 1):
            c = core.json.loads(core.json.dumps(case))
            c['steps'][i]['raw'] = ' '.join(words[:k] + words[k + 1:])
            yield c
