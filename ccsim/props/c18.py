'''C18: every suggestion is shown with its own description, in the order asked for.'''
import copy, re
from .. import core, sess, session, shells

ID = 'C18'
LEVEL = 'exploration'
TECHNIQUE = 'deterministic simulation with fault injection: seeded histories of completions in a real interactive shell (several programs, helpers that fail or change their answers between the completions); the descriptions and the order that the shell is given are compared with the definition and the answer of the helper at that moment'
RUNS = {'quick': 1000, 'thorough': 14000}
RULE = 'a case counts as nontrivial if at least two suggestions with different texts, or a kept order of at least two suggestions, were compared'
STATES = 'distinct (shell, place, completer, order, odd characters of the texts, history) tuples'
COMPONENTS = session.COMPONENTS
ASSUMPTIONS = ['descriptions are single lines of printable text; blanks at their ends and an empty description are not judged', 'Bash shows no descriptions; there only the order is compared, and that no text turns into a suggestion',
               'a suggestion without a description of its own may be shown with any fixed text that is no description of another one']
TEXTS = ["it's", 'say "hi"', 'a: b', 'a:b:c', '[x]', 'a [b] c', ']', '[', '(x)', '((x))', '{a,b}', '$HOME', '${x}', '`id`', '$(id)', 'a; b', 'a & b', 'a | b', '<f>', '50% of', '%s %d', '%Bx%b', '*', '?', '~', '# no', 'x # y', '!x', 'back\\slash', '\\n', '\\', 'end\\', 'a  b', 'é ü', '😀 smile', '日本語',
         'a -- b', '-- x', '-x', '--x', '=', '=a', '+', '@x', '^x', "''", '""', "'", '"', ',', 'a,b', 'x' * 120, 'true', '0', '1', 'Some text', 'The file', 'More text here', 'a\\:b', 'a\\]b', '%', '%%', 'a=b', '/a/b', 'a/b', '&&', '||', '$', '$$', '!!', '>x', '%{x%}', ':', '::', 'x:', ':x', '.', ' . '.strip()]
W = 'alpha beta gamma delta epsi zeta eta theta iota kappa lamb mu nu xi omi pi rho sigma tau upsi phi chi psi omega'.split()


def text(rng, used):
    while True:
        t = rng.choice(TEXTS)
        if rng.random() < .35:
            t = t + rng.choice([' ', '', ': ', ' and ']) + rng.choice(TEXTS)
        if rng.random() < .5:
            t = rng.choice('ABCDEFGH') + str(rng.randint(0, 99)) + ' ' + t
        if t not in used and t.strip() == t and t:
            used.add(t)
            return t


def helper(pairs):
    return "#!/bin/sh\nprintf '%%s\\t%%s\\n' %s\n" % ' '.join('%s %s' % (sess.sq(a), sess.sq(b)) for a, b in pairs)


def gen_comp(rng, used, hs):
    '''(document, items in order [[word, description or None]], helper name, list separator)'''
    vs = rng.sample(W, rng.randint(2, 6))
    vs = [v + rng.choice(['', '', '-x', '2', '.c', '_y']) for v in vs]
    k = rng.choice(['choices', 'choices', 'choices', 'plain', 'exec', 'exec', 'exec_fast', 'value_list', 'kvl', 'kvp', 'combine', 'prefix', 'list', 'list-exec', 'integer'])
    d = [[v, text(rng, used) if rng.random() < .85 else None] for v in vs]
    m = {v: t for v, t in d}
    if k in ('choices', 'combine', 'prefix', 'value_list', 'list'):
        m = {v: t or '' for v, t in d}
    if k == 'integer':
        d = [[v, text(rng, used)] for v in rng.sample(['k', 'M', 'GiB', 'px'], 2)]
        return [rng.choice(['integer', 'float']), {'min': 0, 'max': 9, 'suffixes': dict(d)}], d, None, ''
    if k == 'plain':
        return ['choices', vs], [[v, None] for v in vs], None, ''
    if k == 'choices':
        return ['choices', m], d, None, ''
    if k == 'prefix':
        return ['prefix', 'p-', ['choices', m]], d, None, ''
    if k == 'value_list':
        return ['value_list', {'values': m}], d, None, ','
    if k == 'list':
        return ['list', ['choices', m]], d, None, ','
    if k in ('exec', 'exec_fast', 'list-exec'):
        n = 'hlp%d' % (len(hs) + 1)
        d = [[v, (t or text(rng, used)).replace('\t', ' ')] for v, t in d]
        hs[n] = d
        doc = ['exec' if k == 'list-exec' else k, n]
        return (['list', doc] if k == 'list-exec' else doc), d, n, ',' if k == 'list-exec' else ''
    if k == 'combine':
        e = [[v, text(rng, used)] for v in rng.sample([w for w in W if not any(w == x or x.startswith(w) or w.startswith(x) for x in vs)], 2)]
        return ['combine', [['choices', m], ['choices', dict(e)]]], d + e, None, ''
    keys = [[v, t or text(rng, used), rng.choice([None, ['none'], ['choices', ['q1', 'q2']]])] for v, t in d]
    if k == 'kvp':
        keys = [x[:2] + [x[2] or ['none']] for x in keys]
    d = [[a, b] for a, b, c in keys]
    return (['key_value_list', ',', '=', keys] if k == 'kvl' else ['key_value_pair', '=', keys]), d, None, ',' if k == 'kvl' else ''


def gen_prog(rng, prog, hs, like=None):
    '''Documents and the places where something is completed: [line, kind, items, helper, nosort, doc kind].'''
    used = set()
    docs, places = [], []
    names = rng.sample(W, 9) if like is None else like

    def opts(cmd, line, depth, k):
        r, shown = [], []
        shorts = 'abcdfgijklm' if depth == 0 else 'nopqrstuwxyz'
        for i in range(rng.randint(1, 4)):
            ss = rng.choice([['-' + shorts[i]], ['--' + names[k + i]], ['-' + shorts[i], '--' + names[k + i]], ['-' + shorts[i], '--' + names[k + i], '--' + names[k + i] + '-too']])
            o = {'option_strings': ss}
            if rng.random() < .85:
                o['help'] = text(rng, used)
            t = rng.random()
            if t < .6:
                doc, items, h, sep = gen_comp(rng, used, hs)
                o['complete'] = doc
                o['metavar'] = rng.choice(['ARG', 'FILE', 'a b', text(rng, used)])
                if rng.random() < .15:
                    o['optional_arg'] = True
                ns = rng.random() < .35
                if ns:
                    o['nosort'] = True
                for s in ss:
                    if o.get('optional_arg'):
                        pre = s + ('=' if s.startswith('--') else '')
                    else:
                        pre = s + rng.choice([' ', ' ', '=' if s.startswith('--') else ''])
                    places.append([line + pre, 'optarg', items, h, ns, doc, sep])
            if rng.random() < .1:
                o['repeatable'] = True
            shown += [[s, o.get('help')] for s in ss]
            r.append(o)
        places.append([line + '-', 'opts', [x for x in shown if not x[0].startswith('--')] + [x for x in shown if x[0].startswith('--')], None, False, ['options'], ''])
        places.append([line + '--', 'opts', [x for x in shown if x[0].startswith('--')], None, False, ['options'], ''])
        return r
    def args(d, line):
        ps = []
        for i in range(rng.randint(0, 2)):
            doc, items, h, sep = gen_comp(rng, used, hs)
            p = {'number': i + 1, 'metavar': rng.choice(['ARG', 'x y', text(rng, used)]), 'complete': doc}
            if rng.random() < .5:
                p['help'] = text(rng, used)
            ns = rng.random() < .35
            if ns:
                p['nosort'] = True
            places.append([line, 'pos', items, h, ns, doc, sep])
            line += 'val%d ' % i
            if rng.random() < .2:
                p['repeatable'] = True
                places.append([line, 'pos', items, h, ns, doc, sep])
                ps.append(p)
                break
            ps.append(p)
        if ps:
            d['positionals'] = ps

    d = {'prog': prog, 'help': text(rng, used)}
    docs.append(d)
    d['options'] = opts(prog, prog + ' ', 0, 0)
    if rng.random() < .5:
        subs = []
        for i, n in enumerate(names[6:6 + rng.randint(1, 3)]):
            s = {'prog': prog + ' ' + n}
            if rng.random() < .9:
                s['help'] = text(rng, used)
            subs.append([n, s.get('help')])
            if rng.random() < .3:
                s['aliases'] = [n[::-1] + 'q']
                subs.append([s['aliases'][0], s.get('help')])
            if i == 0 and rng.random() < .6:
                n0 = len(places)
                s['options'] = opts(s['prog'], s['prog'] + ' ', 1, 4)
                # the options of the parent are offered as well; they have texts of their own
                if rng.random() < .5:
                    args(s, rng.choice([prog + ' ' + x + ' ' for x in [n] + s.get('aliases', [])]))
            docs.append(s)
        places.append([prog + ' ', 'subs', subs, None, False, ['subs'], ''])
    else:
        args(d, prog + ' ')
    if rng.random() < .25:
        d['aliases'] = [prog[0] + 'a' + prog[1]]
        for x in places:
            if rng.random() < .4:
                x[0] = d['aliases'][0] + x[0][len(prog):]
    return docs, places


def gen(rng, tier, i):
    shell = session.SHELLS[i % 3]
    hs = {}
    docs, places = gen_prog(rng, 'vp', hs)
    other = None
    if rng.random() < .4:
        like = [s[2:] for x in docs for o in x.get('options', []) for s in o['option_strings'] if s.startswith('--')]
        od, op = gen_prog(rng, 'vq', hs, (like + [w for w in rng.sample(W, len(W)) if w not in like])[:9] if rng.random() < .6 and len(set(like)) == len(like) and not any('-' in x for x in like) else None)
        other = {'docs': od}
    steps = []
    used = set()
    for _ in range(rng.randint(4, 10)):
        ev = []
        which = 'vq' if other and rng.random() < .3 else 'vp'
        ps = op if which == 'vq' else places
        k = rng.randrange(len(ps))
        if hs and rng.random() < .3:
            h = rng.choice(sorted(hs))
            t = rng.random()
            if t < .6:
                ev.append(['set', h, [[w, text(rng, used)] for w in rng.sample(W, rng.randint(1, 5))]])
            elif t < .8:
                ev.append(['bad', h, rng.choice(['fail', 'none', 'gone', 'noise'])])
            else:
                ev.append(['set', h, [[w, d] for w, d in reversed(hs[h])]])
        if rng.random() < .15:
            ev.append(['accept'])
        steps.append({'ev': ev, 'prog': which, 'place': k, 'mode': rng.choice(['fresh', 'edit']), 'typed': rng.choice([0, 0, 0, 0, 1, 2]), 'after': rng.random() < .3, 'pick': rng.randint(0, 99)})
    case = {'shell': shell, 'def': {'prog': 'vp', 'docs': docs, 'cfg': {}, 'helpers': {}, 'root': {'name': 'vp', 'aliases': [], 'opts': [], 'pos': [], 'subs': []}},
            'places': {'vp': places, 'vq': op if other else []}, 'texts': hs, 'steps': steps}
    if other:
        case['other'] = {'prog': 'vq', 'docs': od, 'cfg': {}, 'helpers': {}, 'root': {'name': 'vq', 'aliases': [], 'opts': [], 'pos': [], 'subs': []}}
        case['otherfirst'] = rng.random() < .5
    return case


BAD = {'fail': '#!/bin/sh\nexit 1\n', 'none': '#!/bin/sh\n', 'gone': None, 'noise': '#!/bin/sh\necho oops >&2\n'}


def run(ctx, case, out):
    kind = case['shell']
    world = {h: v for h, v in case['texts'].items()}
    try:
        s = session.Session(ctx, case, out, helpers={h: helper(v) for h, v in world.items()},
                            user_rc="typeset -g __v_wantd=1\nzstyle ':completion:*' verbose yes\nzstyle ':completion:*' list-grouped no\n" if kind == 'zsh' else '')
    except sess.GenFail as e:
        out.violation('generation', 'no script for a valid definition: %s' % e)
        return
    sh = s.sh
    try:
        if s.loaderr:
            out.violation(kind + ':load', 'the shell reports an error when the script is loaded: %s' % s.loaderr[-500:])
            return
        hist = set()
        for i, step in enumerate(case['steps']):
            for ev in step['ev']:
                out.event('ev', *ev)
                out.counters['fault:helper-' + (ev[2] if ev[0] == 'bad' else 'changed') if ev[0] != 'accept' else 'fault:accept'] += 1
                hist.add(ev[0])
                if ev[0] == 'set' and ev[1] in world:
                    world[ev[1]] = ev[2]
                    sh.helper(ev[1], helper(ev[2]))
                elif ev[0] == 'bad' and ev[1] in world:
                    world[ev[1]] = []
                    sh.helper(ev[1], BAD[ev[2]])
                elif ev[0] == 'accept':
                    s.dirty()
                    sh.run('true')
            ps = case['places'][step['prog']]
            line, what, items, h, nosort, doc, sep = ps[step['place'] % len(ps)]
            if h:
                items = world[h]
            pre = 'p-' if doc[0] == 'prefix' else '5' if doc[0] in ('integer', 'float') else ''
            done = ''
            if sep and step['after'] and len(items) > 2:
                x = items[step['pick'] % len(items)]
                if doc[0] != 'key_value_list' or [k[2] for k in doc[3] if k[0] == x[0]] == [None]:
                    done = x[0] + sep
                    items = [y for y in items if y is not x]
            typed = ''
            if step['typed'] and what not in ('opts',) and items:
                typed = items[step['pick'] % len(items)][0][:step['typed']]
            if kind == 'fish' and re.search(r' -\w$', line):
                typed = ''          # could be stacked flags
                if pre or done:
                    continue
            txt = line + pre + done + typed
            s.goto(txt, step['mode'])
            q = sh.query()
            s.text_now = q.get('line', s.text_now)
            out.ticks += 1
            out.counters['runs'] += 1
            want = {w: d for w, d in items if w.startswith(typed)}
            shown = read(kind, q, what, line, pre, done, want)
            order = [w for w, d, k in shown if w in want]
            got = {w: d for w, d, k in shown}
            out.event(i, txt, [list(x) for x in shown], q.get('err', '')[-200:].replace(sh.home, '~~'))
            out.counters['probe:%s-%s' % (what, doc[0])] += 1
            tag = '%s:%s:%s' % (kind, what, doc[0])
            out.states.add(core.h8(repr((tag, nosort, sorted(hist), bool(typed), bool(done), sorted({c for d in want.values() if d for c in d if not c.isalnum()})))))
            if kind != 'bash':
                alld = {d for d in want.values() if d}
                n = 0
                for w, d in want.items():
                    if w not in got:
                        continue
                    if d is None or d == '':
                        if got[w] in alld:
                            out.violation(tag + ':foreign', 'step %d, line %r: %r has no description, but is shown with %r' % (i, txt, w, got[w]))
                            return
                    elif got[w] != d:
                        out.violation(tag + ':text', 'step %d, line %r: %r should be shown with %r, but is shown with %r (err %r)' % (i, txt, w, d, got[w], q.get('err', '')[-200:]))
                        return
                    else:
                        n += 1
                if n > 1:
                    out.nontrivial = True
            if what not in ('opts', 'subs'):
                extra = [w for w, d, k in shown if w and w not in want and w.startswith(typed)]
                if kind == 'fish' and re.search(r' -\w$', line):
                    extra = []          # flags that may be stacked behind the option, and Fish's own fallbacks
                if extra and not done:
                    out.violation(tag + ':extra', 'step %d, line %r: offered %r, expected only %r' % (i, txt, extra, sorted(want)))
                    return
            missing = [w for w in want if kind == 'zsh' or doc[0] not in ('integer', 'float') if w not in got and not (sep and w == typed)]
            if missing:
                out.violation(tag + ':missing', 'step %d, line %r: %r missing, offered %r; raw %r err %r' % (i, txt, missing, shown, q['cands'], q.get('err', '')[-200:]))
                return
            if kind != 'bash' and q.get('err', '').strip() and not any(v == [] for v in world.values()):
                out.violation(tag + ':stderr', 'step %d, line %r: the shell complains: %s' % (i, txt, q['err'][-300:]))
                return
            judged = what in ('optarg', 'pos') and not (kind == 'fish' and re.search(r' -\w$', line)) and (kind != 'zsh' or doc[0] in ('choices', 'exec', 'exec_fast', 'prefix', 'list') and len({bool(d) for d in want.values()}) == 1)
            if nosort and len(want) > 1 and judged:
                keep = ' nosort' in q.get('opts', '') if kind == 'bash' else all(k != 'sorted' for w, d, k in shown if w in want) if kind == 'zsh' else True
                if not keep or order != list(want):
                    out.violation(tag + ':order', 'step %d, line %r: with nosort, %r expected in this order, got %r (%s)' % (i, txt, list(want), order, [k for w, d, k in shown] if kind == 'zsh' else q.get('opts')))
                    return
                out.nontrivial = True
        out.note = 'shell %s, %d completions' % (kind, len(case['steps']))
    except shells.Hang as e:
        out.violation(kind + ':hang', 'the completion did not return: %s' % e)
    except shells.Dead as e:
        out.violation(kind + ':dead', str(e))
    finally:
        session.pool(ctx).reset()


def read(kind, q, what, line, pre, done, want):
    '''[(suggestion, its description, order)] without what is typed already.'''
    r = []
    word = line.rsplit(' ', 1)[-1]
    if kind == 'bash':
        src = [['', c, ''] for c in q['cands']]
    else:
        src = q.get('shown') or []
    for k, w, d in src:
        if kind == 'zsh':
            m = re.match(r'^(.*?) *-- (.*)\Z', d, re.S)
            d = m.group(2) if m else ''
        w = w.replace('\\', '') if kind != 'fish' else w
        w = w.rstrip(' ')
        if what != 'opts' and word and w.startswith(word):
            w = w[len(word):]
        elif what == 'optarg' and word and '=' in word and w.startswith(word.split('=', 1)[1]):
            w = w[len(word.split('=', 1)[1]):]
        for p in (pre, done):
            if p and w.startswith(p):
                w = w[len(p):]
        if w not in want:
            w = re.sub(r'[=,]$', '', w)
        r.append((w, d, k))
    return r


def shrink(case):
    yield from core.shrink_key(case, 'steps')
    for k in range(len(case['steps'])):
        if case['steps'][k]['ev']:
            c = copy.deepcopy(case)
            c['steps'][k]['ev'] = []
            yield c
    if case.get('other') and not any(s['prog'] == 'vq' for s in case['steps']):
        c = copy.deepcopy(case)
        del c['other']
        yield c
