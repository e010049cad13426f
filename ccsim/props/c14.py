'''C14: a failing helper costs only its own suggestions.'''
import copy, re
from .. import core, sess, session, shells

ID = 'C14'
LEVEL = 'exploration'
TECHNIQUE = 'deterministic simulation with fault injection: seeded histories of completions in a real interactive shell while the simulator makes helper programs fail, stall, disappear, truncate or flood their output; every answer is compared with a reference model that knows what each helper delivered'
RUNS = {'quick': 1400, 'thorough': 20000}
RULE = 'a case counts as nontrivial if at least one completion ran while a helper used at the cursor was broken and had a definite prediction'
STATES = 'distinct (shell, completer kinds at the cursor, fault kinds of its helpers, form of the argument, separators typed) tuples'
COMPONENTS = session.COMPONENTS
ASSUMPTIONS = ['what a helper writes to standard error and the report of the shell that it cannot run a helper are not errors of the script', 'a helper with malformed lines may or may not give suggestions itself',
               'a last line without newline may or may not be used']
K = {'exec': 4, 'exec_fast': 2, 'list': 4, 'kvle': 3, 'kvpe': 2, 'combine': 4, 'choices': 1, 'prefix': 2}
B = {'kinds': K, 'p_arg': 0.7, 'p_optarg': 0.25, 'opts': (2, 5), 'p_hidden': 0.02, 'p_final': 0.02, 'p_group': 0.05, 'p_when': 0.05}
PROFILES = [B, dict(B, pos=(1, 3)), dict(B, subs=0), dict(B, p_old=1.0), dict(B, p_cfg=0.8), dict(B, seps=True), dict(B, p_nest=0.4), dict(B, p_special=0.5), dict(B, p_desc=1.0)]
FAULTS = ['missing', 'missing', 'noexec', 'badinterp', 'isdir', 'exit1', 'killed', 'segv', 'empty', 'blank', 'partial', 'partial', 'late', 'noise', 'noisefail', 'garbage', 'garbage', 'garbage', 'flood', 'stall', 'stall', 'stallfail', 'dup', 'crlf', 'flap']
FULL = ('late', 'noise', 'stall', 'dup', 'flood')


def with_exec(rng, g, c):
    '''Use helpers below the other completers as well.'''
    if c['k'] == 'prefix' and 'v' in c['c'] and rng.random() < 0.7:
        v = c['c']['v']
        h = 'hlp_p%d' % len(g)
        g[h] = {'v': v, 'desc': False, 'keys': None}
        c['c'] = {'k': 'exec', 'h': h}
    elif c['k'] == 'combine':
        if all(x['k'] != 'exec' for x in c['c']) and 'v' in c['c'][0] and rng.random() < 0.8:
            x = c['c'][0]
            h = 'hlp_c%d' % len(g)
            g[h] = {'v': x['v'], 'desc': False, 'keys': None}
            c['c'][0] = {'k': 'exec', 'h': h}
        rng.shuffle(c['c'])


def gen(rng, tier, i):
    shell = session.SHELLS[i % 3]
    for _ in range(20):
        d = sess.gen_def(rng, sess.profile(**rng.choice(PROFILES)))
        for n in session.nodes(d['root']):
            for e in n['opts'] + n['pos']:
                if e.get('c'):
                    with_exec(rng, d['helpers'], e['c'])
        if d['helpers']:
            break
    lg = sess.LineGen(rng, d, shell, {'maxwords': rng.choice([2, 4, 6]), 'p_misuse': 0.02})
    steps = []
    for s in session.gen_lines(rng, lg, rng.randint(5, 12), ['arg', 'arg', 'pos']):
        hs = helpers_at(sess.Model(d, shell).place(s['w'], s['cur'], {}))
        if not hs and rng.random() < 0.7:
            continue
        s['f'] = {}
        for h in hs:
            if rng.random() < 0.85:
                s['f'][h] = [rng.choice(FAULTS), rng.randint(0, 3), rng.randint(0, 5)]
        rest = [h for h in sorted(d['helpers']) if h not in hs]
        if rest and rng.random() < 0.3:
            s['f'][rng.choice(rest)] = [rng.choice(FAULTS), 1, 1]
        s['again'] = rng.random() < 0.6
        if rng.random() < 0.15:
            s['use'] = rng.choice(['true', 'false'])
        if rng.random() < 0.1:
            s['times'] = 3
        steps.append(s)
    session.gen_noise(rng, steps, {'helpers': {}}, 0.1)
    return {'shell': shell, 'def': d, 'steps': steps, 'other': session.other_def()}


def comps(c):
    return sess.parts_of(c)


def helpers_at(pl):
    c = pl.get('comp')
    return sorted({x['h'] for x in comps(c) if 'h' in x}) if c and not pl['odd'] else []


GARBAGE = [
    "printf '\\n\\t\\n\\t\\t\\t\\n \\n'",
    "printf '=\\n=?\\n*\\n*=\\n'",
    "printf '\\tonly a description\\n'",
    "printf 'g\\377\\376x\\twhat\\342\\202\\n\\303\\n'",
    "printf 'a\\000b\\tx\\000y\\n\\000\\n'",
    "printf '%s\\n' '[' ']' '*' '?' '-' '--' '-x' ':' ',' '\\' '\\\\' '[[:' '(' ')' '{' '}' '~' '#' '%' '%s' '%n' '-n' '-e' '=x' ':x'",
    "printf '\\033[1mbold\\033[0m\\t\\033[31m\\a\\b\\n\\r\\n'",
    "printf '%s\\t%s\\t%s\\n' 'k]ey' 'de[sc' 'x y (' 'k:ey' 'de:sc' ') *' '@' '@' '@' '!x' '!' '!'",
    "printf '%s\\n' 'with space' 'tick'\"'\"'s' 'quo\"te' 'dol$lar' 'se;mi'",
    "printf 'x y\\tz\\tw\\tv\\tu\\tt\\n'",
    "printf '%4096s\\n' x",
]


def broken(h, f, shell):
    '''(text, world entry, what is certain): what a helper does under a fault and what it still delivers.'''
    kind, a, b = f
    good = sess.helper_text(h)
    keys = h.get('keys') is not None
    none = {'v': [], 'keys': []}
    if kind == 'missing':
        return None, none, True
    if kind in ('noexec', 'isdir'):
        return kind, none, True
    if kind == 'badinterp':
        return '#!/nonexistent/interpreter\n', none, True
    if kind == 'exit1':
        return '#!/bin/sh\nexit %d\n' % (1 + a), none, True
    if kind == 'killed':
        return '#!/bin/sh\nkill -%s $$\n' % ['KILL', 'TERM', 'PIPE', 'HUP'][a], none, True
    if kind == 'segv':
        return '#!/bin/sh\nkill -SEGV $$\n', none, True
    if kind == 'empty':
        return '#!/bin/sh\n', none, True
    if kind == 'blank':
        return "#!/bin/sh\nprintf '%s'\n" % ['\\n', '\\n\\n', ' \\n', '\\t\\n'][a], none, False
    if kind == 'partial':
        end = ['exit 1', 'kill -KILL $$', 'exit 0', 'kill -PIPE $$'][a]
        if keys:
            n = b % len(h['keys'])
            cut = copy.deepcopy(h)
            cut['keys'] = h['keys'][:n]
            for k in cut['keys']:
                k['excl'] = [x for x in k['excl']]
            t = sess.helper_text(cut).split('else case')[0] + 'fi\n' if n else '#!/bin/sh\n'
            world = {'v': [], 'keys': [dict(k, arg=[] if k['arg'] is not None else None) for k in cut['keys']]}
            last = h['keys'][n]['key']
        else:
            n = b % len(h['v'])
            t = sess.helper_text(dict(h, v=h['v'][:n])) if n else '#!/bin/sh\n'
            world = {'v': h['v'][:n], 'keys': None}
            last = h['v'][n]
        last = last[:1 + (a + b) % len(last)]
        t += "[ $# -eq 0 ] && printf '%%s' %s\n%s\n" % (sess.sq(last), end)
        return t, dict(world, maybe=[last]), True
    if kind == 'late':
        return good + ['exit 3', 'kill -KILL $$', 'exit 127', 'kill -TERM $$'][a] + '\n', None, True
    if kind in ('noise', 'noisefail'):
        n = ["echo 'hlp: warning: cannot open database' >&2", "printf 'no newline' >&2", "echo 'line 3: syntax error' >&2", "yes warn | head -n 200 >&2"][a]
        if kind == 'noisefail':
            return '#!/bin/sh\n' + n + '\nexit 1\n', none, True
        return good.replace('#!/bin/sh\n', '#!/bin/sh\n' + n + '\n'), None, True
    if kind == 'garbage':
        g = GARBAGE[(a * 6 + b) % len(GARBAGE)]
        if keys:
            return '#!/bin/sh\n' + g + '\nexit %d\n' % (b % 2), none, False
        return good.replace('#!/bin/sh\n', '#!/bin/sh\n' + g + '\n') + g + '\n', none, False
    if kind == 'crlf':
        return good.replace('#!/bin/sh\n', '#!/bin/sh\n{\n') + "} | sed 's/$/\\r/'\n", none, False
    if kind == 'flood':
        if shell == 'zsh' and b % 4 in (1, 2):
            b = 3                # _describe of zsh 5.9 crashes the shell on a suggestion of 10000 characters
        if keys:
            return good, None, True
        n = [300, 1500, 3000, 100][a]
        more = "i=0; while [ $i -lt %d ]; do echo zzflood$i; i=$((i+1)); done\nprintf '%%0%dd\\n' 0\n" % (n, [10, 20000, 100000, 5000][b % 4])
        return good + more, {'flood': True}, True
    if kind == 'dup':
        if keys:
            return good, None, True
        return good + ''.join(good.splitlines(True)[1:]), None, True
    if kind == 'flap':
        # works every other time only
        return '#!/bin/sh\nif [ -e "$VIO/flap" ]; then rm -f "$VIO/flap"; exit 1; fi; : >"$VIO/flap"\n' + good, none, False
    if kind == 'stall':
        return stall(good), None, True
    if kind == 'stallfail':
        return stall('#!/bin/sh\nexit 1\n'), none, True
    raise core.HarnessError(kind)


def stall(text):
    return "#!/bin/sh\nread x <\"$VIO/gate\"\n" + text


OWN = re.compile(r'bad array subscript|syntax error|unexpected |bad substitution|not a valid identifier|bad math|divi[sd]|bad pattern|parse error|unmatched|bad output format|invalid |not an identifier|no match|argument list|'
                 r'too many|missing |read-only|unbound|bad floating|expected|math:|string (?:match|sub|replace|split)|test:|set:|contains:|compadd:|_describe|_values|_arguments|comparguments|compvalues|compset|out of range|'
                 r'ignored null byte|No matches|usage|bad option|unknown option|readonly|event not found|recursion|core dumped', re.I)
ALLOWED = ("hlp: warning: cannot open database", 'no newline', 'line 3: syntax error', 'warn')


def own_errors(err, helpers):
    '''Lines on standard error that are neither the helper's nor a report that it cannot run.'''
    r = []
    for l in err.splitlines():
        x = l
        for a in ALLOWED:
            x = x.replace(a, '')
        if any(h in x for h in helpers) and re.search(r'not found|Unknown command|ermission denied|cannot execute|bad interpreter|No such file|is a directory|Is a directory|Killed|Terminated|Hangup|exec format|Segmentation|Broken pipe|not be executed|could not|interpreter|directory', x, re.I):
            continue
        if OWN.search(x):
            r.append(l)
    return r


def set_helper(sh, name, text):
    import os, shutil
    p = os.path.join(sh.bin, name)
    if os.path.isdir(p):
        os.rmdir(p)
    if text == 'noexec':
        sh.helper(name, '#!/bin/sh\necho x\n')
        os.chmod(p, 0o644)
    elif text == 'isdir':
        sh.helper(name, None)
        os.mkdir(p)
    else:
        sh.helper(name, text)


def run(ctx, case, out):
    kind, d = case['shell'], case['def']
    try:
        s = session.Session(ctx, case, out)
    except sess.GenFail as e:
        out.violation('generation', 'no script for a valid definition: %s' % e)
        return
    sh = s.sh
    fault = ''
    try:
        if s.loaderr:
            out.violation(kind + ':load', 'the shell reports an error when the script is loaded: %s' % s.loaderr[-500:])
            return
        for i, step in enumerate(case['steps']):
            for ev in step.get('pre', []):
                s.noise(ev)
            text = s.line_of(step)
            pl = s.m.place(step['w'], step['cur'], {})
            if step.get('after') or kind == 'fish' and step['w'] and session.fish_stack(s.m, pl['st'].path, step['w'][-1]):
                pl['odd'] = 'not predicted'
            here = helpers_at(pl)
            world, sure, stalled = {}, True, False
            maybe = set()
            for h, f in sorted(step.get('f', {}).items()):
                if h not in d['helpers']:
                    continue
                t, w, certain = broken(d['helpers'][h], f, kind)
                set_helper(sh, h, t)
                if h in here:
                    out.counters['fault:' + f[0]] += 1
                    sure = sure and certain
                    if w is not None and 'flood' not in w:
                        world[h] = w
                    for m in (w or {}).get('maybe', ()):
                        maybe.add(m)
                if f[0].startswith('stall'):
                    stalled = True
            s.goto(text, step.get('mode', 'fresh'))
            fault = '+'.join(sorted({step['f'][h][0] for h in here if h in step.get('f', {})})) or 'none'
            for t in range(step.get('times', 1)):
                s.goto(text, 'edit')
                q = sh.query(stalled=stalled)
                s.text_now = q.get('line', s.text_now)
            out.ticks += 1
            out.counters['runs'] += 1
            out.event(i, text, fault, sorted(q['cands'])[:50])
            if not check(s, out, step, i, text, q, world, sure, maybe, fault, here):
                return
            line, point = sh.line()
            if line != text and not (kind == 'bash' and line.startswith(text)):
                out.violation('%s:line' % kind, 'step %d, line %r with helper %s: the command line became %r' % (i, text, fault, line[:200]))
                return
            s.text_now = line
            for h in step.get('f', {}):
                if h in d['helpers']:
                    set_helper(sh, h, sess.helper_text(d['helpers'][h]))
            if step.get('use'):
                sh.run(step['use'])
                s.text_now = ''
            if step.get('again'):
                s.goto(text, 'edit')
                q = sh.query()
                s.text_now = q.get('line', s.text_now)
                out.counters['recovered'] += 1
                out.event(i, 'again', sorted(q['cands']))
                if not check(s, out, step, i, text, q, {}, True, set(), fault, here, ' after the helper was repaired'):
                    return
        s.dirty()
        sh.run('true')
        out.note = 'shell %s, %d completions, last fault %s' % (kind, len(case['steps']), fault)
    except shells.Hang as e:
        out.violation(kind + ':hang:' + fault, 'the completion did not return (helper: %s): %s' % (fault, e))
    except shells.Dead as e:
        out.violation(kind + ':dead', str(e))
    finally:
        session.pool(ctx).reset()


def flooded(g):
    return 'zzflood' in g or '0000000000' in g


def check(s, out, step, i, text, q, world, sure, maybe, fault, here, when=''):
    kind = s.kind
    pl = s.m.place(step['w'], step['cur'], world)
    errs = own_errors(q['err'], s.d['helpers'])
    if any('doubled argument definition' in e for e in errs) and any(len({p['number'] for p in n['pos']}) < len(n['pos']) for n in session.nodes(s.d['root'])):
        out.counters['unspecified'] += 1       # the definition has two positionals for the same place, both of them with a true condition
        return True
    if errs:
        out.violation('%s:stderr:%s' % (kind, fault), 'step %d, line %r with helper %s%s: the completion script reports %r' % (i, text, fault, when, errs[:3]))
        return False
    if pl['odd'] or step.get('after') or kind == 'fish' and step['w'] and session.fish_stack(s.m, pl['st'].path, step['w'][-1]):
        out.counters['unspecified'] += 1
        return True
    got = sess.norm(kind, [c for c in q['cands'] if not flooded(c)], pl, step['cur'])
    if pl['cands'] is None:
        # not predicted in whole; what comes from the working helpers still is
        out.counters['unspecified'] += 1
        return True
    if here:
        out.nontrivial = True
        c = pl['comp']
        out.states.add(core.h8(repr((kind, [x['k'] for x in comps(c)], sorted((f[0], f[1]) for h, f in step.get('f', {}).items() if h in here), pl.get('form'), bool(pl['val']), bool(when), step.get('mode')))))
        out.counters['probe:%s-%s' % (c['k'], fault)] += 1
    exp = pl['cands']
    if sure:
        ok = sess.agree(kind, got, pl)
        if not ok and maybe:
            pre = pl['val']
            extra = got - exp
            ok = not (exp - got) and all(any(x.endswith(m) or x.rstrip('=,:/+').endswith(m) for m in maybe) for x in extra)
    else:
        ok = {sess.trimmed(x, pl['comp'], pl['val']) for x in exp} <= {sess.trimmed(x, pl['comp'], pl['val']) for x in got} if pl.get('comp') else exp <= got
    if not ok:
        missing, extra = sorted(exp - got), sorted(got - exp)
        if session.known({'shell': kind, 'def': s.d}, pl, missing, extra):
            out.counters['unspecified'] += 1       # a recorded finding of C12, whatever the helper does
            return True
        sig = '%s:%s:%s:%s%s' % (kind, 'again' if when else fault, pl['comp']['k'] if pl.get('comp') else pl['kind'], 'missing' if missing else '', 'extra' if extra and sure else '')
        out.violation(sig, 'step %d, line %r with helper %s%s: expected %s, got %s (missing %s, extra %s; raw %s; stderr %r)' % (
            i, text, fault, when, sorted(exp), sorted(got)[:30], missing, extra[:20], sorted(q['cands'])[:12], q['err'][:200]))
        return False
    return True


def shrink(case):
    yield from session.shrink(case)
    for i, s in enumerate(case['steps']):
        for h in sorted(s.get('f', {})):
            c = copy.deepcopy(case)
            del c['steps'][i]['f'][h]
            yield c
        for k in ('again', 'use', 'times'):
            if s.get(k):
                c = copy.deepcopy(case)
                del c['steps'][i][k]
                yield c
