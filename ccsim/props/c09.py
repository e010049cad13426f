'''C09: text from the command line, files and helpers is never executed.'''
import os, re
from .. import core, sess, session, shells
from . import c07

ID = 'C09'
LEVEL = 'exploration'
TECHNIQUE = 'deterministic simulation with fault injection: seeded session histories in a real interactive shell in a hostile world (words on the line, file names, helper and system program output, history file), with a canary program that any execution of that text would run'
RUNS = {'quick': 2100, 'thorough': 24000}
RULE = 'a case counts as nontrivial if at least two completions of the program ran with hostile text on the line, or gave a suggestion with hostile text from the world'
STATES = 'distinct (shell, completer at the cursor, source of the hostile text, payload class, quoting, last event) tuples'
COMPONENTS = {'real': session.REAL, 'stub': session.STUB + ['system programs the completers call (getent, locale, aplay, findmnt, ip, file, ps, timedatectl, systemctl): scripts with hostile output']}
ASSUMPTIONS = ['only the text of the definition itself may contain code', 'hostile lines are completed, never accepted', 'completion of file names by the shell itself may expand variables the user typed',
               'parts that belong to bash-completion and to the completion system of the shells (completion of a whole other command) are left out']

CORE = ['$(pwn)', '`pwn`', '$(pwn 1)', ';pwn;', '|pwn|', '&pwn&', '<(pwn)', '>(pwn)', '(pwn)', '$((pwn))', 'a[$(pwn)]', '${x:-$(pwn)}', '$[$(pwn)]', '{pwn}', '=(pwn)', '*(e:pwn:)', '\npwn\n', '||pwn', '&&pwn',
        '${(e):-$(pwn)}', '%$(pwn)', '~$(pwn)', '$(\npwn\n)', '{ pwn; }', '; and pwn', '`pwn', '$(pwn', '$pwn', '#`pwn`', '"$(pwn)"', '[$(pwn)]=', '*$(pwn)*', '${a[$(pwn)]}', '(pwn)/', '-$(pwn)', '%s`pwn`', '\\$(pwn)', '\\`pwn\\`', '\\;pwn\\;', '(e)$(pwn)', '->pwn', '{pwn}:x:{pwn}']
WRAP = ["'%s'", '"%s"', "x'%s", 'x"%s', "'%s", '"%s', 'x%s', '%sx', 'x %s y', "';%s;'", '";%s;"', ']:%s', ':%s', ':::%s', ')%s', '}%s', "'\"%s\"'", "$'%s'", '=%s', '%s=', '%s:%s', '\\%s', "\\'%s\\'", '%s/', '-%s', '--%s', '@%s', '!%s']
LONE = ['\\', '"', "'", '$', '`', '$(', '${', '(', ')', '[', ']', '*', '?', '!', '{', '}', ';', '&', '|', '<', '>', '#', '~', '%', '=', ':', ',', '\n', '\t', '$ZQV', '${ZQV}', 'zq*', '~root', 'a b', '\\n', '-', '--', '$#', '$$', '$?', '$@']
EXPANDED = 'zqexpandedzq'
GLOB = 'zqglobhit'

K = {'choices': 2, 'exec': 4, 'exec_fast': 2, 'list': 4, 'kvl': 2, 'kvle': 4, 'kvp': 2, 'kvpe': 4, 'combine': 3, 'prefix': 3, 'range': 1, 'none': 1, 'misc': 6, 'ext': 5}
EXTDOCS = [['locale'], ['charset'], ['alsa_card'], ['alsa_device'], ['mountpoint'], ['user'], ['group'], ['uid'], ['gid'], ['net_interface'], ['filesystem_type'], ['timezone'], ['process'], ['pid'], ['service'], ['hostname'], ['mime_file', '.*'],
           ['mime_file', 'text/.*'], ['history', '.*'], ['history', '[a-z]+[^ ]*'], ['variable'], ['environment'], ['command'], ['commandline_string'], ['login_shell'], ['date', '%Y-%m-%d'], ['date_format'], ['ip_address'],
           ['prefix', 'pp:', ['file']], ['prefix', 'pp=', ['locale']], ['list', ['locale']], ['list', ['mountpoint'], {'separator': ':'}], ['combine', [['locale'], ['file']]], ['combine', [['user'], ['history', '.*']]],
           ['key_value_pair', '=', [['kf', 'f', ['file']], ['kl', 'l', ['locale']], ['ke', 'e', ['exec', 'hlp_x']]]], ['key_value_list', ',', '=', [['kf', 'f', ['file']], ['km', 'm', ['mountpoint']], ['ke', 'e', ['exec', 'hlp_x']]]],
           ['prefix', 'pp@', ['exec', 'hlp_x']], ['list', ['exec', 'hlp_x'], {'separator': ':'}], ['file'], ['directory'], ['file_list'], ['file', {'extensions': ['txt']}], ['file', {'ignore_globs': ['*.md']}], ['directory_list'],
           ['file', {'directory': '/etc'}], ['list', ['file']], ['combine', [['file'], ['exec', 'hlp_x']]], ['integer', {'suffixes': {'K': 'kilo'}}], ['signal'], ['list', ['list', ['exec', 'hlp_x'], {'separator': '+'}]]]
B = {'kinds': K, 'p_capture': 0.3, 'seps': 1, 'p_special': 0.2, 'p_arg': 0.75, 'p_optarg': 0.2}
PROFILES = [B, dict(B, p_nest=0.5), dict(B, p_when=0.6), dict(B, p_cfg=1.0), dict(B, subs=0.8), dict(B, pos=(1, 3), opts=(1, 3)), dict(B, p_old=0.5), dict(B, p_optarg=0.5), dict(B, p_capture=0.7, p_repeat=0.5)]
CANARY = '#!/bin/sh\nprintf \'%s\\n\' "pwn $*" >>"$VIO/pwned"\n'

# what the system programs print; @ is hostile text
EXT = {
    'locale': "printf '%s\\n' C.UTF-8 @ @ POSIX",
    'aplay': "printf 'card %s: %s [x], device 0: y [z]\\n' 0 @ 1 @",
    'findmnt': "printf '%s\\n' / @ @",
    'getent': "printf '%s:x:%s:0:%s:%s:/bin/sh\\n' root 0 r /root @ 1 @ @ u2 @ x y; printf '10.0.0.1 %s\\n' @",
    'ip': "printf '%s: %s: <UP> mtu 1500\\n' 1 lo 2 @ 3 @",
    'timedatectl': "printf '%s\\n' Europe/Paris @ @",
    'systemctl': "printf '%s loaded active running %s\\n' a.service x @.service @; printf '%s enabled\\n' @.service",
    'ps': "printf '%s\\n' ' 12 sh' @ '13 '@ @",
    'file': '''case "$*" in
"-i /dev/null") ;;
*) printf '%s: text/plain; charset=x\\n' alpha.txt @ @; printf '%s: inode/directory; x\\n' @ ;;
esac''',
}


def payload(rng, nonl=False):
    '''Hostile text; nothing that the history expansion of an interactive shell takes for its own.'''
    while True:
        t = rng.random()
        if t < 0.5:
            p = rng.choice(CORE)
        elif t < 0.85:
            p = rng.choice(WRAP).replace('%s', rng.choice(CORE))
        elif t < 0.93:
            p = rng.choice(LONE)
        else:
            p = rng.choice(LONE) + rng.choice(CORE) + rng.choice(LONE)
        p = p.replace('!', '')
        if not p or nonl and re.search(r'[\n\t\0]', p):
            continue
        return p


def filename(rng):
    while True:
        p = payload(rng).replace('/', '').replace('\0', '')
        if p not in ('', '.', '..') and len(p) < 100:
            return p


def helper_payload(rng):
    '''A line of a helper.'''
    p = payload(rng, nonl=True)
    if rng.random() < 0.3:
        p = rng.choice(['hv', 'a', '--', 'x ']) + p
    return p


def hostile_helper(rng, h):
    if h.get('keys') is not None:
        L = []
        for k in h['keys']:
            if rng.random() < 0.5:
                k = dict(k, key=helper_payload(rng))
            L.append('%s%s%s\t%s\t%s' % ('*' if k['rep'] else '', k['key'], '=' if k['arg'] is not None else '', helper_payload(rng) if rng.random() < 0.5 else 'key', helper_payload(rng) if rng.random() < 0.3 else ' '.join(k['excl'])))
        vals = [helper_payload(rng) + rng.choice(['', '\t' + helper_payload(rng)]) for _ in range(3)] + ['v1\tabout']
        t = '#!/bin/sh\nif [ $# -eq 0 ]; then\nprintf \'%%s\\n\' %s\nelse\nprintf \'%%s\\n\' %s\nfi\n' % (' '.join(map(sess.sq, L)), ' '.join(map(sess.sq, vals)))
        return t, L + vals
    vals = [v if rng.random() < 0.4 else rng.choice(['', v]) + helper_payload(rng) for v in (h.get('v') or ['a'])]
    L = [v + ('\t' + helper_payload(rng) if rng.random() < 0.4 else '') for v in vals]
    return '#!/bin/sh\nprintf \'%%s\\n\' %s%s\n' % (' '.join(map(sess.sq, L)), rng.choice(['', '', '', '; exit 1', '; kill -9 $$'])), L


def raw_payload(rng, shell):
    '''Text typed as it is; nothing in it may be run by completing.'''
    t = rng.random()
    p = payload(rng, nonl=True)
    if t < 0.4:
        return p
    if t < 0.6:
        return '"' + p.replace('"', '')
    if t < 0.75:
        return "'" + p.replace("'", '')
    if t < 0.9:
        return '"' + p.replace('"', '') + '"' + rng.choice(['', 'x', ','])
    return rng.choice(['x', 'a=', 'kf=', 'kl=', 'pp:', 'pp=', '~', '$HOME', './']) + p


def line(rng, shell, d, s):
    '''The words of a step with hostile text in some of them.  Returns the text and how it was done.'''
    w, q, cur = list(s['w']), list(s['q']), s['cur']
    how = []
    for _ in range(rng.choice([0, 1, 1, 2])):
        p = payload(rng, nonl=shell != 'fish' or True)
        st = rng.choice([0, 1, 2, 3])
        t = rng.random()
        if w and t < 0.75:
            i = rng.randrange(len(w))
            x = w[i]
            m = re.match(r'(--?[A-Za-z0-9][-\w]*=)(.*)', x, re.S)
            if m:
                w[i] = m.group(1) + rng.choice([p, m.group(2) + p, m.group(2) + ',' + p])
            elif x.startswith('-') and rng.random() < 0.6:
                w[i] = x + rng.choice(['=', '']) + p
            else:
                w[i] = rng.choice([p, x + p, p + x, x + '=' + p, x + ',' + p])
            q[i] = st
            how.append('edit')
        else:
            i = rng.randint(0, len(w))
            w.insert(i, p)
            q.insert(i, st)
            how.append('insert')
    text = None
    if rng.random() < 0.12:
        # typed without any quoting
        i = rng.randint(0, len(w))
        text = sess.render(shell, d['prog'], w[:i], q[:i]) + raw_payload(rng, shell) + ' ' + sess.render(shell, '', w[i:], q[i:])[1:]
        how.append('raw')
    else:
        text = sess.render(shell, d['prog'], w, q)
    t = rng.random()
    if t < 0.8:
        p = payload(rng, nonl=True)
        head = rng.choice([cur, cur, cur + ',', cur + '=', '']) if cur else rng.choice(['', '', '', 'pp:', 'pp=', 'pp@', 'kf=', 'ke=', 'kl=', 'a,', 'a=', './', '~', 'x='])
        if t < 0.25:
            p = sess.quote(shell, p, 3)
        elif t < 0.4:
            p = raw_payload(rng, shell)
            how.append('raw-cur')
        elif t < 0.6:
            p = '"' + re.sub('["`$\\\\]', lambda m: '\\' + m[0], p) if shell != 'fish' else '"' + re.sub('["$\\\\]', lambda m: '\\' + m[0], p)
        else:
            p = "'" + p.replace("'", '')
        m = re.match(r'^[\w@%+=:,./~-]*$', head)
        cur = (head if m else '') + p
        how.append('cur')
    return text + cur, how


def gen(rng, tier, i):
    shell = session.SHELLS[i % 3]
    prof = sess.profile(**rng.choice(PROFILES))
    d = sess.gen_def(rng, dict(prof, kinds={k: v for k, v in prof['kinds'].items() if k != 'ext'}))
    for n in session.nodes(d['root']):
        for e in n['opts'] + n['pos']:
            if e.get('c') and rng.random() < 0.3:
                e['c'] = {'k': 'raw', 'doc': rng.choice(EXTDOCS)}
            elif e.get('c') and e['c']['k'] == 'choices' and rng.random() < 0.3:
                e['c'] = {'k': 'choices', 'v': [helper_payload(rng) for _ in range(3)] + e['c']['v'][:1], 'desc': False}
    for n in session.nodes(d['root']):
        ps = sorted(n['pos'], key=lambda e: e['number'])
        if len(ps) > 1 and ps[-1].get('repeatable') and ps[-2]['number'] + 1 == ps[-1]['number'] and not ps[-2].get('repeatable') and len({e['number'] for e in ps}) == len(ps) and rng.random() < 0.4:
            ps[-2]['c'] = {'k': 'raw', 'doc': ['command']}
            ps[-1]['c'] = {'k': 'raw', 'doc': ['command_arg']}
    d['helpers']['hlp_x'] = {'v': ['x1', 'x2', 'x3', 'x4'], 'desc': False, 'keys': None}
    world = {}
    lines = []
    for h, x in sorted(d['helpers'].items()):
        if rng.random() < 0.75:
            world[h], l = hostile_helper(rng, x)
            lines += l
    exts = {}
    for e in sorted(EXT):
        if rng.random() < 0.6:
            exts[e] = '#!/bin/sh\n' + re.sub('@', lambda m: sess.sq(helper_payload(rng).replace('@', '')), EXT[e]) + '\n'
    files = {'alpha.txt': '', 'dir1': None, 'dir1/inner.txt': '', GLOB: ''}
    dirs = ['dir1']
    for _ in range(rng.randint(1, 5)):
        f = filename(rng)
        t = rng.random()
        if f in files:
            continue
        if t < 0.6:
            files[f] = ''
        elif t < 0.8:
            files['dir1/' + f] = ''
        else:
            files[f] = None
            files[f + '/in' + filename(rng)] = ''
            dirs.append(f)
    hist = [helper_payload(rng) for _ in range(4)]
    mine = []
    lg = sess.LineGen(rng, d, shell, {'maxwords': rng.choice([2, 4, 7])})
    hl = sorted((h, l) for h, ls in session.helper_lines(d).items() for l in ls)
    steps = []
    for s in session.gen_lines(rng, lg, rng.randint(4, 9), ['opt', 'arg', 'arg', 'arg', 'arg', 'pos', 'pos']):
        text, how = line(rng, shell, d, s)
        if '\n' in text or '\r' in text or '\t' in text:
            continue
        if live(how) and shell == 'fish' and re.search(r'"command(_arg)?"', core.json.dumps(d)):
            continue              # complete -C of fish runs substitutions in the name of a command
        pre = []
        while rng.random() < 0.25:
            ev = rng.choice(['cd', 'intr', 'helper', 'fault', 'line', 'line', 'cancel', 'accept'])
            if ev == 'cd':
                pre.append(['cdx', rng.choice(['.'] + dirs)])
            elif ev == 'intr' and hl:
                pre.append(['intr', *rng.choice(hl)])
            elif ev == 'helper':
                h = rng.choice(sorted(d['helpers']))
                pre.append(['set-helper', h, hostile_helper(rng, d['helpers'][h])[0]])
            elif ev == 'fault':
                pre.append(['set-helper', rng.choice(sorted(d['helpers'])), session.FAULTY[rng.choice(sorted(session.FAULTY))]])
            elif ev == 'line' and steps:
                x = rng.choice(steps)
                pre.append(['line', x['raw'], 'q' if live(x['how']) else rng.choice(['q', 't', 'tt', 'qt'])])
            elif ev in ('cancel', 'accept'):
                pre.append([ev])
        steps.append({'raw': text, 'w': [], 'q': [], 'cur': '', 'mode': rng.choice(['fresh', 'edit']), 'pre': pre, 'how': how, 'tab': rng.random() < 0.35 and not live(how), 'pl': place(d, shell, s)})
    return {'shell': shell, 'def': d, 'steps': steps, 'world': world, 'exts': exts, 'files': files, 'hist': hist}


def live(how):
    '''Something the user typed as code; the completion key of a shell may expand that by itself.'''
    return 'raw' in how or 'raw-cur' in how


def place(d, shell, s):
    pl = sess.Model(d, shell).place(s['w'], s['cur'], {})
    c = pl.get('comp')
    return [pl['kind'], c and c['k'], c and c['k'] == 'raw' and str(c['doc'][0])]


def pclass(t):
    return ''.join(sorted(set(re.sub(r'[\w\s]', '', t))))[:12]


def cdx(s, d):
    '''Change the directory by a name that is quoted for the shell.'''
    s.sh.run('cd ~/' + ("''" if d == '.' else sess.quote(s.kind, d, 1)))
    s.cwd = d
    s.text_now = ''


PLAIN = {'bash': '_vpplain() { local cur prev words cword; _init_completion -n = || return; _filedir; }\ncomplete -F _vpplain vp', 'fish': "complete -c vp -a '(__fish_complete_command)'", 'zsh': '#compdef vp\n_files'}


def by_itself(ctx, case, env, how, text, cwd):
    '''Does the shell run the text without any script, where a plain file name is completed?'''
    plain = PLAIN[case['shell']]
    if case['shell'] == 'fish' and '"command' not in core.json.dumps(case['def']):
        plain = ''
    if case['shell'] == 'zsh' and '"commandline_string"' in core.json.dumps(case['def']):
        plain += "\ncompset -P 1 '-*='\n_cmdstring\n"       # a completer of Zsh
    sh = session.pool(ctx).open(case['shell'], [('vp', plain)], name='c', files=case['files'], helpers={'pwn': CANARY}, env=env)
    try:
        if cwd != '.':
            sh.run('cd ~/' + sess.quote(case['shell'], cwd, 1))
        texts = [text]
        if case['shell'] == 'bash' and re.search('"(file|directory|mime)', core.json.dumps(case['def'])):
            # the value alone: _filedir of bash-completion evaluates words that begin with a quote and a dollar sign
            texts += ['vp ' + text[k:] for k in range(len(text)) if text[k] == "'"]
        for t in texts:
            sh.clear()
            sh.type(t)
            for h in how:
                if h == 'q':
                    sh.query()
                elif h == 't':
                    sh.tab()
        return os.path.exists(os.path.join(sh.io, 'pwned'))
    except (shells.Hang, shells.Dead):
        return False
    finally:
        sh.close()
        session.pool(ctx).live.remove(sh)


def run(ctx, case, out):
    kind = case['shell']
    hs = sess.helpers(case['def'])
    hs.update(case['world'])
    hs.update(case['exts'])
    hs['pwn'] = CANARY
    env = {'ZQV': EXPANDED, 'ZQX': '$(pwn)'}
    files = dict(case['files'])
    urc = ''
    if kind != 'fish':
        urc = 'HISTFILE="$VIO/hist"; '
    try:
        s = session.Session(ctx, case, out, files=files, helpers=hs, env=env, user_rc=urc)
    except sess.GenFail as e:
        out.violation('generation', 'no script for a valid definition: %s' % e)
        return
    sh = s.sh
    sh.timeout = 8
    with open(os.path.join(sh.io, 'hist'), 'w') as fh:
        fh.write('\n'.join(case['hist']) + '\n')
    os.chmod(os.path.join(sh.io, 'hist'), 0o644)
    can = os.path.join(sh.io, 'pwned')

    def pwned():
        try:
            with open(can, 'rb') as fh:
                t = fh.read()
        except OSError:
            return None
        os.unlink(can)
        return t.decode('utf-8', 'replace')

    def hit(what, i, text, err='', how=None):
        t = pwned()
        if t is not None:
            if how and by_itself(ctx, case, env, how, text, s.cwd):
                out.counters['unspecified'] += 1
                return False
            out.violation('%s:executed:%s' % (kind, what), 'step %d, line %r: completing ran text that is data: the canary program was started (%r; stderr %r)' % (i, text, t[:80], err[-300:]))
            return True
    n = 0
    last = ''
    try:
        if s.loaderr:
            out.violation(kind + ':load', 'the shell reports an error when the script is loaded: %s' % s.loaderr[-500:])
            return
        if hit('load', -1, ''):
            return
        world = ' '.join(list(case['world'].values()) + list(case['exts'].values()) + list(case['files']) + case['hist'])
        for i, step in enumerate(case['steps']):
            for ev in step['pre']:
                if ev[0] == 'cdx':
                    out.event('noise', *ev)
                    cdx(s, ev[1])
                    out.counters['fault:cd'] += 1
                else:
                    s.noise(ev)
                last = ev[0]
                if hit('noise', i, ev[1] if ev[0] == 'line' else repr(ev), how=ev[2] if ev[0] == 'line' else None):
                    return
            s.goto(step['raw'], step['mode'])
            q = sh.query()
            s.text_now = q.get('line', s.text_now)
            out.ticks += 1
            out.counters['runs'] += 1
            text = step['raw']
            out.event(i, text, q['cands'][:20])
            if hit('query', i, text, q['err'], 'q'):
                return
            for c in q['cands']:
                if EXPANDED in c and step['pl'][2] not in ('file', 'directory', 'file_list', 'directory_list', 'environment', 'variable', 'commandline_string', 'command_arg', 'command', 'prefix', 'list', 'key_value_pair', 'key_value_list', 'combine', 'mime_file'):
                    out.violation(kind + ':expanded', 'step %d, line %r: a suggestion is the value of a variable named in data: %r (stderr %r)' % (i, text, c, q['err'][:200]))
                    return
            hostile = bool(step['how']) or any('pwn' in c for c in q['cands'])
            n += hostile and (q['called'] or kind != 'bash')
            out.states.add(core.h8(repr((kind, step['pl'], step['how'], pclass(text.split(' ', 1)[1])[:6], last, any('pwn' in c for c in q['cands'])))))
            for h in step['how']:
                out.counters['fault:word-' + h] += 1
            if any('pwn' in c for c in q['cands']):
                out.counters['probe:hostile-suggestion'] += 1
            if step['tab']:
                t = sh.tab()
                s.text_now = ''
                out.counters['probe:tab'] += 1
                if hit('tab', i, text, how='tt'):
                    return
                # once more: lists the suggestions
                sh.tab()
                if hit('tab', i, text, how='tt'):
                    return
                s.dirty()
            last = 'q'
        sh.run('true')
        if hit('later', len(case['steps']), ''):
            return
        out.counters['fault:hostile-helper'] += len(case['world'])
        out.counters['fault:hostile-system-program'] += len(case['exts'])
        out.counters['fault:hostile-file-name'] += len(case['files']) - 4
        out.nontrivial = n >= 2
        out.note = 'shell %s, last line %r' % (kind, case['steps'][-1]['raw'] if case['steps'] else '')
    except shells.Hang as e:
        # a line editor that waits for something else; not about execution
        if not hit('hang', -1, str(e)):
            out.counters['hang'] += 1
    except shells.Dead as e:
        if not hit('dead', -1, str(e)):
            out.counters['dead'] += 1
    finally:
        session.pool(ctx).reset()


def shrink(case):
    for key in ('world', 'exts', 'files'):
        for k in list(case[key]):
            c = core.json.loads(core.json.dumps(case))
            del c[key][k]
            if key == 'files':
                c[key] = {f: x for f, x in c[key].items() if not f.startswith(k + '/')}
            yield c
    yield from c07.shrink(case)
