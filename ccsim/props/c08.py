'''C08: completing leaves the interactive shell as it was.'''
import json, os, re
from .. import core, sess, session, shells
from . import c07

ID = 'C08'
LEVEL = 'exploration'
TECHNIQUE = 'deterministic simulation with fault injection: seeded session histories (completions, edits, interrupts, helper faults, lost directories) in a real interactive shell with a seeded user configuration; full dumps of the state of the shell and of the file system are compared'
RUNS = {'quick': 1200, 'thorough': 14000}
RULE = 'a case counts as nontrivial if at least one completion with a non-empty answer lay between two compared dumps'
STATES = 'distinct (shell, user settings, last event, line shape) tuples'
COMPONENTS = session.COMPONENTS
ASSUMPTIONS = ['names that begin with an underscore and captured variables belong to the script', 'variables that the shell itself maintains (SECONDS, RANDOM, LINENO, ...) are not compared', 'interrupts strike while a helper program is running']
K = {'choices': 3, 'exec': 3, 'exec_fast': 2, 'list': 3, 'kvl': 3, 'kvle': 2, 'kvp': 2, 'kvpe': 2, 'combine': 2, 'prefix': 2, 'range': 1, 'none': 1, 'misc': 9}
B = {'kinds': K, 'p_capture': 0.2, 'seps': 1, 'p_special': 0.2}
PROFILES = [B, dict(B, p_nest=0.5), dict(B, p_when=0.6), dict(B, p_when=0.9, opts=(2, 5)), dict(B, p_cfg=1.0), dict(B, subs=0.8), dict(B, pos=(1, 3), opts=(1, 3)), dict(B, p_old=0.5), dict(B, p_optarg=0.4, p_group=0.6)]

NAMES = ('i j k w x y z c l r cur prev words cword opt opts option arg args key keys value values desc descriptions item items file files line word func funcs excludes sep sep1 sep2 having_key pair tmp '
         'pc sc in out len result prefix suffix pos positionals having_options option_values cmd cmdline POSITIONALS OPT_A END_OF_OPTIONS COMPREPLY_OLD a b n REPLY split PREFIX IPREFIX num dir path_ '
         'state context curcontext_ expl ret pattern regex idx group mode list name COUNT match_ mbegin_ SEP query lines').split()

SETUP = {
    'bash': ['IFS=:', "IFS=''", 'unset IFS', "IFS=$'x\\n'", 'shopt -s nullglob', 'shopt -s dotglob', 'shopt -s nocasematch', 'shopt -s nocaseglob', 'shopt -s extglob', 'shopt -s globstar',
             'set -u', 'set -f', 'set -o noclobber', 'set -o pipefail', 'set -- one "two three"', 'alias ls="ls -F" grep="grep --color" vq=vp', "trap 'x_y=2' USR1", "trap ':' EXIT", 'umask 027', 'shopt -s lastpipe',
             'shopt -s cdspell autocd', 'CDPATH=.:/usr:/etc', 'shopt -s cdable_vars', 'usr=/etc', 'pushd /usr >/dev/null; cd ~', 'export LC_COLLATE=C', 'GLOBIGNORE="*.md"', 
             'set -T', 'shopt -s failglob', 'declare -i idx=3', 'POSIXLY_CORRECT=1; unset POSIXLY_CORRECT', 'COMP_WORDBREAKS=${COMP_WORDBREAKS//:/}', 'shopt -s compat44', 'set -a', 'complete -W "q1 q2" vpother',
             "cd() { builtin cd \"$@\" && x_y=cd; }", "query() { x_y=query; }; values() { x_y=values; }", 'export GREP_OPTIONS= ; FOO=bar; export FOO', 'hash -r', 'cd /tmp; cd ~', 'shopt -s compat42'],
    'zsh': ['IFS=:', "IFS=''", 'unset IFS', 'setopt ksharrays', 'setopt shwordsplit', 'setopt noglob', 'setopt nullglob', 'setopt globdots', 'setopt extendedglob', 'setopt nounset', 'setopt noclobber', 'set -- one "two three"', 'setopt globsubst',
            'setopt autopushd', 'setopt pushdsilent', 'setopt nomatch', 'setopt cshnullglob', 'alias ls="ls -F" grep="grep --color"', 'alias -g G="| grep"', "trap 'x_y=2' USR1", 'TRAPUSR1() { x_y=3 }', 'umask 027', 'setopt nocaseglob nocasematch',
            'setopt warncreateglobal', 'setopt rcquotes', 'setopt ignorebraces', 'cdpath=(/usr /etc)', 'setopt cdablevars', 'pushd /usr >/dev/null; cd ~', 'typeset -i idx=3', 'typeset -gx FOO=bar', 'setopt autocd', 'setopt ksharrays kshglob', 'setopt allexport',
            'cd() { builtin cd "$@" && x_y=cd }', 'query() { x_y=query }; values() { x_y=values }', 'cd /tmp; cd ~', 'setopt interactivecomments', 'setopt bashrematch', 'setopt cbases', 'setopt pathdirs', 'setopt localoptions', 'setopt menucomplete', 'setopt completeinword', 'setopt posixbuiltins', "zstyle ':completion:*' verbose yes"],
    'fish': ['set -g IFS :', 'set -g IFS ""', 'set -U uvar one', 'set -gx FOO bar', 'function ls; command ls -F $argv; end', 'function grep; command grep --color=never $argv; end', 'umask 027', 'pushd /usr; cd ~', 'cd /tmp; cd ~', 'set -g CDPATH . /usr /etc', 'function query; set -g x_y query; end', 'abbr -a gco git checkout',
             'function on_usr1 --on-signal USR1; set -g x_y 2; end', 'function on_pwd --on-variable PWD; set -g x_y pwd; end', 'set -gx LC_COLLATE C', 'set -g fish_trace ""', 'complete -c vpother -a "q1 q2"', 'set -g dirh ~/dir1', 'cd dir1; cd ..; prevd >/dev/null'],
}
VALUE = {'bash': ['%s=user', '%s="u v"', '%s=(u1 "u 2")', 'declare -A %s=([u]=v)', 'export %s=user', 'unset %s'],
         'zsh': ['%s=user', '%s="u v"', '%s=(u1 "u 2")', 'typeset -i %s=7', 'typeset -A %s=(u v)', 'export %s=user', 'unset %s'],
         'fish': ['set -g %s user', 'set -g %s u1 "u 2"', 'set -gx %s user', 'set -U %s user', 'set -e %s']}


def focus(rng):
    '''Few completers, each of which is completed several times.'''
    ks = rng.sample(sorted(K), rng.randint(1, 2)) if rng.random() < 0.5 else ['misc']
    return dict(B, kinds={k: 1 for k in ks}, opts=(1, 3), p_arg=0.9, pos=(0, 1), subs=0.15, p_nest=rng.choice([0, 0.4]))


def gen(rng, tier, i):
    case = c07.gen(rng, tier, i, PROFILES if rng.random() < 0.5 else [focus(rng)])
    kind = case['shell']
    rc = rng.sample(SETUP[kind], rng.choice([0, 1, 2, 3, 4, 6, 9]))
    for n in rng.sample(NAMES, rng.randint(4, 14)):
        t = rng.choice(VALUE[kind])
        if '=(' in t or '-A' in t or '-i' in t:
            if n in ('REPLY', 'PREFIX', 'IPREFIX'):
                continue
        if kind == 'zsh' and n in ('words', 'path_', 'PREFIX', 'IPREFIX'):
            continue
        rc.append(t % n)
    for s in case['steps']:
        if rng.random() < 0.06:
            s['pre'].append(['lostdir'])
        if rng.random() < 0.25:
            s['tab'] = rng.randint(1, 2)
    if kind == 'bash' and 'nocase' in json.dumps(case) and rng.random() < 0.4:
        rc.append('shopt -s nocasematch')
    case['rc'] = rc
    case['steps'] = case['steps'][:rng.choice([3, 5, 9])]
    return case


# ---------------------------------------------------------------------------
# Dumps
# ---------------------------------------------------------------------------
SKIPVAR = {
    'bash': 'BASH_ARGC BASH_ARGV BASH_COMMAND BASH_LINENO BASH_SOURCE BASH_SUBSHELL BASHPID BASH_MONOSECONDS EPOCHREALTIME EPOCHSECONDS FUNCNAME GROUPS HISTCMD LINENO PIPESTATUS RANDOM SECONDS SRANDOM READLINE_LINE READLINE_POINT READLINE_MARK READLINE_ARGUMENT '
            'COMP_CWORD COMP_KEY COMP_LINE COMP_POINT COMP_TYPE COMP_WORDS COLUMNS LINES BASH_REMATCH BASH_ARGV0 DIRSTACK COPROC COMPREPLY'.split(),
    'zsh': 'RANDOM SECONDS EPOCHSECONDS EPOCHREALTIME epochtime LINENO HISTCMD TTYIDLE BUFFER LBUFFER RBUFFER PREBUFFER CURSOR MARK BUFFERLINES LASTSEARCH WIDGET WIDGETFUNC WIDGETSTYLE LASTWIDGET KEYS KEYS_QUEUED_COUNT PENDING LASTABORTEDSEARCH status pipestatus history historywords '
           'ERRNO COLUMNS LINES parameters functions funcstack functrace funcsourcetrace funcfiletrace jobdirs jobstates jobtexts commands modules dirstack options widgets keymaps region_highlight ZLE_STATE ZLE_RECURSIVE UNDO_CHANGE_NO UNDO_LIMIT_NO YANK_ACTIVE SUFFIX_ACTIVE '
           'REGION_ACTIVE ISEARCHMATCH_ACTIVE CUTBUFFER killring NUMERIC CONTEXT PREDISPLAY POSTDISPLAY userdirs nameddirs aliases galiases saliases reswords patchars functions_source dis_functions dis_functions_source dis_builtins builtins dis_aliases dis_galiases dis_saliases dis_reswords '
           'dis_patchars usergroups errnos sysparams termcap terminfo zsh_scheduled_events BASH_REMATCH OPTARG type TRY_BLOCK_ERROR TRY_BLOCK_INTERRUPT registers ZLE_LINE_ABORTED MATCH MBEGIN MEND match mbegin mend PERIOD FUNCNEST ZSH_SUBSHELL'.split(),
    'fish': 'status pipestatus CMD_DURATION COLUMNS LINES history fish_kill_signal last_pid argv umask fish_killring fish_pid hostname version FISH_VERSION status_generation dirprev_ fish_key_bindings'.split(),
}


def split_at(text, pat):
    '''{name: block} of a dump whose blocks begin with a line that matches pat.'''
    r, name = {}, None
    for l in text.split('\n'):
        m = re.match(pat, l)
        if m:
            name = m.group(1)
            r[name] = l
        elif name is not None:
            r[name] += '\n' + l
    return r


def digest(kind, st, captured, mine):
    '''A comparable form of a dump: {item: text}.'''
    r = {}
    if kind == 'bash':
        vs = split_at(st['VARS'], r'declare -\S+ ([A-Za-z0-9_]+)')
    elif kind == 'zsh':
        vs = split_at(st['VARS'], r'(?:typeset|export)(?: -\S+(?: \d+)?)*(?: [A-Z_]+(?= ))? ([A-Za-z0-9_]+)(?:=|$)')
    else:
        vs = {}
        for sec in ('VARS', 'UVARS', 'XVARS'):
            for n, t in split_at(st[sec], r'([A-Za-z0-9_]+)(?: |$)').items():
                vs['%s %s' % (sec, n)] = t
    for n, t in vs.items():
        base = n.split(' ')[-1]
        if kind == 'bash' and t.strip() == 'declare -- COMP_WORDBREAKS':
            continue        # not initialised yet
        if base[:1] == '_' or base in SKIPVAR[kind] or base in captured:
            continue
        r['var ' + n] = t.strip()
    if kind == 'bash':
        fs = split_at(st['FUNCS'], r'(\S+) \(\) *$')
    elif kind == 'zsh':
        fs = split_at(st['FUNCS'], r'(\S+) \(\) \{')
    else:
        fs = dict.fromkeys(st['FUNCS'].split())
    for n, t in fs.items():
        if n[:1] == '_' or n in mine:
            continue
        if kind == 'zsh' and n in ('compadd', 'compdef', 'compinit', 'compaudit', 'compdump', 'is-at-least', 'colors', 'add-zsh-hook', 'zmv', 'zargs'):
            continue
        r['func ' + n] = '' if t is None or kind == 'zsh' and 'builtin autoload' in t else t.strip()
    for sec in ('SHOPT', 'TRAP', 'ALIAS', 'PWD', 'MISC', 'ARGS', 'BODY', 'ABBR', 'BIND'):
        if sec in st:
            # complete_fullquote: bash itself changes it when a word like ~ is completed
            r[sec.lower()] = '\n'.join(l for l in st[sec].split('\n') if 'complete_fullquote' not in l) if sec == 'SHOPT' else st[sec]
    return r


def tree(sh, root):
    r = {}
    for d, ds, fs in os.walk(root):
        for n in ds + fs:
            p = os.path.join(d, n)
            try:
                s = os.lstat(p)
                r[os.path.relpath(p, root)] = (s.st_mode, s.st_uid, 0 if n in ds else s.st_size, 0 if n in ds else s.st_mtime_ns)
            except OSError:
                r[os.path.relpath(p, root)] = None
    return r


LEGIT = ('cd', 'run', 'accept', 'fail', 'put', 'rm', 'lostdir', 'set-helper')


def difference(a, b):
    for k in sorted(set(a) | set(b)):
        if k == 'var COMP_WORDBREAKS' and not (k in a and k in b):
            continue
        if a.get(k) != b.get(k):
            x, y = a.get(k), b.get(k)
            if isinstance(x, str) and isinstance(y, str) and '\n' in x + y:
                x, y = [l for l in x.split('\n') if l not in y.split('\n')] or x[:80], [l for l in y.split('\n') if l not in x.split('\n')] or y[:80]
            return k, x, y
    return None


def run(ctx, case, out):
    kind = case['shell']
    captured = {o['capture'] for d in (case['def'], case.get('other')) if d for o in sess.all_options(d['root']) if o.get('capture')}
    mine = {d['prog'] for d in (case['def'], case.get('other')) if d}
    try:
        s = session.Session(ctx, case, out, files=c07.FILES, user_rc='\n'.join(case['rc']) + '\n', env={'TMPDIR': '/nonexistent'} if kind == 'x' else None)
    except sess.GenFail as e:
        out.violation('generation', 'no script for a valid definition: %s' % e)
        return
    try:
        if kind == 'fish':
            s.sh.run('set -g __v_watch ls grep query on_usr1 on_pwd cd pushd popd')
            s.sh.run('true')
        # the completion systems load their own functions when they are first used
        s.sh.type('true ')
        s.sh.tab()
        s.dirty()

        def snap():
            return digest(kind, s.sh.state(), captured, mine), tree(s.sh, s.sh.home)

        snap()
        before = snap()
        done = []

        def check(i, where):
            after = snap()
            out.counters['dumps'] += 1
            for a, b, what in ((before[0], after[0], ''), (before[1], after[1], 'file ')):
                d = difference(a, b)
                if d:
                    name = what + d[0]
                    sig = re.sub(r'^(var|func) .*', lambda m: m.group(1) + ' ' + name.split(' ')[-1], name)
                    out.violation('%s:%s' % (kind, sig), 'step %d, after %s: %s was %r and is %r' % (i, where, name, d[1], d[2]))
                    return False
            return True

        for i, step in enumerate(case['steps']):
            for ev in step['pre']:
                if ev[0] in LEGIT:
                    if done and not check(i, done[-6:]):
                        return
                    if ev[0] == 'lostdir':
                        # the working directory disappears
                        out.counters['fault:lostdir'] += 1
                        s.sh.run('mkdir -p ~/gone/sub; cd ~/gone/sub; rmdir ~/gone/sub; rmdir ~/gone')
                        s.text_now = ''
                    else:
                        s.noise(ev)
                    s.dirty()
                    before = snap()
                    done = []
                else:
                    s.noise(ev)
                    done.append(ev)
            text, q = s.query(dict(step, pre=[]))
            out.event(i, text, q['cands'])
            out.counters['runs'] += 1
            done.append(text)
            for _ in range(step.get('tab', 0)):
                s.sh.tab()
            s.dirty()
            if q['cands']:
                out.counters['probe:nonempty'] += 1
                out.nontrivial = True
            out.states.add(core.h8(repr((kind, [r for r in case['rc'] if r in SETUP[kind]][:2], [e[0] for e in step['pre']][-2:], c07.shape(text)))))
            if not check(i, done[-6:]):
                return
        out.note = 'shell %s, rc %r, last line %r' % (kind, case['rc'][:4], case['steps'][-1]['raw'] if case['steps'] else '')
    except shells.Hang as e:
        out.violation(kind + ':hang', 'the completion did not return: %s' % e)
    except shells.Dead as e:
        out.violation(kind + ':dead', str(e))
    finally:
        session.pool(ctx).reset()


def shrink(case):
    for rc in core.ddmin_list(case['rc']):
        yield dict(case, rc=rc)
    for i, s in enumerate(case['steps']):
        if s.get('tab'):
            c = core.json.loads(core.json.dumps(case))
            del c['steps'][i]['tab']
            yield c
    yield from c07.shrink(case)
