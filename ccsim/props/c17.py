'''C17: file and directory completers offer exactly the entries they are meant for.'''
import copy, os, re
from .. import core, sess, session, shells

ID = 'C17'
LEVEL = 'exploration'
TECHNIQUE = 'deterministic simulation with fault injection: seeded histories of completions in a real interactive shell on a simulated directory tree that the simulator changes between the completions (files appear and vanish, the target directory disappears or turns into a file, dangling links, FIFOs, floods of files); every answer is compared with a reference model of the tree'
RUNS = {'quick': 1200, 'thorough': 16000}
RULE = 'a case counts as nontrivial if at least one completion had a prediction with at least one entry that is offered and one that is left out'
STATES = 'distinct (shell, completer and its options, form of the argument, kind of typed path, changes of the tree so far, kinds of the entries offered and left out) tuples'
COMPONENTS = session.COMPONENTS
ASSUMPTIONS = ['entries beginning with a dot are offered when a dot is typed only (the rule of all three shells)', 'directories are always offered, as they lead to files; whether ignore_globs applies to directories is left open',
               'when nothing at all matches in Zsh, the fallback of _files to all files is not judged', 'used items of a list may be offered again in Zsh (see C12)']
DIRS = ['', '', '', 'dir', 'dir', 'dir.txt', 'dir/deep', 'big dir', 'empty', 'dir/txt']
STEMS = ['alpha', 'alp', 'beta', 'be', 'gam', 'txt', 'a', '.hid', '.a', 'al pha', "it's", 'do$l', 'x;y', 'br[a]', 'st*r', 'q?m', 'umlä', 'a&b', 'p(q)', 'h#sh', 'n~l', 'A', 'Beta', 'e!x', 'per%d', 'at@x', 'pl+s', 'z"q']
EXTS = ['.txt', '.TXT', '.c', '.c.1', '', '.txt.gz', '.tar.gz', '.txtx', '.cpp', '.md', 'txt', '.t-x', '.c++', '.Txt']
EXTSETS = [['txt'], ['c', 'cpp'], ['gz'], ['tar.gz'], ['TXT'], ['c++'], ['t-x', 'md'], ['txt', 'c'], ['Md']]
GLOBS = [['*.[tT][xX][tT]'], ['*.c++', '*.md'], ['a*'], ['*.c'], ['*[a]*'], ['b?ta*'], ['*.gz', '*.txt'], ['alpha.txt'], ['*x'], ['[!a]*'], ['*.c.?'], ['be*', 'ga*'],
         ['@(alp|be)*'], ['*.@(c|md)'], ['al\\ pha*'], ['[^ab]*'], ['*$*'], ['do$l*'], ['x;y*', 'h#sh*'], ['n~l*'], ['[[:upper:]]*'], ['p(q)*'], ["it\\'s*"], ['a&b*'], ['q\\?m*', 'st\\*r*'], ['[a-d]*.[ct]*'],
         ['br\\[a\\]*'], ['@(alp@(ha|)|gam).*'], ['*[xX]'], ['pl+s*', 'e!x*'], ['z\\"q*'], ['*.[!t]*'], ['uml?*'], ['per%d*', 'at@x*'], ['*^*', '*{*'], ['alp*txt'], ['*a*'], ['*\\ *'], ['*[;$]*'], ['?']]
SPECIAL = ' \'"$;&()[]{}*?#~!<>|`,='


def gen_opts(rng, kind):
    o = {}
    if kind == 'file':
        if rng.random() < 0.5:
            o['extensions'] = rng.choice(EXTSETS)
            if rng.random() < 0.4:
                o['fuzzy'] = True
        if rng.random() < 0.4:
            o['ignore_globs'] = rng.choice(GLOBS)
    t = rng.random()
    if t < 0.3:
        o['directory'] = rng.choice(['dir', 'dir/', './dir', 'dir.txt', 'empty', 'big dir', 'missing', 'dir/deep', '..', 'dir/../dir'])
    elif t < 0.36:
        o['directory'] = '/usr/share/fish'
    return o


def gen(rng, tier, i):
    shell = session.SHELLS[i % 3]
    opts, pos = [], []
    for n, s in enumerate((['-f', '--file'], ['--other'], ['-g', '--gile'])):
        kind = rng.choice(['file', 'file', 'directory'])
        o = gen_opts(rng, kind)
        doc = [kind, o] if o else [kind]
        opts.append({'s': s, 'arg': 'opt' if rng.random() < 0.15 else 'req', 'c': {'k': 'raw', 'doc': doc}})
    kind = rng.choice(['file', 'file', 'directory'])
    o = gen_opts(rng, kind)
    pos.append({'number': 1, 'rep': rng.random() < 0.3, 'c': {'k': 'raw', 'doc': [kind, o] if o else [kind]}})
    tree = {}
    plain = rng.random() < 0.4
    for d in ('dir', 'empty', 'dir.txt', 'big dir', 'dir/deep'):
        if rng.random() < 0.75:
            tree[d] = None
    for _ in range(rng.randint(3, 18)):
        d = rng.choice(DIRS)
        if d and d not in tree:
            d = ''
        n = new_name(rng, plain)
        tree[(d + '/' if d else '') + n] = 'x' if rng.random() < 0.85 else rng.choice(['@dangling', '@dir', '@fifo', '@file'])
    steps = []
    for _ in range(rng.randint(5, 12)):
        ev = []
        t = rng.random()
        names = [k for k in tree]
        if t < 0.2:
            d = rng.choice(DIRS)
            ev.append(['put', (d + '/' if d else '') + new_name(rng, plain), rng.choice(['x', 'x', None, '@dangling', '@fifo'])])
        elif t < 0.35 and names:
            ev.append(['rm', rng.choice(names)])
        elif t < 0.4:
            ev.append(['rmtree', rng.choice(['dir', 'empty', 'dir.txt', 'dir/deep'])])
        elif t < 0.44:
            ev.append(['tofile', rng.choice(['dir', 'empty'])])
        elif t < 0.47:
            ev.append(['flood', rng.choice(['', 'dir', 'empty']), rng.choice([40, 150])])
        elif t < 0.5:
            ev.append(['cd', rng.choice(['dir', 'empty', 'dir/deep'])])
        elif t < 0.56:
            ev.append(['cd', ''])
        opt = rng.randint(0, 3)
        if opt == 3:
            form, pre = 'pos', rng.choice(['', '', '--file=x ', '--other=x ', '-- '])
        else:
            o = opts[opt]
            s = rng.choice(o['s'])
            if len(s) == 2:
                form, pre = ('joined', s) if o['arg'] == 'opt' or rng.random() < 0.3 else ('sep', s + ' ')
            elif o['arg'] == 'opt' or rng.random() < 0.5:
                form, pre = 'eq', s + '='
            else:
                form, pre = 'sep', s + ' '
        steps.append({'ev': ev, 'opt': opt, 'form': form, 'pre': pre, 'path': [rng.choice(['', '', '', '', 'dir/', 'dir/deep/', './', '../', 'nosuch/', 'dir.txt/', 'big dir/', 'D', '~/w/', 'dir/../', 'HOMEW/']), rng.randint(0, 1000), rng.choice([0, 0, 0, 1, 1, 2, 3])], 'mode': rng.choice(['edit', 'fresh'])})
    return {'shell': shell, 'def': {'prog': 'vf', 'root': {'name': 'vf', 'aliases': [], 'subs': [], 'pos': pos, 'opts': opts}, 'cfg': {}, 'helpers': {}}, 'tree': tree, 'steps': steps}


def new_name(rng, plain):
    while True:
        n = rng.choice(STEMS[:7] + STEMS[-8:-6] if plain else STEMS) + rng.choice(EXTS)
        if not plain or re.match(r'^[\w.+-]+$', n):
            return n


def place(root, rel, content):
    p = os.path.join(root, rel)
    try:
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if os.path.lexists(p):
            return False
        if content is None:
            os.makedirs(p)
        elif content == '@dangling':
            os.symlink('nowhere', p)
        elif content == '@dir':
            os.symlink(root, p)
        elif content == '@file':
            os.symlink('/etc/passwd', p)
        elif content == '@fifo':
            os.mkfifo(p)
        else:
            with open(p, 'w') as fh:
                fh.write(content)
    except OSError:
        return False
    return True


def esc(s):
    return ''.join('\\' + c if c in SPECIAL else c for c in s)


def matches_ext(name, exts, fuzzy):
    n = name.lower()
    for e in exts:
        e = '.' + e.lower()
        if n.endswith(e) or fuzzy and e in n:
            return True
    return False


def ignored(name, globs):
    return any(re.fullmatch(glob_re(g), name, re.S) for g in globs)


def glob_re(g):
    '''A Bash pattern as an expression of Python (own translation, not the one under test).'''
    out, i, depth = '', 0, 0
    while i < len(g):
        c = g[i]
        if c == '\\':
            out += re.escape(g[i + 1])
            i += 1
        elif c == '@' and g[i + 1:i + 2] == '(':
            out += '(?:'
            depth += 1
            i += 1
        elif depth and c in '|)':
            out += c
            depth -= c == ')'
        elif c == '[':
            j = i + 1
            neg = g[j] in '!^'
            j += neg
            if g.startswith('[:upper:]', j):
                out += '[A-Z]'
                i = j + 9
            else:
                e = g.index(']', j)
                out += '[%s%s]' % ('^' if neg else '', g[j:e])
                i = e
        else:
            out += {'*': '.*', '?': '.'}.get(c, re.escape(c))
        i += 1
    return out


def predict(base, kind, o, cwd, typed, expand, hidden):
    '''(offered, open, left out) names of entries for what is typed.'''
    path, name = (typed.rsplit('/', 1) + [''])[:2] if '/' in typed else ('', typed)
    if '/' in typed:
        path += '/'
    if expand:
        where = os.path.join(os.path.dirname(base), path[2:])
    elif path.startswith('/'):
        where = path
    else:
        where = os.path.join(cwd, o.get('directory', ''), path)
    yes, may, no = set(), set(), set()
    if not os.path.isdir(os.path.join(cwd, o.get('directory', ''))) and not path.startswith('/') and not expand:
        return yes, may, no
    try:
        ents = os.listdir(where)
    except OSError:
        return yes, may, no
    for e in ents:
        full = os.path.join(where, e)
        isdir = os.path.isdir(full)
        if not e.startswith(name):
            continue
        hid = e.startswith('.') and not name.startswith('.')
        if hid and not hidden:
            no.add(e)
            continue
        if isdir:
            if hid or o.get('ignore_globs') and ignored(e, o['ignore_globs']):
                may.add(e)
            else:
                yes.add(e)
            continue
        if kind == 'directory':
            no.add(e)
        elif o.get('extensions') and not matches_ext(e, o['extensions'], o.get('fuzzy')):
            no.add(e)
        elif o.get('ignore_globs') and ignored(e, o['ignore_globs']):
            no.add(e)
        elif hid or not os.path.exists(full):
            may.add(e)           # dangling link
        else:
            yes.add(e)
    return yes, may, no


def names(cands):
    r = set()
    for c in cands:
        c = c.replace('\\', '')
        c = c.rstrip('/')
        r.add(c.rsplit('/', 1)[-1])
    return r


def run(ctx, case, out):
    kind, d = case['shell'], case['def']
    try:
        s = session.Session(ctx, case, out)
    except sess.GenFail as e:
        out.violation('generation', 'no script for a valid definition: %s' % e)
        return
    sh = s.sh
    try:
        if s.loaderr:
            out.violation(kind + ':load', 'the shell reports an error when the script is loaded: %s' % s.loaderr[-500:])
            return
        root = os.path.join(sh.home, 'w')
        os.makedirs(root)
        for rel in sorted(case['tree']):
            place(root, rel, case['tree'][rel])
        sh.run('cd ~/w')
        cwd = root
        changes = set()
        for i, step in enumerate(case['steps']):
            for ev in step['ev']:
                cwd = change(s, root, cwd, ev, out, changes)
            comp = d['root']['pos'][0] if step['opt'] == 3 else d['root']['opts'][step['opt']]
            doc = comp['c']['doc']
            o = doc[1] if len(doc) > 1 else {}
            part, pick, n = step['path']
            typed, expand = part, False
            if part == 'D':
                typed = ''
            elif part == 'HOMEW/':
                typed = root + '/'
            elif part == '~/w/':
                expand = True
            target = os.path.join(os.path.dirname(root), typed[2:]) if expand else typed if typed.startswith('/') else os.path.join(cwd, o.get('directory', ''), typed)
            try:
                ents = sorted(os.listdir(target))
            except OSError:
                ents = []
            if ents and n:
                typed += ents[pick % len(ents)][:n]
            shown = ('~/' + esc(typed[2:])) if expand else esc(typed)
            if not expand and typed.startswith('~'):
                shown = '\\' + typed
            if re.search(r'(^|/)[-~=]', typed) or '//' in typed[:3] and kind != 'bash':
                continue
            if expand and step['form'] != 'sep' and step['form'] != 'pos':
                continue
            text = 'vf ' + step['pre'] + shown
            s.goto(text, step['mode'])
            q = sh.query()
            s.text_now = q.get('line', s.text_now)
            out.ticks += 1
            out.counters['runs'] += 1
            yes, may, no = predict(root, doc[0], o, cwd, typed, expand, kind == 'bash')
            base = typed.rsplit('/', 1)[-1]
            cands = q['cands']
            if step['form'] == 'joined' or kind == 'fish' and step['form'] == 'eq':
                cands = [c[len(step['pre']):] if c.startswith(step['pre']) else c for c in cands]
            head = typed.rsplit('/', 1)[0] + '/' if '/' in typed else ''
            if kind == 'fish':
                # the shell also matches substrings, in every component
                cands = [c for c in cands if c.startswith(head + base) or expand]
            got = {g for g in names(cands) - {'.', '..', ''} if kind != 'fish' or g.startswith(base)}
            if o.get('directory') and not os.path.isdir(os.path.join(cwd, o['directory'])) and (typed.startswith('/') or expand):
                out.counters['unspecified'] += 1       # no such directory, but another one was typed
                continue
            if kind == 'zsh' and o.get('directory') and (expand or re.match(r'/|\.\.?(/|$)', typed)) or kind == 'fish' and step['form'] == 'joined' and (not o or not typed) or \
                    kind == 'fish' and step['form'] == 'eq' and comp.get('arg') == 'opt' and d['root']['pos'][0]['c']['doc'] == ['file']:
                out.counters['unspecified'] += 1       # rules of _path_files -W; fish completes files natively there
                continue
            out.event(i, text.replace(sh.home, '~~'), sorted(got), q.get('err', '')[-200:].replace(sh.home, '~~'))
            if yes and no:
                out.nontrivial = True
            out.states.add(core.h8(repr((kind, doc, step['form'], part, bool(n), sorted(changes), bool(yes), bool(may), bool(no)))))
            missing, extra = sorted(yes - got), sorted(got - yes - may)
            if kind == 'zsh' and '/' in typed and not expand:
                # Zsh completes every component of a path
                at = [os.path.join(cwd, o.get('directory', ''))] if typed[0] != '/' else ['/']
                for part_ in typed.rsplit('/', 1)[0].strip('/').split('/'):
                    at = [os.path.join(a, e) for a in at if os.path.isdir(a) for e in os.listdir(a) + ['.', '..'] if e.startswith(part_)]
                others = set(e for a in at if os.path.isdir(a) and os.path.realpath(a) != os.path.realpath(target) for e in os.listdir(a))
                extra = [e for e in extra if e not in others or o.get('ignore_globs') and ignored(e, o['ignore_globs'])]
            if kind == 'zsh' and not yes:
                extra = []
            if kind == 'bash' and any(c in SPECIAL for c in typed) and missing and not extra and all(os.path.isdir(os.path.join(target, m)) for m in missing) or \
                    kind == 'fish' and step['form'] == 'joined' and typed[-1:] in ('f', 'g'):
                out.counters['unspecified'] += 1       # _filedir of bash-completion; fish takes the last letter for a further option
                continue
            if kind == 'fish' and re.search(r'[*?]', typed) and (o or doc[0] != 'file'):
                out.counters['unspecified'] += 1       # the builtin complete itself expands an escaped wildcard
                continue
            if extra and not missing and kind != 'zsh' and o.get('fuzzy') and '/' in typed and all(matches_ext(typed.rsplit('/', 1)[0], o['extensions'], True) and not (
                    o.get('ignore_globs') and ignored(e, o['ignore_globs'])) for e in extra):
                out.violation(kind + ':fuzzy-path', 'step %d, %s, line %r: extra %s' % (i, doc, text, extra[:8]))
                continue
            if missing or extra:
                sig = '%s:%s:%s:%s%s' % (kind, doc[0], '+'.join(sorted(o)), 'missing' if missing else '', 'extra' if extra else '')
                out.violation(sig, 'step %d, %s in %s, line %r: missing %s, extra %s (offered %s, tree %s, raw %s, stderr %r)' % (
                    i, doc, os.path.relpath(cwd, root), text, missing[:8], extra[:8], sorted(got)[:20], sorted(os.listdir(cwd))[:20] if os.path.isdir(cwd) else None, sorted(q['cands'])[:10], q.get('err', '')[-300:]))
                return
        s.dirty()
        sh.run('pwd >%s/pwd' % sh.io)
        with open(os.path.join(sh.io, 'pwd')) as fh:
            at = fh.read().strip()
        if os.path.realpath(at) != os.path.realpath(cwd):
            out.violation(kind + ':cwd', 'the shell is in %s instead of %s after completing files' % (at, cwd))
        out.note = 'shell %s, %d completions' % (kind, len(case['steps']))
    except shells.Hang as e:
        out.violation(kind + ':hang', 'the completion did not return: %s' % e)
    except shells.Dead as e:
        out.violation(kind + ':dead', str(e))
    finally:
        session.pool(ctx).reset()


def change(s, root, cwd, ev, out, changes):
    import shutil
    k = ev[0]
    p = os.path.join(root, ev[1])
    out.event('tree', *ev)
    if k == 'cd':
        if os.path.isdir(p):
            s.sh.run("cd ~/'w/%s'" % ev[1])
            s.text_now = ''
            cwd = p
    elif os.path.realpath(cwd).startswith(os.path.realpath(p)) and k != 'put' and k != 'flood':
        return cwd
    elif k == 'put':
        place(root, ev[1], ev[2])
    elif k == 'rm':
        if os.path.lexists(p) and (os.path.islink(p) or not os.path.isdir(p)):
            os.unlink(p)
    elif k == 'rmtree':
        shutil.rmtree(p, ignore_errors=True)
    elif k == 'tofile':
        shutil.rmtree(p, ignore_errors=True)
        place(root, ev[1], 'x')
    elif k == 'flood':
        if os.path.isdir(p):
            for n in range(ev[2]):
                place(root, os.path.join(ev[1], 'fl%03d%s' % (n, EXTS[n % len(EXTS)])), 'x')
    out.counters['fault:tree-' + k] += 1
    changes.add(k)
    return cwd


def shrink(case):
    yield from core.shrink_key(case, 'steps')
    for k in sorted(case['tree']):
        c = copy.deepcopy(case)
        del c['tree'][k]
        yield c
    for i, s in enumerate(case['steps']):
        for ev in core.ddmin_list(s['ev']):
            c = copy.deepcopy(case)
            c['steps'][i]['ev'] = ev
            yield c
        if s['mode'] == 'edit':
            c = copy.deepcopy(case)
            c['steps'][i]['mode'] = 'fresh'
            yield c
