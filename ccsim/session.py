'''Simulated interactive sessions: generation, execution, shrinking.

A case is one shell, one definition and one history of events.  Every event is
sent by the simulator and acknowledged by the shell before the next one, so the
seed alone determines the execution.
'''
import copy, json, os, re, shutil

from . import core, sess, shells
from .genclient import server

SHELLS = ('bash', 'fish', 'zsh')


def pool(ctx):
    return ctx.tool('shells', shells.Pool)


# ---------------------------------------------------------------------------
# Generation
# ---------------------------------------------------------------------------
def styles(rng, words):
    return [rng.choice([0, 0, 0, 1, 2, 3]) for _ in words]


def gen_lines(rng, lg, n, want=None, grow=0.5, after=0.0):
    '''A history of n places: fresh lines, lines that grow word by word, edited lines.'''
    out = []
    while len(out) < n:
        t = rng.random()
        if out and t < 0.25 and out[-1]['w']:
            # erase some words and go on from there
            prev = out[-1]
            keep = rng.randint(0, len(prev['w']))
            words = list(prev['w'][:keep])
            st = list(prev['q'][:keep])
            if lg.m.parse(words).odd:
                continue
            w, cur = lg.cur(words, want)
            out.append({'w': w, 'q': (st + styles(rng, w))[:len(w)], 'cur': cur, 'mode': 'edit'})
            continue
        words = lg.words()
        w, cur = lg.cur(words, want)
        q = styles(rng, w)
        if rng.random() < grow and len(w) > 1:
            # the user completes on the way as well
            stops = sorted(rng.sample(range(len(w)), min(len(w) - 1, rng.randint(1, 3))))
            for k in stops:
                out.append({'w': w[:k], 'q': q[:k], 'cur': rng.choice(['', '', lg.plain(w[k][:rng.randint(0, len(w[k]))])]), 'mode': 'edit'})
        step = {'w': w, 'q': q, 'cur': cur, 'mode': rng.choice(['edit', 'fresh'])}
        if rng.random() < after:
            more = lg.words(rng.randint(1, 3))
            if more:
                step['after'] = more
        out.append(step)
    return out[:n + 3]


NOISE = ['other', 'cancel', 'accept', 'fail', 'tab', 'helperfault', 'dup']


def gen_noise(rng, steps, d, p):
    '''Disturbances between the completions.'''
    hs = sorted(d['helpers'])
    for s in steps:
        if rng.random() < p:
            ev = rng.choice(NOISE)
            if ev == 'helperfault':
                if not hs:
                    continue
                s.setdefault('pre', []).append([ev, rng.choice(hs), rng.choice(['missing', 'exit1', 'killed', 'empty', 'garbage'])])
            else:
                s.setdefault('pre', []).append([ev])


FAULTY = {
    'missing': None,
    'exit1': '#!/bin/sh\nexit 1\n',
    'killed': '#!/bin/sh\nkill -9 $$\n',
    'empty': '#!/bin/sh\nexit 0\n',
    'garbage': "#!/bin/sh\nprintf 'zzq\\t\\t\\n\\n\\tdesc\\nzzr'\nexit 3\n",
}

OTHER = {'prog': 'vq', 'root': {'name': 'vq', 'aliases': [], 'subs': [], 'pos': [{'number': 1, 'c': {'k': 'choices', 'v': ['red', 'green'], 'desc': False}}],
         'opts': [{'s': ['-a', '--all'], 'arg': None}, {'s': ['-o', '--out'], 'arg': 'req', 'c': {'k': 'list', 'sep': ',', 'dup': False, 'form': 'value_list', 'v': ['k1', 'k2', 'k3'], 'desc': False}}]},
         'cfg': {}, 'helpers': {}}


def other_def():
    return copy.deepcopy(OTHER)


# ---------------------------------------------------------------------------
# Execution
# ---------------------------------------------------------------------------
class Session:
    '''One shell with the script of one definition.'''

    def __init__(self, ctx, case, out, name='s', includes=(), **kw):
        self.ctx, self.case, self.out = ctx, case, out
        self.kind = case['shell']
        self.d = case['def']
        srv = server(ctx)
        self.text = sess.script(srv, self.d, self.kind, includes)
        scripts = [(self.d['prog'], self.text)]
        if case.get('other'):
            scripts.append((case['other']['prog'], sess.script(srv, case['other'], self.kind)))
            if case.get('otherfirst'):
                scripts.reverse()
        kw.setdefault('helpers', sess.helpers(self.d))
        self.sh = pool(ctx).open(self.kind, scripts, name=name, **kw)
        self.loaderr = self.sh.tty.decode('utf-8', 'replace').replace('<P>', '').strip()
        if 'rror' not in self.loaderr:
            self.loaderr = ''
        self.m = sess.Model(self.d, self.kind)
        self.text_now = ''
        self.scripts = scripts
        self.helpers = dict(kw['helpers'])       # the world outside the shell: helper programs, files below the home directory, working directory
        self.files = dict(kw.get('files') or {})
        self.cwd = '.'

    def goto(self, text, mode='fresh'):
        '''Make text the command line, by typing and erasing.'''
        sh = self.sh
        if mode == 'fresh' or not self.text_now:
            sh.clear()
            sh.type(text)
        else:
            k = 0
            while k < min(len(text), len(self.text_now)) and text[k] == self.text_now[k]:
                k += 1
            n = len(self.text_now) - k
            sh.type('\x7f' * n + text[k:])
        self.text_now = text

    def dirty(self):
        self.sh.clear()
        self.text_now = ''

    def line_of(self, step):
        if 'raw' in step:
            return step['raw']
        return sess.render(self.kind, self.d['prog'], step['w'], step['q']) + step['cur']

    def noise(self, ev):
        sh, out = self.sh, self.out
        k = ev[0]
        out.event('noise', *ev)
        if k == 'other' and not self.case.get('other'):
            k = 'dup'
        out.counters['fault:' + k] += 1
        if k == 'other':
            self.dirty()
            sh.type(self.case['other']['prog'] + ' -o k1,')
            sh.query()
            self.dirty()
        elif k == 'cancel':
            # the user drops a half typed line
            self.dirty()
            sh.type(self.d['prog'] + ' --')
            sh.query()
            sh.key('cancel')
            sh.line()
            self.dirty()
        elif k == 'accept':
            sh.run('true')
            self.text_now = ''
        elif k == 'fail':
            sh.run('false')
            self.text_now = ''
        elif k == 'tab':
            self.dirty()
            sh.type(self.d['prog'] + ' -')
            sh.tab()
            self.dirty()
        elif k == 'dup':
            self.dirty()
            sh.type(self.d['prog'] + ' ')
            sh.query()
            self.dirty()
        elif k == 'helperfault':
            self.d['helpers'].setdefault(ev[1], {'v': []})
            sh.helper(ev[1], FAULTY[ev[2]])
            self.dirty()
            # every place that uses the helper
            for line in self.case.get('helperlines', {}).get(ev[1], []):
                sh.type(line)
                sh.query()
                self.dirty()
            sh.helper(ev[1], sess.helper_text(self.d['helpers'][ev[1]]))
        elif k == 'intr':
            # ^C while a helper is running
            sh.helper(ev[1], shells.BLOCK)
            self.dirty()
            sh.type(ev[2])
            if not sh.interrupt():
                out.counters['fault:intr-too-late'] += 1
                out.counters['fault:intr'] -= 1
            self.dirty()
            real = shutil.which(ev[1], path='/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin')
            if ev[1] not in self.helpers and real:
                # the shell remembers where the program is
                self.helpers[ev[1]] = '#!/bin/sh\nexec %s "$@"\n' % real
            sh.helper(ev[1], self.helpers.get(ev[1]))
        elif k == 'set-helper':
            self.helpers[ev[1]] = ev[2]
            sh.helper(ev[1], ev[2])
        elif k == 'cd':
            sh.run('cd ~/' + ev[1])
            self.cwd = ev[1]
            self.text_now = ''
        elif k == 'put':
            p = os.path.join(sh.home, ev[1])
            if ev[2] is None:
                os.makedirs(p, exist_ok=True)
            else:
                shells.put(p, ev[2])
            self.files[ev[1]] = ev[2]
        elif k == 'rm':
            p = os.path.join(sh.home, ev[1])
            if os.path.isfile(p):
                os.unlink(p)
                self.files.pop(ev[1], None)
        elif k == 'line':
            # another line, completed and dropped; perhaps with the real key
            self.dirty()
            sh.type(ev[1])
            for how in ev[2]:
                if how == 'q':
                    sh.query()
                elif how == 't':
                    sh.tab()
                else:
                    sh.key('back')
            self.dirty()
        elif k == 'run':
            sh.run(ev[1])
            self.text_now = ''
        else:
            raise core.HarnessError(k)

    def fresh(self, name='f'):
        '''A new shell in the same world.'''
        sh = pool(self.ctx).open(self.kind, self.scripts, name=name, helpers=self.helpers, files=self.files)
        if self.cwd != '.':
            sh.run('cd ~/' + self.cwd)
        return sh

    def query(self, step):
        for ev in step.get('pre', []):
            self.noise(ev)
        text = self.line_of(step)
        tail = ''
        if step.get('after'):
            tail = ' ' + ' '.join(sess.quote(self.kind, w, 0) for w in step['after'])
            self.sh.clear()
            self.sh.type(text + tail)
            for _ in tail:
                self.sh.key('back')
            self.text_now = ''
        else:
            self.goto(text, step.get('mode', 'fresh'))
        q = self.sh.query()
        self.text_now = q.get('line', self.text_now)
        if step.get('after'):
            self.dirty()
        self.out.ticks += 1
        return text, q


def helper_lines(d):
    '''For every helper, a line whose completion runs it (in the root command).'''
    r = {}

    def hs(c):
        return [x['h'] for x in sess.parts_of(c) if 'h' in x]
    n = d['root']
    for o in n['opts']:
        if o.get('c'):
            for h in hs(o['c']):
                s = o['s'][0]
                r.setdefault(h, []).append('%s %s%s' % (d['prog'], s, '=' if len(s) > 2 else ('' if o['arg'] == 'opt' else ' ')))
    for p in n['pos']:
        for h in hs(p['c']):
            r.setdefault(h, []).append('%s %s' % (d['prog'], 'x ' * (p['number'] - 1)))
    return {k: v[:2] for k, v in r.items()}


EXT = {'mime_file': 'file', 'mountpoint': 'findmnt', 'locale': 'locale', 'charset': 'locale', 'net_interface': 'ip', 'filesystem_type': 'grep', 'user': 'getent', 'group': 'getent', 'uid': 'getent', 'gid': 'getent',
       'integer': 'grep', 'hostname': 'getent', 'service': 'systemctl', 'process': 'ps', 'pid': 'ps', 'timezone': 'timedatectl', 'alsa_card': 'aplay', 'login_shell': 'grep', 'ip_address': 'ip'}


def ext_lines(d):
    '''For every standard program that a completer of the root command runs, lines that complete there.'''
    r = {}
    for o in d['root']['opts']:
        if o.get('c') and o['c']['k'] == 'raw':
            for x in re.findall(r'\w+', json.dumps(o['c']['doc'])):
                if x in EXT:
                    s = o['s'][0]
                    r.setdefault(EXT[x], []).append('%s %s%s' % (d['prog'], s, '=' if len(s) > 2 else ('' if o['arg'] == 'opt' else ' ')))
    for p in d['root']['pos']:
        if p['c']['k'] == 'raw':
            for x in re.findall(r'\w+', json.dumps(p['c']['doc'])):
                if x in EXT:
                    r.setdefault(EXT[x], []).append('%s %s' % (d['prog'], 'x ' * (p['number'] - 1)))
    return r


def feature_state(kind, case, pl, step):
    st = pl['st']
    forms = set()
    for w in step['w']:
        if w.startswith('--'):
            forms.add('L=' if '=' in w else 'L')
        elif w.startswith('-') and len(w) > 1:
            forms.add('S+' if len(w) > 2 else 'S')
    c = pl.get('comp')
    return core.h8(repr((kind, sorted(case['def']['cfg'].items(), key=str), pl['kind'], pl.get('form'), c and (c['k'], c.get('form')),
                         len(st.path), len(st.pos), sorted(forms), len(st.given), bool(step.get('after')), step.get('mode'), pl['val'][-1:] in ',=:+' and bool(pl['val']))))


def known(case, pl, missing, extra):
    '''The signature of a recorded finding if a deviation is exactly that one.'''
    if case['shell'] == 'bash' and pl.get('comp'):
        head = pl['val'][:max([i + 1 for i, ch in enumerate(pl['val']) if ch in ':='], default=0)]
        if head and missing and set(x.replace('DOUBLED ', '') for x in extra) == set(head + m for m in missing) and all(
                c['k'] in ('choices', 'exec', 'exec_fast', 'combine') for c in sess.parts_of(pl['comp'])):
            return 'bash:word-break-value'
        # the same inside of an item or a pair: the whole value is inserted after the break
        if head and missing and any(set(extra) == set(head + m[b:] for m in missing) for b in range(1, len(head))):
            for c in sess.parts_of(pl['comp']):
                if 'keys' in c or 'i' in c:
                    return 'bash:pair-of-prefix' if 'keys' in c else 'bash:list-of-prefix'
        for c in sess.parts_of(pl['comp']):
            inner = [c['i']] if 'i' in c else []
            if inner and not extra:
                for x in sess.parts_of(inner[0]):
                    if x['k'] == 'prefix' and re.search('[:=]', x['prefix']) and all(x['prefix'] in m for m in missing):
                        return 'bash:list-of-prefix'
                    if x['k'] in ('kvp', 'kvpe', 'kvl', 'kvle') and x['sep2'] in ':=' and all(x['sep2'] in m for m in missing):
                        return 'bash:list-of-prefix'
            for k in c.get('keys', ()):
                if isinstance(k['arg'], list) and k['key'] + c['sep2'] in pl['val'] and not extra and c['sep2'] in ':=' and all(re.search(re.escape(k['key']) + '[:=].*[:=]', m) for m in missing):
                    return 'bash:pair-of-prefix'
                if isinstance(k['arg'], dict) and k['key'] + c['sep2'] in pl['val']:
                    for x in sess.parts_of(k['arg']):
                        if x['k'] == 'prefix' and re.search('[:=]', x['prefix']) and all(k['key'] in m for m in missing):
                            return 'bash:pair-of-prefix'
    if case['shell'] != 'fish':
        return None

    def dup(c):
        return c and c['k'] == 'list' and c['form'] == 'value_list' and c['dup']
    comp = pl.get('comp')
    if dup(comp) and comp['sep'] == '/' and '/' in pl['val'] and not extra:
        return 'fish:value-list-dup:slash'
    if pl['kind'] == 'optarg' and pl.get('form') in ('equals', 'joined') and pl['owner']['arg'] == 'opt' and (not missing or dup(comp)):
        for n in nodes(case['def']['root']):
            for p in n['pos']:
                c = p['c']
                if dup(c) and c['sep'] in pl['val']:
                    head = pl['val'][:pl['val'].rindex(c['sep']) + 1]
                    if set(extra) <= {head + v for v in c['v']}:
                        return 'fish:value-list-dup:joined'
    return None


def run_model(ctx, case, out, kinds, opts=None):
    '''Run a case and compare every answer at a place of the given kinds with the model.'''
    opts = opts or {}
    kind = case['shell']
    try:
        s = Session(ctx, case, out)
    except sess.GenFail as e:
        out.violation('generation', 'no script for a valid definition: %s' % e)
        return
    try:
        if s.loaderr:
            out.violation(kind + ':load', 'the shell reports an error when the script is loaded: %s' % s.loaderr[-500:])
            return
        for i, step in enumerate(case['steps']):
            text, q = s.query(step)
            if step.get('after') and kind == 'bash':
                pl = s.m.place(step['w'], step['cur'], {})
            else:
                pl = s.m.place(step['w'], step['cur'], {})
            out.event(i, text, sorted(q['cands']))
            out.counters['runs'] += 1
            if step.get('after') and kind == 'zsh' and any(step['cur'] in o['s'] and o['arg'] for o in s.m.visible(pl['st'].path)):
                pl['odd'] = 'a typed out option in front of other words'      # _arguments of zsh takes what follows for its argument
            if kind == 'fish' and step['w'] and fish_stack(s.m, pl['st'].path, step['w'][-1]):
                pl['odd'] = 'stacked letter that takes an argument elsewhere'  # complete of fish splits words without looking at conditions
            if kind == 'fish' and pl['kind'] == 'optarg' and pl.get('form') == 'joined' and fish_letter(s.m, pl, step['cur']):
                pl['odd'] = 'letter that takes an argument in another way elsewhere'
            if pl['odd'] or pl['cands'] is None or pl['kind'] not in kinds:
                out.counters['unspecified'] += 1
                continue
            got = sess.norm(kind, q['cands'], pl, step['cur'])
            out.counters['probe:place-' + pl['kind'] + ('-' + pl['comp']['k'] if pl.get('comp') else '')] += 1
            out.states.add(feature_state(kind, case, pl, step))
            if pl['cands']:
                out.nontrivial = True
            if not sess.agree(kind, got, pl):
                missing = sorted(pl['cands'] - got)
                extra = sorted(got - pl['cands'])
                sig = '%s:%s:%s%s' % (kind, pl['kind'], 'missing' if missing else '', 'extra' if extra else '')
                found = known(case, pl, missing, extra)
                out.violation(found or sig, 'step %d, line %r%s: %s expected %s, got %s (missing %s, extra %s; raw %s; stderr %r)' % (
                    i, text, ' before ' + repr(step['after']) if step.get('after') else '', pl['kind'], sorted(pl['cands']), sorted(got), missing, extra,
                    sorted(q['cands'])[:12], q['err'][:200]))
                if found:
                    continue
                return
        out.note = 'shell %s, %d completions, last line %r' % (kind, len(case['steps']), text if case['steps'] else '')
    except shells.Hang as e:
        out.violation(kind + ':hang', 'the completion did not return: %s' % e)
    except shells.Dead as e:
        out.violation(kind + ':dead', str(e))
    finally:
        pool(ctx).reset()


def fish_letter(m, pl, cur):
    return any(o is not pl['owner'] and o['arg'] != pl['owner']['arg'] and cur[:2] in o['s'] for o in sess.all_options(m.d['root']))


def fish_stack(m, path, w):
    if not re.match(r'-[^-].', w):
        return False
    if not w[1:].isalnum():
        return True        # has_option of fish looks for hidden options among letters and digits only
    here = [o for n in path for o in n['opts']]
    return any(o['arg'] and '-' + c in o['s'] and o not in here for o in sess.all_options(m.d['root']) for c in w[1:-1])


# ---------------------------------------------------------------------------
# Shrinking
# ---------------------------------------------------------------------------
def nodes(n):
    yield n
    for s in n['subs']:
        yield from nodes(s)


def shrink(case):
    '''Smaller cases: fewer steps, fewer disturbances, fewer words, a smaller definition.'''
    yield from core.shrink_key(case, 'steps')
    if case.get('other') and not any(e[0] == 'other' for s in case['steps'] for e in s.get('pre', [])):
        yield {k: v for k, v in case.items() if k not in ('other', 'otherfirst')}
    for i, s in enumerate(case['steps']):
        if s.get('pre'):
            for pre in core.ddmin_list(s['pre']):
                c = copy.deepcopy(case)
                c['steps'][i]['pre'] = pre
                yield c
        if s.get('mode') == 'edit':
            c = copy.deepcopy(case)
            c['steps'][i]['mode'] = 'fresh'
            yield c
        if s.get('after'):
            for a in core.ddmin_list(s['after']):
                c = copy.deepcopy(case)
                c['steps'][i]['after'] = a
                yield c
    for i, s in enumerate(case['steps']):
        for a in range(len(s['w'])):
            for b in (a + 2, a + 1):
                if b > len(s['w']):
                    continue
                c = copy.deepcopy(case)
                c['steps'][i]['w'] = s['w'][:a] + s['w'][b:]
                c['steps'][i]['q'] = s['q'][:a] + s['q'][b:]
                yield c
        if any(s['q']):
            c = copy.deepcopy(case)
            c['steps'][i]['q'] = [0] * len(s['q'])
            yield c
    for k in list(case['def']['cfg']):
        c = copy.deepcopy(case)
        del c['def']['cfg'][k]
        yield c
    ns = list(nodes(case['def']['root']))
    for j, n in enumerate(ns):
        for key in ('subs', 'opts', 'pos'):
            for k in range(len(n[key])):
                c = copy.deepcopy(case)
                del list(nodes(c['def']['root']))[j][key][k]
                yield c
        for k, o in enumerate(n['opts']):
            for f in ('when', 'groups', 'hidden', 'final', 'repeatable', 'sep', 'nosort', 'capture'):
                if f in o:
                    c = copy.deepcopy(case)
                    del list(nodes(c['def']['root']))[j]['opts'][k][f]
                    yield c
            if len(o['s']) > 1:
                for x in range(len(o['s'])):
                    c = copy.deepcopy(case)
                    del list(nodes(c['def']['root']))[j]['opts'][k]['s'][x]
                    yield c


REAL = ['crazy_complete (whole generator, from /repo)', 'generated completion script', 'bash 5.2 / fish 3.7 / zsh 5.9 with its line editor and completion system']
STUB = ['terminal and key strokes (pseudo terminal driven by the simulator)', 'the completed program and the helper commands (scripts scheduled by the simulator)']
COMPONENTS = {'real': REAL, 'stub': STUB}
