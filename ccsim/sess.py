'''Definitions, command lines and the reference model of interactive sessions.

A definition is a tree of commands (plain JSON).  `docs` turns it into a
crazy-complete definition, `Model.analyse` says, independently of the code
under test, what belongs to the place at the cursor of a command line.
'''
import copy, json, re

from . import core

CONS = 'bdfgklmnprstvz'
VOW = 'aeiou'


# ---------------------------------------------------------------------------
# Names
# ---------------------------------------------------------------------------
class Names:
    '''Unique words; no word is a prefix of another one of the same kind unless asked for.'''

    def __init__(self, rng):
        self.rng = rng
        syl = [c + v for c in CONS for v in VOW]
        self.heads = [a + b for a in syl for b in syl]
        rng.shuffle(self.heads)
        self.shorts = list('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789')
        rng.shuffle(self.shorts)
        if rng.random() < 0.15:
            for c in rng.sample('?#@.%/', 3):
                self.shorts.insert(-rng.randint(1, 10), c)

    def word(self):
        return self.heads.pop()

    def short(self):
        return '-' + self.shorts.pop()


# ---------------------------------------------------------------------------
# Generation of definitions
# ---------------------------------------------------------------------------
PROFILE = {
    'subs': 0.5, 'depth': 2, 'opts': (2, 6), 'pos': (0, 3), 'p_arg': 0.5, 'p_optarg': 0.15, 'p_short': 0.7, 'p_long': 0.8,
    'p_old': 0.0, 'p_repeat': 0.15, 'p_final': 0.08, 'p_hidden': 0.08, 'p_group': 0.25, 'p_when': 0.0, 'p_capture': 0.0,
    'p_sep': 0.15, 'p_alias': 0.4, 'p_prefixname': 0.2, 'p_cfg': 0.35, 'p_posrep': 0.3, 'p_help': 0.03, 'kinds': {'choices': 8, 'none': 1, 'exec': 1},
    'p_special': 0.0, 'p_desc': 0.4, 'p_nosort': 0.1, 'p_poswhen': 0.0,
}


# completers whose answers come from the world (home directory, system tables)
MISC = [
    ['file'], ['file'], ['directory'], ['file', {'extensions': ['txt']}], ['file', {'extensions': ['txt', 'md'], 'fuzzy': True}], ['file', {'directory': '/etc'}], ['file', {'ignore_globs': ['*.md']}],
    ['directory', {'directory': '/usr'}], ['file_list'], ['file_list', {'separator': ':'}], ['file_list', {'duplicates': True}], ['directory_list'], ['directory_list', {'separator': ';'}],
    ['timezone'], ['alsa_card'], ['command'], ['command', {'path_append': '/opt/x'}], ['integer', {'suffixes': {'K': 'kilo', 'M': 'mega'}}], ['signal'], ['environment'], ['group'], ['user'], ['uid'], ['gid'], ['date', '%Y-%m-%d'], ['date_format'], ['integer'], ['integer', {'min': 1, 'max': 9}], ['float'], ['range', 1, 9, 2],
    ['ip_address'], ['mime_file', 'text/.*'], ['net_interface'], ['filesystem_type'], ['mountpoint'], ['commandline_string'], ['hostname'], ['service'], ['login_shell'], ['locale'], ['charset'],
    ['list', ['file']], ['list', ['directory'], {'separator': ':'}], ['combine', [['file'], ['choices', ['cc1', 'cc2']]]], ['combine', [['directory'], ['signal'], ['choices', ['cc3']]]],
    ['prefix', 'pp:', ['file']], ['prefix', 'pp=', ['directory', {'directory': '/usr'}]], ['key_value_pair', '=', [['kf', 'f', ['file']], ['kd', 'd', ['directory']]]],
    ['key_value_list', ',', '=', [['kf', 'f', ['file']], ['kc', 'c', ['choices', ['c1', 'c2']]], ['kn', 'n', None]]],
    ['list', ['list', ['choices', ['n1', 'n2']], {'separator': '+'}]], ['list', ['key_value_pair', '=', [['a1', 'x', ['choices', ['v1', 'v2']]], ['a2', 'y', None]]]],
    ['combine', [['list', ['choices', ['l1', 'l2']]], ['choices', ['l3']]]],
    ['file', {'directory': 'dir1'}], ['directory', {'directory': './dir1'}], ['file', {'directory': 'dir1', 'ignore_globs': ['*.md', 'x*']}], ['file_list', {'directory': 'dir1'}], ['directory', {'directory': 'dir2'}],
    ['directory_list', {'directory': 'dir1', 'separator': ':'}], ['file_list', {'ignore_globs': ['*.md'], 'separator': ':'}], ['file_list', {'extensions': ['txt'], 'duplicates': True}],
]


def profile(**kw):
    p = dict(PROFILE)
    p.update(kw)
    return p


METAVARS = ['query', 'values', 'value', 'exec', 'prefix', 'list', 'FILE', 'file-name', 'FILE...', '<x>', 'key_value_list', 'prefix_compreply', 'history', 'number', 'parse_line', 'has_option', 'filedir']
SPECIAL = [':', '=', '@', '+', '.', '/', '%', '~', '#', '{', '}', ' ', "'", '"', '$', '`', ';', '&', '|', '<', '>', '(', ')', '*', '?', '[', ']', '!', '^', '\\', ',']
SAFE_SPECIAL = ['@', '+', '.', '/', '%', '-', '_', '^']


class DefGen:
    want_any = None

    def __init__(self, rng, prof):
        self.rng = rng
        self.p = prof
        self.n = Names(rng)
        self.nvar = 0
        self.nexec = 0
        self.helpers = {}
        self.allopts = []
        self.old = rng.random() < prof['p_old']
        self.nested = 0

    def chance(self, k):
        return self.rng.random() < self.p[k]

    # -- completers -----------------------------------------------------------
    def values(self, lo=2, hi=5):
        h = self.n.word()
        n = self.rng.randint(lo, hi)
        tails = ['', 'a', 'ab', 'ba', 'c', 'da', 'e1', 'f-g', 'h_i', 'J', '9']
        self.rng.shuffle(tails)
        r = [h + t for t in tails[:n]]
        if self.chance('p_special'):
            sp = self.p.get('specials', SAFE_SPECIAL)
            r = [v if self.rng.random() < 0.4 else v + self.rng.choice(sp) + self.rng.choice('xyz') for v in r]
        return sorted(set(r))

    def nest(self):
        return self.rng.random() < self.p.get('p_nest', 0) / (1 + self.nested)

    def completer(self, kinds=None):
        self.nested += bool(kinds)
        try:
            return self.completer1(kinds or self.p['kinds'])
        finally:
            self.nested -= bool(kinds)

    def completer1(self, kinds):
        k = self.rng.choices(list(kinds), list(kinds.values()))[0]
        rng = self.rng
        if k == 'choices':
            return {'k': 'choices', 'v': self.values(), 'desc': self.chance('p_desc')}
        if k == 'none':
            return {'k': 'none'}
        if k == 'range':
            a = rng.randint(1, 50)
            return {'k': 'range', 'a': a, 'b': a + rng.randint(1, 5)}
        if k in ('exec', 'exec_fast'):
            return {'k': k, 'h': self.helper(self.values(), desc=self.chance('p_desc'))}
        if k == 'list':
            sep = rng.choice([',', ',', ',', ':', '+', '%', '/'] if self.p.get('seps') else [','])
            inner = rng.choice(['choices', 'choices', 'exec'])
            c = {'k': 'list', 'sep': sep, 'dup': rng.random() < 0.2, 'form': rng.choice(['value_list', 'list'])}
            vs = self.listvalues(sep)
            if c['form'] == 'list' and self.nest():
                c['i'] = self.completer({'range': 1, 'combine': 2, 'prefix': 1})
            elif c['form'] == 'value_list' or inner == 'choices':
                c['v'] = vs
                c['desc'] = self.chance('p_desc')
            else:
                c['h'] = self.helper(vs, desc=self.chance('p_desc'))
            return c
        if k in ('kvl', 'kvle', 'kvp', 'kvpe'):
            sep1 = rng.choice([',', ',', '/', '+']) if self.p.get('seps') else ','
            sep2 = rng.choice(['=', '=', ':', '@']) if self.p.get('seps') and k != 'kvpe' else '='
            names = [self.n.word() for _ in range(rng.randint(2, 5))]
            keys = []
            for i, nm in enumerate(names):
                t = rng.random()
                if 0.4 <= t < 0.5 and self.nested:
                    t = 1
                key = {'key': nm, 'rep': k in ('kvl', 'kvle') and rng.random() < 0.2,
                       'arg': None if t < 0.4 else ('none' if t < 0.5 else self.values(2, 4)), 'excl': []}
                if k in ('kvl', 'kvp') and isinstance(key['arg'], list) and self.nest():
                    key['arg'] = self.completer({'exec': 3, 'range': 1, 'combine': 2, 'list': 1 if k == 'kvp' else 0, 'prefix': 1})
                    if key['arg']['k'] == 'prefix' and rng.random() < 0.5:
                        key['arg']['prefix'] = self.n.word() + sep2
                elif k == 'kvp' and isinstance(key['arg'], list) and key['arg'] and rng.random() < 0.12:
                    key['arg'][0] = self.n.word() + sep2 + self.n.word()
                if k in ('kvl', 'kvle') and rng.random() < 0.3:
                    key['excl'] = rng.sample([x for x in names if x != nm], rng.choice([1, 1, min(3, len(names) - 1)]))
                keys.append(key)
            c = {'k': k, 'sep1': sep1, 'sep2': sep2, 'keys': keys}
            if k in ('kvle', 'kvpe'):
                for key in keys:
                    if key['arg'] == 'none':
                        key['arg'] = []
                c['h'] = self.helper(None, keys=keys)
            return c
        if k == 'prefix':
            inner = {'k': 'choices', 'v': self.values(), 'desc': False}
            if self.nest():
                inner = self.completer({'choices': 1, 'exec': 4, 'list': 2, 'kvl': 1, 'kvp': 1, 'combine': 2, 'range': 1})
            return {'k': 'prefix', 'prefix': self.n.word() + rng.choice([':', '=', '@', '/', '-', '']), 'c': inner}
        if k == 'combine':
            kinds = {'choices': 3, 'exec': 1}
            if self.nest():
                kinds = {'choices': 2, 'exec': 2, 'list': 2, 'kvl': 1, 'kvp': 1, 'prefix': 1, 'range': 1}
            cs = [self.completer(kinds) for _ in range(rng.randint(2, 3))]
            return {'k': 'combine', 'c': cs}
        if k in ('file', 'directory'):
            return {'k': k}
        if k == 'misc':
            return {'k': 'raw', 'doc': copy.deepcopy(rng.choice([m for m in MISC if m[0] not in self.p.get('nomisc', ())]))}
        raise core.HarnessError(k)

    def listvalues(self, sep):
        n = self.rng.randint(2, 5)
        r = []
        for i in range(n):
            w = self.n.word()
            r.append(w + self.rng.choice(['', 'x', '-1', '2']))
        if self.rng.random() < 0.3:
            r.append(r[0] + 'z')          # one value is a prefix of another one
        return sorted(set(r))

    def helper(self, values, desc=False, keys=None):
        self.nexec += 1
        name = 'hlp%d' % self.nexec
        self.helpers[name] = {'v': values, 'desc': desc, 'keys': keys}
        return name

    # -- options --------------------------------------------------------------
    def option(self, groups, longs):
        rng = self.rng
        s = []
        if self.old:
            for _ in range(rng.choice([1, 1, 2])):
                s.append('-' + self.n.word() if rng.random() < 0.6 else '--' + self.longname(longs))
        else:
            if self.chance('p_short') and self.n.shorts:
                s.append(self.n.short())
                if rng.random() < 0.1:
                    s.append(self.n.short())
            if self.chance('p_long') or not s:
                s.append('--' + self.longname(longs))
                if rng.random() < 0.15:
                    s.append('--' + self.longname(longs))
        o = {'s': s, 'arg': None}
        t = rng.random()
        if t < self.p['p_arg']:
            o['arg'] = 'req'
        elif t < self.p['p_arg'] + self.p['p_optarg']:
            o['arg'] = 'opt'
        if o['arg']:
            o['c'] = self.completer()
            if o['arg'] == 'req' and self.chance('p_sep'):
                o['sep'] = rng.choice(['space', 'equals', 'both'])
        if self.chance('p_repeat'):
            o['repeatable'] = True
        elif self.chance('p_hidden'):
            o['hidden'] = True
        elif self.chance('p_final'):
            o['final'] = True
        if groups and self.chance('p_group'):
            o['groups'] = rng.sample(groups, 1 if rng.random() < 0.8 else min(2, len(groups)))
        if o['arg'] and self.chance('p_capture'):
            self.nvar += 1
            o['capture'] = '_CAP%d' % self.nvar
        if o['arg'] and self.chance('p_nosort'):
            o['nosort'] = True
        return o

    def longname(self, longs):
        if longs and self.chance('p_prefixname'):
            base = self.rng.choice(longs)
            w = base + self.rng.choice(['-x', 'er', '-on', '2'])
            if w not in longs:
                longs.append(w)
                return w
        num = [x for x in longs if x[-1:].isdigit()]
        if num and self.rng.random() < 0.4:
            w = self.number(self.rng.choice(num))
            if w not in longs:
                longs.append(w)
                return w
        w = self.n.word()
        t = self.rng.random()
        if t > 0.9:
            w += str(self.rng.choice([1, 2, 9, 10, 19, 99, 2015]))
        elif t < 0.2:
            w += '-' + self.rng.choice(['all', 'dir', 'x'])
        elif t < 0.21:
            w += self.rng.choice(['.x', '+x', ':x', '@x', '.', '/x'])
        elif t < 0.25:
            w += '_' + self.rng.choice(['all', 'dir'])
        longs.append(w)
        return w

    def number(self, w):
        m = re.match(r'(.*?)([0-9]+)$', w)
        i = int(m.group(2))
        return m.group(1) + self.rng.choice([str(i + 1), str(i + 1), str(i + 2), str(abs(i - 1)), '0%d' % i, '%d0' % i])

    def node(self, name, depth, nparents, anc=frozenset()):
        rng = self.rng
        groups = ['G%d' % i for i in range(rng.randint(1, 2))]
        longs = []
        n = {'name': name, 'aliases': [], 'opts': [], 'pos': [], 'subs': []}
        for _ in range(rng.randint(*self.p['opts'])):
            if len(self.n.shorts) < 3:
                break
            o = self.option(groups, longs)
            if self.p.get('p_samename') and self.allopts and rng.random() < self.p['p_samename']:
                # the name of an option of another command, which has nothing to do with this one
                s = rng.choice(rng.choice(self.allopts)['s'])
                if s not in anc and not any(s in x['s'] for x in n['opts']) and (self.old or s.startswith('--') or len(s) == 2):
                    o['s'] = [s] + [x for x in o['s'] if rng.random() < 0.5]
                    if s.startswith('--') and s[2:] not in longs:
                        longs.append(s[2:])
            elif self.chance('p_help') and not self.old:
                # the names of options that every program has
                s = [x for x in (['-h', '--help'], ['--version'], ['-v', '--version'], ['--help']) if not set(x) & {y for z in n['opts'] for y in z['s']} | anc & set(x)]
                if s:
                    o = {'s': rng.choice(s), 'arg': None}
                    if rng.random() < 0.3:
                        o['final'] = True
                    for x in o['s']:
                        if len(x) == 2 and x[1] in self.n.shorts:
                            self.n.shorts.remove(x[1])
            elif rng.random() < 0.06 and [x for x in longs if '-' in x or '_' in x]:
                # --a-b and --a_b
                w = rng.choice([x for x in longs if '-' in x or '_' in x])
                w = w.replace('-', '\0').replace('_', '-').replace('\0', '_')
                if w not in longs:
                    longs.append(w)
                    o['s'] = ['--' + w]
            n['opts'].append(o)
        has_subs = depth > 0 and self.chance('subs')
        np = rng.randint(*self.p['pos'])
        if has_subs:
            np = min(np, 1) if rng.random() < 0.3 else 0
        for i in range(np):
            pos = {'number': i + 1, 'c': self.completer()}
            if rng.random() < 0.15:
                pos['metavar'] = rng.choice(METAVARS)
            if not has_subs and i == np - 1 and self.chance('p_posrep'):
                pos['repeatable'] = True
            n['pos'].append(pos)
        if self.chance('p_when'):
            self.whens(n, nparents)
        if has_subs:
            k = rng.randint(1, 3)
            names = []
            for _ in range(k):
                w = self.n.word()
                if names and rng.random() < self.p['p_prefixname']:
                    w = rng.choice(names)
                    w = rng.choice([w + 'er', w + 'x', w + '-y', w + '_y', w + '.', self.number(w + '19'), self.number(w + '2'), w + '19', w.replace('-', '_') if '-' in w else w + '--y'])
                    if w in names:
                        continue
                names.append(w)
            for w in names:
                c = self.node(w, depth - 1, nparents + np + 1, set(anc) | {s for o in n['opts'] for s in o['s']})
                if self.chance('p_alias'):
                    c['aliases'] = [self.n.word()]
                    t = rng.random()
                    if t < 0.35 and k > 1:
                        # shares its beginning with the name of another command
                        x = rng.choice([x for x in names if x != w] or [w])
                        x = x[:rng.randint(1, len(x))] + rng.choice(['', 'q', 'zo'])
                        if x not in names and not any(x in y['aliases'] for y in n['subs']):
                            c['aliases'] = [x]
                n['subs'].append(c)
                self.allopts += all_options(c)      # free for the following siblings, which never meet them on a line
            for c in n['subs']:
                for o in all_options(c):
                    self.allopts = [x for x in self.allopts if x is not o]
            if self.p.get('p_sharedname'):
                self.share(n)
        return n

    def share(self, n):
        '''Let a subcommand have an option of the same name as its parent command.'''
        for c in n['subs']:
            if n['opts'] and c['opts'] and self.chance('p_sharedname'):
                s = self.rng.choice(self.rng.choice(n['opts'])['s'])
                if not any(s in o['s'] for o in c['opts']):
                    self.rng.choice(c['opts'])['s'].append(s)

    # -- when -----------------------------------------------------------------
    def atom(self, n, nparents, forpos):
        rng = self.rng
        if self.want_any is None:
            self.want_any = rng.random() < 0.6      # for the whole definition: scripts leave out code for flags that are not used
        args = [o for o in n['opts'] if o['arg'] and o['c']['k'] in ('choices', 'exec', 'none')]
        k = rng.choice(['has', 'has', 'is', 'is', 'match', 'count', 'contains'])
        if k in ('is', 'match') and not args:
            k = 'has'
        if k == 'has':
            os_ = rng.sample(n['opts'], min(len(n['opts']), rng.choice([1, 1, 2])))
            return ['has', [rng.choice(o['s']) for o in os_]]
        if k == 'is':
            o = rng.choice(args)
            vs = self.optvalues(o) or ['v1', 'v2']
            vals = rng.sample(vs, min(len(vs), rng.choice([1, 1, 2])))
            o['repeatable'] = o.get('repeatable') or not o.get('hidden') and rng.random() < 0.3
            nocase = rng.random() < 0.2
            if nocase:
                vals = [v.upper() if rng.random() < .5 else v for v in vals]
            return ['is', {'o': [rng.choice(o['s'])], 'v': vals, 'nocase': nocase, 'any': self.want_any and rng.random() < (0.6 if o.get('repeatable') else 0.2)}]
        if k == 'match':
            o = rng.choice(args)
            vs = self.optvalues(o) or ['v1', 'v2']
            v = rng.choice(vs)
            v = re.sub(r'[^a-zA-Z0-9]', '.', v)
            rx = rng.choice(['^' + v[:3], v + '$', v[1:4], '^(%s|zzz)$' % v, v[:2] + '.+'])
            o['repeatable'] = o.get('repeatable') or not o.get('hidden') and rng.random() < 0.3
            nocase = rng.random() < 0.3
            if nocase:
                rx = ''.join(x.swapcase() if rng.random() < .4 else x for x in rx)
            return ['match', {'o': [rng.choice(o['s'])], 're': rx, 'nocase': nocase, 'any': self.want_any and rng.random() < (0.6 if o.get('repeatable') else 0.2)}]
        if k == 'count' and not forpos:
            return ['count', rng.choice(['==', '!=', '<=', '>=', '<', '>']), rng.randint(0, 2) + nparents]
        if k == 'count':
            k = 'has'
            return ['has', [rng.choice(rng.choice(n['opts'])['s'])]]
        num = rng.randint(1, max(1, len(n['pos'])))
        if forpos:
            num = forpos - 1
            if num < 1:
                return ['has', [rng.choice(rng.choice(n['opts'])['s'])]]
        c = [p for p in n['pos'] if p['number'] == num]
        vs = self.compvalues(c[0]['c']) if c else None
        vs = vs or ['v1', 'v2']
        return ['contains', num + nparents, rng.sample(vs, min(len(vs), rng.choice([1, 2]))), rng.random() < 0.15]

    def optvalues(self, o):
        return self.compvalues(o['c'])

    def compvalues(self, c):
        if c['k'] == 'choices':
            return c['v']
        if c['k'] in ('exec', 'exec_fast'):
            return self.helpers[c['h']]['v']
        return None

    def cond(self, n, nparents, forpos=0, depth=2):
        rng = self.rng
        t = rng.random()
        if depth == 0 or t < 0.45:
            a = self.atom(n, nparents, forpos)
            return ['not', a] if rng.random() < 0.25 else a
        op = 'and' if t < 0.75 else 'or'
        a = self.cond(n, nparents, forpos, depth - 1)
        b = self.cond(n, nparents, forpos, depth - 1)
        r = [op, a, b]
        return ['not', r] if rng.random() < 0.15 else r

    def whens(self, n, nparents):
        rng = self.rng
        if not n['opts']:
            return
        for o in n['opts']:
            if rng.random() < self.p.get('p_when_opt', 0.4):
                others = dict(n, opts=[x for x in n['opts'] if x is not o])
                if others['opts']:
                    o['when'] = self.cond(others, nparents)
        for p in list(n['pos']):
            if rng.random() < self.p.get('p_when_pos', 0.4):
                p['when'] = self.cond(n, nparents, forpos=p['number'])
                if rng.random() < 0.4 and not p.get('repeatable'):
                    q = {'number': p['number'], 'c': self.completer({'choices': 1}), 'when': ['not', p['when']] if rng.random() < .6 else self.cond(n, nparents, forpos=p['number'])}
                    n['pos'].append(q)

    def config(self):
        rng = self.rng
        cfg = {}
        if not self.chance('p_cfg'):
            return cfg
        if rng.random() < self.p.get('p_abbrcmd', .3):
            cfg['abbreviate-commands'] = True
        if rng.random() < .25:
            cfg['abbreviate-options'] = True
        if rng.random() < .35:
            cfg['inherit-options'] = True
        if rng.random() < .15:
            cfg['option-stacking'] = False
        if rng.random() < .15:
            cfg['repeatable-options'] = True
        if rng.random() < .15:
            cfg['long-option-argument-separator'] = rng.choice(['space', 'equals', 'both'])
        d = [x for x in ('hidden', 'final', 'groups', 'repeatable', 'when') if rng.random() < .12]
        if d:
            cfg['disable'] = d
        if rng.random() < .25:
            cfg['fish-inline-conditions'] = True
        return cfg

    def make(self, prog='vp'):
        root = self.node(prog, self.p['depth'], 0)
        cfg = self.config()
        if 'inherit-options' in cfg:
            for o in all_options(root):
                if {'--help', '--version'} & set(o['s']):
                    o.pop('final', None)       # names that several commands have
        if self.p.get('p_samename'):
            cfg.pop('inherit-options', None)
        return {'prog': prog, 'root': root, 'cfg': cfg, 'helpers': self.helpers}


def gen_def(rng, prof, prog='vp'):
    return DefGen(rng, prof).make(prog)


# ---------------------------------------------------------------------------
# crazy-complete documents
# ---------------------------------------------------------------------------
def quote_when(s):
    return s if re.match(r'^[A-Za-z0-9_@%+=:./-]+$', s) else "'%s'" % s.replace("'", "'\\''")


def when_str(w, top=True):
    k = w[0]
    if k == 'has':
        return 'has_option ' + ' '.join(w[1])
    if k in ('is', 'match'):
        d = w[1]
        f = (['any'] if d['any'] else []) + (['nocase'] if d['nocase'] else [])
        vals = d['v'] if k == 'is' else [d['re']]
        return ' '.join(['option_is' if k == 'is' else 'option_match'] + f + (['--'] if f and 0 else []) + d['o'] + ['--'] + [quote_when(v) for v in vals])
    if k == 'count':
        return 'positional_count %s %d' % (w[1], w[2])
    if k == 'contains':
        return 'positional_contains %s%d %s' % ('-i ' if w[3] else '', w[1], ' '.join(quote_when(v) for v in w[2]))
    if k == 'not':
        return '! ' + (when_str(w[1], False) if w[1][0] not in ('and', 'or') else '(%s)' % when_str(w[1]))
    if k in ('and', 'or'):
        return ' '.join(['(%s)' % when_str(x) if x[0] in ('and', 'or') else when_str(x, False) for x in w[1:2]] + ['&&' if k == 'and' else '||'] +
                        ['(%s)' % when_str(x) if x[0] in ('and', 'or') else when_str(x, False) for x in w[2:3]])
    raise core.HarnessError(k)


def helper_words(d, h):
    return d['helpers'][h]


def comp_doc(c, d):
    k = c['k']

    def vals(c):
        if c.get('desc'):
            return {v: 'about ' + v[:2].upper() for v in c['v']}
        return list(c['v'])
    if k == 'choices':
        return ['choices', vals(c)]
    if k == 'none':
        return ['none']
    if k == 'range':
        return ['range', c['a'], c['b']]
    if k in ('exec', 'exec_fast'):
        return [k, c['h']]
    if k == 'list':
        o = {}
        if c['sep'] != ',':
            o['separator'] = c['sep']
        if c['dup']:
            o['duplicates'] = True
        if c['form'] == 'value_list':
            o['values'] = vals(c)
            return ['value_list', o]
        inner = ['choices', vals(c)] if 'v' in c else ['exec', c['h']] if 'h' in c else comp_doc(c['i'], d)
        return ['list', inner] + ([o] if o else [])
    if k in ('kvl', 'kvp'):
        defs = []
        for x in c['keys']:
            a = None if x['arg'] is None else (['none'] if x['arg'] == 'none' else comp_doc(x['arg'], d) if isinstance(x['arg'], dict) else ['choices', x['arg']])
            e = [('*' if x['rep'] else '') + x['key'], 'key ' + x['key'][:2].upper(), a]
            if x['excl']:
                e.append(x['excl'])
            defs.append(e)
        return ['key_value_list', c['sep1'], c['sep2'], defs] if k == 'kvl' else ['key_value_pair', c['sep2'], defs]
    if k == 'kvle':
        return ['key_value_list_exec', c['sep1'], c['sep2'], c['h']]
    if k == 'kvpe':
        return ['key_value_pair_exec', c['sep2'], c['h']]
    if k == 'prefix':
        return ['prefix', c['prefix'], comp_doc(c['c'], d)]
    if k == 'combine':
        return ['combine', [comp_doc(x, d) for x in c['c']]]
    if k in ('file', 'directory'):
        return [k]
    if k == 'raw':
        return c['doc']
    raise core.HarnessError(k)


def docs(d):
    if 'docs' in d:
        return d['docs']
    out = []

    def walk(n, path):
        doc = {'prog': ' '.join(path)}
        if n['aliases']:
            doc['aliases'] = n['aliases']
        doc['help'] = 'Command ' + n['name']
        doc.update(n.get('extra', {}))
        opts = []
        for o in n['opts']:
            e = {'option_strings': o['s']}
            if 'help' not in o or o['help']:
                e['help'] = o.get('help', 'Option ' + o['s'][0].strip('-')[:2].upper())
            if o['arg']:
                e['complete'] = comp_doc(o['c'], d)
                e['metavar'] = 'ARG'
                if o['arg'] == 'opt':
                    e['optional_arg'] = True
                if o.get('sep'):
                    e['long_opt_arg_sep'] = o['sep']
            for k in ('repeatable', 'final', 'hidden', 'nosort'):
                if o.get(k) is not None and k in o:
                    e[k] = o[k]
            if o.get('groups'):
                e['groups'] = o['groups']
            if o.get('when'):
                e['when'] = when_str(o['when'])
            if o.get('capture'):
                e['capture'] = o['capture']
            opts.append(e)
        if opts:
            doc['options'] = opts
        ps = []
        for p in n['pos']:
            e = {'number': p['number'], 'metavar': p.get('metavar') or 'P%d' % p['number'], 'complete': comp_doc(p['c'], d)}
            if p.get('repeatable'):
                e['repeatable'] = True
            if p.get('when'):
                e['when'] = when_str(p['when'])
            ps.append(e)
        if ps:
            doc['positionals'] = ps
        out.append(doc)
        for s in n['subs']:
            walk(s, path + [s['name']])
    walk(d['root'], [d['prog']])
    return out


def cli_args(d, shell):
    a = []
    for k, v in sorted(d['cfg'].items()):
        if k == 'disable':
            a.append('--disable=' + ','.join(v))
        elif k == 'long-option-argument-separator':
            a.append('--%s=%s' % (k, v))
        elif k in ('function-prefix',):
            a.append('--%s=%s' % (k, v))
        else:
            a.append('--%s=%s' % (k, 'True' if v else 'False'))
    return a


def script(srv, d, shell, includes=()):
    '''Generate the completion script with the code under test; raises HarnessError if it fails.'''
    world = {'w/def.json': json.dumps(docs(d))}
    argv = cli_args(d, shell)
    for i, t in enumerate(includes):
        world['w/inc%d' % i] = t
        argv.append('--include-file=inc%d' % i)
    res = srv.run(world, argv + [shell, 'def.json'])
    if res['status'] != 'exit:0' or not res['stdout']:
        raise GenFail('%s %s' % (res['status'], res['stderr'].decode('utf-8', 'replace')[-600:]))
    return res['stdout'].decode('utf-8', 'surrogateescape')


class GenFail(Exception):
    pass


# ---------------------------------------------------------------------------
# Reference model
# ---------------------------------------------------------------------------
class Model:
    def __init__(self, d, shell):
        self.d = d
        self.shell = shell
        self.cfg = d['cfg']
        self.dis = set(self.cfg.get('disable', []))
        self.inherit = bool(self.cfg.get('inherit-options'))

    # -- options --------------------------------------------------------------
    def visible(self, path):
        '''Options that may be used in the command at the end of path, own ones first.'''
        r = list(path[-1]['opts'])
        if self.inherit:
            for n in path[:-1]:
                r += n['opts']
        return r

    def sep(self, o):
        return o.get('sep') or self.cfg.get('long-option-argument-separator') or 'both'

    def long_names(self, path):
        '''long option spellings -> option, in the command at the end of path'''
        r = {}
        abbr = self.cfg.get('abbreviate-options') and self.shell == 'bash'
        nodes = [path[-1]] + (path[:-1] if self.inherit else [])
        for n in nodes:
            for o in n['opts']:
                for s in o['s']:
                    if len(s) > 2:
                        r.setdefault(s, o)
        if abbr:
            full = dict(r)
            for s, o in full.items():
                for k in range(3, len(s)):
                    p = s[:k]
                    if p not in full and sum(1 for t in full if t.startswith(p)) == 1:
                        r[p] = o
        return r

    def short_names(self, path):
        r = {}
        for o in self.visible(path):
            for s in o['s']:
                if len(s) == 2:
                    r.setdefault(s[1], o)
        return r

    def sub(self, node, word):
        for s in node['subs']:
            if word == s['name'] or word in s['aliases']:
                return s
        if self.cfg.get('abbreviate-commands') and word:
            allnames = [s['name'] for s in node['subs']]
            m = [s for s in node['subs'] if s['name'].startswith(word)]
            if len(m) == 1:
                return m[0]
        return None

    @staticmethod
    def npos(node):
        return max([p['number'] for p in node['pos']], default=0)

    def parse(self, words):
        '''Attribute the words before the cursor.'''
        st = State()
        st.model = self
        st.path = [self.d['root']]
        st.base = 0               # positionals used up by the parent commands
        st.pos = []
        st.given = []             # (option, value or None, spelling, node depth)
        st.pending = None
        st.dashdash = False
        st.odd = ''
        st.misuse = False
        i = 0
        while i < len(words):
            w = words[i]
            i += 1
            node = st.path[-1]
            if st.dashdash or not w.startswith('-') or w == '-':
                st.pos.append(w)
                if node['subs'] and len(st.pos) == st.base + self.npos(node) + 1:
                    if st.dashdash:
                        st.odd = 'subcommand after --'
                    s = self.sub(node, w)
                    if s is None:
                        st.odd = 'unknown subcommand'
                    else:
                        st.path.append(s)
                        st.base = len(st.pos)
                continue
            if w == '--':
                st.dashdash = True
                if st.pos and self.shell == 'zsh':
                    st.odd = '-- after a positional'     # _arguments of zsh 5.9 miscounts here
                continue
            longs = self.long_names(st.path)
            name, eq, val = w.partition('=')
            o = longs.get(name)
            if o is not None:
                if eq:
                    if o['arg'] is None or (o['arg'] == 'req' and self.sep(o) == 'space'):
                        st.odd = 'value form'
                    st.give(o, val, name)
                elif o['arg'] == 'req':
                    if self.sep(o) == 'equals':
                        st.odd = 'value form'
                    if i < len(words):
                        st.give(o, words[i], name)
                        i += 1
                    else:
                        st.pending = o
                        st.pend_name = name
                else:
                    st.give(o, None, name)
                continue
            if w.startswith('--'):
                st.odd = 'unknown option'
                continue
            shorts = self.short_names(st.path)
            j = 1
            while j < len(w):
                o = shorts.get(w[j])
                if o is None:
                    st.odd = 'unknown option'
                    j += 1
                    continue
                rest = w[j + 1:]
                if o['arg'] is None:
                    st.give(o, None, '-' + w[j])
                    j += 1
                    continue
                if rest:
                    st.give(o, rest, '-' + w[j])
                elif o['arg'] == 'opt':
                    st.give(o, None, '-' + w[j])
                elif i < len(words):
                    st.give(o, words[i], '-' + w[j])
                    i += 1
                else:
                    st.pending = o
                    st.pend_name = '-' + w[j]
                break
        return st

    def surplus(self, st):
        '''A positional before the cursor that no command takes now (_arguments of zsh gives up there).'''
        top = base = 0
        for node in st.path:
            for p in node['pos']:
                if self.when_ok(p, st):
                    top = max(top, base + p['number'])
                    if p.get('repeatable'):
                        return False
            base += self.npos(node)
            if node['subs']:
                base += 1
                top = base
        return len(st.pos) > top

    def same_number(self, st):
        '''Several positionals with one number are enabled (_arguments of zsh rejects that).'''
        path = st.path
        try:
            for k, node in enumerate(path):
                st.path = path[:k + 1]        # conditions look at the options known to that command
                nums = [p['number'] for p in node['pos'] if self.when_ok(p, st)]
                if len(nums) > len(set(nums)):
                    return True
            return False
        finally:
            st.path = path

    # -- conditions -----------------------------------------------------------
    def holds(self, w, st):
        k = w[0]
        if k == 'and':
            return self.holds(w[1], st) and self.holds(w[2], st)
        if k == 'or':
            return self.holds(w[1], st) or self.holds(w[2], st)
        if k == 'not':
            return not self.holds(w[1], st)
        if k == 'has':
            os_ = self.by_strings(w[1], st)
            return any(g[0] is o for g in st.given for o in os_)
        if k in ('is', 'match'):
            c = w[1]
            os_ = self.by_strings(c['o'], st)
            vals = [g[1] for g in st.given if any(g[0] is o for o in os_)]
            if not c['any']:
                vals = vals[-1:]
            for v in vals:
                v = v or ''
                if k == 'is':
                    if (v.lower() in [x.lower() for x in c['v']]) if c['nocase'] else v in c['v']:
                        return True
                elif re.search(c['re'], v, re.I if c['nocase'] else 0):
                    return True
            return False
        if k == 'count':
            n = len(st.pos)
            return {'==': n == w[2], '!=': n != w[2], '<=': n <= w[2], '>=': n >= w[2], '<': n < w[2], '>': n > w[2]}[w[1]]
        if k == 'contains':
            if len(st.pos) < w[1]:
                return False
            v = st.pos[w[1] - 1]
            return v.lower() in [x.lower() for x in w[2]] if w[3] else v in w[2]
        raise core.HarnessError(k)

    def by_strings(self, strings, st):
        return [o for o in self.visible(st.path) if any(s in o['s'] for s in strings)]

    def when_ok(self, e, st):
        return 'when' not in e or 'when' in self.dis or self.holds(e['when'], st)

    # -- the place at the cursor ----------------------------------------------
    def final_given(self, st):
        return 'final' not in self.dis and [g[0] for g in st.given if g[0].get('final')]

    def repeatable(self, o):
        if o.get('hidden') and 'hidden' not in self.dis:
            return False                 # hidden options cannot be repeatable
        if 'repeatable' in self.dis:
            return True
        rep = o.get('repeatable')
        return bool(self.cfg.get('repeatable-options')) if rep is None else rep

    def unused(self, o, st):
        '''The rules for repetition and exclusion let o be used (again).'''
        given = [g[0] for g in st.given]
        if not self.repeatable(o) and any(g is o for g in given):
            return False
        if 'groups' not in self.dis and o.get('groups'):
            node = [n for n in st.path if any(x is o for x in n['opts'])][0]
            if any(g is not o and set(g.get('groups', [])) & set(o['groups']) and any(g is x for x in node['opts']) for g in given):
                return False
        return True

    def usable(self, o, st):
        return self.unused(o, st) and not self.final_given(st)

    def option_names(self, st):
        '''Option strings that may still be used, or None if the rules do not say.'''
        fin = self.final_given(st)
        if fin:
            if self.shell == 'zsh' and not self.inherit and not any(fin[0] is x for x in st.path[-1]['opts']):
                return None
            return set()
        r = set()
        for o in self.visible(st.path):
            if o.get('hidden') and 'hidden' not in self.dis:
                continue
            if self.when_ok(o, st) and self.unused(o, st):
                r |= set(o['s'])
        return r

    def place(self, words, cur, world):
        '''What belongs at the cursor: dict kind, cands (set, prefix filtered by cur) or None, info.'''
        st = self.parse(words)
        r = {'kind': 'none', 'cands': None, 'st': st, 'odd': st.odd, 'val': cur, 'pre': ''}
        if st.misuse and self.shell == 'zsh':
            r['odd'] = 'option used against the rules'
        if self.shell == 'zsh' and self.final_given(st) and (st.pending is not None or not cur.startswith('-')):
            r['odd'] = 'after a final option'         # zsh drops the positionals as well; the documentation only speaks of options
        if self.shell == 'fish' and st.given and words and not st.dashdash and st.pending is None:
            o, val, name, _ = st.given[-1]
            if o['arg'] == 'opt' and words[-1] == name and not name.startswith('--') and (len(name) > 2 or self.cfg.get('option-stacking') is False):
                r['odd'] = 'after an old-style option with an optional argument'   # fish completes its argument here as well
        if r['odd']:
            return r
        if self.shell == 'zsh' and self.surplus(st):
            r['odd'] = 'surplus positional'
            return r
        if self.shell == 'zsh' and self.same_number(st):
            r['odd'] = 'several positionals'
            return r
        if st.pending is not None:
            self.value(r, st.pending, 'optarg', cur, world, st)
            r['form'] = 'separate'
            return r
        if not st.dashdash and cur.startswith('-'):
            name, eq, val = cur.partition('=')
            longs = self.long_names(st.path)
            if eq and name in longs:
                o = longs[name]
                if o['arg'] is None or (o['arg'] == 'req' and self.sep(o) == 'space'):
                    r['odd'] = 'value form'
                    return r
                r['pre'] = name + '='
                self.value(r, o, 'optarg', val, world, st)
                r['form'] = 'equals'
                return r
            if len(cur) > 1 and not cur.startswith('--'):
                shorts = self.short_names(st.path)
                old = any(len(s) > 2 and not s.startswith('--') for o in self.visible(st.path) for s in o['s'])
                if not old:
                    if self.shell == 'fish' and self.cfg.get('option-stacking') is False:
                        r['odd'] = 'joined argument without stacking'     # old-style options in fish, which take no joined argument
                        return r
                    j = 1
                    while j < len(cur):
                        o = shorts.get(cur[j])
                        if o is None:
                            r['odd'] = 'unknown option'
                            return r
                        if o['arg']:
                            r['pre'] = cur[:j + 1]
                            if self.shell == 'fish' and o['arg'] == 'opt' and any('-' + cur[j + 1:j + 2] in x['s'] for x in all_options(self.d['root'])):
                                r['odd'] = 'optional argument or stacked options'    # fish takes it as another option
                                return r
                            self.value(r, o, 'optarg', cur[j + 1:], world, st)
                            r['form'] = 'joined'
                            return r
                        if self.shell == 'zsh' and not self.usable(o, st):
                            r['odd'] = 'option used against the rules'
                            return r
                        j += 1
                    r['odd'] = 'stacked options'
                    return r
            r['kind'] = 'optnames'
            names = self.option_names(st)
            if names is None:
                r['odd'] = 'final option of another command'
                return r
            r['cands'] = {s for s in names if s.startswith(cur)}
            if self.shell == 'fish' and any(o.get('hidden') and cur in o['s'] for o in self.visible(st.path)):
                r['odd'] = 'a hidden option is typed out'
            return r
        n = len(st.pos) + 1
        node = st.path[-1]
        k = n - st.base
        if node['subs'] and k == self.npos(node) + 1:
            r['kind'] = 'subcmd'
            names = set()
            for s in node['subs']:
                names |= {s['name'], *s['aliases']}
            r['cands'] = {s for s in names if s.startswith(cur)}
            return r
        r['kind'] = 'positional'
        cands = set()
        cs = []
        for p in node['pos']:
            if (p['number'] == k or (p.get('repeatable') and k >= p['number'])) and self.when_ok(p, st):
                cs.append(p)
        r['npos'] = len(cs)
        if self.shell == 'zsh' and not any(p['number'] == k for p in cs) and any(p['number'] == k for p in node['pos']) and \
                any(p.get('repeatable') and self.when_ok(p, st) for p in node['pos']):
            r['odd'] = 'a repeatable positional behind a disabled one'
            return r
        if len(cs) == 1:
            self.value(r, cs[0], 'positional', cur, world, st)
        elif not cs:
            r['cands'] = set()
        else:
            r['odd'] = 'several positionals'
        return r

    def value(self, r, e, kind, val, world, st):
        r['kind'] = kind
        r['val'] = val
        r['owner'] = e
        if not self.when_ok(e, st):
            if kind == 'optarg':
                r['odd'] = 'argument of a disabled option'
            return
        if kind == 'optarg' and not self.usable(e, st):
            r['odd'] = 'argument of a used up option'
            return
        c = e['c']
        r['comp'] = c
        r['cands'] = self.complete(c, val, world)

    def hv(self, h, world):
        x = world.get(h, self.d['helpers'][h])
        if 'bad' in x:
            return x['bad']          # list of values or None
        return x['v']

    def complete(self, c, val, world):
        '''Full values (each starting with val), or None if not predicted.'''
        k = c['k']
        if k == 'choices':
            return {v for v in c['v'] if v.startswith(val)}
        if k == 'none':
            return set()
        if k == 'range':
            return {str(v) for v in range(c['a'], c['b'] + 1) if str(v).startswith(val)}
        if k in ('exec', 'exec_fast'):
            v = self.hv(c['h'], world)
            return None if v is None else {x for x in v if x.startswith(val)}
        if k == 'combine':
            r = set()
            for x in c['c']:
                y = self.complete(x, val, world)
                if y is None:
                    return None
                r |= y
            return r
        if k == 'prefix':
            p = c['prefix']
            if val.startswith(p):
                r = self.complete(c['c'], val[len(p):], world)
                return None if r is None else {p + x for x in r}
            return {p} if p.startswith(val) else set()
        if k == 'list':
            parts = val.split(c['sep'])
            last = parts[-1]
            vs = c['v'] if 'v' in c else self.hv(c['h'], world) if 'h' in c else self.complete(c['i'], last, world)
            if vs is None:
                return None
            used = set() if c['dup'] else set(parts[:-1])
            head = val[:len(val) - len(last)]
            if 'i' in c and used & {x['key'] for y in parts_of(c['i']) for x in y.get('keys', ())}:
                return None              # an item that is only the key of a pair
            if self.shell == 'zsh' and c['form'] == 'value_list' and not set(parts[:-1]) <= set(vs):
                return None              # _values gives up on items that are not its own
            if last in vs:
                return None              # the last item is complete: every shell proceeds in its own way
            return {head + v for v in vs if v.startswith(last) and v not in used}
        if k in ('kvl', 'kvle'):
            keys = c['keys'] if k == 'kvl' else self.hk(c, world)
            if keys is None:
                return None
            parts = val.split(c['sep1'])
            last = parts[-1]
            head = val[:len(val) - len(last)]
            if c['sep2'] in last:
                return self.kv(keys, last, c['sep2'], head, world)
            if any(x['key'] == last for x in keys):
                return None
            if self.shell == 'zsh' and any(all(x['key'] != p.partition(c['sep2'])[0] for x in keys) for p in parts[:-1]):
                return None              # _values gives up on keys that are not its own
            gone = set()
            for p in parts[:-1]:
                kk = p.partition(c['sep2'])[0]
                for x in keys:
                    if x['key'] == kk:
                        gone |= set(x['excl'])
                        if not x['rep']:
                            gone.add(kk)
            return {head + x['key'] for x in keys if x['key'] not in gone and x['key'].startswith(last)}
        if k in ('kvp', 'kvpe'):
            keys = c['keys'] if k == 'kvp' else self.hk(c, world)
            if keys is None:
                return None
            if c['sep2'] in val:
                return self.kv(keys, val, c['sep2'], '', world)
            if any(x['key'] == val for x in keys):
                return None
            return {x['key'] for x in keys if x['key'].startswith(val)}
        return None

    def hk(self, c, world):
        x = world.get(c['h'], self.d['helpers'][c['h']])
        if 'bad' in x:
            return None
        return x['keys']

    def kv(self, keys, pair, sep2, head, world):
        kk, _, v = pair.partition(sep2)
        for x in keys:
            if x['key'] == kk:
                if x['arg'] is None:
                    return None          # a value for a key without one: not specified
                if x['arg'] == 'none':
                    return set()
                if isinstance(x['arg'], dict):
                    r = self.complete(x['arg'], v, world)
                    return None if r is None else {head + kk + sep2 + y for y in r}
                return {head + kk + sep2 + y for y in x['arg'] if y.startswith(v)}
        return None


def all_options(node):
    r = list(node['opts'])
    for s in node['subs']:
        r += all_options(s)
    return r


def agree(shell, got, pl):
    '''What was offered fits the prediction.'''
    exp = pl['cands']
    c = pl.get('comp')
    if c and len(parts_of(c)) > 1:
        # prefixes that end in a separator, see norm_value
        exp = {trimmed(x, c, pl['val']) for x in exp}
    if shell == 'zsh' and c:
        # the list completer of Zsh goes on offering used items (the test suite of the repository expects it)
        opt = reoffered(c, pl['val'])
        if len(parts_of(c)) > 1:
            opt |= {trimmed(x, c, pl['val']) for x in opt}
        return got - opt == exp - opt
    return got == exp


def reoffered(c, val):
    if c['k'] == 'list' and c['form'] == 'list' and not c['dup']:
        parts = val.split(c['sep'])[:-1]
        head = c['sep'].join(parts + ['']) if parts else ''
        return {head + p for p in parts} | ({head + r for r in reoffered(c['i'], val[len(head):])} if 'i' in c else set())
    if c['k'] == 'combine':
        return set().union(*[reoffered(x, val) for x in c['c']])
    if c['k'] == 'kvp' and c['sep2'] in val:
        kk, _, v = val.partition(c['sep2'])
        return {kk + c['sep2'] + r for x in c['keys'] if x['key'] == kk and isinstance(x['arg'], dict) for r in reoffered(x['arg'], v)}
    if c['k'] == 'prefix' and val.startswith(c['prefix']):
        return {c['prefix'] + x for x in reoffered(c['c'], val[len(c['prefix']):])}
    return set()


def trimmed(g, comp, val):
    '''A candidate without the separator that its shell appends.'''
    if not comp:
        return g
    ps = parts_of(comp)
    if g[-1:] in {c['sep2'] for c in ps if 'sep2' in c}:
        g = g[:-1]
    if g[-1:] in {c['sep'] for c in ps if 'sep' in c} and g != val:
        g = g[:-1]
    return g


def parts_of(c):
    '''A completer and all the completers in it.'''
    r = [c]
    inner = c['c'] if c['k'] == 'combine' else [c['c']] if c['k'] == 'prefix' else [c['i']] if 'i' in c else [x['arg'] for x in c.get('keys', ()) if isinstance(x['arg'], dict)]
    for x in inner:
        r += parts_of(x)
    return r


class State:
    def give(self, o, val, name):
        if not self.model.usable(o, self):
            self.misuse = True
        self.given.append((o, val, name, len(self.path)))


# ---------------------------------------------------------------------------
# Normalising what the shells answer
# ---------------------------------------------------------------------------
def dequote(s):
    '''Remove one level of shell quoting.'''
    out = ''
    i = 0
    q = None
    while i < len(s):
        ch = s[i]
        if q == "'":
            if ch == "'":
                q = None
            else:
                out += ch
        elif q == '"':
            if ch == '"':
                q = None
            elif ch == '\\' and i + 1 < len(s):
                i += 1
                out += s[i]
            else:
                out += ch
        elif ch == '\\' and i + 1 < len(s):
            i += 1
            out += s[i]
        elif ch in '\'"':
            q = ch
        elif ch == '$' and s[i + 1:i + 2] == "'":
            pass
        else:
            out += ch
        i += 1
    return out


def norm(shell, got, pl, cur):
    '''Map raw candidates to full values (option names, or values after pl['pre']).'''
    r = set()
    if pl['kind'] == 'optnames':
        for g in got:
            g = g[:-1] if g.endswith('=') else g
            if g.startswith(cur):
                r.add(g)
        return r
    val = pl['val']
    pre = pl['pre']
    for g in got:
        if shell == 'bash':
            g = dequote(g)
        if shell == 'zsh' and g.startswith('-') and not cur.startswith('-') and pl['kind'] in ('positional', 'subcmd'):
            continue             # _arguments falls back to the options where no argument is expected
        if shell == 'zsh' and pl.get('form') == 'joined' and not val and g == pre:
            continue             # the option letters themselves
        if shell == 'fish' and pre and not g.startswith(pre):
            continue             # fuzzy matches
        if pre and g.startswith(pre):
            g = g[len(pre):]
            if shell == 'fish' and pl.get('form') == 'joined' and not val and len(g) == 1 and g not in (pl['cands'] or ()):
                continue         # fish also offers to stack another short option here
        r.add(g)
    comp = pl.get('comp')
    return norm_value(shell, r, comp, val, pl['cands'] or ())


def norm_value(shell, got, comp, val, exp=()):
    r = set()
    def trim(g):
        return trimmed(g, comp, val)
    if shell == 'bash':
        # readline replaces what follows the last word break
        head = val[:max([i + 1 for i, ch in enumerate(val) if ch in ':='], default=0)]
        for g in got:
            if head and g.startswith(head) and g.startswith(val) and not (head + g).startswith(val):
                c = 'DOUBLED ' + head + g
            else:
                c = trim(head + g)
            if c.startswith(val) or c.startswith('DOUBLED'):
                r.add(c)
        return r
    if shell == 'fish':
        return {trim(g) for g in got if g.startswith(val)}         # the others are fuzzy matches
    heads = ['']
    ps = parts_of(comp) if comp else []
    seps = {c[x] for c in ps for x in ('sep', 'sep2') if x in c} | {c['sep1'] for c in ps if c['k'] in ('kvl', 'kvle')}
    heads += [val[:i + 1] for i, ch in enumerate(val) if ch in seps]
    heads += [val[:i + len(c['prefix'])] for c in ps if c['k'] == 'prefix' for i in range(len(val)) if val.startswith(c['prefix'], i)]
    for g in got:
        g = trim(g)
        if g.startswith(val):
            r.add(g)
            continue
        for h in sorted(heads, key=lambda h: (h + g in exp, len(h)), reverse=True):      # values may contain the separator
            if (h + g).startswith(val):
                r.add(h + g)
                break
    return r


# ---------------------------------------------------------------------------
# Command lines
# ---------------------------------------------------------------------------
class LineGen:
    '''Well-formed command lines for a definition, sampled from the model's grammar.'''

    def __init__(self, rng, d, shell, opt=None):
        self.rng = rng
        self.d = d
        self.m = Model(d, shell)
        self.shell = shell
        self.o = dict(maxwords=6, p_opt=0.55, p_dd=0.05, p_sub=0.8, p_stack=0.25, p_unusedval=0.3, p_misuse=0.08, quoted=0.15, odd_values=0.0, p_focus=0.0)
        self.o.update(opt or {})
        self.focus = []               # options that conditions speak of or that have one
        self.fvals = {}
        if self.o['p_focus']:
            self.find_focus(d['root'])

    def find_focus(self, n):
        names = set()

        def walk(w):
            if w[0] == 'has':
                names.update(w[1])
            elif w[0] in ('is', 'match'):
                names.update(w[1]['o'])
                for s in w[1]['o']:
                    self.fvals.setdefault(s, []).extend(w[1].get('v', []))
            for x in w[1:]:
                if isinstance(x, list) and x and x[0] in ('and', 'or', 'not', 'has', 'is', 'match', 'count', 'contains'):
                    walk(x)
        for e in n['opts'] + n['pos']:
            if 'when' in e:
                walk(e['when'])
        self.focus += [o for o in n['opts'] if 'when' in o or names & set(o['s'])]
        for s in n['subs']:
            self.find_focus(s)

    def value_for(self, o, sep=False):
        rng = self.rng
        c = o['c']
        if self.fvals and 's' in o and rng.random() < 0.5:
            vs = [v for s in o['s'] for v in self.fvals.get(s, ())]
            if vs:
                return rng.choice(vs)
        if self.o['odd_values'] and rng.random() < self.o['odd_values']:
            return self.odd_value()
        vs = self.m.complete(c, '', {})
        if vs and c['k'] in ('choices', 'exec', 'exec_fast', 'combine', 'range') and rng.random() > self.o['p_unusedval']:
            return rng.choice(sorted(vs))
        return rng.choice(['val', 'x1', 'some', 'Other']) + str(rng.randint(0, 9))

    def odd_value(self):
        rng = self.rng
        return rng.choice(['a b', "it's", 'say "hi"', 'back\\slash', '$HOME', '`id`', '$(id)', 'a;b', 'a&b', 'a|b', '*', '?x', '[ab]', '~', '#h', 'x=y', 'a:b', '{a,b}', 'a,b', 'nnn', '\\n', '$', 'tab\\t', '!x', '%d', 'ünï', 'a  b', ' lead', 'trail ', '(x)', '<y>', 'a\\', "'", '"', 'n', '-', '-x', '--y', 'a=b=c', '/a/b', '@', '^x', 'é'])

    def spell(self, path, o):
        '''A spelling of option o; long ones possibly abbreviated.'''
        rng = self.rng
        s = rng.choice(o['s'])
        if len(s) > 2 and self.d['cfg'].get('abbreviate-options') and self.shell == 'bash' and rng.random() < 0.4:
            names = [k for k, v in self.m.long_names(path).items() if v is o and s.startswith(k)]
            s = rng.choice(sorted(names))
        return s

    def words(self, n=None):
        rng = self.rng
        n = rng.randint(0, self.o['maxwords']) if n is None else n
        w = []
        for _ in range(n * 2):
            if len(w) >= n:
                break
            st = self.m.parse(w)
            if st.odd:
                break
            node = st.path[-1]
            vis = self.m.visible(st.path)
            k = len(st.pos) + 1 - st.base
            want_sub = node['subs'] and k == self.m.npos(node) + 1
            if not st.dashdash and vis and rng.random() < self.o['p_opt']:
                cand = [o for o in vis if not any(g[0] is o for g in st.given) or o.get('repeatable') or rng.random() < self.o['p_misuse']]
                cand = [o for o in cand if not o.get('final') or rng.random() < 0.3]
                if not cand:
                    continue
                foc = [o for o in cand if any(o is f for f in self.focus)]
                o = rng.choice(foc if foc and rng.random() < self.o['p_focus'] else cand)
                w += self.option_words(st.path, o, vis)
            elif want_sub:
                if rng.random() < self.o['p_sub']:
                    s = rng.choice(node['subs'])
                    names = [s['name'], *s['aliases']]
                    nm = rng.choice(names)
                    if self.d['cfg'].get('abbreviate-commands') and rng.random() < 0.5:
                        pre = [s['name'][:i] for i in range(1, len(s['name'])) if self.m.sub(node, s['name'][:i]) is s]
                        if pre:
                            nm = rng.choice(pre)
                        if rng.random() < self.o.get('p_nocmd', 0.1):
                            x = rng.choice(rng.choice(node['subs'])['aliases'] or [nm])      # aliases cannot be abbreviated
                            nm = x[:rng.randint(1, len(x))]
                    w.append(nm)
                else:
                    break
            else:
                if not st.dashdash and not node['subs'] and rng.random() < self.o['p_dd']:
                    w.append('--')
                    continue
                ps = [p for p in node['pos'] if p['number'] == k or (p.get('repeatable') and k > p['number'])]
                if not ps:
                    if rng.random() < 0.8:
                        continue
                    w.append('extra%d' % rng.randint(0, 9))
                    continue
                v = self.value_for(ps[0])
                w.append(v if st.dashdash or not v.startswith('-') else 'p' + v)
        return w

    def option_words(self, path, o, vis):
        rng = self.rng
        s = self.spell(path, o)
        stacking = self.d['cfg'].get('option-stacking', True)
        if len(s) > 2:
            if o['arg'] is None:
                return [s]
            sep = self.m.sep(o)
            v = self.value_for(o)
            if o['arg'] == 'opt':
                return [s] if rng.random() < 0.5 else [s + '=' + v]
            if sep == 'equals' or (sep == 'both' and rng.random() < 0.5):
                return [s + '=' + v]
            return [s, v]
        pre = '-'
        if stacking and rng.random() < self.o['p_stack']:
            flags = [x for x in vis if x['arg'] is None and x is not o and not x.get('final') and any(len(t) == 2 for t in x['s'])]
            rng.shuffle(flags)
            for f in flags[:rng.randint(1, 2)]:
                pre += [t for t in f['s'] if len(t) == 2][0][1]
        w = pre + s[1]
        if o['arg'] is None:
            return [w]
        v = self.value_for(o)
        if o['arg'] == 'opt':
            return [w] if rng.random() < 0.5 else [w + v]
        return [w, v] if (rng.random() < 0.5 or not stacking) else [w + v]

    def cur(self, words, want=None):
        '''A word at the cursor for what comes after words; may extend words by a pending option.'''
        rng = self.rng
        st = self.m.parse(words)
        words = list(words)
        if st.odd:
            return words, ''
        vis = self.m.visible(st.path)
        kinds = want or ['opt', 'opt', 'arg', 'arg', 'pos', 'pos']
        k = rng.choice(kinds)
        if st.dashdash:
            k = rng.choice(['pos', 'dash'])
            if k == 'dash':
                return words, rng.choice(['-', '--'])
        if st.pending is not None:
            return words, self.partial(st.pending)
        if k == 'opt':
            names = sorted(s for o in vis for s in o['s'])
            if not names or rng.random() < 0.7:
                return words, rng.choice(['-', '-', '--'])
            s = rng.choice(names)
            if len(s) > 3 and s.startswith('--'):
                return words, s[:rng.randint(3, len(s) - 1)]
            return words, '--'
        args = [o for o in vis if o['arg'] and self.m.when_ok(o, st)]
        if rng.random() < 0.9:
            args = [o for o in args if self.m.usable(o, st)]
        if k == 'arg' and args:
            o = rng.choice(args)
            s = self.spell(st.path, o)
            p = self.partial(o)
            if len(s) > 2:
                sep = self.m.sep(o)
                if o['arg'] == 'opt' or sep == 'equals' or (sep == 'both' and rng.random() < 0.5):
                    return words, s + '=' + p
                return words + [s], p
            pre = '-'
            if self.d['cfg'].get('option-stacking', True):
                if rng.random() < self.o['p_stack']:
                    flags = [x for x in vis if x['arg'] is None and not x.get('final') and any(len(t) == 2 for t in x['s'])]
                    if flags:
                        pre += [t for t in rng.choice(flags)['s'] if len(t) == 2][0][1]
                if o['arg'] == 'opt' or (rng.random() < 0.4 and p):
                    return words, pre + s[1] + p
            elif o['arg'] == 'opt':
                return words, ''
            return words + [pre + s[1]], p
        pl = self.m.place(words, '', {})
        if pl['kind'] == 'positional' and pl.get('comp') and rng.random() < 0.6:
            return words, self.partial_value(pl['comp'])
        if pl['kind'] in ('positional', 'subcmd') and rng.random() < 0.5:
            cands = sorted(pl['cands'] or ())
            if cands:
                v = rng.choice(cands)
                return words, self.plain(v[:rng.randint(0, len(v))])
        return words, ''

    def partial(self, o):
        return self.partial_value(o['c'])

    def cut(self, v):
        '''A beginning of v that needs no quoting.'''
        return self.plain(v[:self.rng.randint(0, len(v))])

    def plain(self, v):
        return re.match(r'[\w@+./%^:=,-]*', v).group()

    def partial_value(self, c):
        '''What a user may have typed of an argument so far.'''
        rng = self.rng
        k = c['k']
        if k == 'list':
            vs = c['v'] if 'v' in c else self.m.hv(c['h'], {}) if 'h' in c else sorted(self.m.complete(c['i'], '', {}) or ['zz'])
            items = [rng.choice(vs) if rng.random() < 0.85 else 'zz%d' % rng.randint(0, 9) for _ in range(rng.choice([0, 0, 1, 1, 2, 3]))]
            last = '' if rng.random() < 0.4 else self.cut(rng.choice(vs)) if rng.random() < 0.5 or 'i' not in c else self.partial_value(c['i'])
            return c['sep'].join(items + [last])
        if k in ('kvl', 'kvle', 'kvp', 'kvpe'):
            keys = c['keys'] if k in ('kvl', 'kvp') else self.m.hk(c, {})
            items = []
            gone = set()
            for _ in range(rng.choice([0, 0, 1, 1, 2, 3]) if k in ('kvl', 'kvle') else 0):
                left = [x for x in keys if x['key'] not in gone]
                if not left:
                    break
                x = rng.choice(left)
                gone |= set(x['excl']) | (set() if x['rep'] else {x['key']})
                v = rng.choice(x['arg']) if isinstance(x['arg'], list) and x['arg'] and rng.random() < 0.8 else 'v%d' % rng.randint(0, 9)
                if rng.random() < 0.12:
                    # a value that looks like a pair, or like another key
                    v = rng.choice(['', v, rng.choice(keys)['key']]) + c['sep2'] + rng.choice(['', v])
                elif rng.random() < 0.05:
                    v = rng.choice(keys)['key']
                items.append(x['key'] if x['arg'] is None else x['key'] + c['sep2'] + v)
            left = [x for x in keys if x['key'] not in gone] or keys
            x = rng.choice(left)
            t = rng.random()
            if t < 0.35:
                last = ''
            elif t < 0.6 or x['arg'] is None:
                last = self.cut(x['key'])
            else:
                last = x['key'] + c['sep2'] + (self.cut(rng.choice(x['arg'])) if isinstance(x['arg'], list) and x['arg'] else self.partial_value(x['arg']) if isinstance(x['arg'], dict) else '')
            return c['sep1'].join(items + [last]) if k in ('kvl', 'kvle') else last
        if k == 'prefix':
            t = rng.random()
            if t < 0.3:
                return self.cut(c['prefix'])
            if t < 0.36 and c['prefix']:
                return rng.choice(['x', 'zz', c['prefix'][-1:]]) + c['prefix'] + self.partial_value(c['c'])
            return c['prefix'] + self.partial_value(c['c'])
        if k == 'combine' and rng.random() < 0.6:
            return self.partial_value(rng.choice(c['c']))
        if rng.random() < 0.5:
            return ''
        vs = self.m.complete(c, '', {})
        if not vs:
            return ''
        v = rng.choice(sorted(vs))
        return self.plain(v[:rng.randint(1, len(v))])


def safe_plain(w):
    return re.match(r'^[A-Za-z0-9_@%+=:,./-]+$', w) and not w.startswith('=')


def quote(shell, w, style):
    '''Write a word on a command line; style 0 plain if possible, 1 single quotes, 2 double quotes, 3 backslashes.'''
    if safe_plain(w) and (style == 0 or w.startswith('-')):
        return w
    if w.startswith('--') and '=' in w and style:
        name, _, val = w.partition('=')
        if safe_plain(name):
            return name + '=' + quote(shell, val, style)
    if w.startswith('-') and (safe_plain(w[:2]) or w[:2] in ('-?', '-#')):
        return w[:2] + ''.join(c if (safe_plain(c) or c in '?#') and c not in '=-' or c in '-=' else quote(shell, c, 3 if c != '\n' else 1) for c in w[2:])
    if style == 2:
        esc = '"$\\' + ('`' if shell != 'fish' else '') + ('!' if shell == 'zsh' and 0 else '')
        if shell == 'bash' and '!' in w:
            style = 1
        else:
            return '"' + ''.join('\\' + c if c in esc else c for c in w) + '"'
    if style == 3 and w and '\n' not in w:
        out = ''
        for i, c in enumerate(w):
            if re.match(r'[A-Za-z0-9_@%+:,./-]', c) or ord(c) > 127 or (c == '=' and i):
                out += c
            else:
                out += '\\' + c
        return out
    if shell == 'fish':
        return "'" + w.replace('\\', '\\\\').replace("'", "\\'") + "'"
    return "'" + w.replace("'", "'\\''") + "'"


def render(shell, prog, words, styles=None):
    styles = styles or []
    return prog + ' ' + ''.join(quote(shell, w, styles[i] if i < len(styles) else 0) + ' ' for i, w in enumerate(words))


# ---------------------------------------------------------------------------
# Helper programs
# ---------------------------------------------------------------------------
def helper_text(h):
    '''Shell program of a well-behaving helper.'''
    if h.get('raw') is not None:
        return h['raw']
    if h.get('keys') is not None:
        L = ['#!/bin/sh', 'if [ $# -eq 0 ]; then', "printf '%s\\t%s\\t%s\\n' \\"]
        for k in h['keys']:
            L.append("  %s '%s' '%s' \\" % (sq(('*' if k['rep'] else '') + k['key'] + ('=' if k['arg'] is not None else '')), 'key ' + k['key'][:2], ' '.join(k['excl'])))
        L[-1] = L[-1].rstrip('\\').rstrip()
        L.append('else case "$1" in')
        for k in h['keys']:
            if k['arg']:
                L.append("%s) printf '%%s\\t%%s\\n' %s;;" % (sq(k['key']), ' '.join(sq(v) + " 'about'" for v in k['arg'])))
        L += ['esac', 'fi']
        return '\n'.join(L) + '\n'
    vs = h['v']
    if h.get('desc'):
        return "#!/bin/sh\nprintf '%%s\\t%%s\\n' %s\n" % ' '.join(sq(v) + " 'about'" for v in vs)
    return "#!/bin/sh\nprintf '%%s\\n' %s\n" % ' '.join(sq(v) for v in vs)


def sq(s):
    return "'" + s.replace("'", "'\\''") + "'"


def helpers(d, world=None):
    r = {}
    for n, h in d['helpers'].items():
        h = (world or {}).get(n, h)
        if 'bad' in h or 'text' in h:
            r[n] = h.get('text')
        else:
            r[n] = helper_text(h)
    return r
