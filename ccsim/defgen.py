'''Generators of command line definitions (plain data) for simulated runs.'''
import json

WORDS = ['alpha', 'beta', 'gamma', 'delta', 'eps', 'zeta', 'eta', 'theta', 'iota', 'kappa', 'lambda', 'mu', 'nu',
         'color', 'depth', 'force', 'input', 'level', 'mode', 'name', 'output', 'path', 'quiet', 'range', 'size',
         'type', 'user', 'verbose', 'width', 'extra', 'file', 'group', 'host', 'index', 'jobs', 'keep', 'limit']
HELPS = ['Show help', "Don't do $it", 'Use `x`', 'a "quoted" text', 'back\\slash', '50% of [it]', 'a:b', 'tab and äö', None,
         'Long description that goes on and on for quite a while so that lines get wrapped by the generator']
VALS = ['red', 'green', 'blue', 'a b', "it's", 'x:y', '$HOME', '*', 'ü', 'a"b', 'n\\m', 'foo-bar', 'UP', '1', '10']


def completer(rng, depth=0, in_list=False, positional=False):
    simple = ['file', 'directory', 'user', 'group', 'hostname', 'signal', 'process', 'pid', 'environment', 'variable',
              'service', 'mountpoint', 'net_interface', 'uid', 'gid', 'filesystem_type', 'locale', 'charset', 'timezone',
              'login_shell', 'alsa_card', 'alsa_device', 'date_format', 'command', 'none']
    kinds = ['choices', 'choices', 'choices_d', 'file_o', 'dir_o', 'range', 'exec', 'exec_fast', 'value_list',
             'value_list_d', 'integer', 'float', 'date', 'ip', 'history', 'mime', 'simple', 'simple']
    if depth < 2:
        kinds += ['combine', 'prefix'] if not in_list else []
        if not in_list:
            kinds += ['list', 'file_list', 'dir_list', 'kvl', 'kvp', 'kvle', 'kvpe', 'cmdstr', 'command_o']
    k = rng.choice(kinds)
    def sub():
        while True:
            c = completer(rng, depth + 1, True)
            if c != ['none']:
                return c
    if k == 'simple':
        return [rng.choice(simple)]
    if k == 'choices':
        return ['choices', rng.sample(VALS, rng.randint(1, 4))]
    if k == 'choices_d':
        return ['choices', {v: rng.choice(HELPS) or 'd' for v in rng.sample(VALS, rng.randint(1, 4))}]
    if k == 'file_o':
        o = {}
        if rng.random() < .5:
            o['extensions'] = rng.sample(['txt', 'py', 'tar.gz', 'c'], rng.randint(1, 2))
            if rng.random() < .4:
                o['fuzzy'] = True
        if rng.random() < .4:
            o['directory'] = rng.choice(['/tmp', '/etc', '/var/lib'])
        if rng.random() < .3:
            o['ignore_globs'] = rng.sample(['*.o', '*~', '[ab]*', '?'], 2)
        return ['file', o] if o else ['file']
    if k == 'dir_o':
        return ['directory', {'directory': '/tmp'}]
    if k == 'range':
        a, b, s = rng.choice([(1, 9, 1), (0, 100, 25), (9, 1, -2), (1, 3, 1)])
        return ['range', a, b] if s == 1 else ['range', a, b, s]
    if k == 'exec':
        return ['exec', rng.choice(["printf '%s\\n' one two", 'ccsim-helper a', "echo \"$X\""])]
    if k == 'exec_fast':
        return ['exec_fast', "printf '%s\\n' one two"]
    if k == 'value_list':
        o = {'values': rng.sample(WORDS, rng.randint(1, 4))}
        if rng.random() < .4:
            o['separator'] = rng.choice(';:+')
        if rng.random() < .3:
            o['duplicates'] = True
        return ['value_list', o]
    if k == 'value_list_d':
        return ['value_list', {'values': {w: 'desc ' + w for w in rng.sample(WORDS, rng.randint(1, 3))}}]
    if k == 'integer':
        o = {}
        if rng.random() < .5:
            o['min'] = rng.randint(-5, 5)
        if rng.random() < .5:
            o['max'] = rng.randint(6, 50)
        if rng.random() < .3:
            o['suffixes'] = {'k': 'kilo', 'm': 'mega'}
        return ['integer', o] if o else ['integer']
    if k == 'float':
        return ['float', {'min': 0, 'max': 2.5}] if rng.random() < .5 else ['float']
    if k == 'date':
        return ['date', '%Y-%m-%d']
    if k == 'ip':
        return ['ip_address', rng.choice(['ipv4', 'ipv6', 'all'])]
    if k == 'history':
        return ['history', '[a-z]+@[a-z]+']
    if k == 'mime':
        return ['mime_file', 'image/.*']
    if k == 'combine':
        return ['combine', [sub(), ['choices', rng.sample(VALS, 2)]]]
    if k == 'prefix':
        return ['prefix', rng.choice(['@', 'x-', 'f:']), sub()]
    if k == 'list':
        return ['list', rng.choice([['choices', ['a', 'b', 'c']], ['user'], ['exec', "printf '%s\\n' one two"]]),
                {'separator': rng.choice(',;:')}]
    if k == 'file_list':
        o = {}
        if rng.random() < .6:
            o['separator'] = rng.choice(',;')
        if rng.random() < .5:
            o['duplicates'] = rng.random() < .5
        if rng.random() < .4:
            o['directory'] = '/tmp'
        if rng.random() < .3:
            o['extensions'] = ['txt']
        return ['file_list', o] if o else ['file_list']
    if k == 'dir_list':
        o = {'separator': rng.choice(':;')}
        if rng.random() < .4:
            o['directory'] = '/tmp'
        return ['directory_list', o]
    if k in ('kvl', 'kvp'):
        keys = rng.sample(WORDS, rng.randint(1, 3))
        vs = []
        for i, w in enumerate(keys):
            c = rng.choice([None, ['choices', ['on', 'off']], ['none'], ['file'], ['integer', {'min': 1}]])
            e = [w, rng.choice(['desc', None]), c]
            if k == 'kvl' and i and rng.random() < .3:
                e.append([keys[0]])
            vs.append(e)
        return ['key_value_list', rng.choice(',;'), '=', vs] if k == 'kvl' else ['key_value_pair', '=', vs]
    if k == 'kvle':
        return ['key_value_list_exec', ',', '=', 'ccsim-helper kv']
    if k == 'kvpe':
        return ['key_value_pair_exec', '=', 'ccsim-helper kv']
    if k == 'cmdstr':
        return ['commandline_string']
    if k == 'command_o':
        return ['command', {rng.choice(['path', 'path_append', 'path_prepend']): '/opt/bin'}]
    raise AssertionError(k)


def rich(rng, prog='prog', size=None):
    '''List of definition documents using as much of the language as possible.'''
    size = rng.choice([0, 1, 1, 2, 2, 3, 4, 6]) if size is None else size
    docs = []
    paths = [prog]
    if size >= 2 and rng.random() < .7:
        subs = rng.sample(['add', 'list', 'remote', 'show', 'up-date', 'commit', 'clone'], rng.randint(1, min(4, size)))
        for s in subs:
            paths.append(prog + ' ' + s)
            if rng.random() < .3:
                paths.append(prog + ' ' + s + ' ' + rng.choice(['deep', 'set', 'get']))
    for path in paths:
        has_sub = any(p.startswith(path + ' ') for p in paths)
        d = {'prog': path}
        if rng.random() < .5:
            d['help'] = rng.choice([h for h in HELPS if h])
        if ' ' in path and rng.random() < .4:
            d['aliases'] = [path.split()[-1][:2] + 'x', path.split()[-1] + 'y'][:rng.randint(1, 2)]
        if ' ' not in path and rng.random() < .2:
            d['aliases'] = ['prog-alias']
        if ' ' not in path and rng.random() < .1:
            d['wraps'] = 'ls'
        for k in ('abbreviate_commands', 'abbreviate_options', 'inherit_options'):
            if rng.random() < .25:
                d[k] = rng.random() < .6
        opts = []
        names = rng.sample(WORDS, min(len(WORDS), rng.randint(0, 2 + 2 * size)))
        shorts = list('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789')
        rng.shuffle(shorts)
        for n in names:
            os_ = []
            if rng.random() < .8:
                os_.append('--' + n)
            if rng.random() < .5 or not os_:
                os_.append('-' + shorts.pop())
            if rng.random() < .1:
                os_.append('-' + n + 'old')
            o = {'option_strings': os_}
            if rng.random() < .7:
                h = rng.choice(HELPS)
                if h:
                    o['help'] = h
            if rng.random() < .6:
                o['complete'] = completer(rng)
                if rng.random() < .5:
                    o['metavar'] = n.upper()
                if rng.random() < .2:
                    o['optional_arg'] = True
                if rng.random() < .1:
                    o['nosort'] = True
                if rng.random() < .15:
                    o['capture'] = 'CAP_%s' % n.upper()
            x = rng.random()
            if x < .15:
                o['repeatable'] = True
            elif x < .25:
                o['hidden'] = True
            if rng.random() < .1:
                o['final'] = True
            if rng.random() < .25:
                o['groups'] = rng.sample(['g1', 'g2', 'g3'], rng.randint(1, 2))
            if rng.random() < .1:
                o['long_opt_arg_sep'] = rng.choice(['space', 'equals', 'both'])
            opts.append(o)
        for o in opts:
            if opts and rng.random() < .12:
                other = rng.choice(opts)
                if other is not o:
                    o['when'] = rng.choice(['has_option %s', '! has_option %s', 'option_is %s -- v1 v2']) % other['option_strings'][0]
        if opts:
            d['options'] = opts
        pos = []
        if not has_sub or rng.random() < .2:
            for k in range(rng.randint(0, 3)):
                p = {'number': k + 1}
                if rng.random() < .5:
                    p['metavar'] = rng.choice(['FILE', 'NAME', 'x y'])
                if rng.random() < .5:
                    p['help'] = rng.choice([h for h in HELPS if h])
                if rng.random() < .8:
                    p['complete'] = completer(rng, positional=True)
                if opts and rng.random() < .1:
                    p['when'] = 'has_option ' + opts[0]['option_strings'][0]
                pos.append(p)
            if pos and not has_sub and rng.random() < .4:
                pos[-1]['repeatable'] = True
        if pos:
            d['positionals'] = pos
        docs.append(d)
    return docs


def small(rng, prog='prog'):
    docs = [{'prog': prog, 'options': [{'option_strings': ['-v', '--verbose'], 'help': 'be verbose'}],
             'positionals': [{'number': 1, 'complete': ['choices', rng.sample(VALS, 3)]}]}]
    if rng.random() < .5:
        docs.append({'prog': prog + ' sub', 'options': [{'option_strings': ['--type'], 'complete': ['file']}]})
    return docs


# -- serialisation ----------------------------------------------------------
def to_json(docs):
    return json.dumps(docs, ensure_ascii=False, indent=1)


def _q(v):
    return json.dumps(v, ensure_ascii=True)


def to_yaml(docs, style=0):
    '''Block style YAML for the outer structure, flow style (JSON) for leaves.'''
    out = []
    for d in docs:
        r = []
        for k, v in d.items():
            if k in ('options', 'positionals') and isinstance(v, list):
                r.append(k + ':')
                for item in v:
                    first = True
                    for kk, vv in item.items():
                        r.append(('  - ' if first else '    ') + kk + ': ' + _q(vv))
                        first = False
                    if style & 1:
                        r.append('')
            else:
                r.append('%s: %s' % (k, _q(v)))
        out.append('\n'.join(r) + '\n')
    return ('---\n' if style & 2 else '') + '---\n'.join(out)


def to_python(docs, parser_name='parser', body_pre='', body_post='', guard=False):
    '''A program using argparse whose parser corresponds to the definition (subset).'''
    root = docs[0]
    r = ['import argparse', body_pre]
    r.append('%s = argparse.ArgumentParser(prog=%r, description=%r)' % (parser_name, root['prog'], root.get('help') or 'x'))
    r.append('%s._never_parsed = True' % parser_name)

    def opts(var, d):
        for o in d.get('options', []):
            kw = ''
            if o.get('help'):
                kw += ', help=%r' % o['help'].replace('%', '%%')
            c = o.get('complete')
            if c and c[0] == 'choices':
                kw += ', choices=%r' % list(c[1])
            elif c:
                kw += ', metavar=%r' % (o.get('metavar') or 'X')
            else:
                kw += ", action='store_true'"
            r.append('%s.add_argument(%s%s)' % (var, ', '.join(repr(s) for s in o['option_strings']), kw))
        for p in d.get('positionals', []):
            r.append('%s.add_argument(%r, help=%r)' % (var, 'pos%d' % p['number'], (p.get('help') or 'h').replace('%', '%%')))
    opts(parser_name, root)
    subs = [d for d in docs[1:] if d['prog'].count(' ') == 1]
    if subs:
        r.append('_sp = %s.add_subparsers()' % parser_name)
        for d in subs:
            r.append('_c = _sp.add_parser(%r, help=%r)' % (d['prog'].split()[-1], (d.get('help') or 'h').replace('%', '%%')))
            opts('_c', d)
            r.append('del _c')
        r.append('del _sp')
    r.append(body_post)
    if guard:
        r.append("if __name__ == '__main__':\n    %s.parse_args()" % parser_name)
    return '\n'.join(r) + '\n'


HELP_TEXT = '''usage: %(prog)s [options] FILE

Do things.

options:
  -h, --help            show this help message and exit
  -o FILE, --output=FILE
                        write to FILE
  --color=WHEN          colorize, WHEN is always, never or auto
  -v, --verbose         be verbose
  -n NUM                a number
'''


def help_text(rng, prog='prog'):
    t = HELP_TEXT % {'prog': prog}
    for w in rng.sample(WORDS, rng.randint(0, 30)):
        t += '  --%s%s   Some %s text\n' % (w, rng.choice(['', '=ARG', ' ARG']), w)
    return t


CONFIG_OPTS = [('--abbreviate-commands', ['True', 'False']), ('--abbreviate-options', ['True', 'False']),
               ('--repeatable-options', ['True', 'False']), ('--inherit-options', ['True', 'False']),
               ('--option-stacking', ['True', 'False']), ('--long-option-argument-separator', ['space', 'equals', 'both']),
               ('--disable', ['hidden', 'final', 'groups,when', 'repeatable']), ('--vim-modeline', ['False', 'True']),
               ('--zsh-compdef', ['False', 'True']), ('--fish-inline-conditions', ['True', 'False']),
               ('--comment', ['generated by x', 'a b']), ('--function-prefix', ['_my_$PROG', '__x']),
               ('--max-line-length', ['40', '0', '120'])]


def config_argv(rng, p=.15):
    r = []
    for k, vs in CONFIG_OPTS:
        if rng.random() < p:
            r += [k, rng.choice(vs)]
    if rng.random() < p:
        r.append('--keep-comments')
    if rng.random() < p:
        r.append('--debug')
    return r
