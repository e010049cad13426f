'''C16: a definition means the same in every format.'''
import json, re
import yaml
from .. import defgen, core, sess
from ..genclient import server, fired as fired_ops

ID = 'C16'
LEVEL = 'exploration'
RUNS = {'quick': 500, 'thorough': 14000}
RULE = 'a case counts as nontrivial if the script of the definition was compared with that of at least one other form of the same definition'
STATES = 'distinct (format written by hand, style, chain of conversions, delivery, fault kinds, shell) tuples'
TECHNIQUE = 'deterministic simulation with fault injection: seeded chains of real conversion processes connected by files and pipes behind an LD_PRELOAD seam (short reads and writes, interrupted calls, chunked pipes), every script compared with that of the definition itself'
COMPONENTS = {'real': ['crazy-complete entry script', 'all loaders, the validators, the JSON and YAML writers, the help converter', 'generators', 'CPython 3.12 I/O stack, PyYAML, argparse'],
              'stub': ['libc results named in the plan (LD_PRELOAD seam)', 'pipes between the runs (chunk sizes chosen by the simulator)']}
ASSUMPTIONS = ['YAML without anchors (the documentation offers defines instead) and with quoted strings where plain ones would be numbers or booleans',
               'an argparse parser is described by the options, arguments, choices, subcommands and groups it declares, with the names argparse gives them']

TEXTS = ['😀 smile', 'line\u2028sep', 'nel\x85x', 'del\x7fx', 'nul-ish \x01x', '# no comment', '--- x', '...', '- item', 'key: value', '{x}', '[y]', '&anchor', '*alias', '!tag', '%directive', '@at', '`tick`', "'single'", '"double"', 'null', '~',
         'true', 'yes', '010', '1e3', '.5', '0x1f', '2001-01-01', '1_000', '12:30', ' lead', 'trail ', 'tab\tx', 'back\\slash', '\\u0041', '\\ud83d', '=', '<<', '?', ': ', 'é', '\U0010fffd', '\ufeffbom', 'a\u00a0b', 'x # y', 'two\nlines', 'end\n']
SAFEVAL = [t for t in TEXTS if not re.search(r'[\x00-\x1f\x7f\x85\u2028]', t)]


def spice(rng, docs):
    '''Put odd texts into the definition.'''
    for d in docs:
        if rng.random() < .4:
            d['help'] = rng.choice(TEXTS)
        for o in d.get('options', []):
            if rng.random() < .4:
                o['help'] = rng.choice(TEXTS)
            if rng.random() < .15:
                # says something when the configuration says the opposite
                o['repeatable'] = rng.random() < .3
            if o.get('complete') and rng.random() < .3:
                o['metavar'] = rng.choice(TEXTS)
            if rng.random() < .15:
                o['complete'] = ['choices', rng.sample(SAFEVAL, 3)] if rng.random() < .5 else ['choices', {v: rng.choice(TEXTS) for v in rng.sample(SAFEVAL, 2)}]
            elif rng.random() < .1:
                o['complete'] = ['exec', rng.choice(["printf '%s\\n' é 😀", 'echo "# x"', "echo 'it''s'", 'echo a: b', 'echo {a,b}'])]
            elif rng.random() < .1:
                o['complete'] = rng.choice([['float', {'min': 0.00001, 'max': 1e20}], ['float', {'min': -0.5}], ['range', -3, 3], ['choices', ['1', '2.0', 'on', '']][:2], ['value_list', {'values': {'a': 'é: x', 'b': '# y'}}],
                                            ['prefix', rng.choice(['x: ', '#', '-', '😀']), ['choices', ['a']]], ['integer', {'min': 0, 'max': 10**12, 'suffixes': {'k': '1: k'}}]])
        for p in d.get('positionals', []):
            if rng.random() < .4:
                p['help'] = rng.choice(TEXTS)
            if rng.random() < .3:
                p['metavar'] = rng.choice(TEXTS)
            if rng.random() < .15:
                p['nosort'] = True
    return docs


def plain(s):
    return bool(re.match(r'^[A-Za-z][A-Za-z0-9_/. -]*[A-Za-z0-9]\Z', s)) and s.lower() not in ('null', 'true', 'false', 'yes', 'no', 'on', 'off', 'y', 'n')


def scalar(rng, v, flow, key=False):
    if isinstance(v, bool):
        return rng.choice(['true', 'True']) if v else rng.choice(['false', 'False'])
    if v is None:
        return rng.choice(['null', '~'])
    if isinstance(v, (int, float)):
        return re.sub(r'^(-?[0-9]+)e', r'\1.0e', json.dumps(v))
    t = rng.random()
    if t < .5 and plain(v):
        return v
    if t < .7 and not re.search(r'[\x00-\x1f\x7f-\x9f\u2028\u2029\ufeff\ufffe\uffff]', v):
        return "'%s'" % v.replace("'", "''")
    r = ''
    for c in v:
        o = ord(c)
        if c in '"\\':
            r += '\\' + c
        elif c == '\n':
            r += '\\n'
        elif c == '\t':
            r += '\\t'
        elif o < 32 or 0x7f <= o < 0xa0 or o in (0x2028, 0x2029, 0xfeff, 0xfffe, 0xffff):
            r += '\\u%04x' % o
        elif o > 0xffff and rng.random() < .5:
            r += '\\U%08x' % o
        else:
            r += c
    return '"%s"' % r


def block(rng, v, ind, flow):
    '''YAML text of a value; starts on the current line.'''
    pad = ' ' * ind
    if isinstance(v, dict) and v and not flow:
        r = '\n'
        for k, x in v.items():
            if rng.random() < .05:
                r += pad + '# a comment\n'
            r += pad + scalar(rng, k, False, True) + ':' + sep(block(rng, x, ind + 2, rng.random() < .5))
        return r
    if isinstance(v, list) and v and not flow:
        r = '\n'
        for x in v:
            r += pad + '-' + sep(block(rng, x, ind + 2, rng.random() < .6))
        return r
    return fl(rng, v) + ('   # why: because\n' if rng.random() < .03 else '\n')


def sep(t):
    return t if t.startswith('\n') else ' ' + t


def fl(rng, v):
    if isinstance(v, dict):
        return '{' + ', '.join('%s: %s' % (scalar(rng, k, True, True), fl(rng, x)) for k, x in v.items()) + '}'
    if isinstance(v, list):
        return '[' + ', '.join(fl(rng, x) for x in v) + ']'
    return scalar(rng, v, True)


def by_hand(rng, docs):
    '''YAML as people write it.'''
    docs = json.loads(json.dumps(docs))
    r = []
    defs = {}
    if rng.random() < .35:
        for d in docs:
            for o in d.get('options', []) + d.get('positionals', []):
                if o.get('complete') and rng.random() < .4:
                    k = 'shared_%d' % len(defs)
                    defs[k] = o['complete']
                    o['complete'] = k
    if defs:
        i = rng.choice([0, 0, len(docs)])
        docs.insert(i, dict({'prog': '%defines%'}, **defs))
    for d in docs:
        if rng.random() < .3:
            ks = list(d)
            rng.shuffle(ks)
            d = {k: d[k] for k in ks}
        t = block(rng, d, 0, False).lstrip('\n')
        r.append(t)
    return ('%YAML 1.1\n---\n' if rng.random() < .05 else '---\n' if rng.random() < .3 else '') + '---\n'.join(r) + ('...\n' if rng.random() < .05 else '')


def by_json(rng, docs):
    t = rng.random()
    docs = json.loads(json.dumps(docs))
    if t < .2:
        defs = {}
        for d in docs:
            for o in d.get('options', []) + d.get('positionals', []):
                if o.get('complete') and rng.random() < .4:
                    k = 'shared_%d' % len(defs)
                    defs[k] = o['complete']
                    o['complete'] = k
        if defs:
            docs.insert(rng.choice([0, len(docs)]), dict({'prog': '%defines%'}, **defs))
    return json.dumps(docs, ensure_ascii=rng.random() < .5, indent=rng.choice([None, 1, 2, '\t']))


# -- argparse -----------------------------------------------------------------
CH = ['list', 'tuple', 'set', 'frozenset', 'dict', 'keys', 'gen']


def python(rng, prog):
    '''(source, documents that describe the same command line)'''
    src = ['import argparse', 'def later():\n    return 1']
    docs = []
    W = defgen.WORDS
    HELP = ['Show it', "Don't", 'a "b"', '50 of [it]', 'x: y', '😀', None, None]

    def one(var, path, helptext, depth, kw, addhelp):
        d = {'prog': path}
        if helptext:
            d['help'] = helptext
        d['options'] = []
        if addhelp:
            d['options'].append({'option_strings': ['-h', '--help'], 'help': 'show this help message and exit', 'final': True})
        names = rng.sample(W, rng.randint(0, 6))
        shorts = rng.sample('abcdefgijklmnopqrstuvwxyz', 12)
        group = None
        ng = 0
        for n in names:
            target = var
            if rng.random() < .25:
                if group is None or rng.random() < .4:
                    ng += 1
                    group = 'g%d' % ng
                    src.append('%s = %s.add_mutually_exclusive_group()' % (group, var))
                target = group
            elif rng.random() < .1:
                src.append('ag = %s.add_argument_group("more")' % var)
                target = 'ag'
            ss = []
            if rng.random() < .5:
                ss.append('-' + shorts.pop())
            if rng.random() < .8 or not ss:
                ss.append('--' + n)
            o = {'option_strings': ss}
            dest = next((s[2:] for s in ss if s.startswith('--')), ss[0].lstrip('-')).replace('-', '_')
            a = [repr(s) for s in ss]
            h = rng.choice(HELP)
            t = rng.random()
            if t < .3:
                a.append(rng.choice(["action='store_true'", "action='store_false'", "action='count'", "action='store_const', const=3", "action='append_const', const=4"]))
            elif t < .36:
                a.append("action='version', version='1'")
                o['final'] = True
                if h is None:
                    h = "show program's version number and exit"      # added by argparse
                    o['help'] = h
                    h = None
            else:
                mv = rng.choice([None, None, 'ARG', 'x y'])
                if mv:
                    a.append('metavar=%r' % mv)
                elif rng.random() < .1:
                    a.append("dest='other'")
                    dest = 'other'
                o['metavar'] = mv or dest
                if rng.random() < .2:
                    a.append("action='append'")
                if rng.random() < .2:
                    a.append("nargs='?'")
                    o['optional_arg'] = True
                a2, o['complete'] = choice(var)
                a += a2
            if h:
                a.append('help=%r' % h)
                o['help'] = h
            elif h is None and rng.random() < .1:
                a.append('help=argparse.SUPPRESS')
                o['hidden'] = True
                o.pop('help', None)
            if 'required' not in a and rng.random() < .05 and target == var and "action='version', version='1'" not in a and 'const' not in str(a) and 'count' not in str(a) and 'store_' not in str(a):
                a.append('required=True')
            if target.startswith('g'):
                o['groups'] = ['group%d' % int(target[1:])]
            call = '%s.add_argument(%s)' % (target, ', '.join(a))
            if rng.random() < .1 and not o.get('hidden'):
                call += '.set_repeatable()'
                o['repeatable'] = True
            if rng.random() < .1:
                call += '.set_final()'
                o['final'] = True
            src.append(call)
            d['options'].append(o)
        for i in range(rng.choice([0, 0, 1, 2])):
            n = W[i + 3] + '_pos'
            p = {'number': i + 1}
            a = [repr(n)]
            mv = rng.choice([None, 'FILE', 'a b'])
            if mv:
                a.append('metavar=%r' % mv)
            p['metavar'] = mv or n
            na = rng.choice([None, None, "'?'", "1", "'*'", "'+'"] if i == 0 else [None, "'*'"])
            if p['number'] > 1 or depth:
                na = None if depth else na
            if na:
                a.append('nargs=' + na)
            if na in ("'*'", "'+'"):
                p['repeatable'] = True
            a2, p['complete'] = choice(var)
            a += a2
            h = rng.choice(HELP)
            if h:
                a.append('help=%r' % h)
                p['help'] = h
            src.append('%s.add_argument(%s)' % (var, ', '.join(a)))
            d.setdefault('positionals', []).append(p)
            if p.get('repeatable'):
                break
        docs.append(d)
        if depth and rng.random() < .7:
            src.append('sp%d = %s.add_subparsers()' % (depth, var))
            for n in rng.sample(['add', 'list', 'show', 'up-date', 'clone'], rng.randint(1, 3)):
                h = rng.choice(HELP)
                sv = 'sub%d' % depth
                ah = rng.random() < .8
                src.append('%s = sp%d.add_parser(%r%s%s)' % (sv, depth, n, '' if h is None else ', help=%r' % h, '' if ah else ', add_help=False'))
                i = len(docs)
                al = None
                if rng.random() < .3:
                    al = [n[:2] + 'x', n + 'y'][:rng.randint(1, 2)]
                    src.append('%s.aliases(%r)' % (sv, al) if len(al) > 1 or rng.random() < .5 else '%s.alias(%r)' % (sv, al[0]))
                one(sv, path + ' ' + n, h, depth - 1, '', ah)
                if al:
                    docs[i]['aliases'] = al

    def choice(var):
        t = rng.random()
        if t < .35:
            return [], ['none']
        if t < .45:
            a, b = rng.randint(-3, 3), rng.randint(5, 9)
            s = rng.choice([1, 2, -1])
            if s == -1:
                return ['type=int, choices=range(%d, %d, -1)' % (b, a)], ['range', b, a + 1, -1]
            return (['type=int, choices=range(%d, %d)' % (a, b)], ['range', a, b - 1]) if s == 1 else (['type=int, choices=range(%d, %d, 2)' % (a, b)], ['range', a, b - 1, 2])
        vs = rng.sample(defgen.WORDS, rng.randint(1, 4))
        k = rng.choice(CH)
        e = {'list': repr(vs), 'tuple': repr(tuple(vs)), 'set': '{%s}' % ', '.join(map(repr, vs)), 'frozenset': 'frozenset(%r)' % (vs,), 'dict': '{%s}' % ', '.join('%r: later' % v for v in vs),
             'keys': 'dict.fromkeys(%r).keys()' % (vs,), 'gen': 'list(x for x in %r)' % (vs,)}[k]
        return ['choices=' + e], ['choices', sorted(vs) if k in ('set', 'frozenset') else vs]

    h = rng.choice(['Some program', 'x: "y"', None])
    ah = rng.random() < .85
    src.append('parser = argparse.ArgumentParser(prog=%r%s%s)' % (prog, '' if h is None else ', description=%r' % h, '' if ah else ', add_help=False'))
    one('parser', prog, h, rng.choice([0, 1, 2]), '', ah)
    for d in docs:
        if not d['options']:
            del d['options']
    docs.sort(key=lambda d: d['prog'].count(' '))
    return '\n'.join(src) + '\n', docs


def helptext(rng, prog):
    r = rng.choice(['usage: %s [options] FILE\n', 'Usage: %s [-x] {add,del}\n', '%s - does "things"\n\nUSAGE\n', 'Usage:\n  %s [OPTION]...\n']) % prog + '\n'
    if rng.random() < .5:
        r += rng.choice(['Do things.\n', 'Text over\ntwo lines: "x"\n', '# heading\n', '--- rule ---\n', '\tTabbed: text\n', '😀 é\n']) + '\n'
    r += rng.choice(['options:\n', 'OPTIONS\n', ''])
    for w in rng.sample(defgen.WORDS, rng.randint(1, 12)):
        mv = rng.choice(['', '', ' ARG', '=FILE', ' <dir>', '[=WHEN]', ' CMD', ' cmd', ' {a,b}', ' {x|y}', ' SIG', ' "Q"', ' NUM', '=<a b>', ' N'])
        s = rng.choice(['', '-%s, ' % w[0], '-%s%s, ' % (w[0], mv)])
        h = rng.choice(['Some text', 'Two\n%26s lines' % '', 'colon: x', '"quoted"', "it's", '# hash', 'back\\slash', '😀', '', 'x-\n%26sy' % '', '[default: %(x)s]', '<tag> & more', 'key: [a, b', '- dash', '*'])
        r += '  %-22s  %s\n' % (s + '--' + w + mv, h)
        if rng.random() < .1:
            r += rng.choice(['\nMore: options\n', '\nSection "x":\n  text\n  --- more\n\n', '    not an option\n'])
    return r + rng.choice(['', '\nReport bugs to <a@b.c>\n', '\nExamples:\n  $ x --y "z" # w\n'])


# ---------------------------------------------------------------------------
def gen(rng, tier, i):
    kind = rng.choice(['docs', 'docs', 'docs', 'python', 'python', 'help'])
    prog = rng.choice(['prog', 'my-prog', 'p.x'])
    case = {'kind': kind, 'shell': rng.choice(['bash', 'fish', 'zsh']), 'argv': defgen.config_argv(rng, .07), 'forms': [], 'chain': []}
    if rng.random() < .25 and not any('repeatable-options' in a for a in case['argv']):
        case['argv'] = case['argv'] + ['--repeatable-options=True']
    if kind == 'docs':
        docs = spice(rng, defgen.rich(rng, prog)) if rng.random() < .8 else sess.docs(sess.gen_def(rng, sess.profile(p_when=.4, p_capture=.3, p_special=.5, p_nosort=.3), prog))
        case['docs'] = docs
        for _ in range(rng.randint(1, 2)):
            case['forms'].append(['yaml', by_hand(rng, docs)] if rng.random() < .7 else ['json', by_json(rng, docs)])
    elif kind == 'python':
        src, docs = python(rng, prog)
        case['docs'] = docs
        case['forms'].append(['python', src])
    else:
        case['forms'].append(['help', helptext(rng, prog)])
    for _ in range(rng.randint(1, 4) if rng.random() < .8 else 0):
        case['chain'].append({'to': rng.choice(['json', 'yaml']), 'via': rng.choice(['file', 'file', 'stdout', 'pipe']), 'chunk': rng.choice([0, 0, 1, 3, 7, 64]), 'fault': rng.choice(['', '', 'eintr', 'shortw'])})
    if kind == 'help':
        case['chain'] = [{'to': 'yaml', 'via': 'file', 'chunk': 0, 'fault': ''}] + case['chain'][:3]
    return case


EXT = {'json': '.json', 'yaml': '.yaml', 'python': '.py', 'help': '.txt'}


def run(ctx, case, out):
    srv = server(ctx)

    def go(fmt, text, target, argv=(), via='file', chunk=0, fault='', dest='stdout'):
        plan = []
        if chunk:
            plan.append(('read', '*', 0, 'short', chunk))
            out.counters['fault:read:short'] += 1
        if fault == 'eintr':
            plan += [('read', '*', k, 'EINTR', 0) for k in (1, 3)]
        if fault == 'shortw':
            plan.append(('write', '*', 0, 'short', max(chunk, 1)))
            out.counters['fault:write:short'] += 1
        name = 'def' + EXT[fmt]
        a = list(argv) + (['--input-type', fmt] if fmt in ('python', 'help') or via == 'pipe' else [])
        kw = {}
        if via == 'pipe':
            w = {'hold/stream': text}
            kw['stdin_pipe'] = 'hold/stream'
            a += [target, '/dev/stdin']
        else:
            w = {'w/' + name: text}
            a += [target, name]
        if dest == 'file':
            a += ['-o', 'out']
        r = srv.run(w, a, plan, **kw)
        out.counters['runs'] += 1
        for op, act in fired_ops(r)[0]:
            if act != 'short':
                out.counters['fault:%s:%s' % (op, act)] += 1
        if r['status'] != 'exit:0':
            return None, r
        if dest == 'file':
            return r['after']['w/out'][2].decode('utf-8', 'surrogateescape'), r
        return r['stdout'].decode('utf-8', 'surrogateescape'), r

    def err(r):
        return '%s %s' % (r['status'], ' / '.join(r['stderr'].decode('utf-8', 'replace').strip().split('\n')[-12:])[:700])

    def diff(a, b):
        for x, y in zip(a.split('\n'), b.split('\n')):
            if x != y:
                return 'expected %r\n     got %r' % (x[:300], y[:300])
        return 'lengths %d and %d' % (len(a), len(b))
    want = None
    if 'docs' in case:
        want, r = go('json', json.dumps(case['docs']), case['shell'], case['argv'])
        out.event('ref', core.h8(want or ''))
        if want is None:
            out.counters['probe:definition_refused'] += 1
    state = []
    for fi, (fmt, text) in enumerate(case['forms']):
        out.note = '%s -> %s -> %s' % (fmt, ','.join(c['to'] for c in case['chain']), case['shell'])
        if fmt != 'help':
            got, r = go(fmt, text, case['shell'], case['argv'])
            out.event('form', fmt, core.h8(got or ''))
            if got is None and want is not None:
                out.violation('C16/refused-%s' % fmt, 'the definition is accepted as JSON, but not as %s: %s\n%s' % (fmt, err(r), text[:1500]))
                return
            if got is not None and want is None and 'docs' in case:
                out.violation('C16/accepted-%s' % fmt, 'the definition is refused as JSON, but accepted as %s\n%s' % (fmt, text[:1500]))
                return
            if want is None:
                return
            out.nontrivial = True
            if got != want:
                out.violation('C16/differs-%s' % fmt, '%s script of the %s form differs from that of the definition: %s\n%s' % (case['shell'], fmt, diff(want, got), text[:1500]))
                return
        cur, cfmt = text, fmt
        seen = {}
        for k, c in enumerate(case['chain']):
            dest = 'file' if c['via'] == 'file' else 'stdout'
            nxt, r = go(cfmt, cur, c['to'], (), c['via'] if cfmt in ('json', 'yaml') else 'file', c['chunk'], c['fault'], dest)
            out.event('conv', cfmt, c['to'], core.h8(nxt or ''))
            state.append('%s>%s:%s%d%s' % (cfmt, c['to'], c['via'], c['chunk'], c['fault']))
            if nxt is None:
                if cfmt == 'help' and 'Error' in err(r) and 'raceback' not in err(r):
                    out.counters['probe:help_refused'] += 1
                    return
                out.violation('C16/conversion-fails', 'converting %s to %s (step %d of the chain from %s) fails: %s\n%s' % (cfmt, c['to'], k + 1, fmt, err(r), cur[:1500]))
                return
            cur, cfmt = nxt, c['to']
            if k and cfmt in seen and seen[cfmt].rstrip('\n') != cur.rstrip('\n'):
                out.violation('C16/unstable', 'converting the %s again gives another %s: %s' % (cfmt, cfmt, diff(seen[cfmt], cur)))
                return
            if cfmt == 'json':
                try:
                    json.loads(cur)
                except ValueError as e:
                    out.violation('C16/not-json', '%s: %s' % (e, cur[:500]))
                    return
            if fmt != 'help' or k:
                seen[cfmt] = cur
        if case['chain']:
            got, r = go(cfmt, cur, case['shell'], case['argv'])
            out.event('end', core.h8(got or ''))
            if got is None:
                out.violation('C16/own-output-refused', 'the %s written by crazy-complete from %s is not accepted: %s\n%s' % (cfmt, fmt, err(r), cur[:1500]))
                return
            out.nontrivial = True
            if want is not None and got != want:
                out.violation('C16/chain-differs', '%s script after %s differs from that of the definition: %s\n%s' % (
                    case['shell'], ' '.join(['%s' % fmt] + ['-> ' + c['to'] for c in case['chain']]), diff(want, got), cur[:1500]))
                return
    out.states.add('%s|%s|%s' % (case['shell'], case['forms'][0][0] if case['forms'] else '', ' '.join(state)))


def shrink(case):
    yield from core.shrink_key(case, 'chain')
    yield from core.shrink_key(case, 'argv')
    yield from core.shrink_key(case, 'forms')
    for k, c in enumerate(case['chain']):
        if c['chunk'] or c['fault'] or c['via'] != 'file':
            ch = list(case['chain'])
            ch[k] = dict(c, chunk=0, fault='', via='file')
            yield dict(case, chain=ch)
    if case['kind'] == 'help':
        ls = case['forms'][0][1].split('\n')
        for c in core.ddmin_list(ls):
            yield dict(case, forms=[['help', '\n'.join(c)]])
    elif case['kind'] == 'docs':
        # the same definition, written again in a plain style
        import random
        rng = random.Random(1)
        for i, d in enumerate(case['docs']):
            for key in ('options', 'positionals'):
                for c in core.ddmin_list(d.get(key, [])):
                    ds = [dict(x) for x in case['docs']]
                    ds[i][key] = c
                    if not c:
                        del ds[i][key]
                    yield dict(case, docs=ds, forms=[['json', json.dumps(ds)]])
                    yield dict(case, docs=ds, forms=[['yaml', by_hand(rng, ds)]])
