'''C13: captured option values reach the helper unchanged.'''
import os
from .. import core, sess, session, shells

ID = 'C13'
LEVEL = 'exploration'
TECHNIQUE = 'deterministic simulation with fault injection: seeded histories of command lines in a real interactive shell; a helper function dumps the captured variables, which are compared with a reference model of the command line'
RUNS = {'quick': 1800, 'thorough': 20000}
RULE = 'a case counts as nontrivial if at least one captured variable with a value was dumped and compared'
STATES = 'distinct (shell, number of captured values, forms and odd characters in them, history) tuples'
COMPONENTS = session.COMPONENTS
ASSUMPTIONS = ['the value of the option at the cursor itself may or may not be counted', 'options without a value leave unspecified elements', 'values are printable text of a well-formed command line']
K = {'choices': 2, 'capdump': 9, 'none': 1}
B = {'p_capture': 0.7, 'p_arg': 0.75, 'p_optarg': 0.2, 'p_repeat': 0.5, 'p_final': 0.02, 'p_group': 0.1, 'opts': (2, 5)}
PROFILES = [B, dict(B, subs=0.9, depth=3), dict(B, subs=1.0, depth=3, opts=(1, 3), pos=(0, 1), p_capture=0.9), dict(B, p_cfg=0.9), dict(B, p_old=1.0), dict(B, p_sep=0.4), dict(B, pos=(1, 3)), dict(B, p_samename=0.4, subs=0.9), dict(B, p_when=0.4), dict(B, subs=0)]

DUMP = {
    'bash': '''_capdump() {
  local v
  {
    printf 'DUMP\\0'
%s
    printf 'OVER\\0'
  } >>"$VIO/cap"
  printf '%%s\\n' cdx cdy
}
''',
    'zsh': '''_capdump() {
  {
    printf 'DUMP\\0'
%s
    printf 'OVER\\0'
  } >>"$VIO/cap"
  printf '%%s\\n' cdx cdy
}
''',
    'fish': '''function _capdump
  begin
    printf 'DUMP\\0'
%s
    printf 'OVER\\0'
  end >>"$VIO/cap"
  printf '%%s\\n' cdx cdy
end
''',
}
VAR = {
    'bash': "    printf '%%s\\0' @ \"${#@[@]}\"; (( ${#@[@]} )) && printf '=%%s\\0' \"${@[@]}\"",
    'zsh': "    printf '%%s\\0' @ \"${#@}\"; (( ${#@} )) && printf '=%%s\\0' \"${(@)@}\"",
    'fish': "    printf '%%s\\0' @ (count $@); set -q @[1]; and printf '=%%s\\0' $@",
}


def dumper(kind, names):
    return DUMP[kind] % '\n'.join(VAR[kind].replace('(@)@', '(\x01)@').replace('[@]', '[\x01]').replace('@', n).replace('\x01', '@').replace('%%', '%') for n in names)


def place_dumpers(rng, n):
    for e in n['opts'] + n['pos']:
        if 'c' in e and rng.random() < 0.75 and e['c']['k'] in ('choices', 'none', 'exec'):
            e['c'] = {'k': 'exec', 'h': '_capdump'}
    for s in n['subs']:
        place_dumpers(rng, s)


def gen(rng, tier, i):
    shell = session.SHELLS[i % 3]
    d = sess.gen_def(rng, sess.profile(**dict({'kinds': {'choices': 6, 'none': 1, 'exec': 1}}, **rng.choice(PROFILES))))
    place_dumpers(rng, d['root'])
    d['helpers']['_capdump'] = {'v': ['cdx', 'cdy'], 'desc': False}
    caps = [o for o in sess.all_options(d['root']) if o.get('capture')]
    for k, o in enumerate(caps):
        if rng.random() < 0.15:
            o['capture'] = rng.choice(['database', 'OPT_FOO', '_X', 'CAP_9', 'opt_value', 'Db1']) + '_c%d' % k
    lg = sess.LineGen(rng, d, shell, {'maxwords': rng.choice([3, 5, 8]), 'odd_values': rng.choice([0, 0.3, 0.6]), 'p_misuse': 0.02})
    steps = session.gen_lines(rng, lg, rng.randint(3, 9), ['arg', 'arg', 'pos', 'pos', 'arg'])
    session.gen_noise(rng, steps, {'helpers': {}}, 0.15)
    return {'shell': shell, 'def': d, 'steps': steps, 'other': session.other_def()}


def read_dumps(sh):
    '''The dumps since the last call.'''
    p = os.path.join(sh.io, 'cap')
    try:
        with open(p, 'rb') as fh:
            parts = fh.read().decode('utf-8', 'surrogateescape').split('\0')
    except OSError:
        return []
    os.unlink(p)
    r = []
    it = iter(parts)
    for x in it:
        if x == 'DUMP':
            d, name = {}, None
            for y in it:
                if y == 'OVER':
                    break
                if y.startswith('='):
                    d[name][1].append(y[1:])
                else:
                    name = y
                    d[name] = (int(next(it)), [])
            r.append(d)
    return r


def run(ctx, case, out):
    kind = case['shell']
    d = case['def']
    caps = sorted({o['capture'] for o in sess.all_options(d['root']) if o.get('capture')})
    try:
        s = session.Session(ctx, case, out, includes=[dumper(kind, caps)])
    except sess.GenFail as e:
        out.violation('generation', 'no script for a valid definition: %s' % e)
        return
    try:
        if s.loaderr:
            out.violation(kind + ':load', 'the shell reports an error when the script is loaded: %s' % s.loaderr[-500:])
            return
        hist = []
        for i, step in enumerate(case['steps']):
            for ev in step.get('pre', []):
                s.noise(ev)
                hist.append(ev[0])
            read_dumps(s.sh)
            text, q = s.query(dict(step, pre=[]))
            out.counters['runs'] += 1
            dumps = read_dumps(s.sh)
            out.event(i, text, dumps)
            pl = s.m.place(step['w'], step['cur'], {})
            st = pl['st']
            if kind == 'fish' and (step['w'] and session.fish_stack(s.m, st.path, step['w'][-1]) or pl.get('form') == 'joined' and session.fish_letter(s.m, pl, step['cur'])):
                pl['odd'] = 'letter that takes an argument elsewhere'
            if pl['odd'] or pl['cands'] is None or not q['called'] and kind == 'bash' and '`' in text:      # readline completes commands after a backquote
                out.counters['unspecified'] += 1
                continue
            here = [x for o in s.m.visible(st.path) for x in o['s']] + [x for n in st.path for o in n['opts'] for x in o['s']]
            if pl.get('comp') and pl['comp'].get('h') == '_capdump' and not dumps and pl['cands']:
                out.violation(kind + ':helper-not-run', 'step %d, line %r: the helper of this place was not run (suggestions %s, stderr %r)' % (i, text, q['cands'][:5], q['err'][:300]))
                return
            for dump in dumps:
                for o in sess.all_options(d['root']):
                    if not o.get('capture'):
                        continue
                    if not any(o is x for n in st.path for x in n['opts']) and set(o['s']) & set(here):
                        continue          # an option of another command that looks like one of these
                    if kind == 'fish' and sum(1 for x in sess.all_options(d['root']) if set(x['s']) & set(o['s'])) > 1:
                        continue
                    vals = [g[1] for g in st.given if g[0] is o]
                    n, got = dump[o['capture']]
                    if n != len(got):
                        raise core.HarnessError('dump of %s: %r' % (o['capture'], dump))
                    if any(v is None for v in vals):
                        vals = [v or '' for v in vals]
                        out.counters['unspecified'] += 1
                        continue
                    if pl.get('owner') is o or pl['kind'] == 'option':
                        if got[:len(vals)] == vals and len(got) <= len(vals) + 1:
                            continue
                    out.counters['compared'] += 1
                    out.states.add(core.h8(repr((kind, len(vals), [sorted(set(c for c in v if not c.isalnum())) for v in vals][:3], hist[-1:], st.dashdash, len(st.path), sorted({g[2][:2] for g in st.given if g[0] is o})))))
                    if vals:
                        out.nontrivial = True
                        out.counters['probe:value'] += 1
                    if got != vals:
                        what = 'stale' if not vals else 'missing' if not got else 'value' if len(got) == len(vals) else 'count'
                        out.violation('%s:%s' % (kind, what), 'step %d, line %r: %s (%s) is %r, not %r (stderr %r)' % (i, text, o['capture'], '/'.join(o['s']), got, vals, q['err'][:200]))
                        return
            hist.append('q')
        out.note = 'shell %s, captures %s, last line %r' % (kind, caps[:4], text if case['steps'] else '')
    except shells.Hang as e:
        out.violation(kind + ':hang', 'the completion did not return: %s' % e)
    except shells.Dead as e:
        out.violation(kind + ':dead', str(e))
    finally:
        session.pool(ctx).reset()


shrink = session.shrink
