'''C10: offered options follow the rules for used options.'''
from .. import sess, session

ID = 'C10'
LEVEL = 'exploration'
TECHNIQUE = 'deterministic simulation with fault injection: seeded histories of key strokes and disturbances in real interactive shells on a simulated terminal, every answer compared with a reference model'
RUNS = {'quick': 3000, 'thorough': 26000}
RULE = 'a case counts as nontrivial if at least one completion at an option position had a non-empty predicted answer'
STATES = 'distinct (shell, configuration, place, form, completer, depth, number of positionals and options given, forms used, edit mode) tuples'
COMPONENTS = session.COMPONENTS
ASSUMPTIONS = ['the completion query is asked by a key binding that calls the entry point the completion key uses', 'the model leaves unspecified: lines that break the rules of the definition, stacked words at the cursor']
PROFILES = [
    {},
    {'p_final': 0.25, 'subs': 0.8, 'depth': 2, 'p_hidden': 0.15, 'p_cfg': 0.6},
    {'p_group': 0.6, 'p_repeat': 0.3, 'opts': (3, 7), 'p_arg': 0.35, 'p_optarg': 0.2},
    {'p_old': 1.0, 'opts': (2, 5)},
    {'p_cfg': 1.0, 'subs': 0.7, 'p_group': 0.4, 'p_hidden': 0.15, 'p_final': 0.1},
    {'p_samename': 0.5, 'subs': 0.9, 'p_repeat': 0.3, 'p_group': 0.3},
    {'p_help': 0.5, 'subs': 0.6, 'opts': (0, 3), 'pos': (0, 1)},
]


def gen(rng, tier, i, profiles=PROFILES, want=('opt', 'opt', 'opt', 'arg', 'pos'), lineopt=None, nsteps=(4, 9), after=0.1):
    shell = session.SHELLS[i % 3]
    prof = sess.profile(**rng.choice(profiles))
    d = sess.gen_def(rng, prof)
    lg = sess.LineGen(rng, d, shell, dict({'maxwords': rng.choice([3, 5, 8, 12])}, **(lineopt or {})))
    steps = session.gen_lines(rng, lg, rng.randint(*nsteps), list(want) if want else None, after=after)
    session.gen_noise(rng, steps, d, rng.choice([0, 0, 0.15, 0.4]))
    case = {'shell': shell, 'def': d, 'steps': steps, 'helperlines': session.helper_lines(d)}
    if any(e[0] == 'other' for s in steps for e in s.get('pre', [])):
        case['other'] = session.other_def()
        case['otherfirst'] = rng.random() < 0.5
    return case


def run(ctx, case, out):
    session.run_model(ctx, case, out, ('optnames',))


shrink = session.shrink
