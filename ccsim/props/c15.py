'''C15: conditional options and arguments follow the command line.'''
from .. import session
from . import c10

ID = 'C15'
LEVEL = 'exploration'
TECHNIQUE = c10.TECHNIQUE
RUNS = {'quick': 3000, 'thorough': 26000}
RULE = 'a case counts as nontrivial if the definition has a condition and at least one completion had a non-empty predicted answer'
STATES = c10.STATES
COMPONENTS = session.COMPONENTS
ASSUMPTIONS = c10.ASSUMPTIONS + ['what the argument of an option whose condition is false completes to is left open']
B = {'p_when': 1.0, 'p_when_opt': 0.6, 'p_when_pos': 0.5, 'subs': 0.35}
PROFILES = [B, dict(B, p_old=0.5), dict(B, pos=(1, 4), opts=(2, 4)), dict(B, p_cfg=1.0), dict(B, subs=0.8), dict(B, subs=0.9, p_samename=0.5), dict(B, p_repeat=0.5, p_special=0.4), dict(B, p_repeat=0.8, p_arg=0.8, p_optarg=0.1, opts=(2, 4))]


def gen(rng, tier, i):
    return c10.gen(rng, tier, i, PROFILES, ('opt', 'opt', 'arg', 'pos', 'pos'), {'p_unusedval': 0.12, 'p_focus': rng.choice([0, 0.7, 0.9])})


def run(ctx, case, out):
    session.run_model(ctx, case, out, ('optnames', 'optarg', 'positional', 'subcmd'))
    if not any('when' in x for n in session.nodes(case['def']['root']) for x in n['opts'] + n['pos']):
        out.nontrivial = False


shrink = session.shrink
