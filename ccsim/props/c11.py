'''C11: every word is attributed to the right command, positional or option.'''
from .. import session
from . import c10

ID = 'C11'
LEVEL = 'exploration'
TECHNIQUE = c10.TECHNIQUE
RUNS = {'quick': 3000, 'thorough': 26000}
RULE = 'a case counts as nontrivial if at least one completion of an argument, positional or subcommand had a non-empty predicted answer'
STATES = c10.STATES
COMPONENTS = session.COMPONENTS
ASSUMPTIONS = c10.ASSUMPTIONS
PROFILES = [
    {},
    {'kinds': {'choices': 5, 'none': 1, 'exec': 1, 'range': 1, 'combine': 1, 'prefix': 1}, 'pos': (1, 4)},
    {'subs': 0.9, 'depth': 3, 'p_alias': 0.6, 'p_prefixname': 0.4, 'p_cfg': 0.7},
    {'p_arg': 0.6, 'p_optarg': 0.3, 'p_sep': 0.3, 'opts': (3, 6)},
    {'p_old': 1.0, 'opts': (2, 5)},
    {'p_special': 0.5, 'p_cfg': 0.4},
    {'p_special': 0.7, 'specials': [':', '=', ',', '~', ';', '#', ' ', "'", '[', ']', '*', '$'], 'kinds': {'choices': 3, 'exec': 3}, 'p_desc': 0.5},
    {'p_special': 1, 'specials': [':', '=', ':'], 'kinds': {'choices': 3, 'exec': 3}},
    {'p_cfg': 1.0, 'p_prefixname': 0.5},
    {'subs': 0.95, 'p_alias': 0.9, 'p_abbrcmd': 1, 'p_cfg': 1.0, 'opts': (1, 2), 'p_prefixname': 0.3},
    {'p_samename': 0.5, 'subs': 0.9, 'p_arg': 0.6},
]


def gen(rng, tier, i):
    return c10.gen(rng, tier, i, PROFILES, ('arg', 'arg', 'pos', 'pos', 'pos', 'opt'), {'p_dd': 0.08})


def run(ctx, case, out):
    session.run_model(ctx, case, out, ('optarg', 'positional', 'subcmd'))


shrink = session.shrink
