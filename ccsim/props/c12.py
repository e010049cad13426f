'''C12: list and key-value completers never offer what is used up.'''
from .. import session
from . import c10

ID = 'C12'
LEVEL = 'exploration'
TECHNIQUE = c10.TECHNIQUE
RUNS = {'quick': 3000, 'thorough': 26000}
RULE = 'a case counts as nontrivial if at least one completion inside a list, key-value or prefixed argument had a non-empty predicted answer'
STATES = c10.STATES
COMPONENTS = session.COMPONENTS
ASSUMPTIONS = ['list items in Zsh: items already used may be offered again by the completer "list" (pinned by the test suite of the repository), and "value_list" answers nothing behind items that are not its own',
               'what is offered when the last item is typed out completely is left open', 'the separators of key_value_pair_exec are restricted to "="']
K = {'list': 4, 'kvl': 3, 'kvle': 2, 'kvp': 2, 'kvpe': 1, 'combine': 1, 'prefix': 1, 'range': 1, 'exec': 1, 'exec_fast': 1}
B = {'opts': (2, 3), 'p_arg': 0.8, 'subs': 0.2, 'p_final': 0.03, 'p_group': 0.1, 'kinds': K}
PROFILES = [B, dict(B, seps=1), dict(B, seps=1, p_special=0.4), dict(B, p_optarg=0.5, p_arg=0.4), dict(B, kinds={'prefix': 3, 'combine': 3, 'list': 2, 'kvp': 2, 'kvl': 2}, p_nest=0.8), dict(B, kinds={'prefix': 3, 'combine': 3, 'list': 2, 'kvp': 2, 'kvl': 2}, p_nest=0.8, seps=1)]


def gen(rng, tier, i):
    return c10.gen(rng, tier, i, PROFILES, ('arg', 'arg', 'pos'), {'maxwords': rng.choice([1, 2, 4])}, after=0.05)


def run(ctx, case, out):
    session.run_model(ctx, case, out, ('optarg', 'positional'))


shrink = session.shrink
