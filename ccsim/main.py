import os, sys, argparse, importlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from ccsim import core


def load_prop(pid):
    return importlib.import_module('ccsim.props.%s' % pid.lower())


def main():
    p = argparse.ArgumentParser()
    p.add_argument('prop', nargs='?')
    p.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    p.add_argument('--seed', type=int, default=None)
    p.add_argument('--runs', type=int)
    p.add_argument('--workers', type=int)
    p.add_argument('--cap', type=float)
    p.add_argument('--replay')
    p.add_argument('--case', type=int, help='run one case verbosely')
    p.add_argument('--determinism', action='store_true')
    p.add_argument('--survey', action='store_true')
    p.add_argument('--setup', action='store_true')
    o = p.parse_args()
    if o.setup:
        from ccsim import genclient
        print(genclient.setup())
        return 0
    seed = o.seed
    if seed is None:
        try:
            seed = int(os.environ.get('VERIF_SEED') or 1)
        except ValueError:
            seed = core.sub_seed(os.environ['VERIF_SEED']) % 10**9
    if o.replay:
        return core.replay(o.replay, load_prop)
    prop = load_prop(o.prop)
    if o.case is not None:
        import json, shutil
        if hasattr(prop, 'prepare'):
            prop.prepare()
        base = core.scratch_root()
        ctx = core.Ctx(os.path.join(base, 'r'))
        try:
            case = core.case_of(prop, seed, o.case, o.tier)
            print(json.dumps(case, indent=1)[:6000])
            print(json.dumps(core.run_case(prop, ctx, case), indent=1)[:12000])
        finally:
            ctx.close()
            shutil.rmtree(base, ignore_errors=True)
        return 0
    if o.survey:
        return core.survey(prop, seed, o.tier, o.runs, o.workers, o.cap)
    if o.determinism:
        from ccsim import determinism
        return determinism.main(prop, seed, o.tier, o.runs or 200)
    return core.search(prop, seed, o.tier, o.runs, o.workers, o.cap)


if __name__ == '__main__':
    sys.exit(main())
