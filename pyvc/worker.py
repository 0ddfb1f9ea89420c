"""One proof task: python3-vt -m pyvc.worker PROP CONTRACT MODE"""
import importlib.util
import json
import os
import resource
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)


def load_contracts(prop):
    from pyvc import api
    path = os.path.join(HERE, 'contracts', prop + '.py')
    spec = importlib.util.spec_from_file_location('contracts_' + prop, path)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return api.REGISTRY.get(prop, {})


def main():
    prop, name, mode = sys.argv[1:4]
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    t0 = time.time()
    out = dict(prop=prop, contract=name, mode=mode, obligations=[], problems=[])
    try:
        from pyvc import load, api, prove, loops, shim, terms
        cs = load_contracts(prop)
        c = cs[name]
        load.install()
        import pygfunction as gt
        if mode == 'bounded':
            terms.Context.allow_concretize = True
            shim.EXPLICIT_SMALL[0] = True

        def run():
            loops.reset()
            loops.INVARIANTS.clear()
            loops.ITER_RULES.clear()
            del shim.SOLVES[:]
            del shim.INTERPS[:]
            api.unstub()
            C = api.SymCtx(gt, mode)
            try:
                c.fn(C)
            finally:
                api.unstub()
        r = prove.explore(run, max_paths=c.max_paths, budget_s=c.budget * float(os.environ.get('PYVC_SCALE', '1')))
        out.update(r)
        out['problems'] = [list(p) for p in out['problems']]
        out['sources'] = load.SOURCES
        out['funcs'] = {t: load.FUNCS['pygfunction.' + t] for t in c.targets if 'pygfunction.' + t in load.FUNCS}
        out['missing'] = [t for t in c.targets if 'pygfunction.' + t not in load.FUNCS]
        out['assumed'] = sorted(shim.ASSUMED)
        out['axioms'] = sorted(terms.AXNOTES)
        out['extract'] = load.EXTRACT
    except Exception as ex:
        from pyvc.prove import _where
        out['problems'].append([type(ex).__name__, f'{ex} [{_where(ex)}]'])
    out['wall'] = round(time.time() - t0, 3)
    json.dump(out, sys.stdout, default=str)
    sys.stdout.write('\n')
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
