#!/usr/bin/env python3
"""check.py PROP [--tier quick|thorough] [--baseline]   decide one property on /repo's tree
   check.py --replay FILE                              run a recorded failing input again"""
import argparse
import ast
import concurrent.futures as cf
import hashlib
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('PYVC_REPO', '/repo')
VPY = '/opt/veriftools/pyvenv/bin/python3'
RPY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', MKL_NUM_THREADS='1',
           MPLBACKEND='Agg', PYTHONHASHSEED='0', PYTHONPATH=HERE, PYVC_REPO=REPO)
for v in ('PYTHONHOME',):
    ENV.pop(v, None)


def fingerprint():
    """hash of the package's syntax trees, comments and docstrings excluded"""
    h = hashlib.sha256()
    for d, ds, fs in os.walk(os.path.join(REPO, 'pygfunction')):
        ds.sort()
        for f in sorted(fs):
            if f.endswith('.py'):
                t = ast.parse(open(os.path.join(d, f)).read())
                for n in ast.walk(t):
                    if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) \
                            and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str):
                        n.body = n.body[1:]
                h.update(f.encode() + ast.dump(t).encode())
    return h.hexdigest()


def sh(cmd, timeout):
    t0 = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=HERE, env=ENV, start_new_session=True, text=True)
    try:
        o, e = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return None, f'timeout after {timeout} s', time.time() - t0
    try:
        return json.loads(o.strip().splitlines()[-1]), e, time.time() - t0
    except Exception:
        return None, (o[-300:] + e[-800:]), time.time() - t0


def conc(prop, name, seconds, seed, salt=0, fixed=None, case=None, maxn=None):
    cmd = [RPY, '-m', 'pyvc.conc', prop, name, '--seconds', str(seconds), '--seed', str(seed), '--salt', str(salt)]
    if fixed:
        cmd += ['--fixed', fixed]
    if case is not None:
        cmd += ['--case', str(case)]
    if maxn:
        cmd += ['--max', str(maxn)]
    d, err, w = sh(cmd, seconds * 2 + 120)
    return d or dict(prop=prop, contract=name, cases=0, checks=0, failures=[], errors=[err], fatal=err, names=[], samples=[], distinct=0, skipped=0, timeouts=0)


def prove(prop, name, mode, budget, scale):
    ENV['PYVC_SCALE'] = str(scale)
    d, err, w = sh([VPY, '-m', 'pyvc.worker', prop, name, mode], budget * 1.5 * scale + 60)
    return d or dict(prop=prop, contract=name, mode=mode, obligations=[], problems=[['Killed', err[-400:]]], feasible=0, paths=0, wall=w)


def replay(path):
    r = json.load(open(path))
    if 'case' not in r:
        print(f"{path}: failed obligation {r.get('obligation')} of contract {r.get('contract')}; no failing input was found")
        d = prove(r['property'], r['contract'], r.get('mode', 'prove'), 300, 1)
        bad = [o for o in d['obligations'] if o['status'] != 'proved']
        for o in bad:
            print('  not discharged:', o['name'], o['status'])
        return 1 if bad else 0
    fx = None
    if r.get('fixed'):
        import tempfile
        fx = tempfile.NamedTemporaryFile('w', suffix='.json', delete=False)
        json.dump(r['fixed'], fx)
        fx.close()
    d = conc(r['property'], r['contract'], 60, r['key'][0], salt=r['key'][2], case=r['case'], fixed=fx and fx.name)
    if fx:
        os.unlink(fx.name)
    for f in d['failures']:
        print(json.dumps(f, indent=1))
    print('reproduced' if d['failures'] else 'not reproduced')
    return 1 if d['failures'] else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--replay')
    ap.add_argument('--baseline', action='store_true', help='record the proved obligations of this tree')
    ap.add_argument('--only')
    ap.add_argument('--noconc', action='store_true')
    a = ap.parse_args()
    if a.replay:
        sys.exit(replay(a.replay))
    t0 = time.time()
    prop, tier, seed = a.prop, a.tier, a.seed
    thorough = tier == 'thorough'
    sys.path.insert(0, HERE)
    try:
        fp = fingerprint()
    except SyntaxError as ex:
        print(f'the package does not parse: {ex}')
        sys.exit(2)
    info, err, _ = sh([VPY, '-m', 'pyvc.listing', prop], 60)
    if not info:
        print('cannot load the contracts:', err)
        sys.exit(2)
    base = {}
    bpath = os.path.join(HERE, 'baseline', prop + '.json')
    if os.path.exists(bpath):
        base = json.load(open(bpath))
    same_tree = base.get('fingerprint') == fp
    if a.only:
        info['contracts'] = [c for c in info['contracts'] if c['name'] in a.only.split(',')]
    jobs, res, cres = [], {}, {}
    nconc = sum(c['weight'] for c in info['contracts'] if 'conc' in c['modes']) or 1
    total = (50. if not thorough else 400.) * (1 if nconc < 8 else 1.3)
    with cf.ThreadPoolExecutor(max_workers=7) as ex:
        for c in sorted(info['contracts'], key=lambda c: -c['budget']):
            for m in c['modes']:
                if m != 'conc':
                    jobs.append((ex.submit(prove, prop, c['name'], m, c['budget'], 4 if thorough else 1), c, m))
        for c in info['contracts']:
            if 'conc' in c['modes'] and not a.noconc:
                sec = max(4., min(total * c['weight'] / nconc * 3, 25. if not thorough else 240.))
                jobs.append((ex.submit(conc, prop, c['name'], sec, seed), c, 'conc'))
        for f, c, m in jobs:
            r = f.result()
            (cres if m == 'conc' else res)[(c['name'], m)] = r
    # ---- outcome -----------------------------------------------------------------------
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    violations, undecided, notes = [], [], []
    nob = ndis = 0
    backends, solver_time = {}, 0.
    fails = {}
    proved_now = {}
    for (name, m), r in sorted(res.items()):
        obs = r['obligations']
        nob += len(obs)
        good = {}
        for o in obs:
            solver_time += o['time']
            if o['status'] == 'proved':
                ndis += 1
                backends[o['backend']] = backends.get(o['backend'], 0) + 1
            good.setdefault(o['name'], []).append(o['status'])
        if r['problems']:
            undecided.append(f"{name} [{m}]: {r['problems'][0][0]}: {r['problems'][0][1]}"[:400])
        if not obs and not r['problems']:
            undecided.append(f'{name} [{m}]: no obligation generated')
        proved_now[f'{name}/{m}'] = sorted(n for n, st in good.items() if all(s == 'proved' for s in st)) if not r['problems'] else []
        bproved = set(base.get('proved', {}).get(f'{name}/{m}', []))
        for o in obs:
            if o['status'] == 'proved':
                continue
            known = o['name'] in bproved or o['status'] == 'refuted' and bool(bproved) and not r['problems']
            if not known:
                undecided.append(f"{name} [{m}]: obligation '{o['name']}' {o['status']}")
                continue
            if o['status'] == 'unknown' and same_tree:
                undecided.append(f"{name} [{m}]: obligation '{o['name']}' timed out on the baseline tree")
                continue
            fails.setdefault((name, m), []).append(o)
    undecided = sorted(set(undecided))
    conc_by = {c['name']: c for c in info['contracts'] if 'conc' in c['modes']}
    for (name, m), r in sorted(cres.items()):
        for f in r['failures']:
            p = os.path.join('replays', f'{prop}-{name}-{f["case"]}.json')
            json.dump(dict(property=prop, contract=name, **f), open(os.path.join(HERE, p), 'w'), indent=1, default=str)
            violations.append((name, p, '', f['failed'][0]))
        if r.get('fatal'):
            undecided.append(f"{name} [bounded]: {r['fatal'][:300]}")
        elif r['errors']:
            undecided.append(f"{name} [bounded]: {r['errors'][0][:300]}")
        elif r['cases'] == 0 or r['checks'] == 0:
            undecided.append(f'{name} [bounded]: no case ran')
    confirmed = {v[0] for v in violations}
    # a failed obligation: replay the model, then search the contract for a failing input
    for (name, m), obs in sorted(fails.items()):
        if name in confirmed:
            continue
        found = None
        if name in conc_by and not a.noconc:
            tried = 0
            for o in obs[:6]:
                mod = {k: v for k, v in (o.get('model') or {}).items() if isinstance(v, (int, float)) and '!' not in k}
                if not mod:
                    continue
                fx = os.path.join(HERE, 'replays', f'.{prop}-{name}-{os.getpid()}-{tried}.fixed.json')
                json.dump(mod, open(fx, 'w'))
                tried += 1
                r = conc(prop, name, 8, seed, salt=7, fixed=fx)
                os.unlink(fx)
                if r['failures']:
                    found = dict(r['failures'][0], fixed=mod)
                    break
            if not found:
                with cf.ThreadPoolExecutor(max_workers=7) as ex:
                    fs = [ex.submit(conc, prop, name, 40 if not thorough else 150, seed, salt=11 + k) for k in range(7)]
                    for f in fs:
                        r = f.result()
                        if r['failures'] and not found:
                            found = r['failures'][0]
        p = os.path.join('replays', f'{prop}-{name}-{m}.json')
        o = obs[0]
        if found:
            json.dump(dict(property=prop, contract=name, obligation=o['name'], **found), open(os.path.join(HERE, p), 'w'), indent=1, default=str)
            violations.append((name, p, '', [o['name'], found['failed'][0]]))
        else:
            json.dump(dict(property=prop, contract=name, mode=m, obligation=o['name'], verifier=[dict(x) for x in obs[:10]]),
                      open(os.path.join(HERE, p), 'w'), indent=1, default=str)
            violations.append((name, p, ' no-failing-input-found', [o['name'], o['status'], o.get('exc', '')]))
    # a contract outside the verifier's reach on this tree, although it was within it: search longer
    lost = [n for n in conc_by if n not in {v[0] for v in violations} and not same_tree and not a.noconc and
            any(base.get('proved', {}).get(f'{n}/{m}') and not proved_now.get(f'{n}/{m}') for m in ('prove', 'bounded'))]
    if lost:
        with cf.ThreadPoolExecutor(max_workers=7) as ex:
            fs = [(n, ex.submit(conc, prop, n, 30 if not thorough else 120, seed, salt=31 + k)) for n in lost for k in range(max(1, 7 // len(lost)))]
            for n, f in fs:
                r = f.result()
                if r['failures'] and n not in {v[0] for v in violations}:
                    g = r['failures'][0]
                    p = os.path.join('replays', f'{prop}-{n}-{g["case"]}.json')
                    json.dump(dict(property=prop, contract=n, **g), open(os.path.join(HERE, p), 'w'), indent=1, default=str)
                    violations.append((n, p, '', g['failed'][0]))
    known = []
    kf = os.path.join(HERE, 'KNOWN_FINDINGS')
    listed = [l.strip() for l in open(kf)] if os.path.exists(kf) else []
    known = [l[len('known: '):] for l in listed if l.startswith(f'known: property={prop} ')]
    # ---- evidence ------------------------------------------------------------------------
    funcs = {}
    assumed, axioms, dropped = set(), set(), {}
    pnotes = set()
    for r in res.values():
        funcs.update(r.get('funcs', {}))
        assumed |= set(r.get('assumed', []))
        axioms |= set(r.get('axioms', []))
        pnotes |= set(r.get('notes', []))
        for k, v in (r.get('extract') or {}).items():
            dropped[k] = v
    ncases = sum(r['cases'] for r in cres.values())
    level = info['level']
    cov = dict(
        obligations=nob, discharged=ndis, back_ends=backends, solver_time_s=round(solver_time, 2),
        checker_cmd=f'python3 check.py {prop} --tier {tier}',
        trusted_base=sorted(['pyvc (verification condition generator, /verif/pyvc)', 'z3 4.x', 'cvc5 1.1.2', 'CPython 3.12 (executes the transformed source)']
                            + [f'dependency contract: {x}' for x in assumed] + [f'axiom instance: {x}' for x in axioms]),
        contracts=[dict(contract=n, mode={'prove': 'unbounded proof', 'bounded': 'symbolic values, enumerated extents (bounded)'}[m],
                        obligations=len(r['obligations']), discharged=sum(o['status'] == 'proved' for o in r['obligations']),
                        paths=r.get('paths'), feasible_paths=r.get('feasible'), wall_s=r.get('wall')) for (n, m), r in sorted(res.items())],
        functions_under_contract={k: f'{os.path.relpath(v[0], REPO)}:{v[1]}-{v[2]}' for k, v in sorted(funcs.items())},
        missing_functions=sorted({x for r in res.values() for x in r.get('missing', [])}),
        extraction=dropped,
        evaluations=ncases, distinct_nontrivial=sum(r.get('distinct', 0) for r in cres.values()),
        rule='bounded stand-in: random inputs drawn from each contract driver, run on the installed package; non-trivial: precondition met, distinct inputs',
        bounded_checks={n: dict(cases=r['cases'], checks=r['checks'], skipped=r['skipped'], postconditions=r.get('names', [])) for (n, _), r in sorted(cres.items())},
        samples=[dict(contract=n, inputs=s) for (n, _), r in sorted(cres.items()) for s in r.get('samples', [])[:1]][:6]
                or [dict(contract=n, obligation=r['obligations'][0]['name']) for (n, _), r in sorted(res.items()) if r['obligations']][:3],
        explanation=info['note'],
        undecided=undecided,
    )
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, wall_s=round(time.time() - t0, 2), violations=len(violations),
              assumptions=['machine floating point treated as exact reals in the proofs (the bounded runs use real floats)']
              + sorted(pnotes) + info.get('assumptions', []))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1, default=str)
    if a.baseline:
        os.makedirs(os.path.join(HERE, 'baseline'), exist_ok=True)
        json.dump(dict(property=prop, fingerprint=fp, proved=proved_now), open(bpath, 'w'), indent=1, sort_keys=True)
    for u in undecided:
        print('UNDECIDED', u)
    for k in known:
        print('KNOWN-FINDING:', k)
    print(f'{prop}: {ndis}/{nob} obligations discharged over {len(res)} contract runs, {ncases} bounded cases, {time.time() - t0:.1f} s')
    if not nob and not ncases:
        print('nothing was checked')
        sys.exit(2)
    for name, p, suffix, det in violations:
        print(f'  {name}: {det}')
        print(f'VIOLATION property={prop} replay={p}{suffix}')
    sys.exit(1 if violations else 0)


if __name__ == '__main__':
    main()
