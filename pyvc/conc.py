"""Concrete runs of contract drivers on the real package (real numpy, real floats).
/opt/venv/bin/python -m pyvc.conc PROP CONTRACT --seconds S --seed N [--fixed FILE] [--case K] [--max N]"""
import argparse
import json
import os
import signal
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PYVC_REPO', '/repo')
os.environ.setdefault('MPLBACKEND', 'Agg')
sys.dont_write_bytecode = True


class CaseTimeout(BaseException):
    pass


def _alarm(sig, fr):
    raise CaseTimeout()


def run_case(c, gt, key, fixed=None, limit=60):
    import numpy as np
    from pyvc import api
    C = api.ConcCtx(gt, np.random.default_rng(key), fixed)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    st = 'ok'
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with np.errstate(all='ignore'):
                c.fn(C)
    except api.Skip:
        st = 'skip'
    except CaseTimeout:
        st = 'timeout'
    except Exception as ex:
        tb = traceback.extract_tb(ex.__traceback__)
        fr = [f for f in tb if '/pygfunction/' in f.filename]
        if fr:
            C.failures.append(('no exception', f'{ex!r} at {os.path.basename(fr[-1].filename)}:{fr[-1].lineno} in {fr[-1].name}'))
        else:
            st = 'driver-error: %r at %s' % (ex, [(os.path.basename(f.filename), f.lineno) for f in tb[-2:]])
            # an attribute of the package that no longer exists is outside this contract
    finally:
        signal.alarm(0)
    return st, C


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('contract')
    ap.add_argument('--seconds', type=float, default=10.)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--fixed')
    ap.add_argument('--case', type=int)
    ap.add_argument('--max', type=int, default=100000)
    ap.add_argument('--salt', type=int, default=0)
    a = ap.parse_args()
    sys.path.insert(0, HERE)
    sys.path.insert(0, REPO)
    sys.setrecursionlimit(10000)
    from pyvc import worker
    t0 = time.time()
    out = dict(prop=a.prop, contract=a.contract, mode='conc', cases=0, checks=0, skipped=0, timeouts=0, failures=[], errors=[], samples=[])
    try:
        import io, contextlib
        with contextlib.redirect_stdout(io.StringIO()):
            import pygfunction as gt
        assert os.path.realpath(gt.__file__).startswith(os.path.realpath(REPO)), gt.__file__
        c = worker.load_contracts(a.prop)[a.contract]
        import zlib
        hk = zlib.crc32((a.prop + a.contract).encode())
        names, distinct = set(), set()
        fixed = json.load(open(a.fixed)) if a.fixed else None
        k = a.case if a.case is not None else 0
        t0 = time.time()
        with contextlib.redirect_stdout(io.StringIO()):
            while True:
                st, C = run_case(c, gt, [a.seed, hk, a.salt, k], fixed)
                out['cases'] += 1
                out['checks'] += C.nchecks
                names |= C.names
                if st == 'skip':
                    out['skipped'] += 1
                elif st == 'timeout':
                    out['timeouts'] += 1
                elif st != 'ok':
                    if len(out['errors']) < 3:
                        out['errors'].append(st)
                else:
                    distinct.add(repr(sorted(C.inputs.items())))
                    if len(out['samples']) < 2:
                        out['samples'].append(C.inputs)
                if C.failures:
                    out['failures'].append(dict(case=k, key=[a.seed, hk, a.salt, k], inputs=C.inputs,
                                                failed=[list(f) for f in C.failures[:5]]))
                    break
                k += 1
                if a.case is not None or time.time() - t0 > a.seconds or out['cases'] >= a.max or (fixed is not None and out['cases'] >= min(a.max, 30)):
                    break
        out['names'] = sorted(names)
        out['distinct'] = len(distinct)
    except Exception as ex:
        out['errors'].append(f'{ex!r}')
        out['fatal'] = repr(ex)
    out['wall'] = round(time.time() - t0, 3)
    json.dump(out, sys.stdout, default=str)
    print()


if __name__ == '__main__':
    main()
