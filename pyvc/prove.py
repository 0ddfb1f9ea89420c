"""Discharge of obligations and exploration of the paths of a contract driver."""
from fractions import Fraction
import signal
import time
import traceback
import z3
from . import terms as T
from . import poly
from .terms import CTX
from .sums import prefix_facts

Z3_MS = 12000


def _ites(e):
    out, seen = [], set()

    def go(x):
        if x.get_id() in seen:
            return
        seen.add(x.get_id())
        if z3.is_app_of(x, z3.Z3_OP_ITE) and z3.is_arith(x):
            out.append(x)
        for c in x.children():
            go(c)
    go(e)
    return out


def _symbols(e, cache={}):
    k = e.get_id()
    if k in cache:
        return cache[k][0]
    out, seen, stack = set(), set(), [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name() if x.num_args() == 0 else x.decl().name())
            stack.extend(x.children())
    cache[k] = (out, e)
    return out


def relevant(hyps, goal):
    """hypotheses connected to the goal through shared symbols"""
    common = {'pi'}
    syms = _symbols(goal) - common
    todo = list(hyps)
    keep = []
    for _ in range(3):
        new = []
        for h in todo:
            if (_symbols(h) - common) & syms:
                keep.append(h)
            else:
                new.append(h)
        if len(new) == len(todo):
            break
        for h in keep:
            syms |= _symbols(h) - common
        todo = new
    return keep


def _int_consts(e):
    out, seen, stack = {}, set(), [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            continue
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.sort() == z3.IntSort() and '!' in x.decl().name():
            out[x.get_id()] = x
        stack.extend(x.children())
    return list(out.values())


def _unnot(e):
    while z3.is_not(e) and z3.is_not(e.arg(0)):
        e = e.arg(0).arg(0)
    return e


def instances(hyps, goal):
    """quantified hypotheses at the index constants of the goal"""
    import itertools
    out = []
    cs = None
    for h in hyps:
        if z3.is_quantifier(h) and h.is_forall() and all(h.var_sort(i) == z3.IntSort() for i in range(h.num_vars())):
            if cs is None:
                cs = _int_consts(goal)
            if len(cs) ** h.num_vars() > 30:
                continue
            for t in itertools.product(cs, repeat=h.num_vars()):
                out.append(z3.substitute_vars(h.body(), *reversed(t)))
    return out


def _abstract(e, table):
    """applications of transcendental functions and products as opaque constants"""
    cache = {}

    def go(x):
        k = x.get_id()
        if k in cache:
            return cache[k]
        if z3.is_quantifier(x):
            r = None
        elif z3.is_app(x) and x.num_args():
            nm = x.decl().name() if x.decl().kind() == z3.Z3_OP_UNINTERPRETED else None
            nonlin = z3.is_mul(x) and sum(not z3.is_rational_value(c) and not z3.is_int_value(c) for c in x.children()) > 1 or \
                x.decl().kind() in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_POWER) and not (z3.is_rational_value(x.arg(1)) or z3.is_int_value(x.arg(1)))
            if nm in T._UFNAMES or nonlin:
                n = z3.simplify(x, som=True)
                key = n.sexpr()
                if key not in table:
                    table[key] = (z3.FreshConst(x.sort(), 'abs'), n)
                r = table[key][0]
            else:
                cs = [go(c) for c in x.children()]
                r = None if any(c is None for c in cs) else x if all(a.eq(b) for a, b in zip(cs, x.children())) else x.decl()(*cs)
        else:
            r = x
        cache[k] = r
        return r
    return go(e)


def abstract_attempt(hyps, goal):
    table = {}
    g = _abstract(goal, table)
    if g is None or not table:
        return False
    s = z3.Solver()
    s.set('timeout', 700)
    for h in hyps:
        a = _abstract(h, table)
        if a is not None:
            s.add(a)
    s.add(z3.Not(g))
    return s.check() == z3.unsat


class Result(object):
    __slots__ = ('status', 'backend', 'time', 'model')

    def __init__(self, status, backend, time_, model=None):
        self.status, self.backend, self.time, self.model = status, backend, time_, model


def discharge(hyps, goal, ms=None):
    t0 = time.time()
    ms = ms or Z3_MS
    while z3.is_implies(goal):
        hyps = list(hyps) + _conjuncts(goal.arg(0))
        goal = goal.arg(1)
    g = z3.simplify(goal)
    if z3.is_true(g):
        return Result('proved', 'simplify', time.time() - t0)
    # rational normal form for (conjunctions of) equalities
    if z3.is_eq(goal) and z3.is_arith(goal.arg(0)):
        if poly.equal(_real(goal.arg(0)), _real(goal.arg(1))):
            return Result('proved', 'normal-form', time.time() - t0)
    if z3.is_and(goal):
        worst = None
        backs = set()
        for c in goal.children():
            r = discharge(hyps, c, ms)
            if r.status != 'proved':
                return Result(r.status, r.backend, time.time() - t0, r.model)
            backs.add(r.backend)
        return Result('proved', '+'.join(sorted(backs)), time.time() - t0)
    last = None
    hyps = [_unnot(h) for h in hyps]
    ins = instances(hyps, goal)
    if abstract_attempt([h for h in hyps if not z3.is_quantifier(h)] + ins, goal):
        return Result('proved', 'z3', time.time() - t0)
    if z3.is_eq(goal) and z3.is_arith(goal.arg(0)) and eliminate_equal(hyps + ins, goal):
        return Result('proved', 'elimination+normal-form', time.time() - t0)
    if z3.is_eq(goal) and z3.is_arith(goal.arg(0)) and linear_combination(hyps + ins, goal):
        return Result('proved', 'linear-combination+normal-form', time.time() - t0)
    if ins:
        base = [h for h in hyps if not z3.is_quantifier(h)] + ins
        base = relevant(base, goal)
        facts = prefix_facts(base + [goal])
        s = z3.Solver()
        s.set('timeout', min(ms, 4000))
        for h in base + facts + T.axioms_for(base + facts + [goal]):
            s.add(h)
        s.add(z3.Not(goal))
        if s.check() == z3.unsat:
            return Result('proved', 'z3', time.time() - t0)
        hyps = list(hyps) + ins
    rel = relevant(hyps, goal)
    sets = [rel] if len(rel) == len(hyps) else [rel, list(hyps)]
    for k, hs in enumerate(sets):
        base = list(hs) + [goal]
        facts = prefix_facts(base)
        ax = T.axioms_for(base + facts)
        s = z3.Solver()
        s.set('timeout', ms)
        for h in hs:
            s.add(h)
        for f in facts + ax:
            s.add(f)
        s.add(z3.Not(goal))
        r = s.check()
        if r == z3.unsat:
            return Result('proved', 'z3', time.time() - t0)
        if r == z3.sat:
            last = Result('refuted', 'z3', time.time() - t0, s.model())
        elif last is None:
            last = Result('unknown', 'z3', time.time() - t0)
            r2 = _cvc5(s, ms)
            if r2 == 'unsat':
                return Result('proved', 'cvc5', time.time() - t0)
    # equality after case-splitting the ite terms: normal form on each case
    if z3.is_eq(goal) and z3.is_arith(goal.arg(0)):
        r = _split_equal(hyps, goal, 0)
        if r:
            return Result('proved', 'case-split+normal-form', time.time() - t0)
    last.time = time.time() - t0
    return last


def eliminate_equal(hyps, goal):
    """equalities between an unknown (constant or application) and a term not containing it are substituted in the goal"""
    eqs = []
    for h in hyps:
        for c in _conjuncts(h):
            if z3.is_eq(c) and z3.is_arith(c.arg(0)) and c.arg(0).sort() == z3.RealSort():
                eqs.append((c.arg(0), c.arg(1)))
    if not eqs or len(eqs) > 200:
        return False
    a, b = goal.arg(0), goal.arg(1)
    unknown = lambda t: z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and not T.is_val(t)
    done = False
    for _ in range(40):
        apps = {t.get_id() for t in T.uf_apps([a, b])} | {t.get_id() for t in _consts([a, b])}
        for k, (x, y) in enumerate(eqs):
            for u, v in ((x, y), (y, x)):
                if unknown(u) and u.get_id() in apps and u.get_id() not in {t.get_id() for t in T.uf_apps([v])} | {t.get_id() for t in _consts([v])}:
                    break
            else:
                continue
            break
        else:
            break
        eqs.pop(k)
        a, b = z3.substitute(a, (u, v)), z3.substitute(b, (u, v))
        eqs = [(z3.substitute(x, (u, v)), z3.substitute(y, (u, v))) for x, y in eqs]
        done = True
    return done and poly.equal(_real(a), _real(b)) is True


def linear_combination(hyps, goal):
    """the normal form of the goal is a rational combination of those of the equalities among the hypotheses"""
    eqs = []
    for h in hyps:
        for c in _conjuncts(h):
            if z3.is_eq(c) and z3.is_arith(c.arg(0)) and c.arg(0).sort() == z3.RealSort():
                eqs.append(c)
    if not eqs or len(eqs) > 400:
        return False
    R = poly.Ring()
    try:
        target = dict(R.rat(_real(goal.arg(0)) - _real(goal.arg(1)))[0])
        if not target or len(target) > 400:
            return not target
        rows = []
        for c in eqs:
            n = R.rat(c.arg(0) - c.arg(1))[0]
            if n and len(n) <= 400:
                rows.append(dict(n))
    except Exception:
        return False

    def reduce(v, piv):
        for m, r in piv:
            if m in v:
                f = Fraction(v[m]) / Fraction(r[m])
                for k, x in r.items():
                    y = v.get(k, 0) - f * x
                    if y:
                        v[k] = y
                    else:
                        v.pop(k, None)
        return v
    piv = []
    for r in rows:
        r = reduce(r, piv)
        if r:
            piv.append((next(iter(r)), r))
    return not reduce(target, piv)


def _consts(es):
    out, seen = [], set()

    def go(x):
        if x.get_id() in seen or z3.is_quantifier(x):
            return
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        for c in x.children():
            go(c)
    for e in es:
        go(e)
    return out


def _conjuncts(e):
    return [y for x in e.children() for y in _conjuncts(x)] if z3.is_and(e) else [e]


def _real(e):
    return e if e.is_real() else z3.ToReal(e)


def _cvc5(s, ms):
    try:
        import cvc5
    except Exception:
        return None
    try:
        txt = s.to_smt2()
        sol = cvc5.Solver()
        sol.setOption('tlimit-per', str(ms))
        sol.setLogic('ALL')
        p = cvc5.InputParser(sol)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, 'o')
        sm = p.getSymbolManager()
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            out = c.invoke(sol, sm)
            if 'unsat' in str(out):
                return 'unsat'
        return None
    except Exception:
        return None


def _split_equal(hyps, goal, depth):
    its = _ites(goal)
    if not its:
        return bool(poly.equal(_real(goal.arg(0)), _real(goal.arg(1))))
    if depth > 8:
        return False
    t = its[-1]
    c = t.arg(0)
    for val, sub in ((True, t.arg(1)), (False, t.arg(2))):
        h = c if val else z3.Not(c)
        s = z3.Solver()
        s.set('timeout', 1000)
        for x in hyps:
            s.add(x)
        s.add(h)
        if s.check() == z3.unsat:
            continue
        g = z3.substitute(goal, (t, sub))
        if not _split_equal(hyps + [h], g, depth + 1):
            return False
    return True


class Timeout(Exception):
    pass


def explore(run, max_paths=400, budget_s=300, on_path=None):
    """run() executes the driver once under CTX. Returns a summary dict."""
    t0 = time.time()
    pending = [[]]
    paths = feasible = 0
    obs = []
    problems = []
    notes = set()
    while pending:
        if paths >= max_paths or time.time() - t0 > budget_s:
            problems.append(('budget', f'{paths} paths explored, {len(pending)} left'))
            break
        tr = pending.pop()
        CTX.reset(tr)
        if on_path:
            on_path()
        paths += 1
        outcome = 'ok'
        try:
            run()
        except T.PathAbort:
            outcome = 'cut'
        except (T.Unsupported, T.Budget) as ex:
            outcome = 'unsupported'
            problems.append((type(ex).__name__, f'{ex} [{_where(ex)}]'))
        except RecursionError as ex:
            outcome = 'unsupported'
            problems.append(('RecursionError', str(ex)))
        except z3.Z3Exception as ex:
            outcome = 'unsupported'
            problems.append(('Z3Exception', f'{ex} [{_where(ex)}]'))
        except Exception as ex:
            if _engine_error(ex):
                outcome = 'unsupported'
                problems.append(('outside the verifier', f'{ex!r} [{_where(ex)}]'))
            else:
                outcome = 'exception'
                CTX.oblige(f'no {type(ex).__name__}', z3.BoolVal(False), exc=f'{ex!r} [{_where(ex)}]')
        pending += CTX.new_forks
        s = z3.Solver()
        s.set('timeout', 3000)
        for e, k in CTX.pc:
            s.add(e)
        chk = s.check()
        if chk == z3.unsat:
            continue
        feasible += 1
        notes |= CTX.notes
        for name, n, goal, meta in CTX.obligations:
            hyps = [e for e, k in CTX.pc[:n]]
            r = discharge(hyps, goal)
            ob = dict(name=name, status=r.status, backend=r.backend, time=round(r.time, 4), path=paths)
            if meta.get('exc'):
                ob['exc'] = meta['exc']
                if r.status == 'refuted' or r.status == 'unknown':
                    # an exception on a feasible path
                    ob['status'] = 'refuted' if chk == z3.sat else 'unknown'
            if r.status != 'proved':
                ob['goal'] = str(goal)[:600]
                m = r.model
                if m is None and chk == z3.sat:
                    m = s.model()
                ob['model'] = model_dict(m) if m is not None else {}
                ob['pc'] = [str(e)[:200] for e, k in CTX.pc[:n] if k == 'path'][:20]
            obs.append(ob)
    return dict(paths=paths, feasible=feasible, obligations=obs, problems=problems, notes=sorted(notes),
                wall=round(time.time() - t0, 3))


def model_dict(m):
    out = {}
    for dcl in m.decls():
        if dcl.arity() == 0:
            v = m[dcl]
            try:
                if z3.is_algebraic_value(v):
                    v = v.approx(20)
                if z3.is_int_value(v):
                    out[dcl.name()] = v.as_long()
                elif z3.is_rational_value(v):
                    out[dcl.name()] = float(v.as_fraction())
                else:
                    out[dcl.name()] = str(v)
            except Exception:
                out[dcl.name()] = str(v)
    return out


_ENGINE = ('SReal', 'SInt', 'SBool', 'SArr', 'SymList', 'SymRange', 'SymZip', 'SymEnum', 'Opaque', 'ArithRef', 'BoolRef', 'Sym')


def _engine_error(ex):
    """an exception of the verifier or of the contract driver, not of the code under contract"""
    if isinstance(ex, (AssertionError, NotImplementedError)) and '/pygfunction/' not in traceback.extract_tb(ex.__traceback__)[-1].filename:
        return True
    if isinstance(ex, (AttributeError, TypeError, NameError, KeyError, ImportError, SystemError)):
        last = traceback.extract_tb(ex.__traceback__)[-1].filename
        if '/pyvc/' in last or '/contracts/' in last or '/numpy/' in last:
            return True
        return any(f"'{n}'" in str(ex) or f'{n} ' in str(ex) for n in _ENGINE) or 'ufunc' in str(ex)
    return False


def _where(ex):
    tb = traceback.extract_tb(ex.__traceback__)
    fr = [f for f in tb if '/pygfunction/' in f.filename]
    last = tb[-1]
    s = f'{last.filename.split("/")[-1]}:{last.lineno}'
    if fr:
        f = fr[-1]
        s = f'{f.filename.split("/")[-1]}:{f.lineno} in {f.name}; ' + s
    return s
