"""Runtime support for loops and comprehensions over symbolic ranges."""
import numpy as rnp
import z3
from . import terms as T
from . import arrays as A
from . import shim as S
from .terms import CTX, Sym, SReal, SInt, SBool, Unsupported, merge
from .arrays import SArr, SymList, Store, vmerge, vsubst, conc, is_obj
from .sums import ssum, contains

EPOCH = [0]
BIRTH = {}
_alive = []
INVARIANTS = {}      # (qualified function name, loop ordinal) -> invariant object


def setattr_(obj, name, val):
    if EPOCH[0] > 0:
        b = BIRTH.get(id(obj))
        if b is None:
            if name in getattr(obj, '__dict__', {}) or LOOPDEPTH_OBJS and id(obj) in LOOPDEPTH_OBJS[-1]:
                raise Unsupported(f'attribute {name} assigned inside a symbolic loop')
            BIRTH[id(obj)] = EPOCH[0]
            _alive.append(obj)
        elif b < EPOCH[0]:
            raise Unsupported(f'attribute {name} assigned inside a symbolic loop')
    else:
        if id(obj) not in BIRTH:
            BIRTH[id(obj)] = 0
            _alive.append(obj)
    setattr(obj, name, val)


LOOPDEPTH_OBJS = []


def mut(o):
    """o is about to be mutated in place and is not a local variable of the function"""
    if EPOCH[0] > 0 and isinstance(o, (list, dict, set, rnp.ndarray)):
        raise Unsupported('container mutated inside a symbolic loop')
    return o


def reset():
    BIRTH.clear()
    _alive.clear()
    EPOCH[0] = 0


class Body(object):
    """context of one generic execution: element evaluation of a comprehension or loop body"""

    def __enter__(self):
        EPOCH[0] += 1
        self.log = A.set_store_log([])
        return self

    def __exit__(self, *a):
        EPOCH[0] -= 1
        self.writes = A.STORE_LOG
        A.set_store_log(self.log)
        return False


def listcomp(it, f, cond=None):
    if not S.is_symiter(it):
        out = []
        for x in S.iter_native(it):
            if cond is None or cond(x):
                out.append(f(x))
        return out
    it = S.symiter(it)
    n = conc(it.n)
    k = CTX.fresh('k', 'int')
    m = CTX.push()
    born = Store.count
    try:
        CTX.add(z3.And(k.e >= 0, k.e < T.zi(n)))
        x = it.elem(k)
        with Body() as b:
            if cond is not None:
                c = merge(lambda: cond(x), vmerge)
                if not (isinstance(c, (bool, rnp.bool_)) and c) and not CTX.entails(T.zb(c)):
                    if CTX.entails(z3.Not(T.zb(c))):
                        return SymList()
                    return filtered(n, k, c, merge(lambda: f(x), vmerge))
            v = merge(lambda: f(x), vmerge)
        if any(w[0].serial <= born for w in b.writes):
            raise Unsupported('comprehension with side effects')
    finally:
        CTX.pop(m)
    return SymList([(n, lambda i: vsubst(v, [(k.e, T.zi(i))]))])


def filtered(n, k, c, v):
    raise Unsupported('comprehension with a filter over a symbolic range')


def flatcomp(it, f):
    """f(x) yields a list for each x; concatenation"""
    if not S.is_symiter(it):
        out = []
        for x in S.iter_native(it):
            r = f(x)
            if isinstance(r, SymList):
                out = A.as_symlist(out) + r
            elif isinstance(out, SymList):
                out = out + r
            else:
                out = out + list(r)
        return out
    it = S.symiter(it)
    n = conc(it.n)
    k = CTX.fresh('k', 'int')
    m = CTX.push()
    try:
        CTX.add(z3.And(k.e >= 0, k.e < T.zi(n)))
        with Body():
            r = A.as_symlist(merge(lambda: f(it.elem(k)), vmerge))
        ln = r.n
        if isinstance(ln, SInt) and contains(ln.e, k.e):
            raise Unsupported('nested comprehension with varying inner length')
        segs = list(r.segs)
        snap = SymList(segs)
        j = CTX.fresh('j', 'int')
        CTX.add(z3.And(j.e >= 0, j.e < T.zi(ln)))
        v = snap.elem(j)
    finally:
        CTX.pop(m)

    def elem(i):
        q, rr = A.divide(i, ln)
        return vsubst(v, [(k.e, T.zi(q)), (j.e, T.zi(rr))])
    return SymList([(conc(n * ln), elem)])


# ---------------------------------------------------------------------------
# for loops over symbolic ranges
# ---------------------------------------------------------------------------
class _Unset(object):
    def __repr__(self):
        return 'UNSET'


UNSET = _Unset()


class LoopExit(Exception):
    pass


def _havoc_like(v, name):
    if isinstance(v, (SInt, int, rnp.integer)) and not isinstance(v, bool):
        return CTX.fresh(name, 'int')
    if isinstance(v, (SReal, float)):
        return CTX.fresh(name)
    if isinstance(v, (SBool, bool)):
        return CTX.fresh(name, 'bool')
    if isinstance(v, SArr):
        f = z3.Function(f'{name}!{next(CTX.fresh_count)}', *([z3.IntSort()] * v.ndim + [z3.RealSort()]))
        a = SArr.lam(v.shape, lambda ix: SReal(f(*[T.zi(i) for i in ix])), v.store.kind)
        a._hf = f
        return a
    if isinstance(v, rnp.ndarray):
        out = rnp.empty(v.shape, dtype=object)
        for ix in rnp.ndindex(*v.shape):
            out[ix] = CTX.fresh(name)
        return out
    raise Unsupported(f'loop-carried value of type {type(v).__name__}')


def _mentions(v, consts, funcs=()):
    """does the structured value mention one of the z3 constants / function names"""
    if isinstance(v, Sym):
        return any(contains(v.e, c) for c in consts) or any(t.decl().name() in funcs for t in T.uf_apps([v.e]))
    if isinstance(v, (tuple, list)):
        return any(_mentions(x, consts, funcs) for x in v)
    if isinstance(v, rnp.ndarray):
        return v.dtype == object and any(_mentions(x, consts, funcs) for x in v.flat)
    if isinstance(v, SArr):
        idx = [CTX.fresh('m', 'int') for _ in v.shape]
        return _mentions(v.at(*idx), consts, funcs)
    if isinstance(v, SymList):
        return any(_mentions(f(0 if n == 1 else CTX.fresh('m', 'int')), consts, funcs) for n, f in v.segs)
    if is_obj(v):
        return any(_mentions(x, consts, funcs) for x in v.__dict__.values())
    return False


# rules for loops with a dependence between iterations: qualified function name -> IterRule
ITER_RULES = {}


class IterRule(object):
    """an arbitrary iteration k from an arbitrary state; afterwards the cells written by iteration k
    hold what it wrote (no other iteration writes them), every other cell of these arrays is arbitrary"""

    def __init__(self, first=True):
        self.k, self.n, self.old, self.first = [], [], [], first


def ruleloop(it, body, getv, setv, where, rule):
    n = conc(it.n)
    if not CTX.decide(T.zi(n) > 0):
        return
    pre = getv()
    k = CTX.fresh('k', 'int')
    CTX.add(z3.And(k.e >= 0, k.e < T.zi(n)), 'iteration')
    if rule.first:
        CTX.decide(k.e > 0)
    lists = {nm: v for nm, v in pre.items() if isinstance(v, (SymList, list))}
    hv, hs = {}, {}
    for _ in range(4):
        writes, post, applog = _run(it, body, getv, setv, pre, k, n, hv, hs, lists)
        if any(applog['lists'].values()) or not all(applog['same'].values()):
            raise Unsupported(f'loop at {where}: lists in a loop under an iteration rule')
        stores = {st.serial: st for st, old, cv in writes if st.serial <= applog['born']}
        carried = [nm for nm, v in pre.items() if v is not UNSET and nm not in hv and nm not in lists
                   and not (isinstance(v, SArr) and post[nm] is v) and not _same_value(v, post[nm])]
        if set(stores) <= set(hs) and not carried:
            break
        for nm in carried:
            try:
                hv[nm] = _havoc_like(pre[nm], nm)
            except Unsupported:
                hv[nm] = UNSET
        for s, st in stores.items():
            if s not in hs:
                hs[s] = (st, _store_fun('old', st))
    else:
        raise Unsupported('loop state not stable')
    rule.k.append(k)
    rule.n.append(n)
    rule.old.append(hs)
    bystore = {}
    for st, old, cv in writes:
        if st.serial in hs:
            bystore.setdefault(st.serial, []).append(cv)
    plans = []
    for s, cvs in bystore.items():
        st, f = hs[s]
        q = [CTX.fresh('w', 'int') for _ in st.shape]
        m = CTX.push()
        try:
            for i, ext in zip(q, st.shape):
                CTX.add(z3.And(i.e >= 0, i.e < T.zi(ext)))
            cond, val = z3.BoolVal(False), None
            for cv in cvs:
                c, v = cv(tuple(q))
                if c is False:
                    continue
                ce = z3.BoolVal(True) if c is True else c.e
                mm = CTX.push()
                CTX.add(ce)
                vv = v()
                CTX.pop(mm)
                val = vv if val is None else T.ite(SBool(ce), vv, val)
                cond = z3.simplify(z3.Or(cond, ce))
            if val is None:
                continue
            if _mentions(SBool(cond), [h.e for h in hv.values() if isinstance(h, Sym)], {f.name() for _, f in hs.values()}):
                raise Unsupported(f'loop at {where}: the cells written depend on loop state')
            k2 = CTX.fresh('k2', 'int')
            c2 = z3.substitute(cond, (k.e, k2.e))
            if not CTX_entails_under([k2.e >= 0, k2.e < T.zi(n), k2.e != k.e, cond, c2], z3.BoolVal(False)):
                raise Unsupported(f'loop at {where}: cells written by several iterations')
        finally:
            CTX.pop(m)
        plans.append((st, q, cond, val, f, _invert(cond, k.e)))
    for st, q, cond, val, f, w in plans:
        g = _store_fun('rest', st)

        def other(ix, g=g, f=f, q=q, w=w, cond=cond):
            # cells of earlier iterations are what the arbitrary iteration found there
            if w is None:
                return True, lambda: _app(g, ix)
            pr = [(a.e, T.zi(b)) for a, b in zip(q, ix)]
            kk = z3.substitute(w, *pr)
            c = z3.simplify(z3.substitute(z3.substitute(cond, *pr), (k.e, kk)))
            some = z3.simplify(z3.And(c, kk >= 0, kk < T.zi(n)))
            if z3.is_false(some) or CTX.quick(z3.Not(some)):
                return False, None               # not written by any iteration
            c = z3.simplify(z3.And(c, kk >= 0, kk < k.e))
            return (True if z3.is_true(some) or CTX.quick(some) else SBool(some)), \
                lambda: _app(g, ix) if z3.is_false(c) or CTX.quick(z3.Not(c)) else _app(f, ix) if CTX.quick(c) else T.ite(SBool(c), _app(f, ix), _app(g, ix))
        st.write(other)

        def rule_(ix, q=q, cond=cond, val=val):
            pr = [(a.e, T.zi(b)) for a, b in zip(q, ix)]
            c = z3.simplify(z3.substitute(cond, *pr))
            if z3.is_false(c):
                return False, None
            return (True if z3.is_true(c) else SBool(c)), lambda: vsubst(val, pr)
        st.write(rule_)
    final = {}
    for nm, v in pre.items():
        p = post[nm]
        final[nm] = v if nm in lists or (v is not UNSET and (v is p or _same_value(v, p))) else UNSET
    setv(final)


def _store_fun(name, st):
    return z3.Function(f'{name}!{next(CTX.fresh_count)}', *([z3.IntSort()] * len(st.shape) + [
        z3.IntSort() if st.kind == 'i' else z3.BoolSort() if st.kind == 'b' else z3.RealSort()]))


def _app(f, ix):
    e = f(*[T.zi(i) for i in ix])
    return SBool(e) if f.range() == z3.BoolSort() else T.mk(e)


def symloop(it, body, getv, setv, where, q=None):
    """body(x) executes one iteration on the enclosing function's variables.
    getv() -> dict of the variables assigned in the body (UNSET when unbound), setv(dict)."""
    it = S.symiter(it)
    n = conc(it.n)
    if isinstance(n, int):
        for i in range(n):
            body(it.elem(i))
        return
    if q in ITER_RULES:
        return ruleloop(it, body, getv, setv, where, ITER_RULES[q])
    if not CTX.decide(n.e > 0):
        return
    pre = getv()
    k = CTX.fresh('k', 'int')
    # pass 1: discover what is written
    lists = {nm: v for nm, v in pre.items() if isinstance(v, (SymList, list))}
    writes, post, applog = _run(it, body, getv, setv, pre, k, n, {}, {}, lists)
    # iterate havoc set to a fixpoint
    for _ in range(4):
        stores = {}
        for st, old, cv in writes:
            if st.serial <= applog['born']:
                stores.setdefault(st.serial, st)
        carried = {}
        for nm, v in pre.items():
            if v is UNSET:
                continue
            p = post[nm]
            if nm in lists and isinstance(p, AppendLog) or _same_value(v, p):
                continue
            carried[nm] = p
        hv, hs = {}, {}
        hconst, hfun = {}, {}
        for nm, p in carried.items():
            v = pre[nm]
            if isinstance(v, (SymList, list)):
                continue
            if isinstance(v, SArr) and p is v:
                continue
            proto = p if (isinstance(p, (SArr, rnp.ndarray)) and not isinstance(v, (SArr, rnp.ndarray))) else v
            if isinstance(v, (int, SInt)) and isinstance(p, (SReal, float)):
                proto = p
            try:
                hv[nm] = _havoc_like(proto, nm)
            except Unsupported:
                # temporaries overwritten before use: keep poisoned
                hv[nm] = UNSET
        for s, st in stores.items():
            f = z3.Function(f'old!{next(CTX.fresh_count)}', *([z3.IntSort()] * len(st.shape) + [
                z3.IntSort() if st.kind == 'i' else z3.BoolSort() if st.kind == 'b' else z3.RealSort()]))
            hs[s] = (st, f)
        writes2, post2, applog2 = _run(it, body, getv, setv, pre, k, n, hv, hs, lists)
        new = {st.serial for st, _, _ in writes2 if st.serial <= applog2['born']}
        carried2 = {nm for nm, v in pre.items() if v is not UNSET and nm not in hv and not isinstance(v, (SymList, list))
                    and not _same_value(v, post2[nm])}
        writes, post, applog = writes2, post2, applog2
        if new <= set(hs) and not carried2:
            break
    else:
        raise Unsupported('loop state not stable')
    _summarise(it, n, k, pre, post, hv, hs, writes, applog, setv, where)


def _same_native(a, b):
    return a.shape == b.shape and all(x is y or _same_value(x, y) for x, y in zip(a.flat, b.flat))


def _same_value(a, b):
    if a is b:
        return True
    if isinstance(a, Sym) and isinstance(b, Sym):
        return a.e.eq(b.e)
    if T.is_num(a) and T.is_num(b):
        return type(a) is type(b) and a == b
    return False


class AppendLog(SymList):
    """stands for a list that only grows by append inside the loop body"""

    def __init__(self):
        super().__init__()
        self.added = []

    def append(self, v):
        self.added.append(v)

    def extend(self, o):
        o = A.as_symlist(o)
        if isinstance(o.n, SInt):
            raise Unsupported('extend in a symbolic loop')
        self.added += [o.elem(i) for i in range(o.n)]

    def elem(self, i):
        raise Unsupported('list read while being built in a symbolic loop')

    @property
    def n(self):
        raise Unsupported('length of a list being built in a symbolic loop')

    def __setitem__(self, k, v):
        raise Unsupported('list element assigned in a symbolic loop')

    def __getattr__(self, a):
        if a in ('insert', 'pop', 'remove', 'sort', 'reverse', 'clear'):
            raise Unsupported(f'list.{a} in a symbolic loop')
        raise AttributeError(a)

    @n.setter
    def n(self, v):
        pass


def _run(it, body, getv, setv, pre, k, n, hv, hs, lists):
    """execute the body once for the generic iteration k; roll the state back"""
    results = []
    born = Store.count
    m = CTX.push()
    saved = {}
    log0 = A.set_store_log(None)
    A.set_store_log(log0)
    try:
        CTX.add(z3.And(k.e >= 0, k.e < T.zi(n)))
        x = it.elem(k)

        def once():
            start = {nm: v.copy() if isinstance(v, rnp.ndarray) else dict(v) if isinstance(v, dict) else v for nm, v in pre.items()}
            start.update({nm: h.copy() if isinstance(h, (rnp.ndarray, SArr)) else h for nm, h in hv.items()})
            al = {}
            for nm in lists:
                al[nm] = AppendLog()
                start[nm] = al[nm]
            setv(start)
            for s, (st, f) in hs.items():
                saved.setdefault(s, (st, st.get))
                st.get = A.memo(lambda ix, f=f: T.mk(f(*[T.zi(i) for i in ix])) if f.range() != z3.BoolSort() else SBool(f(*[T.zi(i) for i in ix])))
            with Body() as b:
                body(x)
            post = getv()
            for nm, v in pre.items():
                if isinstance(v, rnp.ndarray) and nm not in hv and isinstance(post[nm], rnp.ndarray) and _same_native(v, post[nm]):
                    post[nm] = v
                if isinstance(v, dict) and isinstance(post[nm], dict):
                    if v.keys() != post[nm].keys() or any(v[q] is not post[nm][q] for q in v):
                        raise Unsupported('dictionary updated in a symbolic loop')
                    post[nm] = v
            ws = list(b.writes)
            for st, old, cv in reversed(ws):
                if st.serial <= born:        # arrays of the iteration itself keep their contents
                    st.get = old
            for s, (st, g) in saved.items():
                st.get = g
            return _PathResult(ws, post, {nm: l.added for nm, l in al.items()}, {nm: post[nm] is l for nm, l in al.items()})
        res = merge(once, _merge_paths)
    finally:
        CTX.pop(m)
        setv(pre)
    return res.writes, res.post, {'born': born, 'lists': res.appended, 'same': res.same}


class _PathResult(object):
    def __init__(self, writes, post, appended, same):
        self.writes, self.post, self.appended, self.same = writes, post, appended, same


def _merge_paths(c, a, b):
    # writes: conditional
    ws = []
    if a.writes or b.writes:
        for side, cc in ((a, c), (b, SBool(z3.Not(c.e)))):
            for st, old, cv in side.writes:
                ws.append((st, old, _guard(cc, cv)))
    post = {}
    for nm in a.post:
        p, q = a.post[nm], b.post[nm]
        if p is q:
            post[nm] = p
        elif p is UNSET or q is UNSET:
            post[nm] = UNSET
        else:
            try:
                post[nm] = vmerge(c, p, q)
            except Unsupported:
                if isinstance(p, AppendLog) and isinstance(q, AppendLog):
                    post[nm] = p
                else:
                    post[nm] = UNSET
    app = {}
    for nm in a.appended:
        if len(a.appended[nm]) != len(b.appended[nm]):
            raise Unsupported('number of appended elements depends on the iteration')
        app[nm] = [vmerge(c, x, y) for x, y in zip(a.appended[nm], b.appended[nm])]
    return _PathResult(ws, post, app, {nm: a.same[nm] and b.same[nm] for nm in a.same})


def _guard(c, cv):
    def f(ix):
        cc, v = cv(ix)
        if cc is False:
            return False, None
        if cc is True:
            return c, v
        return SBool(z3.And(c.e, cc.e)), v
    return f


def _summarise(it, n, k, pre, post, hv, hs, writes, applog, setv, where):
    consts = {}
    for nm, h in hv.items():
        if isinstance(h, Sym):
            consts[nm] = h.e
    hfun = {nm: h._hf.name() for nm, h in hv.items() if isinstance(h, SArr)}
    sfun_ = {f.name(): st for st, f in hs.values()}
    hnat = {nm: [x.e for x in h.flat] for nm, h in hv.items() if isinstance(h, rnp.ndarray)}
    allconsts = list(consts.values()) + [c for l in hnat.values() for c in l]
    allfuns = set(hfun.values())
    # --- accumulators -----------------------------------------------------------
    final, at_iter = {}, {}
    order = list(hv)
    subst_c = []       # constant -> value at start of iteration k

    def sub_state(v):
        """replace the havocked scalars by their values at iteration k"""
        return vsubst(v, subst_c) if subst_c else v

    acc = {}
    pending = []
    for nm in order:
        h = hv[nm]
        p = post[nm]
        if h is UNSET or p is UNSET:
            acc[nm] = ('lost',)
            continue
        if not _mentions(p, allconsts, allfuns):
            acc[nm] = ('last', p)
            continue
        if isinstance(h, Sym):
            dlt = p - h
            dl = SReal(z3.simplify(T.zr(dlt), som=True)) if isinstance(dlt, SReal) else SInt(z3.simplify(dlt.e))
            if not contains(dl.e, h.e):
                acc[nm] = ('sum', dl)
                continue
        elif isinstance(h, SArr) and isinstance(p, SArr):
            j = [CTX.fresh('j', 'int') for _ in h.shape]
            mk = CTX.push()
            try:
                CTX.add(z3.And(k.e >= 0, k.e < T.zi(n), *[z3.And(a.e >= 0, a.e < T.zi(b)) for a, b in zip(j, h.shape)]))
                dl = SReal(z3.simplify(T.zr(p.at(*j) - h.at(*j)), som=True))
            finally:
                CTX.pop(mk)
            if not _mentions(dl, [], {hfun[nm]}):
                acc[nm] = ('sumarr', j, dl)
                continue
        elif isinstance(h, rnp.ndarray) and isinstance(p, rnp.ndarray) and h.shape == p.shape:
            dl = rnp.empty(h.shape, dtype=object)
            ok = True
            for ix in rnp.ndindex(*h.shape):
                dl[ix] = SReal(z3.simplify(T.zr(p[ix] - h[ix]), som=True))
                ok &= not _mentions(dl[ix], hnat[nm])
            if ok:
                acc[nm] = ('sumnat', dl)
                continue
        if __import__('os').environ.get('PYVC_DBG'): print('ACC', nm, type(h), type(p), getattr(h,'_hf',None), dl if isinstance(h, SArr) else None)
        raise Unsupported(f'loop at {where}: variable {nm} is neither accumulated nor overwritten')
    # deltas may mention other accumulators: solve in dependency order
    done = {}
    todo = [nm for nm in order if acc[nm][0].startswith('sum')]
    while todo:
        prog = False
        for nm in list(todo):
            others = [consts[o] for o in todo if o in consts] + [c for o in todo if o in hnat for c in hnat[o]]
            dl = acc[nm][-1]
            dl = vsubst(dl, subst_c) if subst_c else dl
            if _mentions(dl, others, {hfun[o] for o in todo if o in hfun}):
                continue
            if _mentions(dl, [], set(sfun_)):
                raise Unsupported(f'loop at {where}: accumulated value reads an array written in the loop')
            v0 = pre[nm]
            if acc[nm][0] == 'sum':
                def upto(e, dl=dl, v0=v0):
                    s = ssum(0, SInt(e), lambda i: vsubst(dl, [(k.e, T.zi(i))]))
                    if isinstance(dl, SInt):
                        s = SInt(z3.simplify(z3.ToInt(s.e))) if not _intsum(dl, k) else _intsum(dl, k)(e)
                    return v0 + s
                at_iter[nm] = upto(k.e)
                subst_c.append((consts[nm], T.zr(at_iter[nm]) if consts[nm].is_real() else T.zi(at_iter[nm])))
                final[nm] = upto(T.zi(n))
            elif acc[nm][0] == 'sumarr':
                j, h = acc[nm][1], hv[nm]
                v0a = A.as_sarr(v0)

                def el(ix, dl=dl, j=j, v0a=v0a, h=h):
                    s = ssum(0, n, lambda i: vsubst(dl, [(k.e, T.zi(i))] + [(a.e, T.zi(b)) for a, b in zip(j, ix)]))
                    return A.bget(v0a, h.shape)(ix) + s
                final[nm] = SArr.lam(h.shape, el, 'f')
            else:
                h = hv[nm]
                out = rnp.empty(h.shape, dtype=object)
                v0a = rnp.broadcast_to(rnp.asarray(v0, dtype=object), h.shape)
                for ix in rnp.ndindex(*h.shape):
                    out[ix] = v0a[ix] + ssum(0, n, lambda i: vsubst(dl[ix], [(k.e, T.zi(i))]))
                final[nm] = out
            todo.remove(nm)
            prog = True
        if not prog:
            raise Unsupported(f'loop at {where}: mutually dependent accumulators')
    last = [(k.e, z3.simplify(T.zi(n) - 1))]
    for nm in pre:
        if nm in final:
            continue
        if nm in acc:
            if acc[nm][0] == 'lost':
                final[nm] = UNSET
            else:
                final[nm] = acc[nm][1]
        elif pre[nm] is UNSET:
            final[nm] = post[nm]
        elif isinstance(pre[nm], (SymList, list)) and nm in applog['lists']:
            continue
        else:
            final[nm] = pre[nm]
            continue
        if nm in acc and acc[nm][0] != 'lost' or pre[nm] is UNSET:
            v = final[nm]
            if v is not UNSET:
                if isinstance(v, AppendLog):
                    raise Unsupported('list alias in loop')
                v = sub_state(v)
                try:
                    bad = _mentions(v, allconsts, allfuns | set(sfun_))
                except Unsupported:
                    bad = True
                final[nm] = UNSET if bad else vsubst(v, last)
    # --- lists -------------------------------------------------------------------
    for nm, added in applog['lists'].items():
        if not applog['same'][nm]:
            raise Unsupported(f'loop at {where}: list {nm} rebound')
        if not added:
            final[nm] = pre[nm]
            continue
        vals = [sub_state(v) for v in added]
        for v in vals:
            if _mentions(v, allconsts, allfuns | set(sfun_)):
                raise Unsupported(f'loop at {where}: appended value depends on loop state')
        m = len(vals)
        if m == 1:
            seg = (n, lambda i, v=vals[0]: vsubst(v, [(k.e, T.zi(i))]))
        else:
            def elem(i, vals=vals, m=m):
                q, r = A.divide(i, m)
                out = vsubst(vals[m - 1], [(k.e, T.zi(q))])
                for t in reversed(range(m - 1)):
                    v = vsubst(vals[t], [(k.e, T.zi(q))])
                    out = v if isinstance(r, int) and r == t else vmerge(SBool(T.zi(r) == t), v, out)
                return out
            seg = (conc(n * m), elem)
        if isinstance(pre[nm], SymList):
            pre[nm].segs.append(seg)
            final[nm] = pre[nm]
        else:
            final[nm] = A.as_symlist(pre[nm]) + SymList([seg])
    # --- stores --------------------------------------------------------------------
    bystore = {}
    for st, old, cv in writes:
        if st.serial in hs:
            bystore.setdefault(st.serial, []).append(cv)
    plans = []
    for s, cvs in bystore.items():
        st, f = hs[s]
        plans.append(_plan_store(st, f, cvs, n, k, sub_state, consts, allconsts, allfuns, hs, where))
    for st, rule in plans:
        st.write(rule)
    setv(final)


def _intsum(dl, k):
    """sum of an integer delta without leaving the integers: constant deltas only"""
    if contains(dl.e, k.e):
        return None
    return lambda e: SInt(z3.simplify(dl.e * e))


def _plan_store(st, f, cvs, n, k, sub_state, consts, allconsts, allfuns, hs, where):
    """effect of all iterations on one store: a rule (cond, value) as for Store.write"""
    nd = len(st.shape)
    q = [CTX.fresh('w', 'int') for _ in range(nd)]
    m = CTX.push()
    try:
        CTX.add(z3.And(k.e >= 0, k.e < T.zi(n)))
        for i, ext in zip(q, st.shape):
            CTX.add(z3.And(i.e >= 0, i.e < T.zi(ext)))
        # last write of an iteration wins
        cond, val = z3.BoolVal(False), None
        for cv in cvs:
            c, v = cv(tuple(q))
            if c is False:
                continue
            ce = z3.BoolVal(True) if c is True else c.e
            mm = CTX.push()
            CTX.add(ce)
            vv = v()
            CTX.pop(mm)
            val = vv if val is None else T.ite(SBool(ce), vv, val)
            cond = z3.simplify(z3.Or(cond, ce))
        if val is None:
            return st, lambda ix: (False, None)
        cond = sub_state(SBool(cond)).e
        val = sub_state(val)
        if _mentions(SBool(cond), allconsts, allfuns) or _mentions(val, allconsts, allfuns):
            raise Unsupported(f'loop at {where}: array update depends on loop state')
        k2 = CTX.fresh('k2', 'int')
        c2 = z3.substitute(cond, (k.e, k2.e))
        # one iteration writes each cell: for k2 < k not both write cell q
        ok_inj = CTX_entails_under([k2.e >= 0, k2.e < k.e, cond, c2], z3.BoolVal(False))
        accum = None
        reads = [t for t in T.uf_apps([T_e(val), cond]) if t.decl().name() in {g.name() for _, g in hs.values()}]
        if not ok_inj:
            # accumulation into the same cell: a[q] = a[q] + delta(k)
            if not reads and not contains(cond, k.e):
                # overwritten by every iteration: last one wins
                vlast = vsubst(val, [(k.e, T.zi(n) - 1)])
                return st, _rule_plain(q, cond, vlast)
            own = f(*[i.e for i in q])
            delta = z3.simplify(T_e(val) - own, som=True) if z3.is_arith(own) else None
            if delta is not None and not any(t.decl().name() == f.name() for t in T.uf_apps([delta])) and not any(
                    t.decl().name() in {g.name() for _, g in hs.values()} for t in T.uf_apps([delta, cond])):
                old = st.get

                def rule(ix):
                    pr = [(a.e, T.zi(b)) for a, b in zip(q, ix)]
                    body = z3.substitute(z3.If(cond, delta, z3.RealVal(0) if delta.is_real() else z3.IntVal(0)), *pr)
                    v = lambda: old(ix) + ssum(0, n, lambda i: T.mk(z3.substitute(body, (k.e, T.zi(i)))))
                    return True, v
                return st, rule
            raise Unsupported(f'loop at {where}: cells written by several iterations')
        # reads of written arrays must not see an earlier iteration's write
        by = {g.name(): s for s, (_, g) in hs.items()}
        repl = []
        for t in reads:
            s2 = by[t.decl().name()]
            st2 = hs[s2][0]
            args = t.children()
            if st2 is st:
                wcond = z3.substitute(cond, *[(a.e, b) for a, b in zip(q, args)], (k.e, k2.e))
                wcond = z3.substitute(cond, (k.e, k2.e))
                wcond = z3.substitute(wcond, *[(a.e, b) for a, b in zip(q, args)])
                if not CTX_entails_under([k2.e >= 0, k2.e < k.e, cond, wcond], z3.BoolVal(False)):
                    raise Unsupported(f'loop at {where}: loop-carried dependence through an array')
            else:
                raise Unsupported(f'loop at {where}: reads another array written in the loop')
            repl.append((t, args, st2))
    finally:
        CTX.pop(m)
    old = st.get
    w = _invert(cond, k.e)

    def rule(ix):
        pr = [(a.e, T.zi(b)) for a, b in zip(q, ix)]
        c = z3.substitute(cond, *pr)
        if w is not None:
            kk = z3.simplify(z3.substitute(w, *pr))
            c = z3.simplify(z3.And(z3.substitute(c, (k.e, kk)), kk >= 0, kk < T.zi(n)))
        else:
            raise Unsupported(f'loop at {where}: cannot tell which iteration writes a cell')
        if z3.is_false(c):
            return False, None

        def v():
            e = z3.substitute(T_e(val), *pr)
            e = z3.substitute(e, (k.e, kk))
            rs = []
            for t, args, st2 in repl:
                t2 = z3.substitute(z3.substitute(t, *pr), (k.e, kk))
                a2 = [conc(SInt(z3.simplify(x))) for x in t2.children()]
                rs.append((t2, T_e(old(tuple(a2)))))
            # outermost reads only (arguments contain no reads)
            if rs:
                e = z3.substitute(e, *rs)
            return T.mk(e) if z3.is_arith(e) else SBool(e)
        return (True if z3.is_true(c) else SBool(c)), v
    return st, rule


def _rule_plain(q, cond, val):
    def rule(ix):
        pr = [(a.e, T.zi(b)) for a, b in zip(q, ix)]
        c = z3.simplify(z3.substitute(cond, *pr))
        if z3.is_false(c):
            return False, None
        return (True if z3.is_true(c) else SBool(c)), lambda: vsubst(val, pr)
    return rule


def T_e(v):
    return v.e if isinstance(v, Sym) else T._lift(v).e


def CTX_entails_under(hyps, goal):
    s = z3.Solver()
    s.set('timeout', 500)
    s.add(*hyps)
    s.add(z3.Not(goal))
    if s.check() == z3.unsat:
        return True
    m = CTX.push()
    try:
        for h in hyps:
            CTX.add(h)
        return CTX.entails(goal)
    finally:
        CTX.pop(m)


def _invert(cond, k):
    """some term w(q) such that cond implies k == w(q)"""
    from .sums import affine
    cs = []

    def flat(c):
        if z3.is_and(c):
            for x in c.children():
                flat(x)
        else:
            cs.append(c)
    flat(z3.simplify(cond))
    for c in cs:
        if z3.is_eq(c) and z3.is_arith(c.arg(0)) and c.arg(0).is_int():
            r = affine(z3.simplify(c.arg(0) - c.arg(1)), k)
            if r is not None and r[0] in (1, -1):
                return z3.simplify(-r[1] if r[0] == 1 else r[1])
    # intervals of length one, e.g. k <= q and q < k + 1
    los, his = [], []
    for c in cs:
        neg = False
        if z3.is_not(c):
            c, neg = c.arg(0), True
        if not (z3.is_le(c) or z3.is_lt(c) or z3.is_ge(c) or z3.is_gt(c)) or not c.arg(0).is_int():
            continue
        l, r = c.arg(0), c.arg(1)
        op = '<=' if z3.is_le(c) else '<' if z3.is_lt(c) else '>=' if z3.is_ge(c) else '>'
        if neg:
            op = {'<=': '>', '<': '>=', '>=': '<', '>': '<='}[op]
        if op in ('>=', '>'):
            l, r, op = r, l, '<=' if op == '>=' else '<'
        a = affine(z3.simplify(l - r), k)
        if a is None or a[0] not in (1, -1):
            continue
        d = a[1] + (1 if op == '<' else 0)
        if a[0] == 1:
            his.append(z3.simplify(-d))      # k <= -d
        else:
            los.append(z3.simplify(d))       # k >= d
    for lo in los:
        for hi in his:
            if z3.is_int_value(z3.simplify(hi - lo)) and z3.simplify(hi - lo).as_long() == 0:
                return lo
    return None


# ---------------------------------------------------------------------------
# while loops under a supplied invariant
# ---------------------------------------------------------------------------
def has_invariant(q):
    return q in INVARIANTS


def _oblige(name, c):
    if callable(c):
        c('oblige', name)
    else:
        CTX.oblige(name, T.zb(c))


def whileloop(q, cond, body, getv, setv):
    """INVARIANTS[q] = (havoc, inv): havoc(vars) -> fresh values of the loop variables,
    inv(vars) -> list of (name, condition). Checked on entry and after an arbitrary
    iteration; assumed afterwards together with the negated condition (partial correctness)."""
    havoc, inv, variant = INVARIANTS[q]
    short = q.split('.')[-1]
    v = getv()
    for nm, c in inv(v):
        _oblige(f'{short}: invariant holds on entry: {nm}', c)
    h = havoc(v)
    if any(k not in v for k in h):
        raise Unsupported(f'{q}: loop variables differ from the invariant')
    h = {**v, **{k: x for k, x in h.items() if k in v}}
    for k in v:
        if h[k] is not UNSET and h[k] is v[k] and not isinstance(v[k], (str, type(None))):
            raise Unsupported(f'{q}: loop variable {k} has no havoc rule')
    setv(h)
    for nm, c in inv(h):
        if callable(c):
            CTX.add(c('assume'), 'invariant')
        else:
            CTX.add(T.zb(c), 'invariant')
    c = cond()
    if CTX.decide(T.zb(c)) if isinstance(c, Sym) else bool(c):
        if variant is not None:
            v0 = variant(getv())
        body()
        if variant is not None:
            # bounded from above while the loop runs and growing by a fixed amount
            v1 = variant(getv())
            CTX.oblige(f'{short}: progress', T.zb(v1[0] - v0[0] >= v0[1]))
            CTX.oblige(f'{short}: progress is positive', T.zb(v0[1] > 0))
        for nm, c in inv(getv()):
            _oblige(f'{short}: invariant preserved: {nm}', c)
        raise T.PathAbort('end of iteration')
