"""Contracts: a driver introduces arbitrary arguments satisfying the precondition, calls the
real function and states the postcondition. The same text runs in three modes:
  prove    symbolic values and symbolic extents (all inputs)
  bounded  symbolic values, extents enumerated up to a stated bound
  conc     concrete values on the installed package (replay and bounded stand-in)
"""
import math

REGISTRY = {}
META = {}
STUBS = []


def unstub():
    while STUBS:
        o, n, v = STUBS.pop()
        setattr(o, n, v)


def meta(prop, **kw):
    META[prop] = kw


class Contract(object):
    def __init__(self, prop, name, fn, modes, targets, weight, budget, max_paths, note, runs):
        self.prop, self.name, self.fn, self.modes = prop, name, fn, modes
        self.targets, self.weight, self.budget, self.max_paths = targets, weight, budget, max_paths
        self.note = note
        self.runs = runs


def contract(prop, targets=(), modes=('prove', 'conc'), weight=1., budget=120, max_paths=400, note='', runs=None):
    def deco(fn):
        key = fn.__name__
        if isinstance(modes, str):
            ms = (modes,)
        else:
            ms = tuple(modes)
        REGISTRY.setdefault(prop, {})[key] = Contract(prop, key, fn, ms, tuple(targets), weight, budget, max_paths, note, runs)
        return fn
    return deco


class Skip(Exception):
    """precondition not met for this concrete case"""


class Failure(Exception):
    pass


# ---------------------------------------------------------------------------
class ConcCtx(object):
    mode = 'conc'
    sym = False

    def __init__(self, gt, rng, fixed=None, trace=None):
        import numpy
        self.gt, self.np, self.rng = gt, numpy, rng
        self.fixed = fixed or {}
        self.failures = []
        self.inputs = {}
        self.nchecks = 0
        self.names = set()

    # -- inputs --
    def _fix(self, name):
        if name in self.fixed:
            return True, self.fixed[name]
        return False, None

    def int(self, name, lo=1, hi=None, conc=None, bounded=None):
        ok, v = self._fix(name)
        if ok:
            v = int(v)
        elif conc is not None:
            v = int(self.rng.integers(conc[0], conc[1] + 1))
        else:
            h = hi if hi is not None else lo + 4
            v = int(self.rng.integers(lo, h + 1))
        self.inputs[name] = v
        return v

    def real(self, name, lo=None, hi=None, gt=None, lt=None, conc=None, special=()):
        ok, v = self._fix(name)
        if ok:
            v = float(v)
        else:
            if conc is None:
                a = lo if lo is not None else gt if gt is not None else (-3. if hi is None and lt is None else (hi if hi is not None else lt) - 3.)
                b = hi if hi is not None else lt if lt is not None else a + 5.
                conc = (a, b)
            if special and self.rng.random() < 0.25:
                v = float(special[int(self.rng.integers(len(special)))])
            else:
                v = float(conc[0] + (conc[1] - conc[0]) * self.rng.random())
                if gt is not None and v <= gt:
                    v = gt + 1e-3 * (conc[1] - conc[0])
        self.inputs[name] = v
        return v

    def array(self, name, shape, lo=None, hi=None, gt=None, lt=None, conc=None, kind='f'):
        shape = shape if isinstance(shape, tuple) else (shape,)
        if conc is None:
            a = lo if lo is not None else gt if gt is not None else -3.
            b = hi if hi is not None else lt if lt is not None else a + 6.
            conc = (a, b)
        ok, v = self._fix(name)
        if ok and self.np.size(v) == int(self.np.prod(shape)):
            v = self.np.array(v, dtype=float).reshape(shape)
        elif kind == 'i':
            v = self.rng.integers(conc[0], conc[1] + 1, size=shape)
        else:
            v = conc[0] + (conc[1] - conc[0]) * self.rng.random(shape)
            if gt is not None:
                v = self.np.maximum(v, gt + 1e-3 * (conc[1] - conc[0]))
        for ix in self.np.ndindex(*shape) if self.fixed else ():
            ok, w = self._fix(name + ''.join(f'_{i}' for i in ix))
            if ok:
                v[ix] = float(w)
        self.inputs[name] = v.tolist() if v.size <= 60 else f'array{v.shape}'
        return v

    def bool(self, name):
        ok, v = self._fix(name)
        v = bool(v) if ok else bool(self.rng.random() < 0.5)
        self.inputs[name] = v
        return v

    def choice(self, name, options):
        ok, v = self._fix(name)
        k = int(v) if ok and isinstance(v, (int, float)) and 0 <= int(v) < len(options) else int(self.rng.integers(len(options)))
        o = options[k]
        self.inputs[name] = o if isinstance(o, (int, float, str, bool, type(None))) else f'option {k}'
        return o

    def func(self, name, arity=1):
        raise NotImplementedError

    def assume(self, c):
        if not self.np.all(c):
            raise Skip()

    # -- checks --
    def _fail(self, name, detail):
        self.failures.append((name, detail))

    def check(self, name, cond, detail=''):
        self.nchecks += 1
        self.names.add(name)
        if not self.np.all(cond):
            self._fail(name, str(detail)[:400])

    def eq(self, name, a, b, rtol=1e-8, atol=1e-9):
        self.nchecks += 1
        self.names.add(name)
        a, b = self.np.asarray(a, dtype=float), self.np.asarray(b, dtype=float)
        try:
            a2, b2 = self.np.broadcast_arrays(a, b)
        except ValueError:
            self._fail(name, f'shapes {a.shape} {b.shape}')
            return
        scale = float(self.np.max(self.np.abs(b2))) if b2.size else 0.
        if not self.np.all(self.np.isfinite(a2)) or not self.np.allclose(a2, b2, rtol=rtol, atol=atol + rtol * scale):
            e = self.np.max(self.np.abs(a2 - b2)) if a2.size else 0
            self._fail(name, f'{_short(a)} != {_short(b)} (max difference {e})')

    def le(self, name, a, b, tol=1e-9):
        self.nchecks += 1
        self.names.add(name)
        a, b = self.np.asarray(a, dtype=float), self.np.asarray(b, dtype=float)
        if not self.np.all(a <= b + tol * (1 + self.np.abs(b))):
            self._fail(name, f'not {_short(a)} <= {_short(b)}')

    def lt(self, name, a, b):
        self.nchecks += 1
        self.names.add(name)
        a, b = self.np.asarray(a, dtype=float), self.np.asarray(b, dtype=float)
        if not self.np.all(a < b):
            self._fail(name, f'not {_short(a)} < {_short(b)}')

    def same_shape(self, name, a, shape):
        self.check(name, tuple(self.np.shape(a)) == tuple(shape), f'{self.np.shape(a)} vs {shape}')

    def each(self, *dims):
        import itertools
        dims = [(d if isinstance(d, tuple) else (0, d)) for d in dims]
        for ix in itertools.product(*[range(int(a), int(b)) for a, b in dims]):
            yield ix if len(ix) > 1 else ix[0]

    def sum(self, lo, hi, f):
        return sum((f(i) for i in range(int(lo), int(hi))), 0.)

    def raw(self, a, *k):
        return a[k]

    def unfold(self, n, f):
        pass

    def every(self, dims, f):
        """f holds for all indices, as a condition"""
        return all(f(*(ix if isinstance(ix, tuple) else (ix,))) for ix in self.each(*dims))

    def isum(self, lo, hi, f):
        return int(self.sum(lo, hi, f))

    def at(self, a, *ix):
        return a[ix if len(ix) > 1 else ix[0]]

    def ite(self, c, a, b):
        return a if c else b

    def len(self, x):
        return len(x)

    def stub(self, obj, name, fn):
        """the callee is used through its contract (symbolic modes only)"""

    def invariant(self, qual, havoc, inv, variant=None):
        pass

    def lemma(self, name, fact):
        pass

    def sum_congruence(self, name, lo, hi, f, g):
        pass

    def telescope(self, name, lo, hi, f, F, at):
        pass

    def sum_bounds(self, name, lo, hi, f, low, high, given=True):
        pass

    def fact(self, f):
        pass

    def raises(self, name, excs, fn):
        """fn() must raise one of excs"""
        self.nchecks += 1
        self.names.add(name)
        try:
            fn()
        except excs:
            return True
        except Exception as ex:
            self._fail(name, f'raised {ex!r}')
            return False
        self._fail(name, 'no exception')
        return False

    def accepts(self, name, fn):
        self.nchecks += 1
        self.names.add(name)
        try:
            return fn()
        except Exception as ex:
            self._fail(name, f'raised {ex!r}')
            raise Skip()

    def iff_raises(self, name, bad, excs, fn):
        """fn() raises one of excs exactly when bad holds"""
        self.nchecks += 1
        self.names.add(name)
        try:
            r = fn()
        except excs as ex:
            if not bad:
                self._fail(name, f'rejected a valid definition: {ex!r}')
            return None
        if bad:
            self._fail(name, 'accepted an invalid definition')
            return None
        return r

    def instance(self, cls, **attrs):
        o = object.__new__(cls)
        o.__dict__.update(attrs)
        return o

    def same(self, a, b, tol=1e-9):
        return abs(a - b) <= tol * (1 + abs(b))

    def abs(self, x):
        return abs(x)

    def max(self, *a):
        return max(*a)

    def min(self, *a):
        return min(*a)

    def And(self, *a):
        return all(a)

    def Or(self, *a):
        return any(a)

    def Not(self, a):
        return not a

    def le_(self, a, b):
        return a <= b + 1e-9 * (1 + abs(b))

    def implies(self, a, b):
        return (not a) or b


def _short(a):
    s = str(a.tolist() if hasattr(a, 'tolist') else a)
    return s if len(s) < 160 else s[:157] + '...'


# ---------------------------------------------------------------------------
class SymCtx(object):
    sym = True

    def __init__(self, gt, mode):
        from . import terms as T, arrays as A, shim as S
        from .sums import ssum
        import z3
        self.T, self.A, self.S, self.z3, self._ssum = T, A, S, z3, ssum
        self.gt, self.np, self.mode = gt, S.np, mode
        self.bounds = {}

    # -- inputs --
    def int(self, name, lo=1, hi=None, conc=None, bounded=None):
        T = self.T
        if self.mode == 'bounded' or bounded == 'always':
            rng = bounded if isinstance(bounded, (tuple, list)) else range(lo, (min(hi, lo + 2) if hi is not None else lo + 2) + 1)
            return self.choice(name, list(rng))
        v = T.SInt(self.z3.Int(name))
        if lo is not None:
            T.CTX.add(v.e >= lo if not isinstance(lo, T.Sym) else v.e >= lo.e, 'pre')
        if hi is not None:
            T.CTX.add(v.e <= hi if not isinstance(hi, T.Sym) else v.e <= hi.e, 'pre')
        return v

    def _range(self, v, lo, hi, gt, lt):
        T = self.T
        r = []
        if lo is not None:
            r.append(v.e >= T.zr(lo))
        if hi is not None:
            r.append(v.e <= T.zr(hi))
        if gt is not None:
            r.append(v.e > T.zr(gt))
        if lt is not None:
            r.append(v.e < T.zr(lt))
        return r

    def real(self, name, lo=None, hi=None, gt=None, lt=None, conc=None, special=()):
        v = self.T.SReal(self.z3.Real(name))
        for c in self._range(v, lo, hi, gt, lt):
            self.T.CTX.add(c, 'pre')
        return v

    def array(self, name, shape, lo=None, hi=None, gt=None, lt=None, conc=None, kind='f'):
        T, A, z3 = self.T, self.A, self.z3
        shape = shape if isinstance(shape, tuple) else (shape,)
        shape = tuple(A.conc(n) for n in shape)
        if not A.is_symdim(*shape):
            import numpy as rnp
            out = rnp.empty(shape, dtype=object)
            for ix in rnp.ndindex(*shape):
                v = T.SReal(z3.Real(name + ''.join(f'_{i}' for i in ix))) if kind == 'f' else T.SInt(z3.Int(name + ''.join(f'_{i}' for i in ix)))
                for c in self._range(v, lo, hi, gt, lt):
                    T.CTX.add(c, 'pre')
                out[ix] = v
            return out
        f = z3.Function(name, *([z3.IntSort()] * len(shape) + [z3.RealSort() if kind == 'f' else z3.IntSort()]))
        if any(x is not None for x in (lo, hi, gt, lt)):
            ix = [z3.Int(f'{name}!q{k}') for k in range(len(shape))]
            v = T.SReal(f(*ix)) if kind == 'f' else T.SInt(f(*ix))
            T.CTX.add(z3.ForAll(ix, z3.And(*self._range(v, lo, hi, gt, lt)), patterns=[f(*ix)]), 'pre')
        mk = T.SReal if kind == 'f' else T.SInt
        return A.SArr.lam(shape, lambda ix: mk(f(*[T.zi(i) for i in ix])), kind)

    def bool(self, name):
        b = self.z3.Bool(name)
        return self.T.CTX.decide(b)

    def choice(self, name, options):
        """exhaustive case split"""
        z3 = self.z3
        k = z3.Int(name)
        self.T.CTX.add(z3.And(k >= 0, k < len(options)), 'pre')
        for i in range(len(options) - 1):
            if self.T.CTX.decide(k == i):
                return options[i]
        return options[-1]

    def entails(self, c):
        """what the path condition settles (no branching)"""
        T = self.T
        if isinstance(c, (bool,)) or type(c).__name__ == 'bool_':
            return bool(c)
        return T.CTX.entails(T.zb(c))

    def light(self):
        """scalar code with nonlinear conditions: every condition forks, none is settled by the solver on the way"""
        self.T.CTX.light = True

    def assume(self, c):
        T = self.T
        if isinstance(c, (bool,)) or type(c).__name__ == 'bool_':
            if not c:
                raise T.PathAbort('assumption false')
            return
        T.CTX.add(T.zb(c), 'pre')

    def forall(self, dims, f):
        """assume f(ix) for all indices"""
        self.T.CTX.add(self._forall(dims, f), 'pre')

    def every(self, dims, f):
        return self.T.SBool(self._forall(dims, f))

    def fresh_list(self, name, n, kind='f'):
        """arbitrary list of n numbers"""
        T, z3 = self.T, self.z3
        f = z3.Function(f'{name}!{next(T.CTX.fresh_count)}', z3.IntSort(), z3.RealSort() if kind == 'f' else z3.IntSort())
        return self.A.SymList([(n, lambda i: (T.SReal if kind == 'f' else T.SInt)(f(T.zi(i))))])

    def fresh(self, name, kind='f'):
        return self.T.CTX.fresh(name, 'int') if kind == 'i' else self.T.CTX.fresh(name)

    def _forall(self, dims, f):
        z3, T = self.z3, self.T
        ix = [z3.FreshConst(z3.IntSort(), 'q') for _ in dims]
        rng = z3.And(*[z3.And(i >= T.zi(n[0] if isinstance(n, tuple) else 0), i < T.zi(n[1] if isinstance(n, tuple) else n)) for i, n in zip(ix, dims)])
        m = T.CTX.push()
        start = next(T.CTX.fresh_count)
        try:
            T.CTX.add(rng)
            body = T.escapes(T.zb(f(*[T.SInt(i) for i in ix])), ix, start)
        finally:
            T.CTX.pop(m)
        return z3.ForAll(ix, z3.Implies(rng, body))

    # -- checks --
    def check(self, name, cond, detail=''):
        T = self.T
        if hasattr(cond, 'dtype') and getattr(cond, 'shape', ()) != ():
            cond = self.np.all(cond)
        T.CTX.oblige(name, T.zb(cond))

    def _pairs(self, name, a, b):
        """yield scalar pairs at generic / all indices"""
        T, A = self.T, self.A
        import numpy as rnp
        arr = lambda x: isinstance(x, (A.SArr, A.SymList, list, tuple)) or (isinstance(x, rnp.ndarray) and x.shape != ())
        if not arr(a) and not arr(b):
            a = a.item() if isinstance(a, rnp.ndarray) else a
            b = b.item() if isinstance(b, rnp.ndarray) else b
            yield None, a, b
            return
        a, b = A.as_sarr(a), A.as_sarr(b)
        # shapes must agree (or broadcast) on this path
        n = max(a.ndim, b.ndim)
        pa, pb = (1,) * (n - a.ndim) + a.shape, (1,) * (n - b.ndim) + b.shape
        out = []
        for x, y in zip(pa, pb):
            if isinstance(x, int) and x == 1:
                out.append(y)
            elif isinstance(y, int) and y == 1:
                out.append(x)
            else:
                if not A.same(x, y):
                    T.CTX.oblige(name + ' (shape)', T.zi(x) == T.zi(y))
                out.append(x)
        sh = tuple(out)
        ga, gb = A.bget(a, sh), A.bget(b, sh)
        if not A.is_symdim(*sh):
            for ix in rnp.ndindex(*sh):
                yield ix, ga(ix), gb(ix)
            return
        idx, rng = A.generic_index(sh)
        m = T.CTX.push()
        T.CTX.add(rng)
        yield idx, ga(tuple(idx)), gb(tuple(idx))
        self._flush(m)

    def _flush(self, m):
        """obligations recorded inside a scope keep the scope's facts"""
        T = self.T
        T.CTX.scoped_pop(m)

    def eq(self, name, a, b, rtol=None, atol=None):
        T = self.T
        for ix, x, y in self._pairs(name, a, b):
            if isinstance(x, T.SBool) or isinstance(y, T.SBool):
                g = T.zb(x) == T.zb(y)
            else:
                x, y = T._lift(x), T._lift(y)
                if isinstance(x, T.SInt) and isinstance(y, T.SInt):
                    g = x.e == y.e
                else:
                    g = T.zr(x) == T.zr(y)
            T.CTX.oblige(name, g)

    def le(self, name, a, b, tol=None):
        T = self.T
        for ix, x, y in self._pairs(name, a, b):
            T.CTX.oblige(name, T.zb(T._lift(x) <= y))

    def lt(self, name, a, b):
        T = self.T
        for ix, x, y in self._pairs(name, a, b):
            T.CTX.oblige(name, T.zb(T._lift(x) < y))

    def same_shape(self, name, a, shape):
        T, A = self.T, self.A
        sh = self.np.shape(a)
        if len(sh) != len(shape):
            T.CTX.oblige(name, self.z3.BoolVal(False))
            return
        for x, y in zip(sh, shape):
            T.CTX.oblige(name, T.zi(A.conc(x)) == T.zi(A.conc(y)))

    def each(self, *dims):
        import itertools
        T, A = self.T, self.A
        dims = [(d if isinstance(d, tuple) else (0, d)) for d in dims]
        dims = [(A.conc(a), A.conc(b)) for a, b in dims]
        if not any(A.is_symdim(a, b) for a, b in dims):
            for ix in itertools.product(*[range(a, b) for a, b in dims]):
                yield ix if len(ix) > 1 else ix[0]
            return
        idx = [T.CTX.fresh('e', 'int') for _ in dims]
        m = T.CTX.push()
        for i, (a, b) in zip(idx, dims):
            T.CTX.add(i.e >= T.zi(a))
            T.CTX.add(i.e < T.zi(b))
        yield tuple(idx) if len(idx) > 1 else idx[0]
        self._flush(m)

    def sum(self, lo, hi, f):
        A = self.A
        lo, hi = A.conc(lo), A.conc(hi)
        if isinstance(lo, int) and isinstance(hi, int):
            r = 0.
            for i in range(lo, hi):
                r = r + f(i)
            return r
        return self._ssum(lo, hi, lambda i: f(i))

    def raw(self, a, *k):
        """element k of the array as a function of any integer (no negative indices, no bounds check)"""
        return self.A.bget(a, a.shape)(k)

    def unfold(self, n, f):
        """states the defining equation of the prefix sum of f at n"""
        from .sums import prefix_apps, body_at, _BYFUNC
        t, n = self.T.zr(self.sum(0, n, f)), self.T.zi(n)
        for a in prefix_apps([t]):
            if a.children()[-1].eq(self.z3.simplify(n)):
                self.T.CTX.add(_BYFUNC[a.decl().name()][0](*(a.children()[:-1] + [n + 1])) == a + body_at(a, n), 'lemma')

    def isum(self, lo, hi, f):
        """sum of integers, as an integer"""
        r = self.sum(lo, hi, f)
        return self.T.SInt(self.z3.ToInt(self.T.zr(r))) if isinstance(r, self.T.SReal) else int(r) if isinstance(r, float) else r

    def at(self, a, *ix):
        A = self.A
        if isinstance(a, A.SymList):
            return a.elem(ix[0])
        return a[ix if len(ix) > 1 else ix[0]]

    def stub(self, obj, name, fn):
        STUBS.append((obj, name, getattr(obj, name)))
        setattr(obj, name, fn)

    def invariant(self, qual, havoc, inv, variant=None):
        from . import loops
        loops.INVARIANTS['pygfunction.' + qual] = (havoc, inv, variant)

    def solves(self):
        """(A, X, B) of the linear systems solved so far (contract of solve: A @ X == B)"""
        from . import shim
        return shim.SOLVES

    def interps(self):
        """piecewise linear interpolants created so far"""
        from . import shim
        return shim.INTERPS

    def row(self, rec, i):
        """row i of A @ X == B"""
        A, X, B = rec
        return self.sum(0, A.shape[1], lambda j: self.at(A, i, j) * self.at(X, j)) == self.at(B, i)

    def iteration(self, qual, first=True):
        """loops over symbolic ranges in this function: an arbitrary iteration from an arbitrary state"""
        from . import loops
        r = loops.ITER_RULES['pygfunction.' + qual] = loops.IterRule(first)
        return r

    def all(self, dims, f):
        """universally quantified part of an invariant: assumed as a quantifier, proved for arbitrary indices"""
        def c(what, name=None):
            if what == 'assume':
                return self._forall(dims, f)
            for ix in self.each(*dims):
                self.check(name, f(*ix) if isinstance(ix, tuple) else f(ix))
        return c

    def lemma(self, name, fact):
        """proved here, available afterwards"""
        self.T.CTX.oblige('lemma: ' + name, self.T.zb(fact))
        self.T.CTX.add(self.T.zb(fact), 'lemma')

    def sum_congruence(self, name, lo, hi, f, g):
        """terms proved equal for an arbitrary index, hence equal sums"""
        T = self.T
        for k in self.each((lo, hi)):
            self.eq('lemma: ' + name, f(k), g(k))
        T.CTX.add(T.zr(self.sum(lo, hi, f)) == T.zr(self.sum(lo, hi, g)), 'lemma')

    def telescope(self, name, lo, hi, f, F, at):
        """induction: F(lo) = 0 and F(k+1) - F(k) = f(k), hence the sum of f up to p is F(p)"""
        T = self.T
        self.eq('lemma: ' + name + ' (start)', F(lo), 0)
        for k in self.each((lo, hi)):
            self.eq('lemma: ' + name + ' (step)', F(k + 1) - F(k), f(k))
        for p in at:
            T.CTX.add(self.z3.Implies(self.z3.And(T.zi(lo) <= T.zi(p), T.zi(p) <= T.zi(hi)), T.zr(self.sum(lo, p, f)) == T.zr(F(p))), 'lemma')

    def sum_bounds(self, name, lo, hi, f, low, high, given=True):
        """terms proved within [low, high] for an arbitrary index, hence the sum within the multiples"""
        T = self.T
        m = T.CTX.push()
        T.CTX.add(T.zb(given))
        for k in self.each((lo, hi)):
            self.check('lemma: ' + name, self.And(T._lift(f(k)) >= low, T._lift(f(k)) <= high))
        s = self.sum(lo, hi, f)
        self._flush(m)
        T.CTX.add(self.z3.Implies(self.z3.And(T.zb(given), T.zi(lo) <= T.zi(hi)), T.zb(self.And(s >= low * (hi - lo), s <= high * (hi - lo)))), 'lemma')

    def under(self, cond, fn):
        """implication whose conclusion is evaluated knowing the premise"""
        T = self.T
        m = T.CTX.push()
        try:
            T.CTX.add(T.zb(cond))
            r = fn()
        finally:
            T.CTX.pop(m)
        return self.implies(cond, r)

    def symlist(self, n, f):
        return self.A.SymList([(n, f)])

    def ite(self, c, a, b):
        return self.T.ite(c, a, b)

    def len(self, x):
        if isinstance(x, self.A.SymList):
            return x.n
        if isinstance(x, self.A.SArr):
            return x.shape[0]
        return self.S.b_len(x)

    def raises(self, name, excs, fn):
        T = self.T
        try:
            fn()
        except excs:
            T.CTX.oblige(name, self.z3.BoolVal(True))
            return True
        except (T.Unsupported, T.Budget, T.PathAbort, self.z3.Z3Exception):
            raise
        except Exception as ex:
            T.CTX.oblige(name, self.z3.BoolVal(False), exc=repr(ex))
            return False
        T.CTX.oblige(name, self.z3.BoolVal(False), exc='no exception')
        return False

    def accepts(self, name, fn):
        T = self.T
        try:
            r = fn()
        except (T.Unsupported, T.Budget, T.PathAbort, self.z3.Z3Exception):
            raise
        except Exception as ex:
            T.CTX.oblige(name, self.z3.BoolVal(False), exc=repr(ex))
            raise T.PathAbort()
        T.CTX.oblige(name, self.z3.BoolVal(True))
        return r

    def iff_raises(self, name, bad, excs, fn):
        T = self.T
        try:
            r = fn()
        except excs as ex:
            T.CTX.oblige(name, T.zb(bad))
            return None
        T.CTX.oblige(name, self.z3.Not(T.zb(bad)))
        return r

    def instance(self, cls, **attrs):
        o = object.__new__(cls)
        o.__dict__.update(attrs)
        from . import loops
        loops.BIRTH[id(o)] = 0
        loops._alive.append(o)
        return o

    def abs(self, x):
        return self.T.sabs(x)

    def max(self, *a):
        return self.S._fold(a, self.T.smax)

    def min(self, *a):
        return self.S._fold(a, self.T.smin)

    def And(self, *a):
        return self.T.SBool(self.z3.And(*[self.T.zb(x) for x in a]))

    def Or(self, *a):
        return self.T.SBool(self.z3.Or(*[self.T.zb(x) for x in a]))

    def le_(self, a, b):
        return self.T._lift(a) <= b

    def same(self, a, b, tol=None):
        return self.T._lift(a) == b

    def Not(self, a):
        return self.T.SBool(self.z3.Not(self.T.zb(a)))

    def implies(self, a, b):
        return self.T.SBool(self.z3.Implies(self.T.zb(a), self.T.zb(b)))
