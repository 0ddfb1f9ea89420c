"""Symbolic-aware versions of the numpy / scipy / builtin names used by the code under
contract. Each is the specification this verifier trusts for that name."""
import builtins
import math
import types
from fractions import Fraction
import numpy as rnp
import z3
from . import terms as T
from .terms import CTX, Sym, SReal, SInt, SBool, Unsupported, ite, is_num, sfun, ssqrt
from . import arrays as A
from .arrays import SArr, SymList, SymRange, as_sarr, conc, elementwise, is_symdim, finish

ASSUMED = set()        # names of dependency contracts used on this run


def assume_contract(name):
    ASSUMED.add(name)


def symbolic(x):
    if isinstance(x, (Sym, SArr, SymList, SymRange, A.Masked)):
        return True
    if isinstance(x, rnp.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(symbolic(y) for y in x)
    return False


def objarr(x):
    return isinstance(x, rnp.ndarray) and x.dtype == object


def lift_const(x):
    """float scalars -> exact terms"""
    if isinstance(x, Sym):
        return x
    return T._lift(x)


def ufunc1(name, f, kind='f'):
    real = getattr(rnp, name)

    def g(x, *a, **k):
        if isinstance(x, (SArr, SymList, A.Masked)):
            return elementwise(f, x, kind=kind)
        if isinstance(x, (list, tuple)) and symbolic(x):
            x = np.array(x)
            if isinstance(x, SArr):
                return elementwise(f, x, kind=kind)
        if isinstance(x, Sym):
            return f(x)
        if objarr(x):
            out = rnp.empty(x.shape, dtype=object)
            for ix in rnp.ndindex(*x.shape):
                out[ix] = f(x[ix])
            return out if x.shape != () else out.item()
        return real(x, *a, **k)
    g.__name__ = name
    return g


def ufunc2(name, f, kind=None):
    real = getattr(rnp, name)

    def g(x, y, *a, **k):
        if isinstance(x, (list, tuple)) and symbolic(x):
            x = np.array(x)
        if isinstance(y, (list, tuple)) and symbolic(y):
            y = np.array(y)
        if symbolic(x) or symbolic(y):
            if isinstance(x, (SArr, SymList, A.Masked)) or isinstance(y, (SArr, SymList, A.Masked)):
                return elementwise(f, x, y, kind=kind)
            xs, ys = rnp.asarray(x, dtype=object), rnp.asarray(y, dtype=object)
            b = rnp.broadcast(xs, ys)
            if b.shape == ():
                return f(xs.item(), ys.item())
            xs, ys = rnp.broadcast_arrays(xs, ys)
            out = rnp.empty(b.shape, dtype=object)
            for ix in rnp.ndindex(*b.shape):
                out[ix] = f(xs[ix], ys[ix])
            return out
        return real(x, y, *a, **k)

    g.__name__ = name

    def outer(x, y):
        x, y = as_sarr(x), as_sarr(y)
        n = x.ndim
        gx, gy = x.getter(), y.getter()
        return finish(SArr.lam(x.shape + y.shape, lambda ix: f(gx(ix[:n]), gy(ix[n:])), kind or 'f'))
    g.outer = outer
    return g


def _dimkey(shape):
    return shape if isinstance(shape, (tuple, list)) else (shape,)


def _full(shape, v, kind):
    shape = tuple(conc(T.sint(n) if isinstance(n, SReal) else n) for n in _dimkey(shape))
    for n in shape:
        if isinstance(n, SInt):
            if not CTX.decide(n.e >= 0):
                raise ValueError('negative dimensions are not allowed')
    if is_symdim(*shape):
        vv = lift_const(v) if not isinstance(v, (bool, rnp.bool_, SBool)) else v
        return SArr.lam(shape, lambda ix: vv, kind)
    out = rnp.empty(shape, dtype=object)
    out[...] = v
    return out


class _NP(types.ModuleType):
    def __init__(self):
        super().__init__('numpy')

    def __getattr__(self, name):
        if name == 'pi':
            return SReal(T.PI)
        if name == 'euler_gamma':
            return SReal(T.EULER)
        v = getattr(rnp, name)
        if callable(v) and not isinstance(v, type):
            def f(*a, **k):
                if any(isinstance(x, (SArr, SymList)) for x in a) or any(
                        isinstance(y, (SArr, SymList)) for x in a if isinstance(x, (list, tuple)) for y in x):
                    raise Unsupported(f'numpy.{name} on an array of symbolic extent')
                return v(*a, **k)
            f.__name__ = name
            return f
        return v


np = _NP()


def d(fn):
    setattr(np, fn.__name__.rstrip('_'), fn)
    return fn


np.ndarray = rnp.ndarray
for nm in ('exp', 'log', 'sin', 'cos', 'tan', 'sinh', 'cosh', 'tanh', 'arctan'):
    setattr(np, nm, ufunc1(nm, lambda x, nm=nm: sfun(nm, T._lift(x))))
np.sqrt = ufunc1('sqrt', lambda x: ssqrt(x))
np.log10 = ufunc1('log10', lambda x: sfun('log', T._lift(x)) / sfun('log', SReal(z3.RealVal(10))))
np.abs = np.absolute = ufunc1('abs', T.sabs, kind=None)
np.sign = ufunc1('sign', lambda x: ite(T._lift(x) > 0, 1, ite(T._lift(x) < 0, -1, 0)), kind=None)
np.ceil = ufunc1('ceil', lambda x: SReal(T.zr(T.sceil(T._lift(x)))))
np.floor = ufunc1('floor', lambda x: SReal(T.zr(T.sfloor(T._lift(x)))))
np.negative = ufunc1('negative', lambda x: -x, kind=None)
np.square = ufunc1('square', lambda x: x * x, kind=None)
np.isnan = ufunc1('isnan', lambda x: False, kind='b')
np.isfinite = ufunc1('isfinite', lambda x: True, kind='b')
np.isreal = ufunc1('isreal', lambda x: True, kind='b')
np.real = lambda x: x if symbolic(x) else rnp.real(x)
np.maximum = ufunc2('maximum', T.smax)
np.minimum = ufunc2('minimum', T.smin)
np.add = ufunc2('add', lambda a, b: a + b)
np.subtract = ufunc2('subtract', lambda a, b: a - b)
np.multiply = ufunc2('multiply', lambda a, b: a * b)
np.divide = np.true_divide = ufunc2('divide', lambda a, b: a / b)
np.power = ufunc2('power', T.spow)
np.greater = ufunc2('greater', lambda a, b: a > b, 'b')
np.less = ufunc2('less', lambda a, b: a < b, 'b')
np.greater_equal = ufunc2('greater_equal', lambda a, b: a >= b, 'b')
np.less_equal = ufunc2('less_equal', lambda a, b: a <= b, 'b')
np.equal = ufunc2('equal', lambda a, b: a == b, 'b')
np.logical_and = ufunc2('logical_and', lambda a, b: SBool(z3.And(T.zb(a), T.zb(b))), 'b')
np.logical_or = ufunc2('logical_or', lambda a, b: SBool(z3.Or(T.zb(a), T.zb(b))), 'b')
np.logical_not = ufunc1('logical_not', lambda a: SBool(z3.Not(T.zb(a))), 'b')
np.arctan2 = ufunc2('arctan2', lambda a, b: sfun('arctan2', T._lift(a), T._lift(b)))
np.hypot = ufunc2('hypot', lambda a, b: ssqrt(a * a + b * b))
np.mod = ufunc2('mod', lambda a, b: a % b)


@d
def clip(x, lo, hi):
    return np.minimum(np.maximum(x, lo), hi)


def _wants_sym(dtype):
    return dtype is None or dtype in (float, rnp.float64, rnp.double, object)


@d
def zeros(shape, dtype=None, **k):
    if dtype in (int, rnp.uint, rnp.intp, rnp.int64, 'int', rnp.uint64):
        if is_symdim(*_dimkey(shape)):
            return _full(shape, 0, 'i')
        return rnp.zeros(shape, dtype=dtype)
    if dtype in (bool, rnp.bool_):
        if is_symdim(*_dimkey(shape)):
            return _full(shape, False, 'b')
        return rnp.zeros(shape, dtype=bool)
    return _full(shape, 0.0, 'f')


@d
def ones(shape, dtype=None, **k):
    if dtype is not None and not _wants_sym(dtype) and not is_symdim(*_dimkey(shape)):
        return rnp.ones(shape, dtype=dtype)
    return _full(shape, 1.0, 'f')


@d
def empty(shape, dtype=None, **k):
    if dtype is not None and not _wants_sym(dtype) and not is_symdim(*_dimkey(shape)):
        return rnp.empty(shape, dtype=dtype)
    shape = tuple(conc(n) for n in _dimkey(shape))
    if is_symdim(*shape):
        f = z3.Function(f'empty!{next(CTX.fresh_count)}', *([z3.IntSort()] * len(shape) + [z3.RealSort()]))
        return SArr.lam(shape, lambda ix: SReal(f(*[T.zi(i) for i in ix])), 'f')
    out = rnp.empty(shape, dtype=object)
    for ix in rnp.ndindex(*shape):
        out[ix] = CTX.fresh('uninit')
    return out


@d
def full(shape, v, dtype=None, **k):
    if symbolic(v) and getattr(v, 'shape', ()) not in ((),):
        return np.broadcast_to(v, shape)
    return _full(shape, v, A.kind_of(v))


@d
def zeros_like(a, dtype=None, **k):
    return zeros(a.shape if hasattr(a, 'shape') else rnp.shape(a), dtype=dtype)


@d
def ones_like(a, dtype=None, **k):
    return ones(a.shape if hasattr(a, 'shape') else rnp.shape(a), dtype=dtype)


@d
def full_like(a, v, **k):
    return full(a.shape, v)


@d
def empty_like(a, **k):
    return empty(a.shape)


@d
def eye(n, m=None, k=0, **kw):
    m = n if m is None else m
    n, m = conc(n), conc(m)
    if is_symdim(n, m):
        return SArr.lam((n, m), lambda ix: ite(_eqi(ix[1] - ix[0], k), T._lift(1.0), T._lift(0.0)), 'f')
    out = rnp.empty((n, m), dtype=object)
    for i in range(n):
        for j in range(m):
            out[i, j] = 1.0 if j - i == k else 0.0
    return out


np.identity = eye


def _eqi(a, b):
    r = conc(a) if not isinstance(a, int) else a
    if isinstance(r, int) and isinstance(b, int):
        return r == b
    return SBool(T.zi(r) == T.zi(b))


@d
def diag(v, k=0):
    if isinstance(v, SArr):
        if v.ndim == 1:
            n = conc(v.shape[0] + builtins.abs(k))
            g = v.getter()
            return SArr.lam((n, n), lambda ix: ite(_eqi(ix[1] - ix[0], k), g((ix[0] if k >= 0 else ix[1],)), T._lift(0.0)), 'f')
        g = v.getter()
        n = A.imin(v.shape[0], v.shape[1])
        return finish(SArr.lam((n,), lambda ix: g((ix[0], ix[0])), v.store.kind))
    if objarr(v):
        return rnp.diag(v, k=k)
    return rnp.diag(v, k=k)


@d
def diagonal(a, *args, **k):
    if isinstance(a, SArr):
        return diag(a)
    return rnp.diagonal(a, *args, **k)


@d
def fill_diagonal(a, v):
    if isinstance(a, SArr):
        val = lift_const(v)
        a.store.write(lambda ix: (SBool(T.zi(ix[0]) == T.zi(ix[1])), lambda: val))
        return
    rnp.fill_diagonal(a, v)


@d
def arange(*a, **k):
    if any(isinstance(x, Sym) for x in a):
        if len(a) == 1:
            lo, hi, st = 0, a[0], 1
        else:
            lo, hi, st = a[0], a[1], a[2] if len(a) > 2 else 1
        if not (isinstance(st, int) and st == 1) or isinstance(lo, SReal) or isinstance(hi, SReal):
            raise Unsupported('arange')
        n = A.imax0(hi - lo)
        if isinstance(n, int):
            return rnp.array([lo + i for i in range(n)], dtype=object)
        return SArr.lam((n,), lambda ix: lo + ix[0] if isinstance(lo, SInt) else SInt(T.zi(lo) + T.zi(ix[0])), 'i')
    r = rnp.arange(*a, **k)
    return r


@d
def linspace(lo, hi, num=50, **k):
    num = conc(num)
    if k.get('endpoint', True) is False:
        raise Unsupported('linspace endpoint')
    if isinstance(num, int):
        if not symbolic(lo) and not symbolic(hi) and not getattr(lo, 'shape', ()):
            lo, hi = lift_const(lo), lift_const(hi)
        if getattr(lo, 'shape', ()) or getattr(hi, 'shape', ()):
            return np.stack([lo + (hi - lo) * Fraction(i, num - 1) for i in range(num)])
        out = rnp.empty(num, dtype=object)
        for i in range(num):
            out[i] = lo + (hi - lo) * SReal(T.rv(Fraction(i, num - 1))) if num > 1 else lo
        return out
    return SArr.lam((num,), lambda ix: lo + (hi - lo) * (SReal(T.zr(ix[0])) / (num - 1)), 'f')


def _has_sym_dims(x):
    if isinstance(x, SArr):
        return True
    if isinstance(x, SymList):
        return True
    if isinstance(x, (list, tuple)):
        return any(_has_sym_dims(y) for y in x)
    return False


@d
def array(x, dtype=None, copy=True, ndmin=0, **k):
    if isinstance(x, SArr):
        return x.copy() if copy else x
    if isinstance(x, SymList):
        return x.to_array()
    if isinstance(x, (list, tuple)) and _has_sym_dims(x):
        return stack([array(y) if isinstance(y, (list, tuple)) else y for y in x])
    if isinstance(x, (list, tuple)) and len(x) and all(is_num(y) or isinstance(y, bool) for y in x) and dtype is None:
        if all(isinstance(y, (bool, rnp.bool_)) for y in x):
            return rnp.array(x)
        if all(isinstance(y, (int, rnp.integer)) for y in x):
            return rnp.array(x)
        r = rnp.empty(len(x), dtype=object)
        r[:] = [T.tonum(y) for y in x]
        return r
    if symbolic(x) or (isinstance(x, (list, tuple)) and _deep_sym(x)):
        if isinstance(x, Sym):
            return _box(x)
        r = rnp.array(x, dtype=object)
        if ndmin and r.ndim < ndmin:
            r = r.reshape((1,) * (ndmin - r.ndim) + r.shape)
        return r.copy() if copy else r
    r = rnp.array(x, dtype=dtype, ndmin=ndmin, **k)
    if r.dtype.kind == 'f':
        return r.astype(object)
    return r


def _box(x):
    r = rnp.empty((), dtype=object)
    r[()] = x
    return r


def _deep_sym(x):
    if isinstance(x, (list, tuple)):
        return any(_deep_sym(y) for y in x)
    return symbolic(x)


@d
def asarray(x, dtype=None, **k):
    if isinstance(x, (SArr, rnp.ndarray)):
        return x
    return array(x, dtype=dtype)


np.asanyarray = np.ascontiguousarray = asarray


@d
def atleast_1d(*xs):
    if len(xs) > 1:
        return tuple(atleast_1d(x) for x in xs)
    x = xs[0]
    if isinstance(x, SArr):
        return x if x.ndim else x.reshape(1)
    x = array(x, copy=False) if not isinstance(x, rnp.ndarray) else x
    return x.reshape(1) if getattr(x, 'ndim', 0) == 0 and not isinstance(x, SArr) else x


@d
def atleast_2d(x):
    x = asarray(x)
    if x.ndim == 2:
        return x
    if x.ndim == 1:
        return x[None, :]
    return x.reshape(1, 1)


@d
def shape(x):
    if isinstance(x, SymList):
        return x.to_array().shape
    if hasattr(x, 'shape'):
        return x.shape
    if isinstance(x, Sym):
        return ()
    return array(x).shape if symbolic(x) else rnp.shape(x)


@d
def ndim(x):
    return len(shape(x))


@d
def size(x, axis=None):
    if axis is not None:
        return shape(x)[axis]
    if isinstance(x, SArr):
        return x.size
    return rnp.size(x) if not isinstance(x, Sym) else 1


@d
def isscalar(x):
    return isinstance(x, Sym) or rnp.isscalar(x)


@d
def copy_(x):
    return x.copy()


@d
def broadcast_to(x, shp):
    shp = tuple(conc(n) for n in _dimkey(shp))
    if is_symdim(*shp) or isinstance(x, (SArr, SymList)):
        a = as_sarr(x)
        sh, _ = A.broadcast_shapes(a.shape, shp)
        for n, m in zip(sh, shp):
            if not A.deq(n, m):
                raise ValueError('could not be broadcast')
        return finish(SArr.lam(shp, A.bget(a, shp), a.store.kind))
    x = array(x) if not isinstance(x, rnp.ndarray) else x
    return rnp.broadcast_to(x, shp)


@d
def tile(x, reps):
    x = as_sarr(x)
    if isinstance(reps, (tuple, list)):
        if not is_symdim(*reps) and x.concrete():
            return rnp.tile(x.native(), reps)
        reps = tuple(conc(r) for r in reps)
        if len(reps) > x.ndim:
            x = x[(None,) * (len(reps) - x.ndim)]
        reps = (1,) * (x.ndim - len(reps)) + reps
        g, sh = x.getter(), x.shape
        if any(not A.same(r, 1) and not A.same(n, 1) for r, n in zip(reps, sh)):
            raise Unsupported('tile')
        return finish(SArr.lam(tuple(n if A.same(r, 1) else r for r, n in zip(reps, sh)),
                               lambda ix: g(tuple(i if A.same(r, 1) else 0 for r, i in zip(reps, ix))), x.store.kind))
    reps = conc(reps)
    if x.ndim != 1:
        if isinstance(reps, int) and x.concrete():
            return rnp.tile(x.native(), reps)
        raise Unsupported('tile')
    n = x.shape[0]
    g = x.getter()
    tot = conc(n * reps)
    if isinstance(tot, int):
        return rnp.tile(x.native(), reps)
    return SArr.lam((tot,), lambda ix: g((A.divide(ix[0], n)[1],)), x.store.kind)


@d
def repeat(x, reps, axis=None):
    if isinstance(reps, (list, tuple, rnp.ndarray)) and not is_symdim(*reps):
        return rnp.repeat(asarray(x), reps, axis=axis)
    x = as_sarr(x)
    reps = conc(reps)
    if x.concrete() and isinstance(reps, int):
        return rnp.repeat(x.native(), reps, axis=axis)
    if x.ndim != 1:
        raise Unsupported('repeat')
    g = x.getter()
    return SArr.lam((conc(x.shape[0] * reps),), lambda ix: g((A.divide(ix[0], reps)[0],)), x.store.kind)


@d
def concatenate(xs, axis=0, **k):
    if isinstance(xs, SymList):
        raise Unsupported('concatenate of a list of symbolic length')
    xs = [x if isinstance(x, (SArr, rnp.ndarray)) else array(x) for x in xs]
    if not any(isinstance(x, SArr) for x in xs):
        xs = [x.astype(object) if any(objarr(y) for y in xs) else x for x in xs]
        return rnp.concatenate(xs, axis=axis)
    xs = [as_sarr(x) for x in xs]
    if axis < 0:
        axis += xs[0].ndim
    gets = [x.getter() for x in xs]
    offs = [0]
    for x in xs:
        offs.append(conc(offs[-1] + x.shape[axis]))
    shp = xs[0].shape[:axis] + (offs[-1],) + xs[0].shape[axis + 1:]
    kinds = {x.store.kind for x in xs}
    kind = 'f' if 'f' in kinds else 'i' if 'i' in kinds else kinds.pop()

    def el(ix):
        i = ix[axis]
        out = None
        for k in reversed(range(len(xs))):
            lo, hi = offs[k], offs[k + 1]
            if A.same(lo, hi):
                continue
            if CTX.quick(T.zi(i) >= T.zi(hi)):
                break
            v = A.coerce(gets[k](ix[:axis] + (conc(i - lo),) + ix[axis + 1:]), kind)
            if out is None:
                out = v
            else:
                c = T.zi(i) < T.zi(hi)
                out = v if CTX.quick(c) else ite(SBool(c), v, out)
        return out
    return finish(SArr.lam(shp, el, kind))


@d
def hstack(xs):
    xs = [atleast_1d(x) for x in xs]
    return concatenate(xs, axis=0 if xs[0].ndim == 1 else 1)


@d
def vstack(xs):
    return concatenate([atleast_2d(x) for x in xs], axis=0)


@d
def stack(xs, axis=0):
    if isinstance(xs, SymList):
        n = xs.n
        m = CTX.push()
        try:
            k = CTX.fresh('k', 'int')
            CTX.add(z3.And(k.e >= 0, k.e < T.zi(n)))
            x0 = xs.elem(k)
            sh = tuple(conc(q) for q in as_sarr(x0)._shape)
        finally:
            CTX.pop(m)
        if not sh:
            return xs.to_array()
        ax = axis if axis >= 0 else axis + len(sh) + 1
        return SArr.lam(sh[:ax] + (n,) + sh[ax:], lambda ix: A.bget(as_sarr(xs.elem(ix[ax])), sh)(ix[:ax] + ix[ax + 1:]), 'f')
    xs = [x if isinstance(x, SArr) else asarray(x) for x in xs]
    if not any(isinstance(x, SArr) for x in xs):
        return rnp.stack(xs, axis=axis)
    xs = [as_sarr(x) for x in xs]
    n = xs[0].ndim
    if axis < 0:
        axis += n + 1
    key = tuple(slice(None) for _ in range(axis)) + (None,)
    return concatenate([x[key] for x in xs], axis=axis)


@d
def block(rows):
    if not any(isinstance(x, SArr) for r in rows for x in (r if isinstance(r, list) else [r])):
        return rnp.block([[asarray(x).astype(object) for x in r] for r in rows] if isinstance(rows[0], list) else [asarray(x).astype(object) for x in rows])
    rows = [[atleast_2d(x) for x in r] for r in rows]
    return concatenate([concatenate(r, axis=1) if len(r) > 1 else r[0] for r in rows], axis=0)


@d
def inner(a, b):
    a, b = _nat(a), _nat(b)
    if isinstance(a, SArr) or isinstance(b, SArr):
        a, b = as_sarr(a), as_sarr(b)
        if not a.ndim or not b.ndim:
            return a * b
        n = a._shape[-1]
        if not A.deq(n, b._shape[-1]):
            raise ValueError('shapes not aligned')
        ga, gb, na = a.getter(), b.getter(), a.ndim - 1
        return finish(SArr.lam(a._shape[:-1] + b._shape[:-1], lambda ix: A.rsum(n, lambda i: ga(ix[:na] + (i,)) * gb(ix[na:] + (i,))), 'f'))
    r = rnp.inner(asarray(a), asarray(b))
    return r.item() if isinstance(r, rnp.ndarray) and r.shape == () else r


@d
def broadcast_shapes(*shapes):
    out = ()
    for s in shapes:
        out, _ = A.broadcast_shapes(out, _dimkey(s))
    return out


@d
def expand_dims(x, axis):
    x = asarray(x)
    if isinstance(axis, (tuple, list)):
        n = len(x.shape) + len(axis)
        axis = sorted(a if a >= 0 else a + n for a in axis)
        for a in axis:
            x = expand_dims(x, a)
        return x
    if isinstance(x, SArr):
        return x[(slice(None),) * (axis if axis >= 0 else axis + x.ndim + 1) + (None,)]
    return rnp.expand_dims(x, axis)


@d
def reshape(x, shp):
    return asarray(x).reshape(shp) if not isinstance(x, SArr) else A.reshape(x, shp)


@d
def squeeze(x, axis=None):
    if isinstance(x, SArr):
        return x.squeeze()
    return rnp.squeeze(x, axis=axis)


@d
def transpose(x, axes=None):
    if isinstance(x, SArr):
        return x.transpose(*axes) if axes else x.T
    return rnp.transpose(x, axes)


@d
def ravel(x):
    return asarray(x).ravel()


@d
def flip(x, axis=None):
    if isinstance(x, SArr):
        if axis is None and x.ndim == 1 or axis == 0:
            return x[::-1]
        if axis in (1, -1) and x.ndim == 2:
            return x[:, ::-1]
        raise Unsupported('flip')
    return rnp.flip(x, axis=axis)


def _tri(a, k, keep):
    a = as_sarr(a)
    g = a.getter()
    return finish(SArr.lam(a.shape, lambda ix: ite(keep(ix[1] - ix[0], k), g(ix), T._lift(0.0)), 'f'))


@d
def triu(a, k=0):
    if isinstance(a, SArr):
        return _tri(a, k, lambda dd, k: _b(dd >= k))
    return rnp.triu(a, k=k) if not objarr(a) else _tri(a, k, lambda dd, k: _b(dd >= k))


@d
def tril(a, k=0):
    if isinstance(a, SArr):
        return _tri(a, k, lambda dd, k: _b(dd <= k))
    return rnp.tril(a, k=k) if not objarr(a) else _tri(a, k, lambda dd, k: _b(dd <= k))


def _b(x):
    return x


def _nat(x):
    """numpy object array for elementwise python evaluation"""
    if isinstance(x, SArr):
        return x
    x = x if isinstance(x, rnp.ndarray) else array(x)
    return x


@d
def sum_(x, axis=None, keepdims=False, **k):
    if isinstance(x, SymList):
        x = x.to_array()
    if isinstance(x, SArr):
        return A.reduce_sum(x, axis, keepdims)
    x = _nat(x)
    if isinstance(x, SArr):
        return A.reduce_sum(x, axis, keepdims)
    if objarr(x):
        return rnp.sum(x, axis=axis, keepdims=keepdims) if x.size else (0.0 if axis is None else _full(rnp.sum(rnp.zeros(x.shape), axis=axis).shape, 0.0, 'f'))
    return rnp.sum(x, axis=axis, keepdims=keepdims)


@d
def mean(x, axis=None, **k):
    x = _nat(x)
    if isinstance(x, SArr):
        return x.mean(axis)
    if objarr(x):
        n = x.size if axis is None else x.shape[axis]
        return rnp.sum(x, axis=axis) / n
    return rnp.mean(x, axis=axis, **k)


@d
def average(x, axis=None, weights=None, **k):
    if weights is None:
        return mean(x, axis=axis)
    x, w = _nat(x), _nat(weights)
    if isinstance(x, SArr) or isinstance(w, SArr) or objarr(x) or objarr(w):
        return sum_(x * w, axis=axis) / sum_(w * np.ones_like(x), axis=axis)
    return rnp.average(x, axis=axis, weights=w, **k)


@d
def cumsum(x, axis=None, **k):
    x = _nat(x)
    if isinstance(x, SArr):
        if x.ndim == 1 and axis in (None, 0, -1):
            g = x.getter()
            return SArr.lam(x.shape, lambda ix: A.rsum(ix[0] + 1, lambda i: g((i,))), 'f')
        ax = axis if axis >= 0 else axis + x.ndim
        g = x.getter()
        return SArr.lam(x.shape, lambda ix: A.rsum(ix[ax] + 1, lambda i: g(ix[:ax] + (i,) + ix[ax + 1:])), 'f')
    return rnp.cumsum(x, axis=axis)


@d
def diff(x, axis=-1, n=1, **k):
    if n != 1:
        raise Unsupported('diff')
    x = _nat(x)
    if 'prepend' in k:
        p = k['prepend']
        x = concatenate((atleast_1d(p), x)) if x.ndim == 1 else _uns('diff prepend')
    if 'append' in k:
        _uns('diff append')
    if axis < 0:
        axis += x.ndim
    pre = (slice(None),) * axis
    return x[pre + (slice(1, None),)] - x[pre + (slice(None, -1),)]


def _uns(m):
    raise Unsupported(m)


@d
def prod(x, axis=None, **k):
    x = _nat(x)
    if isinstance(x, SArr):
        raise Unsupported('prod')
    return rnp.prod(x, axis=axis)


@d
def dot(a, b):
    if isinstance(a, SArr) or isinstance(b, SArr):
        return A.dot(a, b)
    return rnp.dot(a, b)


@d
def matmul(a, b):
    if isinstance(a, SArr) or isinstance(b, SArr):
        return A.matmul(a, b)
    return rnp.matmul(a, b)


@d
def outer(a, b):
    return np.multiply.outer(asarray(a).ravel(), asarray(b).ravel())


@d
def einsum(spec, *ops, **k):
    spec = spec.replace(' ', '')
    ops = [as_sarr(o) for o in ops]
    if '->' in spec:
        ins, out = spec.split('->')
    else:
        ins = spec
        letters = ins.replace(',', '').replace('.', '')
        out = ('...' if '.' in ins else '') + ''.join(sorted(c for c in set(letters) if letters.count(c) == 1))
    ins = ins.split(',')
    if '.' in spec:
        nell = [o.ndim - len(s.replace('...', '')) if '...' in s else 0 for s, o in zip(ins, ops)]
        names = ''.join(chr(0x100 + i) for i in range(max(nell)))
        if min(nell) < 0 or (names and '...' not in out):
            raise ValueError('einsum ellipsis')
        ins = [s.replace('...', names[len(names) - n:]) for s, n in zip(ins, nell)]
        out = out.replace('...', names)
    dim = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            raise ValueError('einsum subscripts')
        for c, n in zip(s, o.shape):
            if c in dim:
                if not A.deq(dim[c], n):
                    if A.deq(dim[c], 1):
                        dim[c] = n
                    elif not A.deq(n, 1):
                        raise ValueError('einsum operands')
            else:
                dim[c] = n
    gets = [o.getter() for o in ops]
    summed = [c for c in dim if c not in out]
    ones = [[A.same(n, 1) for n in o.shape] for o in ops]

    def el(ix):
        env = dict(zip(out, ix))

        def rec(rest, env):
            if not rest:
                v = None
                for s, g, on in zip(ins, gets, ones):
                    t = g(tuple(0 if o else env[c] for c, o in zip(s, on)))
                    v = t if v is None else v * t
                return v
            return A.rsum(dim[rest[0]], lambda i: rec(rest[1:], {**env, rest[0]: i}))
        return rec(summed, env)
    return finish(SArr.lam(tuple(dim[c] for c in out), el, 'f'))


@d
def tensordot(a, b, axes=2):
    if isinstance(a, SArr) or isinstance(b, SArr):
        raise Unsupported('tensordot')
    return rnp.tensordot(a, b, axes)


@d
def where(c, a=None, b=None):
    if a is None:
        if isinstance(c, SArr):
            raise Unsupported('where')
        if objarr(c):
            c = rnp.vectorize(bool, otypes=[bool])(c)
        return rnp.where(c)
    if symbolic(c) or symbolic(a) or symbolic(b):
        f = lambda c, a, b: ite(c if isinstance(c, SBool) else bool(c), a, b)
        if any(isinstance(x, SArr) for x in (c, a, b)):
            return elementwise(f, c, a, b)
        cs, as_, bs = (rnp.asarray(x, dtype=object) for x in (c, a, b))
        cs, as_, bs = rnp.broadcast_arrays(cs, as_, bs)
        out = rnp.empty(cs.shape, dtype=object)
        for ix in rnp.ndindex(*cs.shape):
            out[ix] = f(cs[ix], as_[ix], bs[ix])
        return out if out.shape != () else out.item()
    return rnp.where(c, a, b)


@d
def heaviside(x, h):
    return where(np.greater(x, 0), 1., where(np.less(x, 0), 0., h))


def _conj(xs):
    es = [T.zb(x) for x in xs]
    es = [e for e in es if not z3.is_true(e)]
    if any(z3.is_false(e) for e in es):
        return False
    if not es:
        return True
    return SBool(z3.And(*es) if len(es) > 1 else es[0])


def _disj(xs):
    r = _conj([SBool(z3.Not(T.zb(x))) for x in xs])
    if isinstance(r, bool):
        return not r
    return SBool(z3.simplify(z3.Not(r.e)))


@d
def all_(x, axis=None, **k):
    if isinstance(x, SBool):
        return x
    if isinstance(x, (SymList, list, tuple)) and symbolic(x):
        x = array(x)
    if isinstance(x, SArr):
        if axis is not None:
            raise Unsupported('all(axis)')
        return A.all_(x)
    if objarr(x):
        if axis is not None:
            return rnp.apply_along_axis(lambda v: _box(_conj(v)).item(), axis, x)
        return _conj(x.flat)
    return rnp.all(x, axis=axis, **k)


@d
def any_(x, axis=None, **k):
    if isinstance(x, SBool):
        return x
    if isinstance(x, (SymList, list, tuple)) and symbolic(x):
        x = array(x)
    if isinstance(x, SArr):
        if axis is not None:
            raise Unsupported('any(axis)')
        return A.any_(x)
    if objarr(x):
        if axis is not None:
            raise Unsupported('any(axis)')
        return _disj(x.flat)
    return rnp.any(x, axis=axis, **k)


@d
def isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    if symbolic(a) or symbolic(b):
        return np.less_equal(np.abs(np.subtract(a, b)), atol + rtol * np.abs(b))
    return rnp.isclose(T_float(a), T_float(b), rtol=rtol, atol=atol)


def T_float(x):
    return x


@d
def allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    if symbolic(a) or symbolic(b):
        try:
            r = isclose(a, b, rtol=rtol, atol=atol)
        except ValueError:
            raise
        if isinstance(r, (bool, rnp.bool_)):
            return bool(r)
        return all_(r)
    return rnp.allclose(a, b, rtol=rtol, atol=atol)


@d
def array_equal(a, b):
    if symbolic(a) or symbolic(b):
        a, b = asarray(a), asarray(b)
        if len(a.shape) != len(b.shape) or not all(A.deq(n, m) for n, m in zip(a.shape, b.shape)):
            return False
        return all_(np.equal(a, b))
    return rnp.array_equal(a, b)


def _minmax(which):
    f = T.smax if which == 'max' else T.smin
    real = getattr(rnp, which)

    def g(x, axis=None, **k):
        if isinstance(x, Sym):
            return x
        if isinstance(x, (list, tuple)) and symbolic(x):
            x = array(x)
        if isinstance(x, SymList):
            x = x.to_array()
        if isinstance(x, SArr):
            if axis is not None:
                raise Unsupported(which)
            return extremum(x, which)
        if objarr(x):
            if axis is not None:
                x2 = rnp.moveaxis(x, axis, -1)
                out = rnp.empty(x2.shape[:-1], dtype=object)
                for ix in rnp.ndindex(*out.shape):
                    out[ix] = _fold(x2[ix], f)
                return out
            return _fold(list(x.flat), f)
        return real(x, axis=axis, **k)
    g.__name__ = which
    return g


def _fold(xs, f):
    xs = list(xs)
    if not xs:
        raise ValueError('zero-size array to reduction operation')
    r = xs[0]
    for v in xs[1:]:
        r = f(r, v)
    return r


def extremum(x, which):
    """max/min of an array of symbolic extent: attained and a bound (fresh value)"""
    assume_contract(f'numpy.{which} (attained bound)')
    m = CTX.fresh(which)
    idx, rng = A.generic_index(x.shape)
    start = next(CTX.fresh_count)
    v = x.at(*idx)
    e = T.escapes(T.zr(v), [i.e for i in idx], start)
    bound = m.e >= e if which == 'max' else m.e <= e
    CTX.add(z3.ForAll([i.e for i in idx], z3.Implies(rng, bound)), 'defn')
    w, wr = A.generic_index(x.shape, 'wit')
    nonempty = z3.And(*[T.zi(n) > 0 for n in x.shape])
    CTX.add(z3.Implies(nonempty, z3.And(wr, m.e == T.zr(x.at(*w)))), 'defn')
    return m


np.max = np.amax = _minmax('max')
np.min = np.amin = _minmax('min')


@d
def argmax(x, axis=None):
    if objarr(x) or isinstance(x, (list,)):
        xs = list(rnp.asarray(x, dtype=object).flat)
        best = 0
        for i in range(1, len(xs)):
            a, b = xs[i], xs[best]
            if isinstance(a, SBool) or isinstance(a, bool):
                gt = bool(a) and not bool(b)
            else:
                gt = bool(a > b)
            if gt:
                best = i
        return best
    if isinstance(x, SArr):
        # contract: the first position of the largest value
        if x.ndim != 1 or axis is not None:
            raise Unsupported('argmax')
        j = CTX.fresh('argmax', 'int')
        n = x._shape[0]
        q = z3.FreshConst(z3.IntSort(), 'q')
        rng = z3.And(q >= 0, q < T.zi(n))
        m = CTX.push()
        CTX.add(rng)
        xq = x.at(SInt(q))
        CTX.pop(m)
        CTX.add(z3.And(j.e >= 0, j.e < T.zi(n)), 'contract')
        xj = x.at(j)
        if isinstance(xj, (SBool, bool)):
            xj, xq = T.zb(xj), T.zb(xq)
            CTX.add(z3.ForAll([q], z3.Implies(z3.And(rng, q < j.e), z3.Not(xq))), 'contract')
            CTX.add(z3.Or(xj, z3.And(j.e == 0, z3.ForAll([q], z3.Implies(rng, z3.Not(xq))))), 'contract')
        else:
            xj, xq = T.zr(xj), T.zr(xq)
            CTX.add(z3.ForAll([q], z3.Implies(rng, z3.And(xq <= xj, z3.Implies(q < j.e, xq < xj)))), 'contract')
        return j
    return rnp.argmax(x, axis=axis)


@d
def argmin(x, axis=None):
    if objarr(x):
        return argmax(-x)
    return rnp.argmin(x, axis=axis)


@d
def sort(x, **k):
    if objarr(x):
        xs = list(x)
        return array(_isort(xs))
    if isinstance(x, SArr):
        raise Unsupported('sort')
    return rnp.sort(x, **k)


def _isort(xs, key=lambda v: v, reverse=False):
    out = []
    for v in xs:
        k = 0
        while k < len(out) and bool((key(out[k]) >= key(v)) if reverse else (key(out[k]) <= key(v))):
            k += 1
        out.insert(k, v)
    return out


@d
def searchsorted(a, v, side='left', **k):
    if symbolic(a) or symbolic(v):
        a = asarray(a)
        if isinstance(a, SArr):
            if isinstance(v, (rnp.ndarray, SArr)) and v.shape != ():
                raise Unsupported('searchsorted of an array')
            assume_contract('numpy.searchsorted (sorted array): a[i] < v before the result (<= for side right), not from it on')
            n, p = a._shape[0], CTX.fresh('pos', 'int')
            CTX.add(z3.And(p.e >= 0, p.e <= T.zi(n)), 'searchsorted')
            t = lambda i: T.zb((a.at(i) < v) if side == 'left' else (a.at(i) <= v))
            CTX.add(z3.Implies(p.e > 0, t(p - 1)), 'searchsorted')
            CTX.add(z3.Implies(p.e < T.zi(n), z3.Not(t(p))), 'searchsorted')
            return p
        if isinstance(v, rnp.ndarray) and v.shape != ():
            return rnp.array([searchsorted(a, w, side) for w in v])
        n = 0
        for w in a:
            if bool((w < v) if side == 'left' else (w <= v)):
                n += 1
            else:
                break
        return n
    return rnp.searchsorted(a, v, side=side, **k)


@d
def argwhere(x):
    if isinstance(x, SArr):
        w = flatnonzero(x)
        return SArr.lam((w._shape[0], 1), lambda ix: w._where(ix[0]), 'i')
    if objarr(x):
        x = rnp.vectorize(bool, otypes=[bool])(x)
    return rnp.argwhere(x)


FOUND = []


@d
def flatnonzero(x):
    if isinstance(x, SArr):
        # contract: exactly the true positions, in increasing order
        if x.ndim != 1:
            raise Unsupported('argwhere')
        n = x._shape[0]
        M = CTX.fresh('found', 'int')
        w = z3.Function(f'where!{next(CTX.fresh_count)}', z3.IntSort(), z3.IntSort())
        pos = z3.Function(f'pos!{next(CTX.fresh_count)}', z3.IntSort(), z3.IntSort())
        q, k = z3.FreshConst(z3.IntSort(), 'q'), z3.FreshConst(z3.IntSort(), 'k')
        CTX.add(M.e >= 0, 'contract')
        m = CTX.push()
        CTX.add(z3.And(k >= 0, k < T.zi(n)))
        start = next(CTX.fresh_count)
        xk = T.escapes(T.zb(x.at(SInt(k))), [k], start)
        CTX.pop(m)
        at = lambda t: z3.substitute(xk, (k, t))
        CTX.add(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < M.e), z3.And(w(q) >= 0, w(q) < T.zi(n), at(w(q)), pos(w(q)) == q)), patterns=[w(q)]), 'contract')
        CTX.add(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < T.zi(n), xk), z3.And(pos(k) >= 0, pos(k) < M.e, w(pos(k)) == k))), 'contract')
        assume_contract('numpy.argwhere: the true positions')
        r = SArr.lam((M,), lambda ix: SInt(w(T.zi(ix[0]))), 'i')
        r._pos = lambda t: SInt(pos(T.zi(t)))
        r._where = lambda t: SInt(w(T.zi(t)))
        FOUND.append(r)
        return r
    if objarr(x):
        x = rnp.vectorize(bool, otypes=[bool])(x)
    return rnp.flatnonzero(x)


@d
def nonzero(x):
    if isinstance(x, SArr) and x.ndim == 1:
        return (flatnonzero(x),)
    if objarr(x):
        x = rnp.vectorize(bool, otypes=[bool])(x)
    return rnp.nonzero(x)


@d
def meshgrid(*xs, **k):
    xs = [asarray(x) for x in xs]
    if any(isinstance(x, SArr) for x in xs):
        raise Unsupported('meshgrid')
    return rnp.meshgrid(*[x.astype(object) for x in xs], **k)


@d
def interp(*a, **k):
    if any(symbolic(x) for x in a):
        raise Unsupported('interp')
    return rnp.interp(*a, **k)


# -- linear algebra: contracts of the dependency --------------------------------
def _lin_solve(Am, b):
    """contract of solve: some X with A @ X == b (A non-singular assumed)"""
    Am, b = asarray(Am), asarray(b)
    if not symbolic(Am) and not symbolic(b):
        return rnp.linalg.solve(Am, b)
    assume_contract('numpy.linalg.solve: A @ X == B')
    if isinstance(Am, SArr) or isinstance(b, SArr):
        Am, b = as_sarr(Am), as_sarr(b)
        n = Am.shape[0]
        f = z3.Function(f'solve!{next(CTX.fresh_count)}', *([z3.IntSort()] * b.ndim + [z3.RealSort()]))
        X = SArr.lam(b.shape, lambda ix: SReal(f(*[T.zi(i) for i in ix])), 'f')
        SOLVES.append((Am.copy(), X, b.copy()))
        return X
    if Am.shape[0] <= 2 and EXPLICIT_SMALL[0]:
        return rnp.dot(_inv_small(Am), b)
    X = rnp.empty(b.shape, dtype=object)
    for ix in rnp.ndindex(*b.shape):
        X[ix] = CTX.fresh('sol')
    R = rnp.dot(Am, X)
    for ix in rnp.ndindex(*b.shape):
        CTX.add(T.zr(R[ix]) == T.zr(b[ix] if not is_num(b[ix]) else b[ix]), 'solve')
    return X


SOLVES = []
EXPLICIT_SMALL = [True]


def _inv_small(Am):
    n = Am.shape[0]
    out = rnp.empty(Am.shape, dtype=object)
    if n == 1:
        out[0, 0] = 1 / Am[0, 0]
    else:
        a, b, c, dd = Am[0, 0], Am[0, 1], Am[1, 0], Am[1, 1]
        det = a * dd - b * c
        out[0, 0], out[0, 1], out[1, 0], out[1, 1] = dd / det, -b / det, -c / det, a / det
    return out


def _lin_inv(Am):
    Am = asarray(Am)
    if not symbolic(Am):
        return rnp.linalg.inv(Am)
    assume_contract('numpy.linalg.inv: A @ inv(A) == inv(A) @ A == I')
    if isinstance(Am, SArr):
        n = Am.shape[0]
        X = _lin_solve(Am, eye(n))
        return X
    if Am.shape[0] <= 2 and EXPLICIT_SMALL[0]:
        return _inv_small(Am)
    n = Am.shape[0]
    X = rnp.empty(Am.shape, dtype=object)
    for ix in rnp.ndindex(*Am.shape):
        X[ix] = CTX.fresh('inv')
    for P in (rnp.dot(Am, X), rnp.dot(X, Am)):
        for i in range(n):
            for j in range(n):
                CTX.add(T.zr(P[i, j]) == (1 if i == j else 0), 'inv')
    return X


class _Linalg(types.ModuleType):
    def __getattr__(self, name):
        v = getattr(rnp.linalg, name)
        if callable(v) and not isinstance(v, type):
            def f(*a, **k):
                if any(symbolic(x) for x in a):
                    raise Unsupported(f'numpy.linalg.{name}')
                return v(*a, **k)
            return f
        return v


np.linalg = _Linalg('numpy.linalg')
np.linalg.solve = _lin_solve
np.linalg.inv = _lin_inv


# -- builtins ---------------------------------------------------------------------
def b_len(x):
    if isinstance(x, SymList):
        return x.n
    if isinstance(x, SArr):
        if not x.shape:
            raise TypeError('len() of unsized object')
        return x.shape[0]
    if isinstance(x, SymRange):
        return x.n
    try:
        return builtins.len(x)
    except Unsupported:
        m = getattr(type(x), '__len__', None)
        return m(x)


def b_range(*a):
    a = [conc(x) if isinstance(x, Sym) else x for x in a]
    a = [T.sint(x) if isinstance(x, SReal) else x for x in a]
    if any(isinstance(x, SInt) for x in a):
        if len(a) == 1:
            return SymRange(0, a[0])
        return SymRange(*a)
    return builtins.range(*a)


def b_abs(x):
    if isinstance(x, (Sym, SArr)) or objarr(x):
        return np.abs(x)
    return builtins.abs(x)


def b_max(*a, **k):
    if len(a) == 1 and not k:
        if symbolic(a[0]) or objarr(a[0]):
            return np.max(a[0])
        a = tuple(a[0])
        if any(isinstance(x, Sym) for x in a):
            return _fold(a, T.smax)
        return builtins.max(a)
    if any(isinstance(x, Sym) for x in a):
        return _fold(a, T.smax)
    return builtins.max(*a, **k)


def b_min(*a, **k):
    if len(a) == 1 and not k:
        if symbolic(a[0]) or objarr(a[0]):
            return np.min(a[0])
        a = tuple(a[0])
        if any(isinstance(x, Sym) for x in a):
            return _fold(a, T.smin)
        return builtins.min(a)
    if any(isinstance(x, Sym) for x in a):
        return _fold(a, T.smin)
    return builtins.min(*a, **k)


def b_sum(x, start=0):
    if isinstance(x, (SArr, SymList)):
        return np.sum(x) + start if not (isinstance(start, int) and start == 0) else np.sum(x)
    return builtins.sum(x, start)


def b_any(x):
    if isinstance(x, (SArr, SymList)):
        return np.any(x)
    x = builtins.list(x)
    if any(isinstance(v, Sym) for v in x):
        return _disj(x)
    return builtins.any(x)


def b_all(x):
    if isinstance(x, (SArr, SymList)):
        return np.all(x)
    x = builtins.list(x)
    if any(isinstance(v, Sym) for v in x):
        return _conj(x)
    return builtins.all(x)


def b_float(x=0.):
    if isinstance(x, SReal):
        return x
    if isinstance(x, (SInt, SBool)):
        return SReal(T.zr(x))
    if objarr(x) and x.size == 1:
        return b_float(x.item())
    if isinstance(x, SArr):
        return b_float(x.item())
    return builtins.float(x)


def b_int(x=0, *a):
    if isinstance(x, Sym):
        return conc(T.sint(x)) if not isinstance(x, SReal) else _c(T.sint(x))
    if objarr(x) and x.size == 1:
        return b_int(x.item())
    return builtins.int(x, *a)


def _c(v):
    return conc(v)


def b_bool(x=False):
    return builtins.bool(x)


def b_round(x, n=None):
    if isinstance(x, Sym):
        raise Unsupported('round')
    return builtins.round(x, n) if n is not None else builtins.round(x)


_NUMTYPES = {}


def _typematch(x, t):
    if isinstance(t, tuple):
        return any(_typematch(x, u) for u in t)
    t = UNSHIM.get(id(t), t)
    if isinstance(x, SReal):
        return t in (float, rnp.floating, rnp.float64, rnp.number, object)
    if isinstance(x, SInt):
        return t in (int, rnp.integer, rnp.int64, rnp.number, object)
    if isinstance(x, SBool):
        return t in (bool, rnp.bool_, object, int)
    if isinstance(x, SArr):
        return t in (rnp.ndarray, object, SArr)
    if isinstance(x, SymList):
        return t in (list, object, SymList)
    if isinstance(x, SymRange):
        return t in (range, object)
    return builtins.isinstance(x, t)


def b_isinstance(x, t):
    return _typematch(x, t)


def b_type(x, *a):
    if a:
        return builtins.type(x, *a)
    if isinstance(x, SReal):
        return b_float
    if isinstance(x, SInt):
        return b_int
    if isinstance(x, SArr):
        return rnp.ndarray
    if isinstance(x, SymList):
        return b_list
    t = builtins.type(x)
    return SHIMTYPE.get(t, t)


class SymZip(object):
    def __init__(self, parts):
        self.parts = [A.as_symlist(p) if not isinstance(p, SymRange) else A.as_symlist(p) for p in parts]
        n = self.parts[0].n
        for p in self.parts[1:]:
            n = A.imin(n, p.n)
        self.n = n

    def elem(self, k):
        return tuple(p.elem(k) for p in self.parts)


class SymEnum(object):
    def __init__(self, it, start=0):
        self.it = symiter(it)
        self.n = self.it.n
        self.start = start

    def elem(self, k):
        return (conc(self.start + k), self.it.elem(k))


def is_symiter(x):
    if isinstance(x, (SymRange, SymZip, SymEnum)):
        return isinstance(conc(x.n), SInt)
    if isinstance(x, SymList):
        return isinstance(x.n, SInt)
    if isinstance(x, SArr):
        return bool(x.shape) and isinstance(conc(x.shape[0]), SInt)
    return False


def symiter(x):
    if isinstance(x, (SymRange, SymZip, SymEnum, SymList)):
        return x
    return A.as_symlist(x)


def b_zip(*a):
    if any(is_symiter(x) for x in a):
        return SymZip(a)
    return builtins.zip(*[iter_native(x) for x in a])


def b_enumerate(x, start=0):
    if is_symiter(x):
        return SymEnum(x, start)
    return builtins.enumerate(iter_native(x), start)


def iter_native(x):
    if isinstance(x, (SymRange, SymZip, SymEnum)):
        return [x.elem(i) for i in range(conc(x.n))]
    return x


def b_list(x=()):
    if is_symiter(x) or isinstance(x, SymList):
        return SymList(list(A.as_symlist(x).segs)) if not isinstance(x, (SymZip, SymEnum)) else SymList([(x.n, x.elem)])
    m = builtins.type(x)
    if m.__module__.startswith('pygfunction') and hasattr(m, '__getitem__') and not hasattr(m, '__iter__'):
        n = m.__len__(x)
        if isinstance(conc(n), SInt):
            return SymList([(n, lambda i: x[i])])
        return [x[i] for i in range(conc(n))]
    return builtins.list(iter_native(x))


def b_tuple(x=()):
    if is_symiter(x):
        return b_list(x)
    return builtins.tuple(iter_native(x))


def b_sorted(x, key=None, reverse=False):
    x = builtins.list(iter_native(x))
    ks = [key(v) if key else v for v in x]
    if any(_deep_sym(k) for k in ks):
        idx = _isort(builtins.list(range(len(x))), key=lambda i: ks[i], reverse=reverse)
        return [x[i] for i in idx]
    return builtins.sorted(x, key=key, reverse=reverse)


BUILTINS = dict(len=b_len, range=b_range, abs=b_abs, max=b_max, min=b_min, sum=b_sum, any=b_any, all=b_all,
                float=b_float, int=b_int, isinstance=b_isinstance, type=b_type, zip=b_zip,
                enumerate=b_enumerate, list=b_list, tuple=b_tuple, sorted=b_sorted, round=b_round)
UNSHIM = {id(b_float): float, id(b_int): int, id(b_list): list, id(b_tuple): tuple, id(b_range): range}
SHIMTYPE = {float: b_float, int: b_int, list: b_list, tuple: b_tuple}


# -- scipy ------------------------------------------------------------------------------
def _erf1(x):
    return sfun('erf', T._lift(x))


def elementwise_fun(f):
    def g(x, *a):
        if isinstance(x, (SArr, SymList)):
            return elementwise(f, x, kind='f')
        if objarr(x):
            out = rnp.empty(x.shape, dtype=object)
            for ix in rnp.ndindex(*x.shape):
                out[ix] = f(x[ix])
            return out
        return f(x)
    return g


def opaque_fun(name):
    return elementwise_fun(lambda x: sfun(name, T._lift(x)))


def roots_legendre(n):
    assume_contract('scipy.special.roots_legendre(M): some M nodes and M weights')
    n = conc(n)
    if isinstance(n, int):
        return tuple(rnp.array([SReal(z3.Real(f'{k}{n}!{i}')) for i in range(n)] + [None], dtype=object)[:-1] for k in ('legx', 'legw'))
    fx, fw = (z3.Function(k, z3.IntSort(), z3.IntSort(), z3.RealSort()) for k in ('legx', 'legw'))
    return tuple(SArr.lam((n,), lambda ix, f=f: SReal(f(T.zi(n), T.zi(ix[0]))), 'f') for f in (fx, fw))


def make_erf():
    def erf(x, *a):
        if isinstance(x, (SArr, SymList)):
            return elementwise(_erf1, x, kind='f')
        if isinstance(x, Sym):
            return _erf1(x)
        if objarr(x):
            out = rnp.empty(x.shape, dtype=object)
            for ix in rnp.ndindex(*x.shape):
                out[ix] = _erf1(x[ix])
            return out
        import scipy.special
        return scipy.special.erf(x)
    return erf


def block_diag(*ms):
    if any(isinstance(m, SArr) for m in ms):
        raise Unsupported('block_diag')
    ms = [atleast_2d(m) for m in ms]
    R, C = sum(m.shape[0] for m in ms), sum(m.shape[1] for m in ms)
    out = rnp.empty((R, C), dtype=object)
    out[...] = 0.0
    r = c = 0
    for m in ms:
        out[r:r + m.shape[0], c:c + m.shape[1]] = m
        r += m.shape[0]
        c += m.shape[1]
    return out


def pdist(X, metric='euclidean', **k):
    X = asarray(X)
    if isinstance(X, SArr):
        raise Unsupported('pdist')
    if metric != 'euclidean':
        raise Unsupported('pdist metric')
    n = X.shape[0]
    return rnp.array([ssqrt(sum((a - b) * (a - b) for a, b in zip(X[i], X[j])))
                      for i in range(n) for j in range(i + 1, n)] + [None], dtype=object)[:-1]


INTERPS = []


class Interp1d(object):
    """contract of interp1d(kind='linear'): piecewise linear through the given points"""

    def __init__(self, x, y, kind='linear', copy=True, axis=-1, bounds_error=None, fill_value=None,
                 assume_sorted=False, **k):
        self.x, self.y = asarray(x), asarray(y)
        self.axis = axis if axis >= 0 else axis + self.y.ndim
        if kind != 'linear':
            raise Unsupported(f'interp1d kind={kind}')
        self.sym = None
        if isinstance(self.x, SArr) or isinstance(self.y, SArr):
            self.x, self.y = as_sarr(self.x), as_sarr(self.y)
            # contract: some function of (the other indices, abscissa) through the points
            self.sym = z3.Function(f'interp!{next(CTX.fresh_count)}', *([z3.IntSort()] * (self.y.ndim - 1) + [z3.RealSort(), z3.RealSort()]))
            self.args = []
            if not A.deq(self.x._shape[0], self.y._shape[self.axis]):
                raise ValueError('x and y arrays must be equal in length along interpolation axis.')
            INTERPS.append(self)
        self.ext = isinstance(fill_value, str) and fill_value == 'extrapolate'
        assume_contract('scipy.interpolate.interp1d(linear): piecewise linear interpolation')

    def point(self, k, other=()):
        """fact: the curve goes through point k"""
        y = self.y.getter()(other[:self.axis] + (k,) + other[self.axis:])
        return SBool(self.sym(*[T.zi(i) for i in other], T.zr(self.x.at(k))) == T.zr(y))

    def value(self, t, other=()):
        return SReal(self.sym(*[T.zi(i) for i in other], T.zr(t)))

    def __call__(self, t):
        if self.sym is not None:
            t = as_sarr(asarray(t))
            self.args.append(t)
            g, nt, ax = t.getter(), t.ndim, self.axis
            sh = self.y._shape[:ax] + t._shape + self.y._shape[ax + 1:]
            return SArr.lam(sh, lambda ix: self.value(g(ix[ax:ax + nt]), ix[:ax] + ix[ax + nt:]), 'f')
        if isinstance(t, (rnp.ndarray, list, tuple)) and rnp.ndim(t) > 0:
            ts = asarray(t)
            vals = [self(v) for v in ts.flat]
            out = rnp.stack([rnp.asarray(v, dtype=object) for v in vals], axis=0)
            out = out.reshape(ts.shape + out.shape[1:])
            if self.axis:
                nt = ts.ndim
                out = rnp.moveaxis(out, tuple(range(nt)), tuple(range(self.axis, self.axis + nt)))
            return out
        if isinstance(t, rnp.ndarray):
            t = t.item()
        x = self.x
        y = rnp.moveaxis(self.y, self.axis, 0)
        n = len(x)
        if not self.ext:
            if bool(t < x[0]) or bool(t > x[n - 1]):
                raise ValueError('interpolation range')
        k = n - 2
        for i in range(n - 1):
            if bool(t <= x[i + 1]):
                k = i
                break
        w = (t - x[k]) / (x[k + 1] - x[k])
        r = y[k] + (y[k + 1] - y[k]) * w
        return r


def fake_module(name, **attrs):
    m = types.ModuleType(name)
    for k, v in attrs.items():
        setattr(m, k, v)
    return m


class Opaque(object):
    """placeholder for a dependency without contract: using it is unsupported"""

    def __init__(self, name):
        self.__name__ = name

    def __call__(self, *a, **k):
        raise Unsupported(f'{self.__name__} has no contract')

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Opaque(f'{self.__name__}.{n}')


class OpaqueModule(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Opaque(f'{self.__name__}.{n}')
