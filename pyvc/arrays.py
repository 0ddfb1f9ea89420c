"""Arrays and lists of symbolic extent, with numpy view semantics."""
import numpy as rnp
import z3
from . import terms as T
from .terms import CTX, SReal, SInt, SBool, Sym, Unsupported, ite, is_num, merge
from .sums import ssum


def conc(n):
    """python int if n is concrete, else the SInt"""
    if isinstance(n, SInt):
        e = z3.simplify(n.e)
        if z3.is_int_value(e):
            return e.as_long()
        return SInt(e)
    if isinstance(n, (int, rnp.integer)):
        return int(n)
    if isinstance(n, SReal):
        raise TypeError('an integer is required')
    return int(n)


def same(a, b):
    """a == b for integers, provable without forking"""
    a, b = conc(a), conc(b)
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return CTX.quick(T.zi(a) == T.zi(b))


def deq(a, b):
    a, b = conc(a), conc(b)
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return CTX.decide(T.zi(a) == T.zi(b))


def is_symdim(*ns):
    return any(isinstance(conc(n), SInt) for n in ns)


def imin(a, b):
    a, b = conc(a), conc(b)
    if isinstance(a, int) and isinstance(b, int):
        return min(a, b)
    ea, eb = T.zi(a), T.zi(b)
    if CTX.quick(ea <= eb):
        return a
    if CTX.quick(ea >= eb):
        return b
    return a if CTX.decide(ea <= eb) else b


def imax0(a):
    a = conc(a)
    if isinstance(a, int):
        return max(a, 0)
    return a if CTX.decide(T.zi(a) >= 0) else 0


def norm_slice(s, n):
    """(start, length, step) of slice s over an axis of n elements"""
    step = 1 if s.step is None else conc(s.step)
    if not isinstance(step, int) or step == 0:
        raise Unsupported('slice step')

    def pos(v, dflt, lo, hi):
        if v is None:
            return dflt
        v = conc(v)
        if isinstance(v, int) and isinstance(n, int):
            if v < 0:
                v += n
            return min(max(v, lo), hi)
        e = T.zi(v)
        if isinstance(v, int):
            neg = v < 0
        else:
            neg = CTX.decide(e < 0)
        w = conc(v + n) if neg else v
        if neg:
            we = T.zi(w)
            if not CTX.decide(we >= T.zi(lo)):
                return lo
            return w
        if not CTX.decide(e <= T.zi(hi)):
            return hi
        return w
    if step > 0:
        a = pos(s.start, 0, 0, n)
        b = pos(s.stop, n, 0, n)
        ln = conc(b - a)
        if isinstance(ln, int):
            ln = max(ln, 0)
        elif not CTX.decide(T.zi(ln) >= 0):
            ln = 0
        if step > 1:
            ln = conc((ln + (step - 1)) // step)
        return a, ln, step
    n1 = conc(n - 1)
    a = pos(s.start, n1, -1, n1)
    if s.stop is None:
        b = -1
    else:
        b = pos(s.stop, -1, -1, n1)
    ln = conc(a - b)
    if isinstance(ln, int):
        ln = max(ln, 0)
    elif not CTX.decide(T.zi(ln) >= 0):
        ln = 0
    if step < -1:
        ln = conc((ln + (-step - 1)) // (-step))
    return a, ln, step


def norm_index(k, n):
    """index k into an axis of n elements: bounds are checked on this path"""
    k = conc(k)
    n = conc(n)
    if isinstance(k, int) and isinstance(n, int):
        if k < -n or k >= n:
            raise IndexError('index out of bounds')
        return k if k >= 0 else k + n
    e, ne = T.zi(k), T.zi(n)
    if isinstance(k, int):
        if k >= 0:
            if not CTX.decide(e < ne):
                raise IndexError('index out of bounds')
            return k
        if not CTX.decide(ne + e >= 0):
            raise IndexError('index out of bounds')
        return conc(k + n)
    if CTX.decide(e >= 0):
        if not CTX.decide(e < ne):
            raise IndexError('index out of bounds')
        return k
    if not CTX.decide(ne + e >= 0):
        raise IndexError('index out of bounds')
    return conc(k + n)


class Store(object):
    """Mutable array contents: get(ix) for an in-range index tuple of ints/SInts."""
    count = 0

    def __init__(self, shape, get, kind='f'):
        self.shape = tuple(conc(n) for n in shape)
        self.get = memo(get)
        self.kind = kind
        Store.count += 1
        self.serial = Store.count
        self.writes = None

    def write(self, cond_val):
        """cond_val(ix) -> (SBool/bool, thunk value)"""
        if STORE_LOG is not None:
            STORE_LOG.append((self, self.get, cond_val))
        old = self.get

        def get(ix):
            c, v = cond_val(ix)
            if c is False:
                return old(ix)
            if c is True:
                return v()
            ce = z3.simplify(c.e)
            if z3.is_true(ce) or CTX.quick(ce):
                return v()
            if z3.is_false(ce) or CTX.quick(z3.Not(ce)):
                return old(ix)
            return ite(c, v(), old(ix))
        self.get = memo(get)


STORE_LOG = None


def set_store_log(v):
    global STORE_LOG
    old = STORE_LOG
    STORE_LOG = v
    return old


def _key(ix):
    return tuple(('s', T.zi(i).get_id()) if isinstance(i, SInt) else i for i in ix)


def memo(f):
    cache = {}

    def g(ix):
        k = _key(ix)
        r = cache.get(k)
        if r is not None and r[2] in CTX.verset:
            return r[0]
        v = f(ix)
        cache[k] = (v, ix, CTX.ver)
        return v
    return g


class SArr(object):
    """A view: per store axis either ('fix', index) or ('ax', view axis, start, step)."""
    _symarray = True
    __array_priority__ = 2000

    def __init__(self, shape, store, spec):
        self._shape = tuple(conc(n) for n in shape)
        self.store = store
        self.spec = spec

    @staticmethod
    def lam(shape, f, kind='f'):
        shape = tuple(conc(n) for n in shape)
        return SArr(shape, Store(shape, f, kind), tuple(('ax', k, 0, 1) for k in range(len(shape))))

    # -- basic attributes --
    @property
    def shape(self):
        return self._shape

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def size(self):
        r = 1
        for n in self._shape:
            r = r * n
        return conc(r)

    @property
    def dtype(self):
        return rnp.dtype({'f': float, 'i': int, 'b': bool, 'O': object}[self.store.kind])

    @property
    def T(self):
        n = self.ndim
        return SArr(self._shape[::-1], self.store,
                    tuple(s if s[0] == 'fix' else ('ax', n - 1 - s[1], s[2], s[3]) for s in self.spec))

    def transpose(self, *axes):
        if axes and len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = axes[0]
        if not axes:
            return self.T
        inv = {a: k for k, a in enumerate(axes)}
        return SArr([self._shape[a] for a in axes], self.store,
                    tuple(s if s[0] == 'fix' else ('ax', inv[s[1]], s[2], s[3]) for s in self.spec))

    def _map(self, ix):
        return tuple(s[1] if s[0] == 'fix' else (ix[s[1]] if isinstance(s[2], int) and s[2] == 0 and s[3] == 1 else s[2] + s[3] * ix[s[1]])
                     for s in self.spec)

    def at(self, *ix):
        return self.store.get(self._map(tuple(conc(i) for i in ix)))

    def getter(self):
        g, spec = self.store.get, self.spec

        def f(ix):
            return g(tuple(s[1] if s[0] == 'fix' else (ix[s[1]] if isinstance(s[2], int) and s[2] == 0 and s[3] == 1 else s[2] + s[3] * ix[s[1]])
                           for s in spec))
        return f

    def concrete(self):
        return not is_symdim(*self._shape)

    def native(self):
        """numpy object array of the elements (concrete shape)"""
        out = rnp.empty(self._shape, dtype=object)
        for ix in rnp.ndindex(*self._shape):
            out[ix] = self.at(*ix)
        return out

    def __len__(self):
        if not self._shape:
            raise TypeError('len() of unsized object')
        return int(self._shape[0])      # python len(): must be concrete

    def __iter__(self):
        n = conc(self._shape[0])
        if isinstance(n, SInt):
            raise Unsupported('iteration over an array of symbolic length')
        return iter([self[i] for i in range(n)])

    def __bool__(self):
        if self.concrete() and all(n == 1 for n in self._shape):
            return bool(self.at(*([0] * self.ndim)))
        raise ValueError('truth value of an array is ambiguous')

    # -- indexing --
    def _view(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        nk = sum(1 for k in key if k is not None and k is not Ellipsis)
        if any(k is Ellipsis for k in key):
            p = [i for i, k in enumerate(key) if k is Ellipsis][0]
            key = key[:p] + (slice(None),) * (self.ndim - nk) + key[p + 1:]
        else:
            key = key + (slice(None),) * (self.ndim - nk)
        if nk > self.ndim:
            raise IndexError('too many indices for array')
        shape, sub, a = [], {}, 0
        for k in key:
            if k is None:
                shape.append(1)
            elif isinstance(k, slice):
                st, ln, step = norm_slice(k, self._shape[a])
                sub[a] = ('ax', len(shape), st, step)
                shape.append(ln)
                a += 1
            elif isinstance(k, (int, rnp.integer, SInt)) and not isinstance(k, bool):
                sub[a] = ('fix', norm_index(k, self._shape[a]))
                a += 1
            else:
                return None
        spec = []
        for s in self.spec:
            if s[0] == 'fix':
                spec.append(s)
            else:
                t = sub[s[1]]
                if t[0] == 'fix':
                    spec.append(('fix', conc(s[2] + s[3] * t[1])))
                else:
                    spec.append(('ax', t[1], conc(s[2] + s[3] * t[2]), s[3] * t[3]))
        return SArr(shape, self.store, tuple(spec))

    def __getitem__(self, key):
        v = self._view(key)
        if v is not None:
            return v.at() if v.ndim == 0 else v
        return self._fancy(key)

    def _fancy(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        if len(key) == 1 and isinstance(key[0], (SArr, rnp.ndarray, list, SymList)):
            k = as_sarr(key[0])
            if k.store.kind == 'b':
                if k.ndim != self.ndim or not all(deq(a, b) for a, b in zip(k._shape, self._shape)):
                    raise Unsupported('boolean mask of symbolic length')
                return Masked(SArr.lam(self._shape, self.getter(), self.store.kind), SArr.lam(k._shape, k.getter(), 'b'))
            f, g, n = self.getter(), k.getter(), self._shape[0]
            m = k.ndim

            def el(ix):
                j = g(ix[:m])
                j = conc(T.sint(j) if isinstance(j, SReal) else j)
                return f((j,) + tuple(ix[m:]))
            self._check_idx(k, n)
            return SArr.lam(k._shape + self._shape[1:], el, self.store.kind)
        raise Unsupported(f'index {key!r}')

    def _check_idx(self, k, n):
        j = CTX.fresh('ix', 'int')
        m = CTX.push()
        try:
            if k.ndim == 1:
                CTX.add(z3.And(j.e >= 0, j.e < T.zi(k._shape[0])))
                v = k.at(j)
                if not CTX.entails(z3.And(T.zi(v) >= 0, T.zi(v) < T.zi(n))):
                    raise Unsupported('fancy index not provably in bounds')
            else:
                raise Unsupported('fancy index of several dimensions')
        finally:
            CTX.pop(m)

    def __setitem__(self, key, val):
        if isinstance(key, SArr) and key.store.kind == 'b' or (
                isinstance(key, rnp.ndarray) and key.dtype == object and self.ndim == key.ndim):
            key = as_sarr(key)
            mask = SArr.lam(key._shape, key.getter(), 'b').getter()
            if isinstance(val, Masked):
                self._assign(val.check(key).full, mask)
                return
            if isinstance(val, (SArr, rnp.ndarray)) and getattr(val, 'shape', ()) != ():
                raise Unsupported('masked assignment of an array')
            v = T._lift(val) if not isinstance(val, SBool) else val
            self._assign(v, mask)
            return
        v = self._view(key)
        if v is None:
            raise Unsupported(f'assignment at {key!r}')
        v._assign(val)

    def _assign(self, val, mask=None):
        shape = self._shape
        if isinstance(val, (SArr, rnp.ndarray, list, tuple, SymList)):
            a = as_sarr(val)
            if a.ndim > len(shape):
                # leading ones
                while a.ndim > len(shape) and same(a._shape[0], 1):
                    a = a[0]
                if not isinstance(a, SArr):
                    a = SArr.lam((), lambda ix, a=a: a)
            sh, al = broadcast_shapes(shape, a._shape)
            for n, m in zip(sh, shape):
                if not deq(n, m):
                    raise ValueError('could not broadcast input array')
            g = bget(a, shape)
        else:
            if not isinstance(val, Sym):
                val = T._lift(val) if is_num(val) else val
            g = lambda ix: val
        spec, nd = self.spec, len(shape)
        kind = self.store.kind

        def cond_val(ix):
            c, j = [], [0] * nd
            for s, i in zip(spec, ix):
                if s[0] == 'fix':
                    if isinstance(i, int) and isinstance(s[1], int):
                        if i != s[1]:
                            return False, None
                    else:
                        c.append(T.zi(i) == T.zi(s[1]))
                else:
                    _, ax, st, step = s
                    d = conc(i - st)
                    n = shape[ax]
                    if step == 1:
                        q = d
                    elif step == -1:
                        q = conc(0 - d)
                    elif step > 0:
                        q = conc(d // step)
                        c.append(T.zi(d) % step == 0)
                    else:
                        raise Unsupported('assignment with negative step')
                    if isinstance(q, int) and isinstance(n, int):
                        if not 0 <= q < n:
                            return False, None
                    else:
                        c.append(z3.And(T.zi(q) >= 0, T.zi(q) < T.zi(n)))
                    j[ax] = q
            v = lambda: coerce(g(tuple(j)), kind)
            if mask is not None:
                c.append(T.zb(mask(tuple(j))))
            if not c:
                return True, v
            return SBool(z3.And(*c) if len(c) > 1 else c[0]), v
        self.store.write(cond_val)

    # -- arithmetic --
    def _bin(self, o, f, kind=None):
        if isinstance(o, (SymList,)):
            o = as_sarr(o)
        return elementwise(f, self, o, kind=kind)

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: b + a)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._bin(o, lambda a, b: b * a)
    def __truediv__(self, o): return self._bin(o, lambda a, b: a / b)
    def __rtruediv__(self, o): return self._bin(o, lambda a, b: b / a)
    def __pow__(self, o): return self._bin(o, lambda a, b: T.spow(a, b))
    def __rpow__(self, o): return self._bin(o, lambda a, b: T.spow(b, a))
    def __floordiv__(self, o): return self._bin(o, lambda a, b: a // b)
    def __mod__(self, o): return self._bin(o, lambda a, b: a % b)
    def __neg__(self): return elementwise(lambda a: -a, self)
    def __pos__(self): return self
    def __abs__(self): return elementwise(T.sabs, self)
    def __lt__(self, o): return self._bin(o, lambda a, b: a < b, 'b')
    def __le__(self, o): return self._bin(o, lambda a, b: a <= b, 'b')
    def __gt__(self, o): return self._bin(o, lambda a, b: a > b, 'b')
    def __ge__(self, o): return self._bin(o, lambda a, b: a >= b, 'b')
    def __eq__(self, o): return self._bin(o, lambda a, b: a == b, 'b')
    def __ne__(self, o): return self._bin(o, lambda a, b: a != b, 'b')
    def __and__(self, o): return self._bin(o, lambda a, b: SBool(z3.And(T.zb(a), T.zb(b))), 'b')
    def __or__(self, o): return self._bin(o, lambda a, b: SBool(z3.Or(T.zb(a), T.zb(b))), 'b')
    def __invert__(self): return elementwise(lambda a: SBool(z3.Not(T.zb(a))), self, kind='b')
    __hash__ = object.__hash__

    def _inplace(self, o, f):
        r = elementwise(f, self, o)
        self._assign(r)
        return self

    def __iadd__(self, o): return self._inplace(o, lambda a, b: a + b)
    def __isub__(self, o): return self._inplace(o, lambda a, b: a - b)
    def __imul__(self, o): return self._inplace(o, lambda a, b: a * b)
    def __itruediv__(self, o): return self._inplace(o, lambda a, b: a / b)

    def __matmul__(self, o):
        return matmul(self, o)

    def __rmatmul__(self, o):
        return matmul(o, self)

    def dot(self, o):
        return dot(self, o)

    def __array_ufunc__(self, ufunc, method, *args, **kw):
        name = ufunc.__name__
        ops = {'add': lambda a, b: a + b, 'subtract': lambda a, b: a - b, 'multiply': lambda a, b: a * b,
               'true_divide': lambda a, b: a / b, 'divide': lambda a, b: a / b,
               'less': lambda a, b: a < b, 'less_equal': lambda a, b: a <= b, 'greater': lambda a, b: a > b,
               'greater_equal': lambda a, b: a >= b, 'power': T.spow}
        if method == '__call__' and name in ops and not kw:
            return elementwise(ops[name], *args, kind='b' if 'less' in name or 'great' in name else None)
        if method == '__call__' and name == 'matmul':
            return matmul(*args)
        raise Unsupported(f'ufunc {name} {method}')

    # -- reductions and reshaping --
    def sum(self, axis=None, keepdims=False):
        return reduce_sum(self, axis, keepdims)

    def mean(self, axis=None):
        s = reduce_sum(self, axis)
        n = self.size if axis is None else self._shape[axis]
        return s / n

    def copy(self):
        g = self.getter()
        return SArr.lam(self._shape, g, self.store.kind)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo_):
        return self.copy()

    def astype(self, t, *a, **k):
        return self.copy()

    def item(self):
        if all(same(n, 1) for n in self._shape):
            return self.at(*([0] * self.ndim))
        raise ValueError('can only convert an array of size 1')

    def flatten(self):
        return reshape(self, (-1,)).copy()

    def ravel(self):
        return reshape(self, (-1,))

    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return reshape(self, shape)

    def squeeze(self):
        key = tuple(0 if same(n, 1) else slice(None) for n in self._shape)
        return self[key]

    def tolist(self):
        if self.ndim == 1 and not self.concrete():
            return SymList.from_array(self)
        return self.native().tolist()

    def fill(self, v):
        self[...] = v

    def all(self):
        return all_(self)

    def any(self):
        return any_(self)

    def __repr__(self):
        return f'SArr{self._shape}'

    def __format__(self, spec):
        return repr(self)


def coerce(v, kind):
    if kind == 'f' and isinstance(v, SInt):
        return SReal(T.zr(v))
    if kind == 'f' and isinstance(v, (int, rnp.integer)) and not isinstance(v, bool):
        return SReal(T.rv(int(v)))
    return v


def kind_of(v):
    if isinstance(v, (SBool, bool, rnp.bool_)):
        return 'b'
    if isinstance(v, (SInt, int, rnp.integer)):
        return 'i'
    if isinstance(v, (SReal, float, rnp.floating)):
        return 'f'
    return 'O'


def as_sarr(a):
    if isinstance(a, SArr):
        return a
    if isinstance(a, SymList):
        return a.to_array()
    if isinstance(a, (list, tuple)):
        from .shim import np as snp
        a = snp.array(a)
        if isinstance(a, SArr):
            return a
    if isinstance(a, rnp.ndarray):
        src = a

        def get(ix, src=src.copy()):
            if all(isinstance(i, int) for i in ix):
                v = src[ix]
                if isinstance(v, (float, rnp.floating)) and v == float('inf'):
                    # only used as an integration bound: any other use sees an arbitrary number
                    return SReal(z3.Real('infinity!'))
                return T._lift(v.item() if isinstance(v, rnp.generic) else v) if not isinstance(v, (Sym, bool, rnp.bool_)) and is_num(v) else v
            # symbolic index into a concrete array: case split
            return _case(src, ix)
        kind = {'f': 'f', 'i': 'i', 'b': 'b'}.get(a.dtype.kind)
        if kind is None:
            ks = {kind_of(v) for v in a.flat}
            kind = 'b' if ks == {'b'} else 'i' if ks == {'i'} else 'f' if ks <= {'i', 'f'} else 'O'
        return SArr.lam(a.shape, get, kind)
    if isinstance(a, Sym) or is_num(a):
        v = a if isinstance(a, Sym) else T._lift(a)
        return SArr.lam((), lambda ix: v, kind_of(a))
    raise Unsupported(f'cannot make an array of {type(a).__name__}')


def _case(src, ix):
    if not ix:
        v = src if not isinstance(src, rnp.ndarray) else src.item()
        return SReal(z3.Real('infinity!')) if isinstance(v, (float, rnp.floating)) and v == float('inf') else v
    i = ix[0]
    if isinstance(i, int):
        return _case(src[i], ix[1:])
    r = None
    for k in reversed(range(len(src))):
        v = _case(src[k], ix[1:])
        r = v if r is None else ite(i == k, v, r)
    return r


def broadcast_shapes(a, b):
    a, b = tuple(a), tuple(b)
    n = max(len(a), len(b))
    pa, pb = (1,) * (n - len(a)) + a, (1,) * (n - len(b)) + b
    out = []
    for x, y in zip(pa, pb):
        x, y = conc(x), conc(y)
        if isinstance(x, int) and x == 1:
            out.append(y)
        elif isinstance(y, int) and y == 1:
            out.append(x)
        elif deq(x, y):
            out.append(x)
        elif deq(x, 1):
            out.append(y)
        elif deq(y, 1):
            out.append(x)
        else:
            raise ValueError('operands could not be broadcast together')
    return tuple(out), None


def bget(a, shape):
    """getter of a broadcast to shape"""
    g, n, sh = a.getter(), a.ndim, a._shape
    ones = tuple(isinstance(conc(s), int) and conc(s) == 1 or (same(s, 1)) for s in sh)
    off = len(shape) - n

    def f(ix):
        return g(tuple(0 if o else i for o, i in zip(ones, ix[off:])))
    return f


class Masked(object):
    """x[mask] for a mask of symbolic extent: the elements of x where the mask holds, in order; two of them are
    aligned when they have the same mask (the same condition at an arbitrary index)"""
    _symarray = True
    __array_priority__ = 3000

    def __init__(self, full, mask):
        self.full, self.mask = full, mask

    @property
    def shape(self):
        raise Unsupported('number of elements selected by a mask')
    dtype = property(lambda self: self.full.dtype)

    def check(self, mask):
        if mask is self.mask:
            return self
        if len(mask._shape) != len(self.mask._shape) or not all(same(a, b) for a, b in zip(mask._shape, self.mask._shape)):
            raise Unsupported('arrays selected by different masks')
        ix = tuple(CTX.fresh('mx', 'int') for _ in mask._shape)
        a, b = [z3.simplify(T.zb(m.at(*ix))) for m in (mask, self.mask)]
        if not a.eq(b):
            raise Unsupported('arrays selected by different masks')
        return self

    def _bin(self, f, *args, kind=None):
        for a in args:
            if isinstance(a, (SArr, rnp.ndarray)) and getattr(a, 'shape', ()) != ():
                raise Unsupported('array selected by a mask combined with another array')
        args = [a.check(self.mask).full if isinstance(a, Masked) else a for a in args]
        r = elementwise(f, *args, kind=kind)
        return Masked(as_sarr(r), self.mask)

    def __add__(self, o): return self._bin(lambda a, b: a + b, self, o)
    def __radd__(self, o): return self._bin(lambda a, b: b + a, self, o)
    def __sub__(self, o): return self._bin(lambda a, b: a - b, self, o)
    def __rsub__(self, o): return self._bin(lambda a, b: b - a, self, o)
    def __mul__(self, o): return self._bin(lambda a, b: a * b, self, o)
    def __rmul__(self, o): return self._bin(lambda a, b: b * a, self, o)
    def __truediv__(self, o): return self._bin(lambda a, b: a / b, self, o)
    def __rtruediv__(self, o): return self._bin(lambda a, b: b / a, self, o)
    def __pow__(self, o): return self._bin(lambda a, b: T.spow(a, b), self, o)
    def __neg__(self): return self._bin(lambda a: -a, self)
    def __pos__(self): return self
    def __abs__(self): return self._bin(T.sabs, self)


def elementwise(f, *args, kind=None):
    for a in args:
        if isinstance(a, Masked):
            return a._bin(f, *args, kind=kind)
    arrs = []
    for a in args:
        if isinstance(a, (SArr, rnp.ndarray, list, tuple, SymList)) and getattr(a, 'shape', 1) != ():
            arrs.append(as_sarr(a))
        else:
            if isinstance(a, rnp.ndarray):
                a = a.item()
            arrs.append(a)
    shape = ()
    for a in arrs:
        if isinstance(a, SArr):
            shape, _ = broadcast_shapes(shape, a._shape)
    gets = [bget(a, shape) if isinstance(a, SArr) else (lambda ix, a=a: a) for a in arrs]
    if kind is None:
        ks = [a.store.kind if isinstance(a, SArr) else kind_of(a) for a in arrs]
        kind = 'f' if 'f' in ks else ('i' if 'i' in ks else 'b')
    if not is_symdim(*shape):
        out = rnp.empty(shape, dtype=object)
        for ix in rnp.ndindex(*shape):
            out[ix] = f(*[g(ix) for g in gets])
        return out if shape != () else out.item()
    return SArr.lam(shape, lambda ix: f(*[g(ix) for g in gets]), kind)


def native_or(a):
    """SArr of concrete shape -> numpy object array"""
    if isinstance(a, SArr) and a.concrete():
        return a.native()
    return a


def rsum(n, f):
    n = conc(n)
    if isinstance(n, int):
        r = 0
        for k in range(n):
            r = r + f(k)
        return r
    return ssum(0, n, f)


def reduce_sum(a, axis=None, keepdims=False):
    if axis is None:
        g, sh = a.getter(), a._shape

        def rec(k, ix):
            if k == len(sh):
                v = g(ix)
                return v._int() if isinstance(v, SBool) else v
            return rsum(sh[k], lambda i: rec(k + 1, ix + (i,)))
        return rec(0, ())
    if axis < 0:
        axis += a.ndim
    g, sh = a.getter(), a._shape
    n = sh[axis]
    if keepdims:
        out = sh[:axis] + (1,) + sh[axis + 1:]
        return finish(SArr.lam(out, lambda ix: rsum(n, lambda i: g(ix[:axis] + (i,) + ix[axis + 1:])), 'f'))
    out = sh[:axis] + sh[axis + 1:]
    return finish(SArr.lam(out, lambda ix: rsum(n, lambda i: g(ix[:axis] + (i,) + ix[axis:])), 'f'))


def finish(a):
    if a.ndim == 0:
        return a.at()
    if a.concrete():
        return a.native()
    return a


def matmul(a, b):
    a, b = as_sarr(a), as_sarr(b)
    if a.ndim == 1 and b.ndim == 1:
        return dot(a, b)
    if a.ndim > 2 or b.ndim > 2:
        if a.ndim == 1:
            r = matmul(a[None, :], b)
            return finish(as_sarr(r)[..., 0, :])
        if b.ndim == 1:
            r = matmul(a, b[:, None])
            return finish(as_sarr(r)[..., 0])
        k = a._shape[-1]
        if not deq(k, b._shape[-2]):
            raise ValueError('matmul: shapes do not match')
        lead, _ = broadcast_shapes(a._shape[:-2], b._shape[:-2])
        ga = bget(a, tuple(lead) + a._shape[-2:])
        gb = bget(b, tuple(lead) + b._shape[-2:])
        return finish(SArr.lam(tuple(lead) + (a._shape[-2], b._shape[-1]),
                               lambda ix: rsum(k, lambda i: ga(ix[:-1] + (i,)) * gb(ix[:-2] + (i, ix[-1]))), 'f'))
    return dot(a, b)


def dot(a, b):
    if isinstance(a, (Sym, int, float)) or isinstance(b, (Sym, int, float)):
        return a * b
    a, b = as_sarr(a), as_sarr(b)
    ka = a._shape[-1]
    kb = b._shape[0] if b.ndim == 1 else b._shape[-2]
    if not deq(ka, kb):
        raise ValueError('shapes not aligned')
    ga, gb = a.getter(), b.getter()
    na = a.ndim - 1
    shape = a._shape[:-1] + (() if b.ndim == 1 else b._shape[:-2] + b._shape[-1:])

    def el(ix):
        l, r = ix[:na], ix[na:]
        return rsum(ka, lambda i: ga(l + (i,)) * gb((i,) if b.ndim == 1 else r[:-1] + (i,) + r[-1:]))
    return finish(SArr.lam(shape, el, 'f'))


def reshape(a, shape):
    shape = tuple(conc(n) for n in (shape if isinstance(shape, (tuple, list)) else (shape,)))
    src = list(a._shape)
    if -1 in [n for n in shape if isinstance(n, int)]:
        # match the remaining extents
        rest = list(src)
        for n in shape:
            if isinstance(n, int) and n == -1:
                continue
            if isinstance(n, int) and n == 1:
                continue
            for k, m in enumerate(rest):
                if same(m, n):
                    del rest[k]
                    break
            else:
                # concrete total?
                tot = a.size
                if isinstance(tot, int):
                    p = 1
                    for q in shape:
                        if q != -1:
                            p *= q
                    rest = [tot // p]
                    break
                raise Unsupported('reshape')
        m = 1
        for n in rest:
            m = m * n
        shape = tuple(conc(m) if isinstance(n, int) and n == -1 else n for n in shape)
    # drop unit axes on both sides and compare
    s1 = [(k, n) for k, n in enumerate(src) if not same(n, 1)]
    s2 = [(k, n) for k, n in enumerate(shape) if not same(n, 1)]
    if len(s1) == len(s2) and all(same(n, m) for (_, n), (_, m) in zip(s1, s2)):
        pos = {k: j for (k, _), (j, _) in zip(s1, s2)}
        spec = []
        for s in a.spec:
            if s[0] == 'fix':
                spec.append(s)
            elif s[1] in pos:
                spec.append(('ax', pos[s[1]], s[2], s[3]))
            else:
                spec.append(('fix', s[2]))
        return SArr(shape, a.store, tuple(spec))
    if len(s1) == len(s2) and all(deq(n, m) for (_, n), (_, m) in zip(s1, s2)):
        return reshape(SArr(tuple(shape[dict((k, j) for (k, _), (j, _) in zip(s1, s2))[k]] if not same(n, 1) else n
                                  for k, n in enumerate(src)), a.store, a.spec), shape)
    # flattening of row-major dims
    g = a.getter()
    strides = [1] * len(src)
    for k in range(len(src) - 2, -1, -1):
        strides[k] = conc(strides[k + 1] * src[k + 1])
    dstr = [1] * len(shape)
    for k in range(len(shape) - 2, -1, -1):
        dstr[k] = conc(dstr[k + 1] * shape[k + 1])

    def el(ix):
        flat = 0
        for i, s in zip(ix, dstr):
            flat = flat + i * s
        flat = conc(flat)
        out = []
        for k in range(len(src)):
            if k == len(src) - 1:
                out.append(conc(flat))
            else:
                q, flat = divide(flat, strides[k])
                out.append(q)
        return g(tuple(out))
    return SArr.lam(shape, el, a.store.kind)


def divide(n, d):
    """(n // d, n % d) for n >= 0, d > 0"""
    n, d = conc(n), conc(d)
    if isinstance(n, int) and isinstance(d, int):
        return divmod(n, d)
    if isinstance(d, int):
        if d == 1:
            return n, 0
        return SInt(z3.simplify(T.zi(n) / d)), SInt(z3.simplify(T.zi(n) % d))
    q, r = T.int_div(T.zi(n), T.zi(d))
    return SInt(q), SInt(r)


def _quant(idx, rng, v, start):
    """for all idx in rng: v, with canonical names for the bound variables"""
    ix = [i.e for i in idx]
    T.escapes(v, ix, start)
    cs = [z3.Int(f'all!q{k}') for k in range(len(ix))]
    return z3.ForAll(cs, z3.substitute(z3.Implies(rng, v), *zip(ix, cs)))


def all_(a):
    """truth of all elements of a boolean array of symbolic extent, as a decided bool"""
    idx, rng = generic_index(a._shape)
    start = next(CTX.fresh_count)
    m = CTX.push()
    try:
        CTX.add(rng)
        v = T.zb(a.at(*idx))
        if CTX.entails(v):
            return True
    finally:
        CTX.pop(m)
    q = _quant(idx, rng, v, start)
    return SBool(q)


def any_(a):
    idx, rng = generic_index(a._shape)
    start = next(CTX.fresh_count)
    m = CTX.push()
    try:
        CTX.add(rng)
        v = T.zb(a.at(*idx))
        if CTX.entails(z3.Not(v)):
            return False
    finally:
        CTX.pop(m)
    q = _quant(idx, rng, z3.Not(v), start)
    return SBool(z3.Not(q))


def generic_index(shape, name='i'):
    idx = [CTX.fresh(name, 'int') for _ in shape]
    rng = z3.And(*[z3.And(i.e >= 0, i.e < T.zi(n)) for i, n in zip(idx, shape)]) if idx else z3.BoolVal(True)
    return idx, rng


# ---------------------------------------------------------------------------
# structured values
# ---------------------------------------------------------------------------
def is_obj(v):
    return type(v).__module__.startswith('pygfunction')


def vsubst(v, pairs):
    """substitute z3 constants in a structured value"""
    if isinstance(v, Sym):
        return T.mk(z3.substitute(v.e, *pairs)) if not isinstance(v, SBool) else SBool(z3.substitute(v.e, *pairs))
    if isinstance(v, (tuple, list)):
        return type(v)(vsubst(x, pairs) for x in v)
    if isinstance(v, SArr):
        g = v.getter()
        sh = tuple(vsubst(n, pairs) if isinstance(n, Sym) else n for n in v._shape)
        return SArr.lam(sh, lambda ix: _vsub_get(g, ix, pairs), v.store.kind)
    if isinstance(v, rnp.ndarray):
        if v.dtype != object:
            return v
        out = rnp.empty(v.shape, dtype=object)
        for ix in rnp.ndindex(*v.shape):
            out[ix] = vsubst(v[ix], pairs)
        return out
    if isinstance(v, SymList):
        return SymList([(vsubst(n, pairs) if isinstance(n, Sym) else n,
                         (lambda i, f=f: vsubst(f(i), pairs))) for n, f in v.segs])
    if is_obj(v) and not isinstance(v, type):
        import copy
        w = copy.copy(v)
        w.__dict__ = {k: vsubst(x, pairs) for k, x in v.__dict__.items()}
        return w
    return v


def _vsub_get(g, ix, pairs):
    # avoid capturing: indices are rewritten after the substitution
    ph = [(i.e, z3.FreshConst(z3.IntSort(), 'ph')) for i in ix if isinstance(i, SInt)]
    it = iter(ph)
    jx = tuple(SInt(next(it)[1]) if isinstance(i, SInt) else i for i in ix)
    v = vsubst(g(jx), pairs)
    return vsubst(v, [(p, e) for e, p in ph]) if ph else v


def vmerge(c, a, b):
    if a is b:
        return a
    if isinstance(a, Sym) or isinstance(b, Sym) or (is_num(a) and is_num(b)) or isinstance(a, (bool, rnp.bool_)):
        if is_num(a) and is_num(b) and a == b and type(a) == type(b):
            return a
        if (isinstance(a, Sym) or is_num(a) or isinstance(a, bool)) and (isinstance(b, Sym) or is_num(b) or isinstance(b, bool)):
            return ite(c, a, b)
        raise Unsupported('merge of different kinds of values')
    if isinstance(a, (tuple, list)) and type(a) is type(b) and len(a) == len(b):
        return type(a)(vmerge(c, x, y) for x, y in zip(a, b))
    if isinstance(a, (SArr, rnp.ndarray)) and isinstance(b, (SArr, rnp.ndarray)):
        x, y = as_sarr(a), as_sarr(b)
        if len(x._shape) == len(y._shape) and all(same(n, m) for n, m in zip(x._shape, y._shape)):
            return elementwise(lambda p, q: ite(c, p, q), x, y)
        raise Unsupported('merge of arrays of different shapes')
    if is_obj(a) and type(a) is type(b) and a.__dict__.keys() == b.__dict__.keys():
        import copy
        w = copy.copy(a)
        w.__dict__ = {k: vmerge(c, a.__dict__[k], b.__dict__[k]) for k in a.__dict__}
        return w
    try:
        if a == b:
            return a
    except Exception:
        pass
    raise Unsupported(f'merge of {type(a).__name__} and {type(b).__name__}')


class SymRange(object):
    def __init__(self, start, stop, step=1):
        self.start, self.stop, self.step = conc(start), conc(stop), conc(step)
        if self.step not in (1, -1):
            raise Unsupported('range step')

    @property
    def n(self):
        d = self.stop - self.start if self.step == 1 else self.start - self.stop
        return imax0(d)

    def elem(self, k):
        return conc(self.start + self.step * k)


class SymList(object):
    """list given by segments (length, element function of the local index)"""
    _symlist = True

    def __init__(self, segs=()):
        self.segs = [(conc(n), f) for n, f in segs]

    @staticmethod
    def from_array(a):
        b = a.copy()
        return SymList([(b._shape[0], lambda i: b[i])])

    @property
    def n(self):
        r = 0
        for m, _ in self.segs:
            r = r + m
        return conc(r)

    def __len__(self):
        return int(self.n)

    def append(self, v):
        self.segs.append((1, lambda i: v))

    def extend(self, o):
        self.segs += as_symlist(o).segs

    def elem(self, i):
        i = conc(i)
        off = 0
        cands = []
        for m, f in self.segs:
            lo, hi = off, conc(off + m)
            cands.append((lo, hi, f))
            off = hi
        for k, (lo, hi, f) in enumerate(cands[:-1]):
            inb = T.zi(i) < T.zi(hi)
            below = z3.simplify(inb)
            if z3.is_true(below) or CTX.quick(inb):
                return self._chain(cands[:k + 1], i)
        return self._chain(cands, i)

    def _chain(self, cands, i):
        # drop segments provably before i
        out = None
        for lo, hi, f in reversed(cands):
            if CTX.quick(T.zi(i) >= T.zi(hi)):
                break
            v = self._at(f, lo, hi, i)
            out = v if out is None else vmerge(SBool(T.zi(i) < T.zi(hi)), v, out)
        if out is None:
            # only reached in a branch whose condition excludes the index
            if not cands:
                raise IndexError('list index out of range')
            lo, hi, f = cands[-1]
            out = f(conc(i - lo))
        return out

    @staticmethod
    def _at(f, lo, hi, i):
        """element of a segment; conditions on it are merged by cases"""
        if isinstance(i, int) and isinstance(lo, int):
            return f(i - lo)
        m = CTX.push()
        try:
            CTX.add(T.zi(i) >= T.zi(lo))
            CTX.add(T.zi(i) < T.zi(hi))
            return merge(lambda: f(conc(i - lo)), vmerge)
        finally:
            CTX.pop(m)

    def __getitem__(self, key):
        if isinstance(key, slice):
            st, ln, step = norm_slice(key, self.n)
            snap = SymList(list(self.segs))
            return SymList([(ln, lambda i: snap.elem(st + step * i))])
        return self.elem(norm_index(key, self.n))

    def __add__(self, o):
        return SymList(self.segs + as_symlist(o).segs)

    def __radd__(self, o):
        return SymList(as_symlist(o).segs + self.segs)

    def __mul__(self, o):
        raise Unsupported('list repetition')

    def __iter__(self):
        n = self.n
        if isinstance(n, SInt):
            raise Unsupported('iteration over a list of symbolic length')
        return iter([self.elem(i) for i in range(n)])

    def copy(self):
        return SymList(list(self.segs))

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, m):
        return self.copy()

    def to_array(self):
        snap = SymList(list(self.segs))
        n = snap.n
        probe = None
        for m, f in snap.segs:
            if not (isinstance(m, int) and m == 0):
                probe = f(0)
                break
        if isinstance(probe, (SArr, rnp.ndarray, list, tuple, SymList)):
            p = as_sarr(probe)
            nd = p.ndim
            return SArr.lam((n,) + p._shape, lambda ix: as_sarr(snap.elem(ix[0])).at(*ix[1:]), p.store.kind)
        return SArr.lam((n,), lambda ix: snap.elem(ix[0]), kind_of(probe))

    def __repr__(self):
        return f'SymList({self.n})'


def as_symlist(o):
    if isinstance(o, SymList):
        return o
    if isinstance(o, SArr):
        return SymList.from_array(o)
    if isinstance(o, SymRange):
        return SymList([(o.n, o.elem)])
    o = list(o)
    return SymList([(1, lambda i, v=v: v) for v in o])
