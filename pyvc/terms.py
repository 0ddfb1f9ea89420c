"""Symbolic scalars over z3 terms, path exploration and the path condition."""
from fractions import Fraction
import itertools
import re
import z3

z3.set_param('smt.random_seed', 1)


class Unsupported(Exception):
    """The verifier cannot represent this construct: the unit is undecided."""


class PathAbort(BaseException):
    """The current path is infeasible or has been cut."""


class Budget(Exception):
    pass


# ---------------------------------------------------------------------------
# numbers
# ---------------------------------------------------------------------------
def frac(x):
    """Exact value given to a concrete number: floats denote the simplest
    rational within relative 1e-15 (so that 1/3 computed by CPython is 1/3)."""
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, Fraction):
        return x
    x = float(x)
    if x != x or x in (float('inf'), float('-inf')):
        raise Unsupported(f'non-finite constant {x}')
    r = Fraction(repr(x))
    if r.denominator > 10**6:
        s = Fraction(x).limit_denominator(10**5)
        if s != 0 and abs(float(s) - x) <= 2e-16 * abs(x):
            return s
    return r


def rv(x):
    f = frac(x)
    return z3.RatVal(f.numerator, f.denominator)


_num_types = (int, float, Fraction)


def is_num(x):
    if isinstance(x, _num_types):
        return True
    return type(x).__module__ == 'numpy' and hasattr(x, 'dtype') and getattr(x, 'shape', None) == () and x.dtype.kind in 'iufb'


def tonum(x):
    if type(x).__module__ == 'numpy':
        return x.item()
    return x


class Sym(object):
    __slots__ = ('e',)
    __array_priority__ = -1000

    def __init__(self, e):
        self.e = e

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __hash__(self):
        return self.e.hash()

    def __repr__(self):
        return f'<{self.e}>'

    def __format__(self, spec):
        return repr(self)


class SBool(Sym):
    __slots__ = ()

    def __bool__(self):
        return CTX.decide(self.e)

    def __and__(self, o):
        return SBool(z3.And(self.e, zb(o)))
    __rand__ = __and__

    def __or__(self, o):
        return SBool(z3.Or(self.e, zb(o)))
    __ror__ = __or__

    def __invert__(self):
        return SBool(z3.Not(self.e))

    def __eq__(self, o):
        return SBool(self.e == zb(o))

    def __ne__(self, o):
        return SBool(self.e != zb(o))
    __hash__ = Sym.__hash__

    def logical_not(self):
        return SBool(z3.Not(self.e))

    def _int(self):
        return SInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __mul__(self, o):
        return self._int() * o
    __rmul__ = __mul__

    def __add__(self, o):
        return self._int() + o
    __radd__ = __add__

    def __sub__(self, o):
        return self._int() - o

    def __rsub__(self, o):
        return o - self._int()


def zb(x):
    if isinstance(x, SBool):
        return x.e
    if isinstance(x, z3.BoolRef):
        return x
    if isinstance(x, (SReal, SInt)):
        return (x != 0).e if not isinstance(x != 0, bool) else z3.BoolVal(x != 0)
    return z3.BoolVal(bool(x))


def is_val(e):
    return z3.is_rational_value(e) or z3.is_int_value(e)


def val(e):
    if z3.is_int_value(e):
        return Fraction(e.as_long())
    return Fraction(e.numerator_as_long(), e.denominator_as_long())


def is_zero(e):
    return is_val(e) and val(e) == 0


def is_one(e):
    return is_val(e) and val(e) == 1


def zr(x):
    """real-sorted z3 term"""
    if isinstance(x, SReal):
        return x.e
    if isinstance(x, SInt):
        if z3.is_int_value(x.e):
            return z3.RealVal(x.e.as_long())
        return z3.ToReal(x.e)
    if isinstance(x, SBool):
        return z3.If(x.e, z3.RealVal(1), z3.RealVal(0))
    if isinstance(x, z3.ArithRef):
        return x if x.is_real() else z3.ToReal(x)
    if is_num(x):
        return rv(tonum(x))
    raise Unsupported(f'cannot use {type(x).__name__} as a number')


def zi(x):
    if isinstance(x, SInt):
        return x.e
    if isinstance(x, SBool):
        return x._int().e
    if isinstance(x, z3.ArithRef) and x.is_int():
        return x
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if is_num(x):
        x = tonum(x)
        if float(x) == int(x):
            return z3.IntVal(int(x))
    raise Unsupported(f'cannot use {x!r} as an integer')


def _lift(x):
    """Sym scalar or None"""
    if isinstance(x, (SReal, SInt)):
        return x
    if isinstance(x, SBool):
        return x._int()
    if is_num(x):
        x = tonum(x)
        if isinstance(x, (bool, int)):
            return SInt(z3.IntVal(int(x)))
        if isinstance(x, float) and (x != x or abs(x) == float('inf')):
            return x
        return SReal(rv(x))
    return None


def _arrlike(o):
    return hasattr(o, '_symarray') or hasattr(o, 'dtype') and getattr(o, 'shape', ()) != ()


def _add(a, b):
    if is_val(a) and is_val(b):
        s = val(a) + val(b)
        return z3.IntVal(int(s)) if a.is_int() else z3.RatVal(s.numerator, s.denominator)
    if is_zero(a):
        return b
    if is_zero(b):
        return a
    return a + b


def _sub(a, b):
    if is_val(a) and is_val(b):
        s = val(a) - val(b)
        return z3.IntVal(int(s)) if a.is_int() else z3.RatVal(s.numerator, s.denominator)
    if is_zero(b):
        return a
    if is_zero(a):
        return -b
    if a.eq(b):
        return z3.IntVal(0) if a.is_int() else z3.RealVal(0)
    return a - b


def _mul(a, b):
    if is_val(a) and is_val(b):
        s = val(a) * val(b)
        return z3.IntVal(int(s)) if a.is_int() else z3.RatVal(s.numerator, s.denominator)
    if is_zero(a) or is_one(b):
        return a
    if is_zero(b) or is_one(a):
        return b
    if z3.is_app_of(a, z3.Z3_OP_ITE) and a.eq(b):
        # |x| |x| = x x
        c, x, y = a.children()
        if z3.is_ge(c) and c.arg(0).eq(x) and is_zero(c.arg(1)) and (-x).eq(y):
            return x * x
    return a * b


def _div(a, b):
    if is_val(b) and val(b) != 0:
        if is_val(a):
            s = val(a) / val(b)
            return z3.RatVal(s.numerator, s.denominator)
        if is_one(b):
            return a
        return a / b
    CTX.defined(b != 0, 'division')
    if is_zero(a):
        return a
    if is_zero(b):
        raise ZeroDivisionError('division by zero')
    return a / b


def mk(e):
    return SInt(e) if e.is_int() else SReal(e)


class _Num(Sym):
    __slots__ = ()

    def _bin(self, o, f, swap=False):
        if _arrlike(o):
            return NotImplemented
        p = _lift(o)
        if p is None:
            return NotImplemented
        if isinstance(p, float):
            return p if f is _add else _inf_arith(self, p, f, swap)
        if isinstance(self, SInt) and isinstance(p, SInt):
            a, b = self.e, p.e
        else:
            a, b = zr(self), zr(p)
        if swap:
            a, b = b, a
        return mk(f(a, b))

    def __add__(self, o): return self._bin(o, _add)
    def __radd__(self, o): return self._bin(o, _add, True)
    def __sub__(self, o): return self._bin(o, _sub)
    def __rsub__(self, o): return self._bin(o, _sub, True)
    def __mul__(self, o): return self._bin(o, _mul)
    def __rmul__(self, o): return self._bin(o, _mul, True)

    def __truediv__(self, o):
        if _arrlike(o) or _lift(o) is None:
            return NotImplemented
        if isinstance(_lift(o), float):
            return 0.
        return SReal(_div(zr(self), zr(o)))

    def __rtruediv__(self, o):
        if _arrlike(o) or _lift(o) is None:
            return NotImplemented
        return SReal(_div(zr(o), zr(self)))

    def __neg__(self):
        return mk(_sub(z3.IntVal(0) if self.e.is_int() else z3.RealVal(0), self.e))

    def __pos__(self):
        return self

    def __abs__(self):
        return sabs(self)

    def __pow__(self, n, mod=None):
        if _arrlike(n):
            return NotImplemented
        return spow(self, n)

    def __rpow__(self, b):
        if _arrlike(b):
            return NotImplemented
        return spow(b, self)

    def _cmp(self, o, f):
        if _arrlike(o):
            return NotImplemented
        p = _lift(o)
        if p is None:
            return NotImplemented
        if isinstance(p, float):
            if p != p:
                return f is _ne
            # comparison with +-inf
            return {(_lt, True): True, (_le, True): True, (_gt, True): False, (_ge, True): False,
                    (_lt, False): False, (_le, False): False, (_gt, False): True, (_ge, False): True,
                    }.get((f, p > 0), f is _ne)
        if isinstance(self, SInt) and isinstance(p, SInt):
            a, b = self.e, p.e
        else:
            a, b = zr(self), zr(p)
        r = f(a, b)
        if is_val(a) and is_val(b):
            return bool(z3.is_true(z3.simplify(r)))
        return SBool(r)

    def __lt__(self, o): return self._cmp(o, _lt)
    def __le__(self, o): return self._cmp(o, _le)
    def __gt__(self, o): return self._cmp(o, _gt)
    def __ge__(self, o): return self._cmp(o, _ge)

    def __eq__(self, o):
        r = self._cmp(o, _eq)
        return False if r is NotImplemented and not _arrlike(o) else r

    def __ne__(self, o):
        r = self._cmp(o, _ne)
        return True if r is NotImplemented and not _arrlike(o) else r
    __hash__ = Sym.__hash__

    def __bool__(self):
        r = self != 0
        return bool(r)

    def __float__(self):
        if is_val(self.e):
            return float(val(self.e))
        raise Unsupported('float() of a symbolic value')

    # numpy ufuncs on object arrays call these
    def exp(self): return sfun('exp', self)
    def log(self): return sfun('log', self)
    def log10(self): return sfun('log', self) / sfun('log', SReal(z3.RealVal(10)))
    def sqrt(self): return ssqrt(self)
    def sin(self): return sfun('sin', self)
    def cos(self): return sfun('cos', self)
    def tan(self): return sfun('tan', self)
    def sinh(self): return sfun('sinh', self)
    def cosh(self): return sfun('cosh', self)
    def tanh(self): return sfun('tanh', self)
    def arctan(self): return sfun('arctan', self)
    def conjugate(self): return self
    @property
    def real(self): return self
    @property
    def imag(self): return 0
    def item(self): return self
    def copy(self): return self
    def flatten(self): raise Unsupported('flatten of scalar')
    @property
    def ndim(self): return 0
    @property
    def T(self): return self


def _inf_arith(s, p, f, swap):
    if f is _sub and swap:
        return p
    if f is _sub:
        return -p
    raise Unsupported('arithmetic with inf/nan')


def _lt(a, b): return a < b
def _le(a, b): return a <= b
def _gt(a, b): return a > b
def _ge(a, b): return a >= b
def _eq(a, b): return a == b
def _ne(a, b): return a != b


class SReal(_Num):
    __slots__ = ()

    def __int__(self):
        if is_val(self.e):
            return int(val(self.e))
        raise Unsupported('int() of symbolic real (use shim)')

    def __floordiv__(self, o):
        return sfloor(self / o)

    def __mod__(self, o):
        return self - sfloor(self / o) * o

    def is_integer(self):
        return SBool(z3.IsInt(self.e))


class SInt(_Num):
    __slots__ = ()

    def __index__(self):
        return CTX.concretize(self.e)

    def __int__(self):
        if is_val(self.e):
            return int(val(self.e))
        return CTX.concretize(self.e)

    def __floordiv__(self, o):
        o = _lift(o)
        if isinstance(o, SReal):
            return sfloor(self / o)
        CTX.defined(o.e != 0, 'division')
        # python floor division: z3 div is euclidean; equal for positive divisors
        if not CTX.entails(o.e > 0):
            raise Unsupported('integer floor division by a possibly negative divisor')
        if is_val(o.e):
            return SInt(z3.simplify(self.e / o.e))
        return SInt(int_div(self.e, o.e)[0])

    def __rfloordiv__(self, o):
        return _lift(o).__floordiv__(self)

    def __mod__(self, o):
        o = _lift(o)
        CTX.defined(o.e != 0, 'modulo')
        if not CTX.entails(o.e > 0):
            raise Unsupported('modulo by a possibly negative divisor')
        if is_val(o.e):
            return SInt(self.e % o.e)
        return SInt(int_div(self.e, o.e)[1])

    def __rmod__(self, o):
        return _lift(o).__mod__(self)

    def __and__(self, o):
        if is_num(o) and int(o) == 1:
            return self % 2
        raise Unsupported('bitwise operation')

    def __rand__(self, o):
        return self.__and__(o)


def int_div(n, d):
    """quotient and remainder as functions of (n, d); their axioms come with the query"""
    I = z3.IntSort()
    n, d = z3.simplify(n), z3.simplify(d)
    q, r = z3.Function('idiv', I, I, I)(n, d), z3.Function('imod', I, I, I)(n, d)
    CTX.add(_ax_of(q)[0], 'defn')
    return q, r


def escapes(v, idx, start):
    """constants other than idx created since start occur in v: not expressible under a quantifier over idx"""
    ids = {i.get_id() for i in idx}
    stack, seen = [v], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
        elif z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.get_id() not in ids:
                m = x.decl().name().rsplit('!', 1)
                if len(m) == 2 and m[1].isdigit() and int(m[1]) > start and not m[0].endswith('q'):
                    raise Unsupported(f'a value chosen per index ({x}) occurs under a quantifier')
            stack.extend(x.children())
    return v


def ite(c, a, b):
    """c: SBool/bool; a, b scalars"""
    if not isinstance(c, SBool):
        return a if c else b
    ce = z3.simplify(c.e)
    if z3.is_true(ce):
        return a
    if z3.is_false(ce):
        return b
    if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
        return SBool(z3.If(c.e, zb(a), zb(b)))
    if isinstance(a, float) and (a != a or abs(a) == float('inf')) or isinstance(b, float) and (b != b or abs(b) == float('inf')):
        return a if c else b
    la, lb = _lift(a), _lift(b)
    if la is None or lb is None:
        return a if c else b
    if isinstance(la, SInt) and isinstance(lb, SInt):
        if la.e.eq(lb.e):
            return la
        return SInt(z3.If(c.e, la.e, lb.e))
    x, y = zr(la), zr(lb)
    if x.eq(y):
        return SReal(x)
    return SReal(z3.If(c.e, x, y))


def sabs(x):
    if not isinstance(x, Sym):
        return abs(x)
    z = z3.IntVal(0) if isinstance(x, SInt) else z3.RealVal(0)
    if is_val(x.e):
        return mk(z3.simplify(z3.If(x.e >= z, x.e, -x.e)))
    if CTX.quick(x.e >= z):
        return x
    if isinstance(x, SReal):
        if CTX.quick(x.e <= z):
            return -x
        e = norm(x.e)
        m = norm(-e)
        if _flip(e, m):
            e = m
        return mk(z3.If(e >= z, e, -e))
    return mk(z3.If(x.e >= z, x.e, -x.e))


_skeys = {}


def _shape_key(e):
    """text of a term without the names of its generic indices"""
    k = e.get_id()
    if k not in _skeys:
        t = e.sexpr()
        _skeys[k] = ((re.sub(r'[^\s()]*![^\s()]*', '_', t)), e)
    return _skeys[k][0]


def _minmax(a, b, le):
    """le: a is chosen when a <= b"""
    r, r2 = (a <= b) if le else (a >= b), (a >= b) if le else (a <= b)
    if isinstance(r, SBool) and (isinstance(a, SInt) or isinstance(b, SInt) or is_num(a) or is_num(b) or is_val(a.e) or is_val(b.e)):
        if CTX.quick(r.e):
            return a
        if CTX.quick(r2.e):
            return b
    elif isinstance(r, SBool) and isinstance(a, SReal) and isinstance(b, SReal):
        # either order of the arguments gives the same term
        na, nb = norm(a.e), norm(b.e)
        if _shape_key(nb) < _shape_key(na):
            return ite((b <= a) if le else (b >= a), b, a)
    return ite(r, a, b)


def smax(a, b):
    return _minmax(a, b, False)


def smin(a, b):
    return _minmax(a, b, True)


def sfloor(x):
    if isinstance(x, SInt):
        return x
    if isinstance(x, SReal):
        return SInt(z3.ToInt(x.e))
    import math
    return math.floor(x)


def sceil(x):
    if isinstance(x, SInt):
        return x
    if isinstance(x, SReal):
        return SInt(-z3.ToInt(-x.e))
    import math
    return math.ceil(x)


def sint(x):
    """int(x): truncation"""
    if isinstance(x, SInt):
        return x
    if isinstance(x, SBool):
        return x._int()
    if isinstance(x, SReal):
        if is_val(x.e):
            return int(val(x.e))
        if CTX.quick(x.e >= 0):
            return SInt(z3.ToInt(x.e))
        return SInt(z3.If(x.e >= 0, z3.ToInt(x.e), -z3.ToInt(-x.e)))
    if hasattr(x, 'shape') and x.shape == () and hasattr(x, 'item'):
        return sint(x.item())
    return int(x)


# ---------------------------------------------------------------------------
# uninterpreted transcendental functions with axioms instantiated at use
# ---------------------------------------------------------------------------
_R = z3.RealSort()
_UF = {}


def uf(name, arity=1):
    if (name, arity) not in _UF:
        _UF[(name, arity)] = z3.Function(name, *([_R] * (arity + 1)))
    return _UF[(name, arity)]


PI = z3.Real('pi')
EULER = z3.Real('euler_gamma')


def norm(e):
    return z3.simplify(e, som=True, sort_sums=True)


_ODD = {'sin', 'sinh', 'tanh', 'erf', 'arctan', 'tan'}
_EVEN = {'cos', 'cosh'}


def _lead_neg(e):
    """True if the normalised term has a negative leading coefficient"""
    if is_val(e):
        return val(e) < 0
    if z3.is_add(e):
        return _lead_neg(e.arg(0))
    if z3.is_mul(e):
        return is_val(e.arg(0)) and val(e.arg(0)) < 0
    if z3.is_app_of(e, z3.Z3_OP_UMINUS):
        return True
    if z3.is_app_of(e, z3.Z3_OP_DIV):
        return _lead_neg(e.arg(0))
    return False


def _flip(e0, e1):
    """True if e1 (= -e0) is the representative of the pair; both are normalised"""
    l0, l1 = _lead_neg(e0), _lead_neg(e1)
    return l0 if l0 != l1 else e1.sexpr() < e0.sexpr()


def _log_conjugate(e):
    """log(sqrt(E) - q) = log(E - q^2) - log(sqrt(E) + q), when E > q^2; one of the pair q, -q is rewritten"""
    roots = [c for c in e.children() if z3.is_app(c) and c.decl().name() == 'sqrt']
    if len(roots) != 1:
        return None
    s = roots[0]
    q = norm(e - s)
    m = norm(-q)
    if is_zero(q) or not _flip(q, m):
        return None
    d2 = norm(s.arg(0) - q * q)
    if not CTX.quick(d2 > 0):
        return None
    AXNOTES.add('log(x y) = log x + log y')
    f = uf('log')
    return SReal(f(d2)) - SReal(f(norm(m + s)))


def sfun(name, *args):
    es = [norm(zr(a)) for a in args]
    e0 = es[0]
    f = uf(name, len(es))
    if len(es) == 1:
        if is_val(e0):
            v = val(e0)
            if v == 0:
                if name in ('sin', 'sinh', 'tanh', 'erf', 'arctan', 'tan'):
                    return SReal(z3.RealVal(0))
                if name in ('cos', 'cosh', 'exp'):
                    return SReal(z3.RealVal(1))
            if name == 'log' and v == 1:
                return SReal(z3.RealVal(0))
        if name in _ODD or name in _EVEN:
            e1 = norm(-e0)
            if _flip(e0, e1):
                return SReal(-f(e1)) if name in _ODD else SReal(f(e1))
        if name == 'log' and z3.is_add(e0):
            r = _log_conjugate(e0)
            if r is not None:
                return r
    t = f(*es)
    if name == 'arctan2':
        ssqrt(SReal(es[0] * es[0] + es[1] * es[1]))
    return SReal(t)


def ssqrt(x):
    x = _lift(x)
    e = norm(zr(x))
    if is_val(e):
        v = val(e)
        import math
        if v >= 0:
            p, q = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if p * p == v.numerator and q * q == v.denominator:
                return SReal(z3.RatVal(p, q))
        else:
            raise Unsupported('sqrt of negative')
    if z3.is_mul(e) and e.num_args() == 2 and e.arg(0).eq(e.arg(1)):
        a = e.arg(0)
        if CTX.quick(a >= 0):
            return SReal(a)
        if CTX.quick(a <= 0):
            return SReal(-a)
    t = uf('sqrt')(e)
    CTX.defined(e >= 0, 'sqrt')
    return SReal(t)


def as_int(e):
    """integer term equal to the real term e, when e is visibly integral"""
    if is_val(e):
        v = val(e)
        return z3.IntVal(v.numerator) if v.denominator == 1 else None
    if z3.is_to_real(e):
        return e.arg(0)
    if z3.is_add(e) or z3.is_mul(e):
        cs = [as_int(c) for c in e.children()]
        if any(c is None for c in cs):
            return None
        return z3.simplify(z3.Sum(*cs) if z3.is_add(e) else z3.Product(*cs))
    return None


def spow(b, n):
    if is_num(n) and float(tonum(n)) == int(float(tonum(n))) and abs(int(tonum(n))) <= 12:
        n = int(tonum(n))
        b = _lift(b)
        if n == 0:
            return SReal(z3.RealVal(1)) if isinstance(b, SReal) else SInt(z3.IntVal(1))
        r = b
        for _ in range(abs(n) - 1):
            r = r * b
        return r if n > 0 else 1 / r
    if is_num(n) and frac(tonum(n)) == Fraction(1, 2):
        return ssqrt(b)
    if isinstance(n, SInt):
        # integer power: recursive function pow_b(n)
        bb = zr(_lift(b))
        P = z3.Function('ipow', _R, z3.IntSort(), _R)
        ne = z3.simplify(n.e)
        if is_val(ne):
            return spow(b, int(val(ne)))
        t = P(bb, ne)
        # split off a constant addend: b**(m+c) = b**m * b**c (b != 0)
        if z3.is_add(ne) and any(is_val(a) for a in ne.children()):
            c = sum(int(val(a)) for a in ne.children() if is_val(a))
            rest = [a for a in ne.children() if not is_val(a)]
            m = rest[0] if len(rest) == 1 else z3.Sum(*rest)
            CTX.defined(bb != 0, 'ipow')
            return spow(b, SInt(m)) * spow(b, c)
        return SReal(t)
    # general power with positive base
    be, ne = norm(zr(_lift(b))), norm(zr(_lift(n)))
    k = as_int(ne)
    if k is not None and not is_val(ne):
        return spow(b, SInt(k))
    t = uf('pow', 2)(be, ne)
    CTX.defined(be > 0, 'pow')
    return SReal(t)


# ---------------------------------------------------------------------------
# axioms of the transcendental functions, instantiated on the terms of a query
# ---------------------------------------------------------------------------
_AX = {}
AXNOTES = set()


def _ax_of(t):
    """axioms about one application"""
    name, a = t.decl().name(), t.children()
    out = []

    def note(n, e):
        AXNOTES.add(n)
        out.append(e)
    if name == 'exp':
        note('exp>0', t > 0)
        note('exp monotone around 0', z3.And(z3.Implies(a[0] > 0, t > 1), z3.Implies(a[0] < 0, t < 1)))
    elif name == 'cosh':
        note('cosh>=1', t >= 1)
        s = uf('sinh')(a[0])
        note('cosh^2-sinh^2=1', t * t - s * s == 1)
    elif name == 'sinh':
        c = uf('cosh')(a[0])
        note('cosh^2-sinh^2=1', c * c - t * t == 1)
        note('sign of sinh', z3.And(z3.Implies(a[0] > 0, t > 0), z3.Implies(a[0] < 0, t < 0)))
    elif name in ('sin', 'cos'):
        s, c = uf('sin')(a[0]), uf('cos')(a[0])
        note('sin^2+cos^2=1', s * s + c * c == 1)
        note('sin,cos bounded', z3.And(s <= 1, s >= -1, c <= 1, c >= -1))
    elif name == 'erf':
        note('erf bounded', z3.And(t < 1, t > -1))
        note('sign of erf', z3.And(z3.Implies(a[0] > 0, t > 0), z3.Implies(a[0] < 0, t < 0)))
    elif name == 'arctan':
        note('arctan bounded', z3.And(t < PI / 2, t > -PI / 2))
    elif name == 'arctan2':
        note('arctan2 bounded', z3.And(t <= PI, t >= -PI))
        y, x = a
        r = uf('sqrt')(norm(x * x + y * y))
        note('arctan2 polar form', z3.Implies(r > 0, z3.And(r * uf('cos')(t) == x, r * uf('sin')(t) == y)))
        note('arctan2 axis', z3.Implies(z3.And(y == 0, x >= 0), t == 0))
    elif name == 'sqrt':
        note('sqrt', z3.Implies(a[0] >= 0, z3.And(t >= 0, t * t == a[0])))
    elif name == 'pow':
        note('real powers', z3.And(z3.Implies(a[0] > 0, t > 0), z3.Implies(a[1] == 0, t == 1), z3.Implies(a[1] == 1, t == a[0]), z3.Implies(a[0] == 1, t == 1),
                                   z3.Implies(z3.And(a[0] > 1, a[1] > 0), t > 1), z3.Implies(z3.And(a[0] > 1, a[1] < 0), t < 1)))
    elif name == 'log':
        note('sign of log', z3.And(z3.Implies(a[0] > 1, t > 0), z3.Implies(z3.And(a[0] > 0, a[0] < 1), t < 0),
                                   z3.Implies(a[0] == 1, t == 0)))
    elif name in ('idiv', 'imod'):
        n, d = a
        q, r = z3.Function('idiv', z3.IntSort(), z3.IntSort(), z3.IntSort())(n, d), z3.Function('imod', z3.IntSort(), z3.IntSort(), z3.IntSort())(n, d)
        note('integer division', z3.Implies(z3.And(d > 0, n >= 0), z3.And(n == q * d + r, r >= 0, r < d, q >= 0)))
    elif name == 'ipow':
        b, n = a
        note('integer powers', z3.And(z3.Implies(b > 0, t > 0), z3.Implies(n == 0, t == 1), z3.Implies(n == 1, t == b),
                                      z3.Implies(z3.And(b >= 1, n >= 0), t >= 1), z3.Implies(z3.And(b >= 1, n >= 1), t >= b)))
    return out


_seen_scan = {}
_keep_scan = []


def uf_apps(es):
    out, seen = [], set()

    def go(x):
        k = x.get_id()
        if k in seen:
            return
        seen.add(k)
        if z3.is_quantifier(x):
            return
        if x.num_args():
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.append(x)
            for c in x.children():
                go(c)
    for e in es:
        go(e)
    return out


_UFNAMES = {'exp', 'cosh', 'sinh', 'sin', 'cos', 'erf', 'arctan', 'arctan2', 'sqrt', 'pow', 'log', 'ipow', 'idiv', 'imod'}


_LP = {}


def _log_products(ts):
    key = tuple(sorted(t.get_id() for t in ts))
    if key not in _LP:
        from . import poly
        out = []
        for s in ts:
            rest = [t for t in ts if not t.eq(s)]
            for i, p in enumerate(rest):
                for q in rest[i + 1:]:
                    if poly.equal(p.arg(0) * q.arg(0), s.arg(0)):
                        AXNOTES.add('log(x y) = log x + log y')
                        out.append(z3.Implies(z3.And(p.arg(0) > 0, q.arg(0) > 0), s == p + q))
        _LP[key] = (ts, out)
    return _LP[key][1]


def axioms_for(es, rounds=2):
    """axiom instances for the transcendental applications in es"""
    out, done, work = [], set(), list(es)
    for _ in range(rounds):
        new = []
        for t in uf_apps(work):
            if t.decl().name() in _UFNAMES and t.get_id() not in done:
                done.add(t.get_id())
                k = t.get_id()
                if k not in _AX:
                    _AX[k] = (t, _ax_of(t))
                new += _AX[k][1]
        out += new
        work = new
        if not new:
            break
    ips = {}
    for t in uf_apps(list(es) + out):
        if t.decl().name() == 'ipow':
            ips.setdefault(t.arg(0).get_id(), {})[t.get_id()] = t
    for g in ips.values():
        g = list(g.values())
        for i, t in enumerate(g):
            for u in g[i + 1:]:
                d = z3.simplify(t.arg(1) - u.arg(1))
                if is_val(d) and 0 < abs(d.as_long()) <= 3:
                    AXNOTES.add('integer powers add')
                    k = d.as_long()
                    hi, lo = (t, u) if k > 0 else (u, t)
                    p = lo
                    for _ in range(abs(k)):
                        p = p * t.arg(0)
                    out.append(z3.Implies(t.arg(0) != 0, hi == p))
    logs = {}
    for t in uf_apps(list(es)):
        if t.decl().name() == 'log':
            logs[t.get_id()] = t
    if 3 <= len(logs) <= 5:
        out += _log_products(list(logs.values()))
    if any(contains_const(e, PI) for e in list(es) + out):
        out.append(z3.And(PI > z3.Q(314159265, 100000000), PI < z3.Q(314159266, 100000000)))
    if any(contains_const(e, EULER) for e in list(es)):
        out.append(z3.And(EULER > z3.Q(57721, 100000), EULER < z3.Q(57722, 100000)))
    return out


_cc = {}


def contains_const(e, c):
    key = (e.get_id(), c.get_id())
    if key in _cc:
        return _cc[key][0]
    stack, seen, r = [e], set(), False
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(c):
            r = True
            break
        if not z3.is_quantifier(x):
            stack.extend(x.children())
    _cc[key] = (r, e, c)
    return r


# ---------------------------------------------------------------------------
# path exploration
# ---------------------------------------------------------------------------
class Context(object):
    def __init__(self):
        self.reset([])

    def reset(self, trace):
        self._vc = itertools.count(1)
        self.ver = 0
        self.vers = [0]
        self.verset = {0}
        self.fork_log = []
        self.light = False           # settle conditions by forks only
        self.trace = list(trace)
        self.pos = 0
        self.new_forks = []          # prefixes still to explore
        self.pc = []                 # list of (z3 bool, kind)
        self.solver = z3.Solver()
        self.solver.set('timeout', getattr(self, 'decide_ms', 1500))
        self.defined_seen = set()
        self.obligations = []        # (name, snapshot length of pc, goal, meta)
        self.notes = set()
        self.nfork = 0
        self.fresh_count = itertools.count()
        self.fork_limit = getattr(self, 'fork_limit', 60)
        self.cache = {}
        self.ecache = {}

    # -- facts -------------------------------------------------------------
    def add(self, e, kind='path'):
        e = e if isinstance(e, z3.BoolRef) else zb(e)
        if z3.is_true(e):
            return
        self.pc.append((e, kind))
        self.newver()
        self.solver.add(e)
        for x in axioms_for([e]):
            self.solver.add(x)

    def defined(self, e, what):
        e = z3.simplify(e)
        if z3.is_true(e):
            return
        k = e.get_id()
        if k in self.defined_seen:
            return
        self.defined_seen.add(k)
        if z3.is_false(e):
            return
        self._keep = getattr(self, '_keep', [])
        self._keep.append(e)
        self.notes.add(f'definedness assumed: {what}')
        self.pc.append((e, 'defined'))
        self.newver()
        self.solver.add(e)
        for x in axioms_for([e]):
            self.solver.add(x)

    def newver(self):
        self.ver = next(self._vc)
        self.vers.append(self.ver)
        self.verset.add(self.ver)

    # -- scopes (facts about a generic index) -------------------------------
    def push(self):
        self.solver.push()
        return (len(self.pc), set(self.defined_seen), len(self.vers))

    def pop(self, m):
        self.solver.pop()
        del self.pc[m[0]:]
        for v in self.vers[m[2]:]:
            self.verset.discard(v)
        del self.vers[m[2]:]
        self.ver = self.vers[-1]
        self.defined_seen = m[1]

    def scoped_pop(self, m):
        """end of a scope in which obligations were recorded: they keep its facts"""
        extra = [e for e, k in self.pc[m[0]:]]
        for j, ob in enumerate(self.obligations):
            if ob[1] > m[0]:
                name, n, goal, meta = ob
                hs = [e for e, k in self.pc[m[0]:n]]
                self.obligations[j] = (name, m[0], z3.Implies(z3.And(*hs), goal) if hs else goal, meta)
        self.pop(m)

    # -- queries -----------------------------------------------------------
    def quick(self, e):
        """cheap entailment: syntactic or 200 ms solver"""
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self.light:
            return False
        return self.entails(e, 300)

    def entails(self, e, ms=None):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        key = e.get_id()
        for v, r, _ in self.ecache.get(key, ()):
            if (r and v in self.verset) or v == self.ver:
                return r
        self.solver.push()
        if ms:
            self.solver.set('timeout', ms)
        self.solver.add(z3.Not(e))
        for x in axioms_for([e]):
            self.solver.add(x)
        r = self.solver.check()
        self.solver.pop()
        if ms:
            self.solver.set('timeout', getattr(self, 'decide_ms', 1500))
        self.ecache.setdefault(key, []).append((self.ver, r == z3.unsat, e))
        return r == z3.unsat

    def decide(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if not self.light:
            if self.entails(e):
                return True
            if self.entails(z3.Not(e)):
                return False
        return self.fork(e)

    def fork(self, e):
        if self.pos < len(self.trace):
            b = self.trace[self.pos]
        else:
            b = True
            self.new_forks.append(self.trace[:self.pos] + [False])
            self.trace.append(True)
        self.pos += 1
        self.nfork += 1
        if self.nfork > self.fork_limit:
            raise Budget(f'more than {self.fork_limit} forks on a path')
        c = e if b else z3.Not(e)
        self.fork_log.append(c)
        self.add(c)
        return b

    def concretize(self, e):
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        while True:
            r = self.solver.check()
            if r == z3.unsat:
                raise PathAbort('infeasible')
            if r != z3.sat:
                raise Unsupported('cannot concretize an integer')
            v = self.solver.model().eval(e, model_completion=True)
            if self.entails(e == v):
                return v.as_long()
            if not getattr(self, 'allow_concretize', False):
                raise Unsupported(f'symbolic integer {e} used where a concrete one is needed')
            if self.fork(e == v):
                return v.as_long()

    def fresh(self, name, sort='real'):
        n = f'{name}!{next(self.fresh_count)}'
        if sort == 'real':
            return SReal(z3.Real(n))
        if sort == 'int':
            return SInt(z3.Int(n))
        return SBool(z3.Bool(n))

    def oblige(self, name, goal, **meta):
        self.obligations.append((name, len(self.pc), goal if isinstance(goal, z3.BoolRef) else zb(goal), meta))


CTX = Context()


def merge(fn, vmerge):
    """Run fn, which may branch on conditions about a generic index, on all its paths and
    merge the results by case distinction (no fork of the enclosing path)."""
    results, pending = [], [[]]
    while pending:
        tr = pending.pop()
        saved = (CTX.trace, CTX.pos, CTX.new_forks, CTX.fork_log)
        CTX.trace, CTX.pos, CTX.new_forks, CTX.fork_log = list(tr), 0, [], []
        m = CTX.push()
        n0 = CTX.nfork
        try:
            r = ('ok', fn())
        except (Unsupported, Budget, PathAbort):
            raise
        except Exception as ex:
            r = ('exc', ex)
        finally:
            conds, forks = CTX.fork_log, CTX.new_forks
            CTX.pop(m)
            CTX.nfork = n0
            CTX.trace, CTX.pos, CTX.new_forks, CTX.fork_log = saved
        results.append((conds, r))
        pending += forks
        if len(results) > 32:
            raise Budget('too many paths in a loop body')
    if len(results) == 1:
        k, v = results[0][1]
        if k == 'exc':
            raise v
        return v
    exc = [(c, r[1]) for c, r in results if r[0] == 'exc']
    ok = [(c, r[1]) for c, r in results if r[0] == 'ok']
    if not ok:
        raise exc[0][1]
    if exc:
        raise Unsupported(f'loop body raises {exc[0][1]!r} for some iterations')
    out = ok[-1][1]
    for c, v in reversed(ok[:-1]):
        out = vmerge(SBool(z3.And(*c) if len(c) != 1 else c[0]), v, out)
    return out
