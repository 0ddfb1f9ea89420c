"""Integrals over s of an integrand evaluated at an arbitrary positive real constant s!int.
The integrand is put in normal form; the integral from a to b of each monomial's s-dependent part m
is J(m, a) - J(m, b), J(m, inf) = 0, with J uninterpreted (linearity and additivity of the integral are
the only facts used)."""
from fractions import Fraction
import numpy as rnp
import z3
from . import terms as T, arrays as A
from .poly import Ring
from .sums import ssum, prefix_apps, body_at, _BYFUNC

S = z3.Real('s!int')
J = None
_dep = {}


def depends(e):
    k = e.get_id()
    if k in _dep:
        return _dep[k][0]
    r = e.eq(S) or any(depends(c) for c in e.children())
    _dep[k] = (r, e)
    return r


_keys = {}


def _key(e):
    k = e.get_id()
    if k not in _keys:
        _keys[k] = (e.sexpr(), e)
    return _keys[k][0]


def _prod(atoms):
    r = None
    for t, n in sorted(atoms, key=lambda p: (_key(p[0]), p[1])):
        for _ in range(n):
            r = t if r is None else r * t
    return r


def _psum(e):
    """prefix sum application?"""
    return z3.is_app(e) and e.num_args() and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name() in _BYFUNC


def tail(e, a):
    """integral of e from a to infinity"""
    f = T.uf('integral', 2)
    R = Ring(plain=True)
    n, d = R.rat(e)
    dd = {}
    dterm = z3.RealVal(1)
    if len(d) == 1:
        (m, c), = d.items()
        dd = dict(m)
        dterm = T.rv(c)
    else:
        dt = z3.Sum(*[z3.Product(T.rv(c), *[R.terms[i] for i, k in m for _ in range(k)]) for m, c in d.items()])
        if depends(dt):
            return f(T.norm(e), a)
        dterm = dt
    out = []
    for m, c in n.items():
        ins, outs = [], []
        for i, k in m:
            (ins if depends(R.terms[i]) else outs).append((R.terms[i], k))
        dins = [(R.terms[i], k) for i, k in dd.items() if depends(R.terms[i])]
        for i, k in list(enumerate(ins)):
            for j, l in list(enumerate(dins)):
                if ins[i][0].eq(dins[j][0]):
                    q = min(ins[i][1], dins[j][1])
                    ins[i], dins[j] = (ins[i][0], ins[i][1] - q), (dins[j][0], dins[j][1] - q)
        ins, dins = [p for p in ins if p[1]], [p for p in dins if p[1]]
        douts = [(R.terms[i], k) for i, k in dd.items() if not depends(R.terms[i])]
        ps = [t for t, k in ins if _psum(t)]
        if len(ps) == 1 and dict((t.get_id(), k) for t, k in ins)[ps[0].get_id()] == 1:
            p = ps[0]
            rest = [(t, k) for t, k in ins if not t.eq(p)]
            def body(i, p=p, rest=rest):
                b = body_at(p, i.e)
                if rest:
                    b = b * _prod(rest)
                if dins:
                    b = b / _prod(dins)
                return T.SReal(tail(b, a))
            v = T.zr(ssum(0, T.SInt(p.children()[-1]), body))
        else:
            g = _prod(ins) if ins else z3.RealVal(1)
            if dins:
                g = g / _prod(dins)
            v = f(g, a)
        t = v * T.rv(c)
        if outs:
            t = t * _prod(outs)
        if douts:
            t = t / _prod(douts)
        out.append(t)
    if not out:
        return z3.RealVal(0)
    r = out[0] if len(out) == 1 else z3.Sum(*out)
    if not (T.is_val(dterm) and T.val(dterm) == 1):
        r = r / dterm
    return r


def _bound(v, a):
    """integral of v from a to infinity, a number (or a case distinction between numbers and infinity)"""
    if isinstance(a, float) and a == float('inf'):
        return z3.RealVal(0)
    a = T.zr(a)
    return _cases(v, a)


INF = z3.Real('infinity!')


def _cases(v, a):
    if a.eq(INF):
        return z3.RealVal(0)
    if z3.is_app_of(a, z3.Z3_OP_ITE):
        return z3.If(a.arg(0), _cases(v, a.arg(1)), _cases(v, a.arg(2)))
    return tail(v, T.norm(a))


def quad(f, a, b, *args, **kw):
    from .shim import assume_contract, symbolic
    assume_contract('scipy.integrate.quad/quad_vec: the exact integral (linear in the integrand, additive over intervals)')
    T.CTX.add(S > 0)
    s = T.SReal(S)
    n0 = len(T.CTX.pc)
    v = f(s)
    for c, kind in T.CTX.pc[n0:]:
        if kind != 'defined' and depends(c):
            raise T.Unsupported('the integrand distinguishes cases of the integration variable')

    def one(x):
        x = T.zr(T._lift(x))
        return T.SReal(_bound(x, a) - _bound(x, b))
    if isinstance(v, (A.SArr, A.SymList)):
        return A.elementwise(one, v, kind='f'), 0.
    if isinstance(v, rnp.ndarray):
        out = rnp.empty(v.shape, dtype=object)
        for ix in rnp.ndindex(*v.shape):
            out[ix] = one(v[ix])
        return (out if v.shape else out.item()), 0.
    return one(v), 0.
