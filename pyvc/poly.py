"""Rational normal form of real z3 terms over opaque atoms (decides polynomial identities
modulo the square relations of sqrt, cosh/sinh, sin/cos)."""
from fractions import Fraction
import z3
from . import terms as T


class TooBig(Exception):
    pass


LIMIT = 60000


_CANON = {}


def canon_args(e):
    """application with its real arguments in the solver's sum-of-monomials form, innermost first"""
    k = e.get_id()
    if k in _CANON:
        return _CANON[k][1]
    if not z3.is_app(e) or e.num_args() == 0:
        r = e
    else:
        cs = [canon_args(c) for c in e.children()]
        if any(not a.eq(b) for a, b in zip(cs, e.children())):
            r = z3.Sum(*cs) if z3.is_add(e) else z3.Product(*cs) if z3.is_mul(e) else z3.And(*cs) if z3.is_and(e) else \
                z3.Or(*cs) if z3.is_or(e) else z3.substitute(e, *[(a, b) for a, b in zip(e.children(), cs) if not a.eq(b)])
        else:
            r = e
        if r.decl().kind() == z3.Z3_OP_UNINTERPRETED and any(z3.is_real(c) for c in r.children()):
            r = r.decl()(*[T.norm(c) if z3.is_real(c) else c for c in r.children()])
    _CANON[k] = (e, r)
    return r


class Ring(object):
    def __init__(self, plain=False):
        self.plain = plain   # atoms are z3 terms
        self.atoms = {}      # z3 id -> index
        self.terms = []      # index -> z3 term
        self.cache = {}
        self.keep = []
        self.sq = {}         # index -> polynomial equal to atom**2

    def atom(self, e):
        k0 = k = e.get_id()
        if k in self.atoms:
            return self.atoms[k]
        c = canon_args(e)
        if not c.eq(e):
            self.keep.append(e)
            e, k = c, c.get_id()
            if k in self.atoms:
                self.atoms[k0] = self.atoms[k]
                return self.atoms[k]
        i = len(self.terms)
        self.atoms[k0] = self.atoms[k] = i
        self.terms.append(e)
        if z3.is_app(e) and e.num_args() == 1 and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            nm, a = e.decl().name(), e.arg(0)
            if nm == 'sqrt':
                n, d = self.rat(a)
                if d == {(): Fraction(1)}:
                    self.sq[i] = n
            elif nm == 'cosh':
                s = self.atom(T.uf('sinh')(a))
                self.sq[i] = {(): Fraction(1), ((s, 2),): Fraction(1)}
            elif nm == 'sin':
                c = self.atom(T.uf('cos')(a))
                self.sq[i] = {(): Fraction(1), ((c, 2),): Fraction(-1)}
        return i

    # polynomials: dict monomial(tuple of (atom, exp) sorted) -> Fraction
    @staticmethod
    def padd(p, q, s=1):
        r = dict(p)
        for m, c in q.items():
            v = r.get(m, 0) + s * c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    def mmul(self, a, b):
        d = dict(a)
        for k, e in b:
            d[k] = d.get(k, 0) + e
        return tuple(sorted(d.items()))

    def pmul(self, p, q):
        if len(p) * len(q) > LIMIT * 4:
            raise TooBig()
        r = {}
        for m, c in p.items():
            for n, dd in q.items():
                k = self.mmul(m, n)
                v = r.get(k, 0) + c * dd
                if v:
                    r[k] = v
                else:
                    r.pop(k, None)
        if len(r) > LIMIT:
            raise TooBig()
        return self.reduce(r)

    def reduce(self, p):
        if not self.sq:
            return p
        while True:
            bad = [(m, k) for m in p for k, e in m if e >= 2 and k in self.sq]
            if not bad:
                return p
            r = dict(p)
            done = set()
            for m, k in bad:
                if m in done:
                    continue
                done.add(m)
                c = r.pop(m, None)
                if c is None:
                    continue
                rest = tuple((a, e - 2 if a == k else e) for a, e in m if not (a == k and e == 2))
                for n, dd in self.sq[k].items():
                    mm = self.mmul(rest, n)
                    v = r.get(mm, 0) + c * dd
                    if v:
                        r[mm] = v
                    else:
                        r.pop(mm, None)
            p = r
            if len(p) > LIMIT:
                raise TooBig()

    ONE = {(): Fraction(1)}

    def rat(self, e):
        """(numerator, denominator)"""
        k = e.get_id()
        if k in self.cache:
            return self.cache[k][0]
        r = self._rat(e)
        self.cache[k] = (r, e)
        return r

    def _rat(self, e):
        if T.is_val(e):
            v = T.val(e)
            return ({(): v} if v else {}), self.ONE
        if z3.is_add(e) or z3.is_sub(e):
            n, d = self.rat(e.arg(0))
            s = 1 if z3.is_add(e) else -1
            for a in e.children()[1:]:
                n2, d2 = self.rat(a)
                n, d = self.radd(n, d, n2, d2, s)
            return n, d
        if z3.is_mul(e):
            n, d = self.rat(e.arg(0))
            for a in e.children()[1:]:
                n2, d2 = self.rat(a)
                n, d = self.pmul(n, n2), self.pmul(d, d2)
                n, d = self.cancel(n, d)
            return n, d
        if z3.is_app_of(e, z3.Z3_OP_UMINUS):
            n, d = self.rat(e.arg(0))
            return {m: -c for m, c in n.items()}, d
        if z3.is_app_of(e, z3.Z3_OP_DIV):
            n, d = self.rat(e.arg(0))
            n2, d2 = self.rat(e.arg(1))
            if not n2:
                i = self.atom(e)
                return {((i, 1),): Fraction(1)}, self.ONE
            return self.cancel(self.pmul(n, d2), self.pmul(d, n2))
        if z3.is_app_of(e, z3.Z3_OP_POWER) and T.is_val(e.arg(1)) and T.val(e.arg(1)).denominator == 1 and 0 <= T.val(e.arg(1)) <= 20:
            n, d = self.rat(e.arg(0))
            rn, rd = self.ONE, self.ONE
            for _ in range(int(T.val(e.arg(1)))):
                rn, rd = self.pmul(rn, n), self.pmul(rd, d)
            return rn, rd
        if z3.is_to_real(e):
            a = e.arg(0)
            if z3.is_add(a) or z3.is_sub(a) or z3.is_mul(a) or z3.is_int_value(a):
                parts = [z3.ToReal(x) if not z3.is_int_value(x) else z3.RealVal(x.as_long()) for x in a.children()]
                if z3.is_int_value(a):
                    return self.rat(z3.RealVal(a.as_long()))
                if z3.is_add(a):
                    return self.rat(z3.Sum(*parts))
                if z3.is_mul(a):
                    return self.rat(z3.Product(*parts))
                r = parts[0]
                for x in parts[1:]:
                    r = r - x
                return self.rat(r)
        if not self.plain and z3.is_app(e) and e.num_args() == 1 and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            r = self.special(e.decl().name(), e.arg(0))
            if r is not None:
                return r
        i = self.atom(e)
        return {((i, 1),): Fraction(1)}, self.ONE

    def named(self, key):
        if key not in self.atoms:
            self.atoms[key] = len(self.terms)
            self.terms.append(key)
        return self.atoms[key]

    def special(self, nm, a):
        if nm == 'sqrt':
            # t = sqrt(n / d) d: t^2 = n d
            n, d = self.rat(a)
            if d != self.ONE:
                i = self.named(('sqrt', tuple(sorted(n.items())), tuple(sorted(d.items()))))
                if i not in self.sq:
                    self.sq[i] = self.pmul(n, d)
                return {((i, 1),): Fraction(1)}, d
        elif nm == 'exp':
            return self.exp(a, 1)
        elif nm in ('cosh', 'sinh'):
            n, d = self.radd(*self.exp(a, 1), *self.exp(a, -1), 1 if nm == 'cosh' else -1)
            return {k: v / 2 for k, v in n.items()}, d
        return None

    def exp(self, a, s):
        """exp(s a) as a product of powers of exponentials of the monomials of a"""
        n, d = self.rat(a)
        num, den = {}, {}
        for m, c in n.items():
            k = s * c
            q = 2 if (2 * k).denominator == 1 else (2 * k).denominator * 2
            lead = m if d == self.ONE else (m, tuple(sorted(d.items())))
            i = self.named(('exp', q, lead))
            k = int(q * k)
            if k > 60 or k < -60:
                raise TooBig()
            (num if k > 0 else den)[i] = abs(k)
        return {tuple(sorted(num.items())): Fraction(1)}, {tuple(sorted(den.items())): Fraction(1)}

    def radd(self, n, d, n2, d2, s):
        if d == d2:
            return self.cancel(self.padd(n, n2, s), d)
        if len(d) == 1 and len(d2) == 1:
            # monomial denominators: least common multiple
            (m1, c1), = d.items()
            (m2, c2), = d2.items()
            l = dict(m1)
            for a, e in m2:
                l[a] = max(l.get(a, 0), e)
            f1 = {tuple(sorted((a, e - dict(m1).get(a, 0)) for a, e in l.items() if e - dict(m1).get(a, 0))): 1 / c1}
            f2 = {tuple(sorted((a, e - dict(m2).get(a, 0)) for a, e in l.items() if e - dict(m2).get(a, 0))): 1 / c2}
            return self.padd(self.pmul(n, f1), self.pmul(n2, f2), s), {tuple(sorted(l.items())): Fraction(1)}
        return self.cancel(self.padd(self.pmul(n, d2), self.pmul(n2, d), s), self.pmul(d, d2))

    def cancel(self, n, d):
        if not n:
            return {}, self.ONE
        if n == d:
            return self.ONE, self.ONE
        if len(d) == 1:
            (m, c), = d.items()
            if c != 1:
                n = {k: v / c for k, v in n.items()}
                d = {m: Fraction(1)}
            if m:
                # common monomial factor
                com = dict(m)
                for k in n:
                    kd = dict(k)
                    for a in list(com):
                        com[a] = min(com[a], kd.get(a, 0))
                        if not com[a]:
                            del com[a]
                    if not com:
                        break
                if com:
                    sub = lambda k: tuple((a, e - com.get(a, 0)) for a, e in k if e - com.get(a, 0))
                    return {sub(k): v for k, v in n.items()}, {sub(m): Fraction(1)}
        return n, d


def equal(a, b):
    """True: identical as rational functions (where both are defined)"""
    try:
        R = Ring()
        n1, d1 = R.rat(a)
        n2, d2 = R.rat(b)
        n, _ = R.radd(n1, d1, n2, d2, -1)
        return not n
    except (TooBig, RecursionError):
        return None
