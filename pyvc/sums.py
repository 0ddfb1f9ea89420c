"""Sums over symbolic integer ranges, as differences of prefix-sum functions.

A sum  sum_{i=lo}^{hi-1} b(i)  (lo <= hi) is normalised (distribution over +, constant
factors, case splits on i) into terms P(h.., hi) - P(h.., lo) where P is an
uninterpreted function for the canonical body template with parameters h.
P is characterised by P(h..,0)=0 and P(h..,n+1) = P(h..,n) + body(h..,n) for every integer
n; instances of these are added to queries, so every fact used is a consequence of them.
"""
import z3
from .terms import (CTX, SReal, SInt, SBool, zr, zi, is_val, val, norm, Unsupported, merge, _add, _sub, _mul)

I = z3.Int('!i')            # the bound index of the sum being normalised
_TEMPL = {}                 # canonical body ast (string key) -> (func, body, holes)
_BYFUNC = {}


def contains(e, v):
    cache = {}

    def go(x):
        k = x.get_id()
        if k in cache:
            return cache[k]
        r = x.eq(v) or any(go(c) for c in x.children())
        cache[k] = r
        return r
    return go(e)


def affine(e, v):
    """e == c*v + d with integer constant c and d free of v -> (c, d) or None"""
    if e.eq(v):
        return 1, z3.IntVal(0)
    if not contains(e, v):
        return 0, e
    if z3.is_add(e):
        c, d = 0, z3.IntVal(0)
        for a in e.children():
            r = affine(a, v)
            if r is None:
                return None
            c += r[0]
            d = _add(d, r[1])
        return c, d
    if z3.is_sub(e):
        l = affine(e.arg(0), v)
        if l is None:
            return None
        c, d = l
        for a in e.children()[1:]:
            r = affine(a, v)
            if r is None:
                return None
            c -= r[0]
            d = _sub(d, r[1])
        return c, d
    if z3.is_mul(e) and e.num_args() == 2:
        a, b = e.children()
        if z3.is_int_value(a):
            r = affine(b, v)
            return None if r is None else (r[0] * a.as_long(), _mul(a, r[1]))
        if z3.is_int_value(b):
            r = affine(a, v)
            return None if r is None else (r[0] * b.as_long(), _mul(b, r[1]))
        return None
    if z3.is_app_of(e, z3.Z3_OP_UMINUS):
        r = affine(e.arg(0), v)
        return None if r is None else (-r[0], z3.simplify(-r[1]))
    return None


def _cut(t, lo, hi, f):
    """f(min(max(t, lo), hi)), split into the three cases unless decided"""
    t = z3.simplify(t)
    if CTX.quick(z3.And(lo <= t, t <= hi)):
        return f(t)
    if CTX.quick(t <= lo):
        return f(lo)
    if CTX.quick(t >= hi):
        return f(hi)
    mid = lambda: f(t)
    r = mid()
    if not CTX.quick(t <= hi):
        r = z3.If(t >= hi, f(hi), r)
    if not CTX.quick(t >= lo):
        r = z3.If(t <= lo, f(lo), r)
    return r


def ksum(lo, hi, b):
    """sum_{I=lo}^{hi-1} b ; b real z3 term in I"""
    lo, hi = z3.simplify(lo), z3.simplify(hi)
    if lo.eq(hi):
        return z3.RealVal(0)
    if is_val(lo) and is_val(hi) and 0 <= hi.as_long() - lo.as_long() <= 8:
        r = z3.RealVal(0)
        for k in range(lo.as_long(), hi.as_long()):
            r = _add(r, z3.substitute(b, (I, z3.IntVal(k))))
        return r
    d = z3.simplify(hi - lo)
    if is_val(d) and 0 < d.as_long() <= 3:
        r = z3.RealVal(0)
        for k in range(d.as_long()):
            r = _add(r, z3.substitute(b, (I, z3.simplify(lo + k))))
        return r
    return _norm(lo, hi, z3.simplify(b, som=True, pull_cheap_ite=False))


def _factors(e):
    return [y for x in e.children() for y in _factors(x)] if z3.is_mul(e) else [e]


def _norm(lo, hi, e):
    if lo.eq(hi):
        return z3.RealVal(0)
    if not contains(e, I):
        return _mul(e, z3.ToReal(z3.simplify(hi - lo)))
    if z3.is_add(e):
        r = z3.RealVal(0)
        for a in e.children():
            r = _add(r, _norm(lo, hi, a))
        return r
    if z3.is_sub(e):
        r = _norm(lo, hi, e.arg(0))
        for a in e.children()[1:]:
            r = _sub(r, _norm(lo, hi, a))
        return r
    if z3.is_app_of(e, z3.Z3_OP_UMINUS):
        return _sub(z3.RealVal(0), _norm(lo, hi, e.arg(0)))
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        return _norm_ite(lo, hi, e.arg(0), e.arg(1), e.arg(2))
    if z3.is_mul(e):
        flat = _factors(e)
        free = [a for a in flat if not contains(a, I)]
        dep = [a for a in flat if contains(a, I)]
        f = z3.RealVal(1)
        for a in free:
            f = _mul(f, a)
        for k, a in enumerate(dep):
            rest = dep[:k] + dep[k + 1:]
            if z3.is_add(a) or z3.is_sub(a):
                r = z3.RealVal(0)
                for n, t in enumerate(a.children()):
                    p = t
                    for q in rest:
                        p = _mul(p, q)
                    s = _norm(lo, hi, p)
                    r = _sub(r, s) if (z3.is_sub(a) and n > 0) else _add(r, s)
                return _mul(f, r)
            if z3.is_app_of(a, z3.Z3_OP_ITE):
                p, q = a.arg(1), a.arg(2)
                for t in rest:
                    p, q = _mul(p, t), _mul(q, t)
                return _mul(f, _norm_ite(lo, hi, a.arg(0), p, q))
            if z3.is_app_of(a, z3.Z3_OP_DIV) and not contains(a.arg(1), I):
                p = a.arg(0)
                for t in rest:
                    p = _mul(p, t)
                return _mul(f, _norm(lo, hi, p)) / a.arg(1)
        p = z3.RealVal(1)
        for a in dep:
            p = _mul(p, a)
        return _mul(f, _atom(lo, hi, p)) if len(free) else _atom(lo, hi, p)
    if z3.is_app_of(e, z3.Z3_OP_DIV):
        a, b = e.children()
        if not contains(b, I):
            return _norm(lo, hi, a) / b
        if z3.is_add(a):
            r = z3.RealVal(0)
            for t in a.children():
                r = _add(r, _norm(lo, hi, t / b))
            return r
        if z3.is_app_of(a, z3.Z3_OP_ITE):
            return _norm_ite(lo, hi, a.arg(0), a.arg(1) / b, a.arg(2) / b)
        if z3.is_app_of(b, z3.Z3_OP_ITE):
            return _norm_ite(lo, hi, b.arg(0), a / b.arg(1), a / b.arg(2))
        if z3.is_mul(a):
            free = [t for t in a.children() if not contains(t, I)]
            if free:
                f, p = z3.RealVal(1), z3.RealVal(1)
                for t in a.children():
                    if contains(t, I):
                        p = _mul(p, t)
                    else:
                        f = _mul(f, t)
                return _mul(f, _norm(lo, hi, p / b))
    if z3.is_to_real(e) and z3.is_app_of(e.arg(0), z3.Z3_OP_ITE):
        a = e.arg(0)
        return _norm_ite(lo, hi, a.arg(0), z3.ToReal(a.arg(1)), z3.ToReal(a.arg(2)))
    if z3.is_to_real(e):
        r = affine(e.arg(0), I)
        if r is not None:
            c, d = r
            h, l = z3.ToReal(hi), z3.ToReal(lo)
            return z3.RealVal(c) * (h * (h - 1) - l * (l - 1)) / 2 + z3.ToReal(d) * (h - l)
    return _atom(lo, hi, e)


def _norm_ite(lo, hi, c, a, b):
    if not contains(c, I):
        if CTX.quick(c):
            return _norm(lo, hi, a)
        if CTX.quick(z3.Not(c)):
            return _norm(lo, hi, b)
        return z3.If(c, _norm(lo, hi, a), _norm(lo, hi, b))
    if z3.is_not(c):
        return _norm_ite(lo, hi, c.arg(0), b, a)
    if z3.is_and(c):
        r = a
        for t in c.children():
            r = z3.If(t, r, b)
        return _norm(lo, hi, r)
    if z3.is_or(c):
        r = b
        for t in c.children():
            r = z3.If(t, a, r)
        return _norm(lo, hi, r)
    if z3.is_eq(c) and c.arg(0).is_int() if z3.is_eq(c) and z3.is_arith(c.arg(0)) else False:
        r = affine(z3.simplify(c.arg(0) - c.arg(1)), I)
        if r is not None and r[0] in (1, -1):
            t = z3.simplify(-r[1] if r[0] == 1 else r[1])
            d = z3.simplify(_sub(a, b), som=True)
            at = z3.substitute(d, (I, t))
            inr = z3.And(lo <= t, t < hi)
            if CTX.quick(inr):
                pass
            elif CTX.quick(z3.Not(inr)):
                at = z3.RealVal(0)
            else:
                at = z3.If(inr, at, z3.RealVal(0))
            return _add(_norm(lo, hi, b), at)
    if z3.is_le(c) or z3.is_lt(c) or z3.is_ge(c) or z3.is_gt(c):
        l, r_ = c.arg(0), c.arg(1)
        if l.is_int():
            if z3.is_ge(c) or z3.is_gt(c):
                l, r_ = r_, l
            strict = z3.is_lt(c) or z3.is_gt(c)
            # l <= r_  (or <)
            r = affine(z3.simplify(l - r_), I)
            if r is not None and r[0] in (1, -1):
                # c*I + d <= 0 (or < 0)
                if r[0] == 1:
                    m = z3.simplify(-r[1] + (0 if strict else 1))   # I < m true
                    return _cut(m, lo, hi, lambda m: _add(_norm(lo, m, z3.simplify(a, som=True)), _norm(m, hi, z3.simplify(b, som=True))))
                m = z3.simplify(r[1] + (1 if strict else 0))         # I >= m true
                return _cut(m, lo, hi, lambda m: _add(_norm(lo, m, z3.simplify(b, som=True)), _norm(m, hi, z3.simplify(a, som=True))))
    return _atom(lo, hi, z3.If(c, a, b))


def _shift(e):
    """offset c of the anchor argument I + c: the arguments affine in I of the function that comes
    first by name, least offset first, so that shifted copies of a body have the same anchor"""
    cands = {}
    seen = set()

    def arg(x, name):
        """x occurs as an argument of a non-arithmetic operation"""
        if not contains(x, I):
            return
        if x.is_int() if z3.is_arith(x) else False:
            r = affine(x, I)
            if r is not None:
                if r[0] == 1:
                    cands.setdefault(name, []).append(z3.simplify(r[1], som=True))
                    return
                if r[0] == 0:
                    return
        go(x)

    def go(x):
        if x.get_id() in seen or x.eq(I):
            return
        seen.add(x.get_id())
        k = x.decl().kind()
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS, z3.Z3_OP_ITE, z3.Z3_OP_DIV):
            for c in x.children():
                go(c)
            return
        name = ('a' if k == z3.Z3_OP_UNINTERPRETED else 'z') + x.decl().name()
        for n, c in enumerate(x.children()):
            arg(c, f'{name}.{n}')
    go(e)
    if not cands:
        return z3.IntVal(0)
    best = None
    for o in cands[min(cands)]:
        if best is None:
            best = o
            continue
        d = z3.simplify(o - best)
        if is_val(d):
            if d.as_long() < 0:
                best = o
        elif o.sexpr() < best.sexpr():
            best = o
    return best


def _atom(lo, hi, e):
    e = z3.simplify(e, som=True, pull_cheap_ite=False)
    c = _shift(e)
    if not is_val(c) or c.as_long() != 0:
        e = z3.simplify(z3.substitute(e, (I, I - c)), som=True, pull_cheap_ite=False)
    # order of nested sums: the range with the smaller key inside
    fs = _factors(e)
    inner = [t for t in fs if z3.is_app(t) and t.decl().name() in _BYFUNC and t.num_args() > 0 and not contains(t.children()[-1], I)]
    if len(inner) == 1 and _swaps[0] < 6:
        t = inner[0]
        N = z3.simplify(t.children()[-1])
        rest = z3.RealVal(1)
        for x in fs:
            if not x.eq(t):
                rest = _mul(rest, x)
        up, low = z3.simplify(hi + c), z3.simplify(lo + c)
        if any(_bkey(N) > _bkey(B) for B in (up, low) if not (is_val(B) and B.as_long() == 0)):
            r = z3.RealVal(0)
            for B, sg in ((up, 1), (low, -1)):
                if is_val(B) and B.as_long() == 0:
                    continue
                if _bkey(N) > _bkey(B):
                    J = z3.Int(f'!swap{_swaps[0]}')
                    _swaps[0] += 1
                    try:
                        inn = z3.simplify(_norm(z3.IntVal(0), B, z3.simplify(_mul(rest, body_at(t, J)), som=True, pull_cheap_ite=False)), som=True, pull_cheap_ite=False)
                        v = _norm(z3.IntVal(0), N, z3.substitute(inn, (J, I)))
                    finally:
                        _swaps[0] -= 1
                else:
                    v = _template(z3.IntVal(0), B, e, z3.IntVal(0))
                r = _add(r, v) if sg > 0 else _sub(r, v)
            return r
    return _template(lo, hi, e, c)


_swaps = [0]


def _bkey(b):
    out = set()

    def go(x):
        if x.num_args() == 0 and not is_val(x):
            out.add(x.decl().name())
        for c in x.children():
            go(c)
    go(b)
    return sorted(out)


_AC = (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_AND, z3.Z3_OP_OR)


def _sorted(e):
    """e with the arguments of commutative operators in an order that only depends on its structure in I"""
    cache = {}

    def go(x):
        k = x.get_id()
        if k in cache:
            return cache[k]
        if not contains(x, I):
            r = (x, x.sexpr() if is_val(x) or z3.is_true(x) or z3.is_false(x) else '_', x.sexpr())
        elif x.eq(I):
            r = (x, 'I', 'I')
        else:
            cs = [go(t) for t in x.children()]
            if x.decl().kind() in _AC or z3.is_eq(x):
                cs = sorted(cs, key=lambda t: (t[1], t[2]))
            if x.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_AND, z3.Z3_OP_OR):
                f = {z3.Z3_OP_ADD: z3.Sum, z3.Z3_OP_MUL: z3.Product, z3.Z3_OP_AND: z3.And, z3.Z3_OP_OR: z3.Or}[x.decl().kind()]
                y = f(*[t[0] for t in cs])
            else:
                y = x.decl()(*[t[0] for t in cs])
            n = x.decl().name()
            r = (y, '(' + ' '.join([n] + [t[1] for t in cs]) + ')', '(' + ' '.join([n] + [t[2] for t in cs]) + ')')
        cache[k] = r
        return r
    return go(e)[0]


def _merge_free(e):
    """I-free addends of a sum combined into one subterm"""
    cache = {}

    def go(x):
        k = x.get_id()
        if k in cache:
            return cache[k]
        if not contains(x, I) or x.eq(I):
            r = x
        else:
            cs = [go(t) for t in x.children()]
            if z3.is_add(x):
                fr = [t for t in cs if not contains(t, I)]
                dp = [t for t in cs if contains(t, I)]
                if len(fr) > 1:
                    fr = [z3.simplify(z3.Sum(*fr), som=True)]
                cs = fr + dp
                r = z3.Sum(*cs) if len(cs) > 1 else cs[0]
            elif z3.is_mul(x):
                fr = [t for t in cs if not contains(t, I)]
                dp = [t for t in cs if contains(t, I)]
                if len(fr) > 1:
                    fr = [z3.simplify(z3.Product(*fr), som=True)]
                cs = fr + dp
                r = z3.Product(*cs) if len(cs) > 1 else cs[0]
            else:
                r = x.decl()(*cs)
        cache[k] = r
        return r
    return go(e)


def _template(lo, hi, e, c):
    e = _sorted(_merge_free(e))
    # abstract maximal I-free non-constant subterms
    holes, vals = [], []

    # one hole per occurrence: the template of an instance with equal arguments is the same
    def go(x):
        if not contains(x, I):
            if z3.is_true(x) or z3.is_false(x) or is_val(x) and not x.is_int():
                return x
            h = z3.Const(f'!h{len(holes)}_{x.sort().name()}', x.sort())
            holes.append(h)
            vals.append(x)
            return h
        if x.eq(I):
            return x
        return x.decl()(*[go(t) for t in x.children()])
    body = go(e)
    key = (body.sexpr(), tuple(h.sort().name() for h in holes))
    if key not in _TEMPL:
        f = z3.Function(f'SUM{len(_TEMPL)}', *([h.sort() for h in holes] + [z3.IntSort(), z3.RealSort()]))
        _TEMPL[key] = (f, body, holes)
        _BYFUNC[f.name()] = (f, body, holes)
    f = _TEMPL[key][0]

    def upto(B):
        """sum of e over 0 <= I < B; constant addends of B are written out"""
        B = z3.simplify(B, som=True)
        if is_val(B):
            n, B0 = B.as_long(), z3.IntVal(0)
        else:
            n = sum(a.as_long() for a in B.children() if is_val(a)) if z3.is_add(B) else 0
            B0 = z3.simplify(B - n, som=True) if n else B
        if abs(n) > 4:
            return f(*(vals + [B]))
        r = z3.RealVal(0) if is_val(B0) else f(*(vals + [B0]))
        for j in range(n):
            r = _add(r, canon(z3.substitute(e, (I, z3.simplify(B0 + j)))))
        for j in range(1, -n + 1):
            r = _sub(r, canon(z3.substitute(e, (I, z3.simplify(B0 - j)))))
        return r
    if z3.simplify(hi - lo).eq(z3.IntVal(0)):
        return z3.RealVal(0)
    return _sub(upto(hi + c), upto(lo + c))


def body_at(t, n):
    """body of the template of prefix application t at index n"""
    f, body, holes = _BYFUNC[t.decl().name()]
    args = t.children()
    return z3.substitute(body, *[(h, a) for h, a in zip(holes, args[:-1])], (I, n))


_CANON = {}


def canon(e):
    """e with its prefix sums in the form they would have if they were built now"""
    if not prefix_apps([e]):
        return e
    k = e.get_id()
    if k in _CANON and _CANON[k][0].eq(e):
        return _CANON[k][1]
    cache = {}

    def go(x):
        i = x.get_id()
        if i in cache:
            return cache[i]
        if x.num_args() == 0 or z3.is_quantifier(x):
            r = x
        elif x.decl().name() in _BYFUNC:
            n = z3.simplify(go(x.children()[-1]), som=True)
            b = z3.simplify(body_at(x, I), som=True, pull_cheap_ite=False)
            r = x if contains(x, I) else _norm(z3.IntVal(0), n, canon(b) if prefix_apps([b]) else b)
        else:
            cs = [go(c) for c in x.children()]
            r = x if all(a.eq(b) for a, b in zip(cs, x.children())) else \
                z3.Sum(*cs) if z3.is_add(x) else z3.Product(*cs) if z3.is_mul(x) else x.decl()(*cs)
        cache[i] = r
        return r
    r = go(e)
    _CANON[k] = (e, r)
    return r


def prefix_apps(es):
    seen, out = set(), []

    def go(x):
        if x.get_id() in seen:
            return
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return
        if z3.is_app(x) and x.decl().name() in _BYFUNC and x.num_args() > 0:
            out.append(x)
        for c in x.children():
            go(c)
    for e in es:
        go(e)
    return out


def _intbody(name):
    """is the summand always an integer"""
    def go(x):
        if is_val(x):
            return x.is_int() or x.denominator_as_long() == 1
        if z3.is_to_real(x) or x.is_int():
            return True
        if z3.is_add(x) or z3.is_sub(x) or z3.is_mul(x):
            return all(go(c) for c in x.children())
        if z3.is_app_of(x, z3.Z3_OP_ITE):
            return go(x.arg(1)) and go(x.arg(2))
        return x.decl().name() in _BYFUNC and x.decl().name() != name and _intbody(x.decl().name())
    return go(_BYFUNC[name][1])


def prefix_facts(es, rounds=2):
    """instances of the defining equations of the prefix functions occurring in es"""
    facts = {}
    work = list(es)
    done = set()
    for _ in range(rounds):
        apps = prefix_apps(work)
        new = []
        groups = {}
        for t in apps:
            groups.setdefault(t.decl().name(), []).append(t)
        for name, ts in groups.items():
            f = _BYFUNC[name][0]
            for t in ts:
                if t.get_id() not in done:
                    done.add(t.get_id())
                    hs = t.children()[:-1]
                    n = t.children()[-1]
                    new.append(f(*(hs + [z3.IntVal(0)])) == 0)
                    new.append(z3.Implies(n == 0, t == 0))
                    if _intbody(name):
                        new.append(t == z3.ToReal(z3.ToInt(t)))
                    if is_val(n) and 0 < n.as_long() <= 8:
                        m = n.as_long()
                        new.append(t == z3.Sum([body_at(t, z3.IntVal(k)) for k in range(m)]))
            for i, t in enumerate(ts):
                for u in ts[i + 1:]:
                    if (t.get_id(), u.get_id()) in done:
                        continue
                    done.add((t.get_id(), u.get_id()))
                    if not all(a.eq(b) for a, b in zip(t.children()[:-1], u.children()[:-1])):
                        continue
                    d = z3.simplify(t.children()[-1] - u.children()[-1])
                    if is_val(d) and 0 < abs(d.as_long()) <= 3:
                        k = d.as_long()
                        lo_, hi_ = (u, t) if k > 0 else (t, u)
                        base = lo_.children()[-1]
                        new.append(hi_ == lo_ + z3.Sum([body_at(lo_, z3.simplify(base + j)) for j in range(abs(k))]))
                    elif not is_val(d) and len(ts) <= 8:
                        for p, q in ((t, u), (u, t)):
                            m = q.children()[-1]
                            new.append(z3.Implies(p.children()[-1] == m + 1, p == q + body_at(q, m)))
                            if len(ts) <= 4:
                                new.append(z3.Implies(p.children()[-1] == m + 2, p == q + body_at(q, m) + body_at(q, z3.simplify(m + 1))))
        for n in new:
            facts[n.get_id()] = n
        work = new
        if not new:
            break
    return list(facts.values())


def ssum(lo, hi, f):
    """Sum_{i=lo}^{hi-1} f(SInt i); result SReal. An empty range gives 0."""
    from .arrays import vmerge
    lo, hi = zi(lo), zi(hi)
    J = z3.Int(f'!j{_depth[0]}')
    _depth[0] += 1
    m = CTX.push()
    try:
        # the body is evaluated for an arbitrary index of the range
        CTX.add(z3.And(lo <= J, J < hi))
        b = zr(merge(lambda: f(SInt(J)), vmerge))
    finally:
        CTX.pop(m)
        _depth[0] -= 1
    b = z3.substitute(b, (J, I)) if not contains(b, I) else _fail()
    if CTX.quick(lo >= hi):
        r = z3.RealVal(0)
    elif not is_val(z3.simplify(hi - lo)) and CTX.quick(hi == lo + 1):
        r = z3.substitute(b, (I, lo))
    elif not CTX.quick(lo <= hi):
        r = z3.If(lo >= hi, z3.RealVal(0), ksum(lo, hi, b))
    else:
        r = ksum(lo, hi, b)
    return SReal(r)


_depth = [0]


def _fail():
    raise Unsupported('nested sum index clash')
