"""grouping of boreholes and segments: values that are compared are equal or differ by more than the tolerance"""
from types import SimpleNamespace


def separated(C, tol, a, b):
    C.assume(C.Or(a == b, abs(a - b) >= tol * (abs(a) + 1e-30)))


def a_pair(C, name, tilt=False, position=False):
    """two (segments of) boreholes"""
    out = []
    for k in (1, 2):
        b = SimpleNamespace(H=C.real(f'{name}.H{k}', gt=0.), D=C.real(f'{name}.D{k}', gt=0.), r_b=C.real(f'{name}.r_b{k}', gt=0.))
        if tilt:
            b.tilt, b.orientation = C.real(f'{name}.tilt{k}', 0.), C.real(f'{name}.orientation{k}')
        if position:
            b.x, b.y = C.real(f'{name}.x{k}'), C.real(f'{name}.y{k}')
        out.append(b)
    return tuple(out)


def same_vertical(C, tol, p, q, compare, tag):
    (a, b), (c, d) = p, q
    for u, v in ((a.H, c.H), (b.H, d.H), (a.H, b.H), (b.D + a.D, d.D + c.D)):
        separated(C, tol, u, v)
    # (the comparison of depth differences of pairs at the same depth uses 1e-30 in place of zero)
    d1, d2 = b.D - a.D, d.D - c.D
    separated(C, tol, d1, d2)
    separated(C, tol, abs(d1), abs(d2))
    if compare(p, q):
        _ = [
        C.eq(tag + 'same lengths', a.H, c.H), C.eq(tag + 'same lengths', b.H, d.H),
        C.check(tag + 'same depths, or interchanged depths of equal lengths', C.Or(C.And(a.D == c.D, b.D == d.D), C.And(a.H == b.H, a.D == d.D, b.D == c.D)))]
