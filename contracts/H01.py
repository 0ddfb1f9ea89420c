"""H01: reciprocity of finite line source responses: H2 h(1 to 2) = H1 h(2 to 1)."""
from pyvc.api import contract, meta
from contracts import H02
from contracts.H02 import HT, T, TS, TA, TV, I, IS, IA, PARTS, alpha_time, kwargs, fls, two, boreholes
from contracts.common import a_borehole

meta('H01', level='proof', note='Vertical boreholes: every geometry, time and number of boreholes, for the exact evaluation (through the contract of the quadrature), the '
     'approximation (any coefficients and exponential integral) and the steady state. Inclined boreholes: numerically, with converged inner quadrature (bounded).',
     assumptions=['boreholes closer than a borehole radius to each other have the same radius (the code then replaces the distance by the radius of the source)'])


def apart(C, b1, b2, case):
    if case == 'same radius':
        b2.r_b = b1.r_b
        if C.mode == 'conc' and C.choice('coincident', (True, False)):
            b2.x, b2.y = b1.x, b1.y
    else:
        d = C.np.sqrt((b1.x - b2.x)**2 + (b1.y - b2.y)**2)
        C.assume(d >= b1.r_b)
        C.assume(d >= b2.r_b)
    return b1, b2


@contract('H01', targets=('boreholes.Borehole.distance',))
def distance_is_symmetric(C):
    """contract of Borehole.distance used by the other contracts"""
    b1, b2 = two(C)
    apart(C, b1, b2, C.choice('case', ('apart', 'same radius')))
    C.eq('symmetric', b1.distance(b2), b2.distance(b1))
    C.lt('positive', 0., b1.distance(b2))


def reciprocal(C, f, rtol=2e-6, atol=2e-5):
    b1, b2 = two(C)
    if C.sym:
        d = C.real('distance', gt=0.)
        C.stub(C.gt.boreholes.Borehole, 'distance', lambda self, target: d)
    else:
        apart(C, b1, b2, C.choice('case', ('apart', 'same radius')))
    for part, name in zip(PARTS, ('full', 'real', 'image')):
        C.eq(f'reciprocity of the {name} response', f(b1, b2, part) * b2.H, f(b2, b1, part) * b1.H, rtol=rtol, atol=atol)


@contract('H01', targets=T)
def vertical(C):
    al, t = alpha_time(C)
    reciprocal(C, lambda a, b, p: fls(C, t, al, a, b, p))


@contract('H01', targets=TA)
def vertical_approximation(C):
    al, t = alpha_time(C)
    kw = kwargs(C, 'approximation')
    reciprocal(C, lambda a, b, p: fls(C, t, al, a, b, p, **kw))


@contract('H01', targets=TS)
def vertical_steady(C):
    reciprocal(C, lambda a, b, p: fls(C, C.gt.heat_transfer.np.inf, 1e-6, a, b, p))


def reciprocal_lists(C, how, steady=False):
    # for all lists: follows from `vertical` and H02 `vertical_lists` (an entry of the matrix is the response of the pair)
    n1, n2 = C.int('n1', 1, conc=(1, 3)), C.int('n2', 1, conc=(1, 3))
    part = C.choice('part', PARTS[:3])
    L1, L2 = boreholes(C, 'p', n1), boreholes(C, 'q', n2)
    al, t = alpha_time(C)
    if steady:
        t = C.gt.heat_transfer.np.inf
    kw = kwargs(C, how)
    h, g = fls(C, t, al, L1, L2, part, **kw), fls(C, t, al, L2, L1, part, **kw)
    for j, i in C.each(n2, n1):
        b1, b2 = C.at(L1, i), C.at(L2, j)
        d = C.np.sqrt((b1.x - b2.x)**2 + (b1.y - b2.y)**2)
        C.assume(d >= b1.r_b)
        C.assume(d >= b2.r_b)
        C.eq('reciprocity of lists of boreholes', C.at(h, j, i) * b2.H, C.at(g, i, j) * b1.H, rtol=2e-6, atol=2e-5)


@contract('H01', targets=TV, modes=('conc',))
def vertical_lists(C):
    reciprocal_lists(C, 'exact')


@contract('H01', targets=TA, modes=('conc',))
def vertical_lists_approximation(C):
    reciprocal_lists(C, 'approximation')


@contract('H01', targets=TS, modes=('conc',))
def vertical_lists_steady(C):
    reciprocal_lists(C, 'exact', steady=True)


# -- inclined boreholes ------------------------------------------------------------------------------
def inclined(C, f, tol):
    b1, b2 = two(C, tilted=True)
    part = C.choice('part', PARTS[:3])
    # converged inner quadrature: boreholes that stay far enough from each other, at short lengths
    L = max(b1.H, b2.H)
    C.assume(b1.D > 1. and b2.D > 1.)
    C.assume(segments_apart(C, b1, b2) > 0.08 * L)
    x, y = f(b1, b2, part) * b2.H, f(b2, b1, part) * b1.H
    C.eq('reciprocity of the response of inclined boreholes', x, y, rtol=tol, atol=tol * 10.)


def segments_apart(C, b1, b2):
    np = C.np
    u = np.linspace(0., 1., 101)

    def pts(b):
        s = b.H * u
        return np.stack([b.x + s * np.sin(b.tilt) * np.cos(b.orientation), b.y + s * np.sin(b.tilt) * np.sin(b.orientation), b.D + s * np.cos(b.tilt)])
    p, q = pts(b1), pts(b2)
    return np.sqrt(((p[:, :, None] - q[:, None, :])**2).sum(0)).min()


@contract('H01', targets=I, modes=('conc',))
def inclined_exact(C):
    al, t = alpha_time(C)
    inclined(C, lambda a, b, p: fls(C, t, al, a, b, p, M=101), 1e-3)


@contract('H01', targets=IA, modes=('conc',))
def inclined_approximation(C):
    al, t = alpha_time(C)
    inclined(C, lambda a, b, p: fls(C, t, al, a, b, p, M=101, approximation=True, N=20), 5e-3)


@contract('H01', targets=IS, modes=('conc',))
def inclined_steady(C):
    inclined(C, lambda a, b, p: fls(C, C.np.inf, 1e-6, a, b, p, M=101), 1e-3)
