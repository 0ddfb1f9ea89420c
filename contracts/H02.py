"""H02: finite line source evaluations agree whichever way they are requested."""
from pyvc.api import contract, meta
from contracts.common import a_borehole

meta('H02', level='proof', note='Vertical boreholes: every geometry, time, number of times and number of boreholes. The quadrature over time is used through its '
     'contract (exact integral: linear in the integrand and additive over intervals). Inclined boreholes: every geometry, any nodes and weights of the inner '
     'quadrature rule; numbers of nodes enumerated.')

HT = 'heat_transfer.'
T = (HT + 'finite_line_source', HT + '_finite_line_source_integrand', 'utilities.erfint', 'boreholes.Borehole.distance', 'boreholes.Borehole.is_vertical')
TS = (HT + 'finite_line_source', HT + '_finite_line_source_steady_state')
TA = (HT + 'finite_line_source', HT + 'finite_line_source_approximation')
TV = T + (HT + 'finite_line_source_vectorized',)
TE = T + (HT + 'finite_line_source_equivalent_boreholes_vectorized', HT + '_finite_line_source_equivalent_boreholes_integrand')
PARTS = ((True, True), (True, False), (False, True), (False, False))
OPT = dict(rtol=2e-6, atol=1e-7)


def alpha_time(C, n=None):
    al = C.real('alpha', gt=0., conc=(5e-7, 2e-6))
    if n is None:
        return al, C.real('time', gt=0., conc=(1e6, 1e9))
    t = C.array('time', (n,), gt=0., conc=(1e6, 1e9))
    if C.mode == 'conc' and C.choice('increasing', (True, False)):
        t = C.np.sort(t)
    return al, t


def at_times(C, name, how, h, t, idx, f):
    """entry idx of h at every time is f(time)"""
    for k in C.each(C.len(t)):
        C.eq(name, C.at(h, *idx, k), f(C.at(t, k)), **how)


def kwargs(C, how):
    """how: 'exact' or 'approximation'"""
    if how == 'exact':
        return {}
    if C.sym:
        stub_approximation(C)
        return dict(approximation=True, N=2)
    return dict(approximation=True, N=C.choice('N', (5, 10)))


def stub_approximation(C):
    """the exponential integral and the coefficients of the approximation are any function and any numbers"""
    from pyvc import shim
    C.stub(C.gt.heat_transfer, 'exp1', shim.opaque_fun('exp1'))


def fls(C, time, alpha, b1, b2, part=(True, True), **kw):
    return C.gt.heat_transfer.finite_line_source(time, alpha, b1, b2, reaSource=part[0], imgSource=part[1], **kw)


def two(C, tilted=False):
    return a_borehole(C, 'b1', tilted=tilted), a_borehole(C, 'b2', tilted=tilted)


def moved(C, b, dx, dy):
    return C.gt.boreholes.Borehole(b.H, b.D, b.r_b, b.x + dx, b.y + dy, tilt=b.tilt, orientation=b.orientation)


def parts_and_translation(C, b1, b2, f):
    full, rea, img, none = [f(b1, b2, p) for p in PARTS]
    C.eq('full solution is the sum of real and image parts', full, rea + img, **OPT)
    C.eq('no part requested: zero', none, 0.)
    dx, dy = C.real('dx', conc=(-50., 50.)), C.real('dy', conc=(-50., 50.))
    c1, c2 = moved(C, b1, dx, dy), moved(C, b2, dx, dy)
    for p, h in zip(PARTS, (full, rea, img)):
        C.eq('unaffected by a horizontal translation', f(c1, c2, p), h, **OPT)


@contract('H02', targets=T)
def vertical_parts(C):
    b1, b2 = two(C)
    al, t = alpha_time(C)
    parts_and_translation(C, b1, b2, lambda a, b, p: fls(C, t, al, a, b, p))


@contract('H02', targets=TS)
def vertical_parts_steady(C):
    b1, b2 = two(C)
    inf = C.gt.heat_transfer.np.inf
    parts_and_translation(C, b1, b2, lambda a, b, p: fls(C, inf, 1e-6, a, b, p))


@contract('H02', targets=TA)
def vertical_parts_approximation(C):
    b1, b2 = two(C)
    al, t = alpha_time(C)
    kw = kwargs(C, 'approximation')
    parts_and_translation(C, b1, b2, lambda a, b, p: fls(C, t, al, a, b, p, **kw))


@contract('H02', targets=(HT + '_finite_line_source_integrand', HT + '_finite_line_source_steady_state', HT + 'finite_line_source_approximation'))
def image_is_mirrored_source(C):
    """the image part is minus the real part of the source mirrored by the ground surface"""
    H1, D1, H2, D2 = [C.real(n, gt=0., conc=(5., 100.)) for n in ('H1', 'D1', 'H2', 'D2')]
    d, s = C.real('d', gt=0., conc=(0.05, 20.)), C.real('s', gt=0., conc=(1e-3, 1.))
    al, t = alpha_time(C)
    m = C.gt.heat_transfer
    f = lambda D, r, i: m._finite_line_source_integrand(d, H1, D, H2, D2, r, i)(s)
    C.eq('integrand', f(D1, False, True), -f(-D1 - H1, True, False), rtol=1e-6)
    if C.sym:
        return
    kw = kwargs(C, 'approximation')
    kw.pop('approximation')
    g = lambda D, r, i: m.finite_line_source_approximation(t, al, d, H1, D, H2, D2, reaSource=r, imgSource=i, **kw)
    C.eq('approximation', g(D1, False, True), -g(-D1 - H1, True, False), **OPT)
    h = lambda D, r, i: m._finite_line_source_steady_state(d, H1, D, H2, D2, r, i)
    C.eq('steady state', h(D1, False, True), -h(-D1 - H1, True, False), **OPT)


def entries(C, how, steady=False):
    """lists of boreholes against pairs of boreholes"""
    n1, n2 = C.int('n1', 1, conc=(1, 3)), C.int('n2', 1, conc=(1, 3))
    part = C.choice('part', PARTS[:3])
    L1, L2 = boreholes(C, 'p', n1), boreholes(C, 'q', n2)
    al, t = alpha_time(C)
    if steady:
        t = C.gt.heat_transfer.np.inf
    kw = kwargs(C, how)
    h = fls(C, t, al, L1, L2, part, **kw)
    C.same_shape('one value per pair of boreholes', h, (n2, n1))
    for j, i in C.each(n2, n1):
        b1, b2 = C.at(L1, i), C.at(L2, j)
        C.assume(distinct(C, b1, b2))
        C.eq('list of boreholes', C.at(h, j, i), fls(C, t, al, b1, b2, part, **kw), **OPT)
    return h


def distinct(C, b1, b2):
    return True


def boreholes(C, p, n, tilted=False):
    m = C.gt.boreholes
    H, D, r, x, y = [C.array(p + k, (n,), **kw) for k, kw in (
        ('H', dict(gt=0., conc=(20., 200.))), ('D', dict(lo=0., conc=(0.5, 10.))), ('r', dict(gt=0., conc=(0.05, 0.1))),
        ('x', dict(conc=(-20., 20.))), ('y', dict(conc=(-20., 20.))))]
    if tilted:
        ti, o = C.array(p + 't', (n,), gt=0.01, lt=1.5, conc=(0.05, 1.)), C.array(p + 'o', (n,), conc=(-3., 3.))
        mk = lambda i: m.Borehole(H[i], D[i], r[i], x[i], y[i], tilt=ti[i], orientation=o[i])
    else:
        mk = lambda i: m.Borehole(H[i], D[i], r[i], x[i], y[i])
    return C.symlist(n, mk) if C.mode == 'prove' else [mk(i) for i in range(n)]


@contract('H02', targets=TV)
def vertical_lists(C):
    entries(C, 'exact')


@contract('H02', targets=TS)
def vertical_lists_steady(C):
    entries(C, 'exact', steady=True)


@contract('H02', targets=TA)
def vertical_lists_approximation(C):
    entries(C, 'approximation')


@contract('H02', targets=T)
def vertical_times(C):
    """array of times against single times"""
    n = C.int('n', 1, conc=(1, 5))
    part = C.choice('part', PARTS[:3])
    how = C.choice('how', ('exact', 'approximation'))
    b1, b2 = two(C)
    al, t = alpha_time(C, n)
    kw = kwargs(C, how)
    h = fls(C, t, al, b1, b2, part, **kw)
    C.same_shape('one value per time', h, (n,))
    for k in C.each(n):
        C.eq('array of times', C.at(h, k), fls(C, C.at(t, k), al, b1, b2, part, **kw), **OPT)


@contract('H02', targets=TV)
def vertical_lists_times(C):
    """lists of boreholes and arrays of times"""
    n1, n2, n = C.int('n1', 1, conc=(1, 3)), C.int('n2', 1, conc=(1, 3)), C.int('n', 1, conc=(1, 4))
    part = C.choice('part', PARTS[:3])
    how = C.choice('how', ('exact', 'approximation'))
    L1, L2 = boreholes(C, 'p', n1), boreholes(C, 'q', n2)
    al, t = alpha_time(C, n)
    kw = kwargs(C, how)
    h = fls(C, t, al, L1, L2, part, **kw)
    C.same_shape('one value per pair of boreholes and time', h, (n2, n1, n))
    for j, i, k in C.each(n2, n1, n):
        C.eq('list of boreholes and array of times', C.at(h, j, i, k), fls(C, C.at(t, k), al, C.at(L1, i), C.at(L2, j), part, **kw), **OPT)


@contract('H02', targets=TV)
def vertical_vectorized(C):
    """the vectorized function evaluates the same function of distances and dimensions"""
    n = C.int('n', 1, conc=(1, 5))
    part = C.choice('part', PARTS[:3])
    how = C.choice('how', ('exact', 'approximation'))
    al, t = alpha_time(C)
    kw = kwargs(C, how)
    m = C.gt.heat_transfer
    d, H1, D1, H2, D2 = [C.array(k, (n,), gt=0., conc=(5., 100.)) for k in ('d', 'H1', 'D1', 'H2', 'D2')]
    h = m.finite_line_source_vectorized(t, al, d, H1, D1, H2, D2, reaSource=part[0], imgSource=part[1], **kw)
    C.same_shape('one value per element', h, (n,))
    for i in C.each(n):
        C.assume(C.at(d, i) > 1.)
        b1 = C.gt.boreholes.Borehole(C.at(H1, i), C.at(D1, i), 0.1, 0., 0.)
        b2 = C.gt.boreholes.Borehole(C.at(H2, i), C.at(D2, i), 0.1, C.at(d, i), 0.)
        C.eq('vectorized', C.at(h, i), fls(C, t, al, b1, b2, part, **kw), **OPT)


@contract('H02', targets=TE)
def equivalent(C):
    """equivalent boreholes: weighted by the number of pairs at each distance, divided by the number of receiving boreholes"""
    n, K = C.int('n', 1, conc=(1, 4)), C.int('K', 1, conc=(1, 4), bounded='always' if C.sym else None)
    part = C.choice('part', PARTS)
    al, t = alpha_time(C)
    m = C.gt.heat_transfer
    d, w = C.array('d', (K,), gt=1., conc=(1., 30.)), C.array('w', (K,), gt=0., conc=(1., 5.))
    H1, D1, H2, D2, N2 = [C.array(k, (n,), gt=0., conc=(5., 100.)) for k in ('H1', 'D1', 'H2', 'D2', 'N2')]
    h = m.finite_line_source_equivalent_boreholes_vectorized(t, al, d, w, H1, D1, H2, D2, N2, reaSource=part[0], imgSource=part[1])
    C.same_shape('one value per element', h, (n,))
    for i in C.each(n):
        hs = [m.finite_line_source_vectorized(t, al, d[k], C.at(H1, i), C.at(D1, i), C.at(H2, i), C.at(D2, i), reaSource=part[0], imgSource=part[1]) for k in range(K)]
        C.eq('weighted sum of pair responses', C.at(h, i) * C.at(N2, i), sum(w[k] * hs[k] for k in range(K)), **OPT)


@contract('H02', targets=TV)
def vertical_vectorized_times(C):
    """arrays of elements and of times"""
    n, nt = C.int('n', 1, conc=(1, 3)), C.int('nt', 1, conc=(1, 4))
    part = C.choice('part', PARTS[:3])
    how = C.choice('how', ('exact', 'approximation'))
    al, t = alpha_time(C, nt)
    kw = dict(kwargs(C, how), reaSource=part[0], imgSource=part[1])
    f = C.gt.heat_transfer.finite_line_source_vectorized
    d, H1, D1, H2, D2 = [C.array(k, (n,), gt=0., conc=(5., 100.)) for k in ('d', 'H1', 'D1', 'H2', 'D2')]
    h = f(t, al, d, H1, D1, H2, D2, **kw)
    C.same_shape('one value per element and time', h, (n, nt))
    for i in C.each(n):
        at_times(C, 'vectorized array of times', OPT, h, t, (i,), lambda s: f(s, al, C.at(d, i), C.at(H1, i), C.at(D1, i), C.at(H2, i), C.at(D2, i), **kw))


@contract('H02', targets=TE)
def equivalent_times(C):
    """equivalent boreholes: array of times"""
    n, K, nt = C.int('n', 1, conc=(1, 3)), C.int('K', 1, conc=(1, 3), bounded='always' if C.sym else None), C.int('nt', 1, conc=(1, 4))
    part = C.choice('part', PARTS[:3])
    al, t = alpha_time(C, nt)
    kw = dict(reaSource=part[0], imgSource=part[1])
    f = C.gt.heat_transfer.finite_line_source_equivalent_boreholes_vectorized
    d, w = C.array('d', (K,), gt=1., conc=(1., 30.)), C.array('w', (K,), gt=0., conc=(1., 5.))
    H1, D1, H2, D2, N2 = [C.array(k, (n,), gt=0., conc=(5., 100.)) for k in ('H1', 'D1', 'H2', 'D2', 'N2')]
    h = f(t, al, d, w, H1, D1, H2, D2, N2, **kw)
    C.same_shape('one value per element and time', h, (n, nt))
    for i in C.each(n):
        at_times(C, 'equivalent boreholes, array of times', OPT, h, t, (i,),
                 lambda s: f(s, al, d, w, C.at(H1, i), C.at(D1, i), C.at(H2, i), C.at(D2, i), C.at(N2, i), **kw))


# -- inclined boreholes -------------------------------------------------------------------------------
I = (HT + 'finite_line_source', HT + '_finite_line_source_inclined_integrand')
IS = (HT + 'finite_line_source', HT + '_finite_line_source_inclined_steady_state')
IA = (HT + 'finite_line_source', HT + 'finite_line_source_inclined_approximation')
IV = I + (HT + 'finite_line_source_inclined_vectorized',)
INC = dict(rtol=2e-5, atol=2e-5)
MODES = ('bounded', 'conc')


def nodes(C):
    return C.choice('M', (1, 2)) if C.sym else C.choice('M', (7, 11, 16))


def inclined_parts(C, f):
    b1, b2 = two(C, tilted=True)
    parts_and_translation(C, b1, b2, f)


@contract('H02', targets=I, modes=MODES)
def inclined_parts_exact(C):
    al, t = alpha_time(C)
    M = nodes(C)
    inclined_parts(C, lambda a, b, p: fls(C, t, al, a, b, p, M=M))


@contract('H02', targets=IS, modes=MODES)
def inclined_parts_steady(C):
    M = nodes(C)
    inclined_parts(C, lambda a, b, p: fls(C, C.gt.heat_transfer.np.inf, 1e-6, a, b, p, M=M))


@contract('H02', targets=IA, modes=MODES)
def inclined_parts_approximation(C):
    al, t = alpha_time(C)
    M = nodes(C)
    kw = kwargs(C, 'approximation')
    inclined_parts(C, lambda a, b, p: fls(C, t, al, a, b, p, M=M, **kw))


def inclined_entries(C, how, steady=False, times=False):
    n1, n2 = C.int('n1', 1, conc=(1, 2), bounded=(2,)), C.int('n2', 1, conc=(1, 2), bounded=(1, 2))
    part = C.choice('part', PARTS[:3])
    L1, L2 = boreholes(C, 'p', n1, tilted=True), boreholes(C, 'q', n2, tilted=True)
    n = C.int('n', 1, conc=(1, 3), bounded=(2,)) if times else None
    al, t = alpha_time(C, n)
    M = C.choice('M', (2,)) if C.sym else nodes(C)
    if steady:
        t = C.gt.heat_transfer.np.inf
    kw = dict(kwargs(C, how), M=M)
    h = fls(C, t, al, L1, L2, part, **kw)
    C.same_shape('one value per pair of boreholes', h, (n2, n1) + ((n,) if times else ()))
    for j, i in C.each(n2, n1):
        b1, b2 = C.at(L1, i), C.at(L2, j)
        if times:
            for k in C.each(n):
                C.eq('list of boreholes and array of times', C.at(h, j, i, k), fls(C, C.at(t, k), al, b1, b2, part, **kw), **INC)
            C.eq('array of times', h[j, i, :] if not C.sym else C.np.stack([C.at(h, j, i, k) for k in range(n)]), fls(C, t, al, b1, b2, part, **kw), **INC)
        else:
            C.eq('list of boreholes', C.at(h, j, i), fls(C, t, al, b1, b2, part, **kw), **INC)


@contract('H02', targets=IV, modes=MODES)
def inclined_lists(C):
    inclined_entries(C, 'exact')


@contract('H02', targets=IS, modes=MODES)
def inclined_lists_steady(C):
    inclined_entries(C, 'exact', steady=True)


@contract('H02', targets=IA, modes=MODES)
def inclined_lists_approximation(C):
    inclined_entries(C, 'approximation')


@contract('H02', targets=IV, modes=MODES)
def inclined_lists_times(C):
    inclined_entries(C, C.choice('how', ('exact', 'approximation')), times=True)


@contract('H02', targets=I + IS + IA + T + TS + TA, modes=('conc',))
def same_function(C):
    """vertical and inclined formulations, exact and approximate evaluations, long times and steady state (numerically)"""
    al, t = alpha_time(C)
    b1, b2 = two(C, tilted=False)
    C.assume(b1.D > 0.5 and b2.D > 0.5)
    m = C.gt.heat_transfer
    part = C.choice('part', PARTS[:3])
    C.assume(part[0] is False or b1.distance(b2) > 4.)
    kw = dict(reaSource=part[0], imgSource=part[1])
    h = fls(C, t, al, b1, b2, part)
    args = (b1.r_b, b1.x, b1.y, b1.H, b1.D, 0., 0., b2.x, b2.y, b2.H, b2.D, 0., 0.)
    hi = m.finite_line_source_inclined_vectorized(t, al, *args, M=101, **kw)
    scale = float(abs(h)) + 1e-3
    C.le('vertical boreholes: same value from the inclined formulation', abs(hi - h) / scale, 2e-3)
    C.le('approximation', abs(fls(C, t, al, b1, b2, part, approximation=True, N=20) - h) / (scale + 0.05), 5e-3)
    ha = m.finite_line_source_inclined_vectorized(t, al, *args, M=101, approximation=True, N=20, **kw)
    C.le('approximation of the inclined formulation', abs(ha - h) / (scale + 0.05), 5e-3)
    hs = fls(C, C.np.inf, al, b1, b2, part)
    C.le('steady state is the limit', abs(fls(C, 1e16, al, b1, b2, part) - hs) / (abs(hs) + 1e-3), 2e-3)
    hsi = m._finite_line_source_inclined_steady_state(*args, part[0], part[1], M=101)
    C.le('steady state of the inclined formulation', abs(hsi - hs) / (abs(hs) + 1e-3), 2e-3)


@contract('H02', targets=('utilities.erfint', 'utilities.exp1', 'utilities._erf_coeffs'), modes=('conc',))
def special_functions(C):
    import scipy.special as sp
    import scipy.integrate as si
    u = C.gt.utilities
    x = C.real('x', gt=0., conc=(1e-4, 12.)) ** C.choice('power', (1, 2, 0.3))
    C.le('exponential integral', abs(u.exp1(x) / sp.exp1(x) - 1.), 5e-3) if x < 600 else None
    y = C.real('y', conc=(-8., 8.))
    C.eq('integral of the error function', u.erfint(y), si.quad(sp.erf, 0., y)[0], rtol=1e-7, atol=1e-8)
    N = C.int('N', 1, 24, conc=(1, 24))
    a, b = u._erf_coeffs(N)
    C.check('number of coefficients', len(a) == len(b) == N + 2)
    z = abs(y)
    C.le('error function', abs(C.np.sum(a * C.np.exp(-b * z**2)) - sp.erf(z)), MINIMAX[N - 1])


# uniform bounds of the approximations by sums of exponentials, for an increasing number of terms
MINIMAX = [.0254, .0085, .0034, .00153, 7.5e-4, 3.9e-4, 2.2e-4, 1.2e-4, 7.1e-5, 4.3e-5, 2.7e-5, 1.7e-5, 1.1e-5, 7.e-6, 4.6e-6, 3.1e-6, 2.1e-6, 1.5e-6,
           1.e-6, 7.e-7, 5.e-7, 4.e-7, 3.e-7, 3.e-7]
