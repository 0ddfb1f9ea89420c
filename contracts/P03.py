"""P03: thermal resistances of a borehole are symmetric and consistent."""
from pyvc.api import contract, meta
from contracts.pipes_common import a_pipe, flow, symbolic_pipe, edges_contract, no_reuse

meta('P03', level='proof', note='Line-source resistances, delta-circuits, local and effective resistances: every position, radius, conductivity and resistance, 1 to 4 pipes '
     '(2 U-tubes). Higher multipole orders (fixed-point iteration on complex coefficients), 3 U-tubes and the flow direction of series and parallel U-tubes are bounded.',
     assumptions=['numpy.linalg.inv is used through its contract (A X = I)', 'delta-circuit conductances are not zero where the relation divides by them'])

TR = ('pipes.thermal_resistances',)
B, S = 'pipes._BasePipe.', 'pipes.SingleUTube.'


def pipes_of(C, n, lo=0.):
    P = C.np.array
    pos = [(C.real(f'x{i}'), C.real(f'y{i}')) for i in range(n)]
    g = dict(r_b=C.real('r_b', gt=0.), k_s=C.real('k_s', gt=0.), k_g=C.real('k_g', gt=0.))
    r_out, R_fp = P([C.real(f'r_out{i}', gt=0.) for i in range(n)]), P([C.real(f'R_fp{i}', gt=0.) for i in range(n)])
    for i in range(n):
        C.assume(pos[i][0] ** 2 + pos[i][1] ** 2 < g['r_b'] ** 2)
        for j in range(i):
            C.assume((pos[i][0] - pos[j][0]) ** 2 + (pos[i][1] - pos[j][1]) ** 2 > 0.)
    C.stub(C.gt.pipes, '_compare_thermal_resistances_inputs', lambda *a, **k: False)
    return pos, r_out, R_fp, g


@contract('P03', targets=TR, modes=('prove',))
def line_source(C):
    n = C.choice('n', (1, 2, 3, 4))
    pos, r_out, R_fp, g = pipes_of(C, n)
    f = lambda R: C.gt.pipes.thermal_resistances(pos, r_out, g['r_b'], g['k_s'], g['k_g'], R, J=0)
    R, Rd = f(R_fp)
    d = C.np.array([C.real(f'd{i}') for i in range(n)])
    R2, _ = f(R_fp + d)
    sigma = (g['k_g'] - g['k_s']) / (g['k_g'] + g['k_s'])
    log, sqrt, pi = C.np.log, C.np.sqrt, C.np.pi
    for i in range(n):
        (xi, yi) = pos[i]
        ri2 = (xi ** 2 + yi ** 2) / g['r_b'] ** 2
        C.eq('self-resistance (line source)', R[i, i], R_fp[i] + (log(g['r_b'] / r_out[i]) - sigma * log(1 - sqrt(xi ** 2 + yi ** 2) ** 2 / g['r_b'] ** 2)) / (2 * pi * g['k_g']))
        for j in range(n):
            C.eq('symmetric', R[i, j], R[j, i])
            C.eq('raised by the added fluid-to-pipe resistance', R2[i, j], R[i, j] + (d[i] if i == j else 0.))


@contract('P03', targets=TR, modes=('prove',))
def scalar_arguments(C):
    n = C.choice('n', (1, 2, 4))
    pos, r_out, R_fp, g = pipes_of(C, n)
    a, b = C.real('r_out'), C.real('R_fp')
    f = lambda r, R: C.gt.pipes.thermal_resistances(pos, r, g['r_b'], g['k_s'], g['k_g'], R, J=0)[0]
    R1, R2 = f(a, b), f(C.np.array([a] * n), C.np.array([b] * n))
    for i in range(n):
        for j in range(n):
            C.eq('scalars stand for every pipe', R1[i, j], R2[i, j])


@contract('P03', targets=TR, modes=('prove',))
def delta_circuit(C):
    """the same linear relation between temperatures and heat flows, for any matrix of resistances (J > 0: from the multipole function)"""
    n = C.choice('n', (1, 2, 3, 4))
    pos, r_out, R_fp, g = pipes_of(C, n)
    Rm = C.np.array([[C.real(f'R{i}_{j}') for j in range(n)] for i in range(n)])
    seen = []

    def multipole(pos_, r_out_, r_b, k_s, k_g, R_fp_, T_b, q_p, J, **k):
        C.check('multipole: unit heat flow of one pipe, zero wall temperature', C.And(*[q_p[i] == (1. if i == len(seen) else 0.) for i in range(n)], T_b == 0., J == 3))
        m = len(seen)
        seen.append(m)
        return C.np.array([Rm[i, m] for i in range(n)]), None, 1, 0.
    C.stub(C.gt.pipes, 'multipole', multipole)
    real_inv = C.np.linalg.inv

    def inv(A):
        X = real_inv(A)
        for i in range(n):
            C.assume(sum(X[i, j] for j in range(n)) != 0.)
            for j in range(n):
                C.assume(X[i, j] != 0.)
        return X
    C.stub(C.np.linalg, 'inv', inv)
    R, Rd = C.gt.pipes.thermal_resistances(pos, r_out, g['r_b'], g['k_s'], g['k_g'], R_fp, J=3)
    for i in range(n):
        for j in range(n):
            C.eq('resistance is the temperature rise by a unit heat flow', R[i, j], Rm[i, j])
    # for a unit temperature of one pipe at a time (both relations are linear)
    for k in range(n):
        T = [1. if i == k else 0. for i in range(n)]
        q = [T[i] / Rd[i, i] + sum((T[i] - T[j]) / Rd[i, j] for j in range(n) if j != i) for i in range(n)]
        for i in range(n):
            C.eq('delta-circuit heat flows cause the temperatures', sum(R[i, j] * q[j] for j in range(n)), T[i])


@contract('P03', targets=(B + 'local_borehole_thermal_resistance',), modes=('prove',))
def local_resistance(C):
    n = C.choice('nPipes', (1, 2, 3))
    pipe = symbolic_pipe(C, 'parallel', n)
    T = C.real('T')
    q = sum(T / pipe._Rd[i, i] for i in range(2 * n))
    C.eq('uniform fluid temperature: T_f - T_b = R_b q', pipe.local_borehole_thermal_resistance() * q, T)


@contract('P03', targets=(B + 'effective_borehole_thermal_resistance',), modes=('prove',))
def effective_resistance(C):
    """any outlet temperature and heat extraction coefficients: ratio of mean temperature difference to heat flow, uniform wall temperature"""
    pipe = symbolic_pipe(C, 'parallel', 1)
    a_out, a_Q, m, cp, T_in = C.real('a_out'), C.real('a_Q'), C.real('m', gt=0.), C.real('cp', gt=0.), C.real('T_in')
    np, cls = C.np, C.gt.pipes._BasePipe
    calls = []

    def st(a):
        def f(self, m_, cp_, nSegments, segment_ratios=None):
            C.check('one segment, same flow', C.And(nSegments == 1, m_ == m, cp_ == cp))
            return np.array([[a]]), np.array([[C.real('b')]])
        return f
    C.stub(cls, 'coefficients_outlet_temperature', st(a_out))
    C.stub(cls, 'coefficients_borehole_heat_extraction_rate', st(a_Q))
    C.assume(a_Q != 0.)
    R = pipe.effective_borehole_thermal_resistance(m, cp)
    C.eq('T_b - (T_in + T_out)/2 = R_b Q/H at T_b = 0', R * a_Q * T_in / pipe.b.H, -(T_in + a_out * T_in) / 2)


@contract('P03', targets=(B + 'effective_borehole_thermal_resistance', S + 'coefficients_outlet_temperature', S + 'coefficients_temperature',
                          B + 'coefficients_borehole_heat_extraction_rate'), modes=('prove',))
def flow_direction_single(C):
    """independent of the flow direction, for any delta-circuit of one U-tube"""
    pipe = symbolic_pipe(C, 'single', 1, update='_update_model_variables')
    edges_contract(C, pipe, 1)
    m, cp = C.real('m', gt=0.), C.real('cp', gt=0.)
    a1 = pipe.coefficients_outlet_temperature(m, cp, 1)[0].item()
    a2 = pipe.coefficients_outlet_temperature(-m, cp, 1)[0].item()
    C.eq('outlet temperature', a1, a2)
    C.eq('effective resistance', pipe.effective_borehole_thermal_resistance(m, cp), pipe.effective_borehole_thermal_resistance(-m, cp))


@contract('P03', targets=('pipes.Coaxial.update_thermal_resistances',), modes=('prove',))
def coaxial(C):
    """the inner pipe exchanges heat with the outer pipe only"""
    P, np = C.gt.pipes, C.np
    inner = C.choice('inner', (0, 1))
    b = C.gt.boreholes.Borehole(C.real('H', gt=0.), 1., C.real('r_b', gt=0.), 0., 0.)
    r_out = np.array([C.real('r0', gt=0.), C.real('r1', gt=0.)])
    pipe = C.instance(P.Coaxial, pos=[(0., 0.)], r_out=r_out, b=b, k_s=C.real('k_s', gt=0.), k_g=C.real('k_g', gt=0.), J=2, nPipes=1, nInlets=1, nOutlets=1,
                      _iInner=inner, _iOuter=1 - inner)
    R_ff, R_fp, R = C.real('R_ff', gt=0.), C.real('R_fp', gt=0.), C.real('R_fg', gt=0.)

    def tr(pos, ro, r_b, k_s, k_g, R_fp_, J=2):
        C.check('resistance of the outer pipe', C.And(ro == r_out[1 - inner], r_b == b.r_b, R_fp_ == R_fp, k_s == pipe.k_s, k_g == pipe.k_g))
        return np.array([[R]]), np.array([[R]])
    C.stub(P, 'thermal_resistances', tr)
    C.stub(P._BasePipe, '_initialize_stored_coefficients', lambda self: None)
    pipe.update_thermal_resistances(R_ff, R_fp)
    o = 1 - inner
    C.eq('outer pipe to the borehole wall', pipe._Rd[o, o], R)
    C.eq('between pipes', pipe._Rd[o, inner], R_ff)
    C.eq('between pipes, symmetric', pipe._Rd[inner, o], R_ff)
    C.check('inner pipe isolated from the wall', pipe._Rd[inner, inner] == float('inf'))


# -- bounded ------------------------------------------------------------------------------------------------
def a_section(C, n_pairs=(1, 2, 3)):
    np = C.np
    n = C.choice('nPipes', n_pairs)
    r_b = C.real('r_b', conc=(0.06, 0.1))
    r = C.real('r_out', conc=(0.008, 0.015 if n < 3 else 0.012))
    N = 2 * n
    D = r_b - r - 0.002 - C.real('D', conc=(0., 0.002))
    phi = C.real('phi', conc=(0., 6.))
    a = phi + 2 * np.pi * np.arange(N) / N
    rad = D * (1. - C.array('shift', (N,), conc=(0., 0.06)) * C.choice('irregular', (False, True)))
    pos = [(float(x), float(y)) for x, y in zip(rad * np.cos(a), rad * np.sin(a))]
    return pos, r, r_b, C.real('k_s', conc=(0.8, 4.)), C.real('k_g', conc=(0.5, 3.)), N


@contract('P03', targets=TR + ('pipes.multipole', 'pipes._F_mk'), modes=('conc',), weight=2)
def resistances(C):
    np, P = C.np, C.gt.pipes
    pos, r, r_b, k_s, k_g, N = a_section(C)
    if C.choice('unequal radii', (False, True)):
        r = r * (1. - C.array('thinner', (N,), conc=(0., 0.6)))
    J = C.choice('J', (0, 0, 1, 2, 3))
    R_fp = C.array('R_fp', (N,), conc=(0.02, 0.3))
    if C.choice('same', (True, False)):
        R_fp = float(R_fp[0])
    R, Rd = [x.copy() for x in P.thermal_resistances(pos, r, r_b, k_s, k_g, R_fp, J=J)]
    tol = dict(rtol=1e-9, atol=1e-9) if J == 0 else dict(rtol=1e-5, atol=1e-5)
    C.eq('symmetric', R, R.T, **tol)
    T = C.array('T', (N,), conc=(-5., 20.))
    q = np.linalg.solve(R, T)
    q2 = [T[i] / Rd[i, i] + sum((T[i] - T[j]) / Rd[i, j] for j in range(N) if j != i) for i in range(N)]
    C.eq('delta-circuit relation', np.array(q2), q, rtol=1e-8, atol=1e-8 * np.max(np.abs(q)))
    if J == 0:
        d = C.array('d', (N,), conc=(0.01, 0.1))
        R2 = P.thermal_resistances(pos, r, r_b, k_s, k_g, R_fp + d, J=0)[0]
        C.eq('raised by the added fluid-to-pipe resistance', R2, R + np.diag(d), rtol=1e-9, atol=1e-9)
        for m in range(N):
            qm = np.zeros(N)
            qm[m] = 1.
            C.eq('multipole of order zero is the line source', P.multipole(pos, r, r_b, k_s, k_g, R_fp, 0., qm, 0)[0], R[:, m], rtol=1e-8, atol=1e-9)
    else:
        qp, T_b = C.array('q_p', (N,), conc=(-50., 50.)), C.real('T_b', conc=(-5., 20.))
        T_f = P.multipole(pos, r, r_b, k_s, k_g, R_fp, T_b, qp, J)[0]
        C.eq('multipole temperatures are linear in the heat flows', T_f, T_b + R @ qp, rtol=1e-4, atol=1e-4 * np.max(np.abs(qp)))


@contract('P03', targets=(B + 'local_borehole_thermal_resistance', B + 'effective_borehole_thermal_resistance', 'pipes.borehole_thermal_resistance'), modes=('conc',))
def borehole_resistances(C):
    np = C.np
    pipe, kind = a_pipe(C, kinds=('single', 'coaxial', 'parallel', 'series'), reversible=True)
    m, cp = flow(C, pipe)
    C.eq('delta-circuit conductances are symmetric', 1 / pipe._Rd, 1 / pipe._Rd.T, rtol=1e-3, atol=1e-3)
    C.eq('local resistance', pipe.local_borehole_thermal_resistance() * sum(1. / pipe._Rd[i, i] for i in range(2 * pipe.nPipes)), 1.)
    R = pipe.effective_borehole_thermal_resistance(m, cp)
    T_b, T_in = C.real('T_b', conc=(-5., 20.)), C.real('T_in', conc=(21., 40.))
    T_out = pipe.get_outlet_temperature(T_in, T_b, m, cp)
    Q = abs(m) * cp * (T_out - T_in)
    C.eq('effective resistance', R * Q / pipe.b.H, T_b - 0.5 * (T_in + T_out), rtol=1e-6 if kind in ('single', 'coaxial') else 1e-3)
    if kind in ('single', 'coaxial') or C.inputs.get('symmetric', True):
        C.eq('independent of the flow direction', pipe.effective_borehole_thermal_resistance(-m, cp), R, rtol=1e-4)
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        C.eq('deprecated function', C.gt.pipes.borehole_thermal_resistance(pipe, m, cp), R)
