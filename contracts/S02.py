"""S02: g-function solutions satisfy their boundary condition and the superposition law."""
from pyvc.api import contract, meta
from contracts.solvers_common import Setup, FieldNetwork, a_solver, SOLVE
from contracts.solvers_real import solution

meta('S02', level='proof', note='One step of the solution with each boundary condition from an arbitrary state, the superposition and the reconstruction on their own: every number of '
     'segments, times, linear times and mass flow rates. Whole solutions of every solver (laws evaluated from the returned rates and temperatures with independently computed '
     'response factors) are bounded.',
     assumptions=['numpy.linalg.solve is used through its contract (A X = B)', 'scipy interp1d is used through its contract (a curve through the points)',
                  'the coefficients of the network satisfy their contract (N01)'])


@contract('S02', targets=(SOLVE,), modes=('prove',))
def uniform_temperature(C):
    S = Setup(C, 'UBWT')
    g = S.solve()
    first = S.step()
    S.check_times()
    s, n = S.s, S.n
    c = S.calls[-1]
    C.same_shape('one value per time', g, (S.nt,))
    C.same_shape('rates of every segment', s.Q_b, (n, S.nt))
    C.same_shape('one wall temperature', s.T_b, (S.nt,))
    scaled = lambda j, m: 1. + (C.at(s.Q_b, j, m) - 1.) * S.thr / C.at(S.time, m)
    S.check_history(c, lambda i, col: C.at(s.Q_b, i, col), scaled)
    if first and S.low:
        for m in C.each(S.p):
            law(C, S, c, lambda i: S.unscale(C.at(s.T_b, m), m), lambda j: scaled(j, m), 'up to the threshold, values at the threshold: ')
            C.eq('g-function is the uniform wall temperature', C.at(g, m), C.at(s.T_b, m))
            proportional(C, S, lambda a: C.at(g, a), m)
    else:
        law(C, S, c, lambda i: C.at(s.T_b, S.col), lambda j: C.at(s.Q_b, j, S.col), '')
        C.eq('g-function is the uniform wall temperature', C.at(g, S.col), C.at(s.T_b, S.col))


def proportional(C, S, f, m):
    for m2 in C.each(S.p):
        C.eq('proportional to time up to the threshold', f(m) * C.at(S.time, m2), f(m2) * C.at(S.time, m))


def law(C, S, c, T, Q, tag):
    for i in C.each(S.n):
        C.assume(C.row(C.solves()[-1], i))
        C.eq(tag + 'superposition of the loads of all segments', C.sum(0, S.n, lambda j: S.h.at(i, j, S.dt) * Q(j)) + C.at(c.T, i), T(i))


@contract('S02', targets=(SOLVE,), modes=('prove',))
def uniform_heat_extraction(C):
    S = Setup(C, 'UHTR')
    g = S.solve()
    first = S.step()
    S.check_times()
    s, n = S.s, S.n
    C.same_shape('one value per time', g, (S.nt,))
    C.same_shape('temperatures of every segment', s.T_b, (n, S.nt))
    C.eq('unit heat extraction rate', s.Q_b, 1.)
    total = C.sum(0, n, lambda i: C.at(S.H, i))
    if first and S.low:
        for m in C.each(S.p):
            for i in C.each(n):
                C.eq('up to the threshold: superposition of unit loads, scaled', S.unscale(C.at(s.T_b, i, m), m), C.sum(0, n, lambda j: C.at(S.h.y, i, j, 1)))
            C.eq('length-weighted mean', C.at(g, m) * total, C.sum(0, n, lambda i: C.at(S.H, i) * C.at(s.T_b, i, m)))
            proportional(C, S, lambda a: C.at(g, a), m)
    else:
        for i in C.each(n):
            C.eq('superposition of unit loads', C.at(s.T_b, i, S.col), C.sum(0, n, lambda j: C.at(S.h.y, i, j, S.k + 1)))
        C.eq('length-weighted mean', C.at(g, S.col) * total, C.sum(0, n, lambda i: C.at(S.H, i) * C.at(s.T_b, i, S.col)))


@contract('S02', targets=(SOLVE,), modes=('prove',))
def network(C):
    nM = C.choice('nMassFlow', (0, 1, 2))
    nf = max(nM, 1)
    S = Setup(C, 'MIFT', nMassFlow=nM)
    N = FieldNetwork(C, S, nf)
    s, n, np = S.s, S.n, C.np
    g = S.solve()
    S.check_times()
    C.same_shape('one value per time (and pair of mass flow rates)', g, (S.nt,) if nM == 0 else (nf, nf, S.nt))
    C.same_shape('rates of every segment', s.Q_b, (n, S.nt) if nM == 0 else (nf, n, S.nt))
    C.same_shape('temperatures of every segment', s.T_b, (n, S.nt) if nM == 0 else (nf, n, S.nt))
    G = lambda a, b, m: C.at(g, m) if nM == 0 else C.at(g, a, b, m)
    T = lambda a, i, m: C.at(s.T_b, i, m) if nM == 0 else C.at(s.T_b, a, i, m)
    Q = lambda a, i, m: C.at(s.Q_b, i, m) if nM == 0 else C.at(s.Q_b, a, i, m)
    total = C.sum(0, n, lambda i: C.at(S.H, i))
    w = 2. * np.pi * N.k_s
    for a in range(nf):
        first = S.step(a)
        scaled = lambda j, m: 1. + (Q(a, j, m) - 1.) * S.thr / C.at(S.time, m)
        C.check('one set of borehole coefficients per mass flow rate', len(N.marks) == nf)
        S.check_history(N.last(a)[1], lambda i, col: Q(a, i, col), scaled)
        if first and S.low:
            for m in C.each(S.p):
                network_law(C, S, N, a, lambda i: S.unscale(T(a, i, m), m), lambda j: scaled(j, m), lambda b: S.unscale(G(b, a, m), m), total, w, 'up to the threshold, values at the threshold: ')
                proportional(C, S, lambda q: G(a, a, q), m)
        else:
            network_law(C, S, N, a, lambda i: T(a, i, S.col), lambda j: Q(a, j, S.col), lambda b: G(b, a, S.col), total, w, '')


def network_law(C, S, N, a, T, Q, G, total, w, tag):
    rec, call = N.last(a)
    T_in = lambda b: G(b) + w * N.R[b] + w * total / (2. * abs(N.flows[b]) * N.cp)
    for i in C.each(S.n):
        C.assume(C.row(rec, i))
        C.eq(tag + 'superposition of the loads of all segments', C.sum(0, S.n, lambda j: S.h.at(i, j, S.dt) * Q(j)) + C.at(call.T, i), T(i))
        C.assume(C.row(rec, S.n + i))
        C.eq(tag + 'heat transfer of the network', -w * C.at(S.H, i) * Q(i), C.at(N.a_in[a], i, 0) * T_in(a) + C.sum(0, S.n, lambda j: C.at(N.a_b[a], i, j) * T(j)))
    for b in range(len(N.flows)):
        if b != a:
            C.eq(tag + 'another mass flow rate: network inlet temperature that extracts the unit rates from these wall temperatures', -w * total,
                 C.at(N.A_in[b], 0, 0) * T_in(b) + C.sum(0, S.n, lambda j: C.at(N.A_b[b], 0, j) * T(j)))


REC, SUP = 'solvers._base_solver._BaseSolver.load_history_reconstruction', 'solvers._base_solver._BaseSolver.temporal_superposition'


@contract('S02', targets=(SUP,), modes=('prove',))
def superposition(C):
    n, N, nt = C.int('n', 1), C.int('N', 1), C.int('nt', 1)
    C.assume(nt <= N)
    s = C.instance(C.gt.solvers.Detailed, nSources=n, dtype=C.np.double)
    h, Q = C.array('h', (n, n, N)), C.array('Q', (n, nt))
    T = s.temporal_superposition(h, Q)
    C.same_shape('one temperature per segment', T, (n,))
    # loads change by Q[k] - Q[k-1] at the start of step k, nt - 1 - k steps before the end of the last one
    dQ = lambda j, k: C.ite(k > 0, C.raw(Q, j, k) - C.raw(Q, j, k - 1), C.raw(Q, j, 0))
    for i in C.each(n):
        C.eq('sum over segments and load changes of the response to each', C.at(T, i), C.sum(0, n, lambda j: C.sum(0, nt, lambda k: C.at(h, i, j, k) * dQ(j, nt - 1 - k))))


@contract('S02', targets=(REC,), modes=('prove',))
def reconstruction(C):
    n, nt = C.int('n', 1), C.int('nt', 1)
    s = C.instance(C.gt.solvers.Detailed, nSources=n, dtype=C.np.double)
    t, Q = C.array('t', (nt,), gt=0.), C.array('Q', (n, nt))
    R = s.load_history_reconstruction(t, Q)
    C.same_shape('one load per segment and step', R, (n, nt))
    dt = lambda k: C.ite(k > 0, C.raw(t, k) - C.raw(t, k - 1), C.raw(t, 0))
    f = C.interps()[-1]
    C.same_shape('energy extracted', f.y, (n, nt + 2))
    for k in C.each((1, nt + 1)):
        C.eq('time of the energy extracted', C.at(f.x, k), C.at(t, k - 1))
        for i in C.each(n):
            C.eq('energy extracted up to a step', C.at(f.y, i, k), C.sum(0, k, lambda m: C.at(Q, i, m) * dt(m)))
    for i in C.each(n):
        C.eq('nothing extracted at the start', C.at(f.y, i, 0), 0.)
    C.eq('start', C.at(f.x, 0), 0.)
    # elapsed time before step k of the reversed sequence of steps
    for k in C.each(nt):
        t0, t1 = C.sum(0, k, lambda m: dt(nt - 1 - m)), C.sum(0, k + 1, lambda m: dt(nt - 1 - m))
        for i in C.each(n):
            C.assume(dt(nt - 1 - k) != 0.)
            C.eq('energy in each reversed step', C.at(R, i, k) * dt(nt - 1 - k), f.value(t1, (i,)) - f.value(t0, (i,)))


@contract('S02', targets=(SOLVE, REC, SUP, 'gfunction.gFunction.__init__', 'gfunction.gFunction.evaluate_g_function', 'gfunction.gFunction._temperatures'), modes=('conc',), weight=5)
def laws(C):
    np = C.np
    R = solution(C)
    s, nt, n = R.s, len(R.time), R.n
    total = sum(b.H for b in R.b)
    p = int(np.sum(R.time <= R.thr))            # times up to the threshold
    tl = np.concatenate(([R.thr], R.time[p:])) if p else R.time
    h = s.thermal_response_factors(tl, R.alpha)
    grid = np.concatenate(([0.], tl))
    hy = np.stack([h(t) for t in grid], axis=2)
    C.eq('response factors are zero at zero time', hy[:, :, 0], 0.)
    at = lambda t: h(t)
    M = max(R.nM, 1)
    shape = (M,) if R.nM else ()
    g = np.asarray(R.g)
    C.same_shape('one value per time (and pair of mass flow rates)', g, ((M, M) if R.nM else ()) + (nt,))
    if R.bc == 'UHTR':
        Q = np.ones((1, n, nt))
        T = np.asarray(R.T)[np.newaxis]
    elif R.bc == 'UBWT':
        Q = np.asarray(R.Q)[np.newaxis]
        C.same_shape('one wall temperature', R.T, (nt,))
        T = np.broadcast_to(R.T, (1, n, nt))
    else:
        Q, T = (np.asarray(R.Q), np.asarray(R.T)) if R.nM else (np.asarray(R.Q)[np.newaxis], np.asarray(R.T)[np.newaxis])
    C.same_shape('temperatures of every segment', T, (M, n, nt))
    G = g if R.nM else g[np.newaxis, np.newaxis]
    # up to the threshold: proportional to time
    for a in range(M):
        for m in range(p):
            x = R.time[m] / R.thr
            ref = R.time[p - 1] / R.thr
            tol = dict(rtol=1e-9, atol=1e-12)
            C.eq('proportional to time up to the threshold: g-function', G[:, :, m] * ref, G[:, :, p - 1] * x, **tol)
            C.eq('proportional to time up to the threshold: wall temperatures', T[a, :, m] * ref, T[a, :, p - 1] * x, **tol)
            C.eq('proportional to time up to the threshold: heat extraction rates', (Q[a, :, m] - 1.) * ref, (Q[a, :, p - 1] - 1.) * x, rtol=1e-8, atol=1e-11)
    # solution at the instants of the linear solution (the threshold, then every later time)
    if p:
        x = R.thr / R.time[p - 1]
        ext = lambda A, one: np.concatenate((one + (A[..., p - 1:p] - one) * x, A[..., p:]), axis=-1)
    else:
        ext = lambda A, one: A
    Q, T, G = ext(Q, 1.), ext(T, 0.), ext(G, 0.)
    tol = dict(rtol=1e-6, atol=1e-7 * max(1., np.max(np.abs(T))))
    dt = np.diff(tl, prepend=0.)
    for a in range(M):
        for k in range(len(tl)):
            if R.bc == 'UHTR':
                C.eq('superposition of constant unit loads', T[a, :, k], np.sum(hy[:, :, k + 1], axis=1), **tol)
                C.eq('g-function is the length-weighted mean wall temperature', G[a, a, k], R.H @ T[a, :, k] / total, **tol)
                continue
            # loads before step k, reconstructed on the reversed steps (energy kept), then the current load over the last step
            E_t = np.concatenate(([0.], tl[:k + 1], [tl[k] + tl[0]]))
            Qk = Q[a, :, :k + 1].copy()
            Qk[:, k] = 0.
            E = np.concatenate((np.zeros((n, 1)), np.cumsum(Qk * dt[:k + 1], axis=1)), axis=1)
            E = np.concatenate((E, E[:, -1:]), axis=1)
            d = dt[:k + 1][::-1]
            b = np.concatenate(([0.], np.cumsum(d)))
            L = np.array([np.diff(np.interp(b, E_t, e)) for e in E]) / d
            dL = np.diff(L, axis=1, prepend=0.)
            before = sum(hy[:, :, k + 1 - m] @ dL[:, m] for m in range(k + 1))
            C.eq('superposition of the loads of all segments', T[a, :, k], before + at(dt[k]) @ Q[a, :, k], **tol)
            if R.bc == 'UBWT':
                C.eq('g-function is the uniform wall temperature', G[a, a, k], T[a, 0, k], **tol)
    if R.bc == 'MIFT':
        net, w, cp = s.network, 2. * np.pi * 2., R.cp
        Hb = np.array([seg.H for seg in s.boreSegments])
        for b in range(M):
            m = R.flows[b] if not (R.eq and np.ndim(R.flows[b])) else np.sum(R.flows[b])
            Rf = C.gt.networks.network_thermal_resistance(net, m, cp)
            for a in range(M):
                Tin = G[b, a] + w * Rf + w * total / (2. * np.sum(np.abs(m)) * cp)
                if a == b:
                    a_in, a_b = net.coefficients_borehole_heat_extraction_rate(m, cp, s.nBoreSegments, segment_ratios=s.segment_ratios)
                    q = a_in @ Tin[np.newaxis] + a_b @ T[a]
                    C.eq('heat transfer of the network', Q[a] * Hb[:, np.newaxis], -q / w, rtol=1e-6, atol=1e-6 * np.max(Hb))
                a_in, a_b = net.coefficients_network_heat_extraction_rate(m, cp, s.nBoreSegments, segment_ratios=s.segment_ratios)
                q = a_in @ Tin[np.newaxis] + a_b @ T[a]
                C.eq('unit rates are extracted from the wall temperatures', np.ravel(q), np.full(len(tl), -w * total), rtol=1e-6, atol=1e-6)
    if not R.eq:
        per = R.gf._temperatures(list(range(len(R.b))))
        i0 = 0
        raw = np.asarray(R.T)
        for k, r, t in zip(R.ns, R.ratios, per):
            want = raw if R.bc == 'UBWT' else np.einsum('i,...it->...t', r, raw[..., i0:i0 + k, :])
            C.eq('wall temperature of a borehole is the mean over its length', t, want, rtol=1e-9, atol=1e-9)
            i0 += k


@contract('S02', targets=('gfunction.gFunction._temperatures', 'solvers._base_solver._BaseSolver.__init__'), modes=('prove',))
def boreholes_of_the_solution(C):
    nb = C.choice('boreholes', (1, 2, 3))
    bc = C.choice('condition', ('UBWT', 'UHTR', 'MIFT'))
    s, b, ns, r, t = a_solver(C, nb, 'UBWT')
    nM = C.choice('nMassFlow', (0, 2)) if bc == 'MIFT' else 0
    s.nMassFlow = nM
    s.T_b = C.array('T_b', (((nM,) if nM else ()) + (sum(ns),) if bc != 'UBWT' else ()) + (C.len(t),))
    g = C.instance(C.gt.gfunction.gFunction, solver=s, boundary_condition=bc, time=t)
    per = g._temperatures(list(range(nb)))
    C.check('one per borehole', len(per) == nb)
    i0 = 0
    for k in range(nb):
        for m in C.each(C.len(t)):
            for a in range(max(nM, 1)):
                ix = (a,) if nM else ()
                C.eq('temperature of a borehole: mean over its length', C.at(per[k], *ix, m), C.at(s.T_b, m) if bc == 'UBWT' else
                     C.sum(0, ns[k], lambda i: C.at(r[k], i) * C.at(s.T_b, *ix, i0 + i, m)))
        i0 = i0 + ns[k]
