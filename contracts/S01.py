"""S01: g-function solutions extract the prescribed total heat at all times."""
from pyvc.api import contract, meta
from contracts.solvers_common import Setup, FieldNetwork, a_solver, SOLVE
from contracts.solvers_real import solution

meta('S01', level='proof', note='One step of the solution with each boundary condition, from an arbitrary state of the solver, for every number of segments, times and '
     'mass flow rates (linear times included): the rates of the step add up to the prescribed one; the reconstruction of the history keeps the energy, for any number of steps. '
     'Whole solutions of every solver, boundary condition and method are bounded.',
     assumptions=['numpy.linalg.solve is used through its contract (A X = B)', 'scipy interp1d is used through its contract (a curve through the points)',
                  'the coefficients of the network satisfy their contract (N01)'])

REC = 'solvers._base_solver._BaseSolver.load_history_reconstruction'


@contract('S01', targets=(SOLVE,), modes=('prove',))
def uniform_temperature(C):
    S = Setup(C, 'UBWT')
    S.solve()
    first = S.step()
    rec = C.solves()[-1]
    total(C, S, rec, S.n, first, lambda i, m: C.at(S.s.Q_b, i, m))


def total(C, S, rec, row, first, Q):
    H = C.sum(0, S.n, lambda i: C.at(S.H, i))
    C.assume(C.row(rec, row))
    mean = lambda m: C.sum(0, S.n, lambda i: C.at(S.H, i) * Q(i, m))
    if first and S.low:
        for m in C.each(S.p):
            C.eq('unit rate at the times up to the threshold', mean(m), H)
    else:
        C.eq('unit rate', mean(S.col), H)


@contract('S01', targets=(SOLVE,), modes=('prove',))
def network(C):
    nM = C.choice('nMassFlow', (0, 1, 2))
    nf = max(nM, 1)
    S = Setup(C, 'MIFT', nMassFlow=nM)
    N = FieldNetwork(C, S, nf)
    S.solve()
    for a in range(nf):
        first = S.step(a)
        total(C, S, N.last(a)[0], 2 * S.n, first, lambda i, m: C.at(S.s.Q_b, i, m) if nM == 0 else C.at(S.s.Q_b, a, i, m))


@contract('S01', targets=(SOLVE,), modes=('prove',))
def uniform_heat_extraction(C):
    S = Setup(C, 'UHTR')
    S.solve()
    C.eq('unit rate of every segment at all times', S.s.Q_b, 1.)


@contract('S01', targets=(REC,), modes=('prove',))
def reconstructed_energy(C):
    n, nt = C.int('n', 1), C.int('nt', 1)
    s = C.instance(C.gt.solvers.Detailed, nSources=n, dtype=C.np.double)
    t, Q = C.array('t', (nt,), gt=0.), C.array('Q', (n, nt))
    R = s.load_history_reconstruction(t, Q)
    dt = lambda k: C.ite(k > 0, C.raw(t, k) - C.raw(t, k - 1), C.raw(t, 0))
    f = C.interps()[-1]
    C.same_shape('one load per segment and step', R, (n, nt))
    elapsed = lambda k: C.sum(0, k, lambda m: dt(nt - 1 - m))
    # steps in reversed order add up to the time
    C.telescope('steps add up to the time', 0, nt, lambda m: dt(nt - 1 - m), lambda k: C.at(t, nt - 1) - C.ite(k < nt, C.raw(t, nt - 1 - k), 0.), (nt,))
    C.eq('steps add up to the time', elapsed(nt), C.at(t, nt - 1))
    for i in C.each(n):
        V = lambda k: f.value(elapsed(k), (i,))
        C.eq('energy extracted so far', f.value(C.at(t, nt - 1), (i,)), V(nt))
        C.assume(f.point(0, (i,)))
        C.assume(f.point(nt, (i,)))
        C.eq('nothing extracted at the start', V(0), 0.)
        C.telescope('energy of the reconstructed loads', 0, nt, lambda k: C.at(R, i, k) * dt(nt - 1 - k), lambda k: V(k) - V(0), (nt,))
        C.eq('energy extracted so far', C.sum(0, nt, lambda k: C.at(R, i, k) * dt(nt - 1 - k)), C.sum(0, nt, lambda k: C.at(Q, i, k) * dt(k)))


GF = 'gfunction.gFunction.'


@contract('S01', targets=(SOLVE, REC, GF + '_heat_extraction_rates', GF + '__init__', GF + 'evaluate_g_function'), modes=('conc',), weight=4)
def extracted_heat(C):
    np = C.np
    R = solution(C)
    tol = dict(rtol=1e-9, atol=1e-9)
    total = sum(b.H for b in R.b)
    C.eq('lengths of the segments add up to the boreholes', np.sum(R.H), total, rtol=1e-10, atol=0.)
    nt = len(R.time)
    if R.bc == 'UHTR':
        C.eq('unit rate of every segment', R.Q, 1.)
        R.Q = np.ones((R.n, nt))
    Q = R.Q if R.nM else np.asarray(R.Q)[np.newaxis]
    C.same_shape('rates of every segment', Q, (max(R.nM, 1), R.n, nt))
    for q in Q:
        C.eq('unit rate at all times', R.H @ q / total, np.ones(nt), **tol)
    if R.eq:
        return
    # boreholes
    per = R.gf._heat_extraction_rates(list(range(len(R.b))))
    C.check('one per borehole', len(per) == len(R.b))
    Hs = np.array([b.H for b in R.b])
    mean = sum(h * np.asarray(q) for h, q in zip(Hs, per)) / total
    C.eq('unit rate over the boreholes', mean, np.ones_like(mean), **tol)
    i0 = 0
    for b, k, r, q in zip(R.b, R.ns, R.ratios, per):
        C.eq('segments of the borehole', R.H[i0:i0 + k], b.H * r, rtol=1e-9, atol=0.)
        want = np.einsum('i,mit->mt', r, Q[:, i0:i0 + k])
        C.eq('rate of a borehole is the mean over its length', np.reshape(q, want.shape), want, **tol)
        i0 += k


@contract('S01', targets=(REC,), modes=('conc',))
def energy_of_reconstruction(C):
    np = C.np
    n, nt = C.int('n', 1, conc=(1, 4)), C.int('nt', 1, conc=(1, 8))
    s = object.__new__(C.gt.solvers.Detailed)
    s.nSources, s.dtype, s.kind = n, np.double, 'linear'
    t = np.cumsum(C.array('dt', (nt,), conc=(0.1, 10.)))
    Q = C.array('Q', (n, nt), conc=(-10., 10.))
    dt = np.diff(t, prepend=0.)
    R = s.load_history_reconstruction(t.copy(), Q.copy())
    C.eq('energy of the reconstructed loads', R @ dt[::-1], Q @ dt, rtol=1e-9, atol=1e-9)
    E = lambda x: np.array([np.interp(x, np.concatenate(([0.], t, [t[-1] + t[0]])), np.concatenate(([0.], np.cumsum(q * dt), [q @ dt]))) for q in Q])
    b = np.concatenate(([0.], np.cumsum(dt[::-1])))
    C.eq('energy extracted in each reversed step', R * dt[::-1], E(b[1:]) - E(b[:-1]), rtol=1e-8, atol=1e-8)


@contract('S01', targets=('solvers._base_solver._BaseSolver.__init__', 'solvers._base_solver._BaseSolver.borehole_segments', 'solvers._base_solver._BaseSolver.segment_lengths',
                          'solvers.detailed.Detailed.initialize', GF + '_heat_extraction_rates'), modes=('prove',))
def boreholes_of_the_solution(C):
    nb = C.choice('boreholes', (1, 2, 3))
    s, b, ns, r, t = a_solver(C, nb, 'UBWT')
    H = s.segment_lengths()
    C.same_shape('one length per segment', H, (sum(ns),))
    C.eq('number of sources', s.nSources, sum(ns))
    nM = C.choice('nMassFlow', (0, 2))
    s.nMassFlow = nM
    s.Q_b = C.array('Q_b', ((nM,) if nM else ()) + (sum(ns), C.len(t)))
    g = C.instance(C.gt.gfunction.gFunction, solver=s, boundary_condition=C.choice('condition', ('UBWT', 'MIFT')), time=t)
    per = g._heat_extraction_rates(list(range(nb)))
    C.check('one per borehole', len(per) == nb)
    i0 = 0
    for k in range(nb):
        for i in C.each(ns[k]):
            C.eq('segments of a borehole are its fractions', C.at(H, i0 + i), C.at(r[k], i) * b[k].H)
        for m in C.each(C.len(t)):
            for a in range(max(nM, 1)):
                ix = (a,) if nM else ()
                C.eq('rate of a borehole: total of its segments', C.at(per[k], *ix, m) * b[k].H, C.sum(0, ns[k], lambda i: C.at(H, i0 + i) * C.at(s.Q_b, *ix, i0 + i, m)))
        i0 = i0 + ns[k]


@contract('S01', targets=('solvers.equivalent.Equivalent.segment_lengths', 'boreholes._EquivalentBorehole.segments', 'boreholes._EquivalentBorehole.__init__'), modes=('prove',))
def equivalent_lengths(C):
    gt = C.gt
    nb = C.choice('groups', (1, 2))
    ns, w = C.int('nSegments', 1), []
    r = C.array('ratios', (ns,), gt=0.)
    C.assume(C.sum(0, ns, lambda k: C.at(r, k)) == 1.)
    b, H, m = [], [], []
    for g in range(nb):
        m.append(C.choice(f'boreholes{g}', (1, 2, 3)))
        H.append(C.real(f'H{g}', gt=0.))
        b.append(gt.boreholes._EquivalentBorehole([gt.boreholes.Borehole(H[g], C.real(f'D{g}', gt=0.), 0.075, 5. * i, 10. * g) for i in range(m[g])]))
    s = C.instance(gt.solvers.Equivalent, boreholes=b, nBoreSegments=[ns] * nb, segment_ratios=[r] * nb, dtype=C.np.double)
    L = s.segment_lengths()
    C.same_shape('one length per segment', L, (nb * ns,))
    for g in range(nb):
        for i in C.each(ns):
            C.eq('total length of the segments it stands for', C.at(L, g * ns + i), C.at(r, i) * H[g] * m[g])
    C.eq('total length of the field', C.sum(0, nb * ns, lambda i: C.at(L, i)), sum(h * k for h, k in zip(H, m)))
