"""solver objects with arbitrary thermal response factors (prove mode)"""
from types import SimpleNamespace

SOLVE = 'solvers._base_solver._BaseSolver.solve'


class Factors:
    """thermal response factors: values y[i, j, k] at (0, time[0], time[1], ...) and an arbitrary interpolant"""

    def __init__(self, C, n, nt):
        self.C, self.n = C, n
        self.y = C.array('h', (n, n, nt + 1))
        z = C.T.z3
        self.f = z.Function('h_at', z.IntSort(), z.IntSort(), z.RealSort(), z.RealSort())

    def at(self, i, j, t):
        T = self.C.T
        return T.SReal(self.f(T.zi(i), T.zi(j), T.zr(t)))

    def __call__(self, t):
        return self.C.A.SArr.lam((self.n, self.n), lambda ix: self.at(ix[0], ix[1], t), 'f')


def fresh(C, name, shape):
    return C.array(f'{name}!{next(C.T.CTX.fresh_count)}', shape)


class Setup:
    """a solver with n segments of any lengths, any times, any response factors; the loop over
    time steps is replaced by an arbitrary iteration (iteration rule of the engine)"""

    def __init__(self, C, condition, **attrs):
        self.C = C
        cls = C.gt.solvers.Detailed
        n, nt = C.int('nSources', 1), C.int('nt', 1)
        self.n, self.nt = n, nt
        self.H = C.array('H', (n,), gt=0.)
        self.time = C.array('time', (nt,), gt=0.)
        self.alpha, self.r_b = C.real('alpha', gt=0.), C.real('r_b', gt=0.)
        own = C.choice('threshold', (False, True))
        self.threshold = C.real('linear_threshold', gt=0.) if own else None
        self.thr = self.threshold if own else self.r_b ** 2 / (25 * self.alpha)
        self.s = C.instance(cls, nSources=n, boundary_condition=condition, disp=False, profiles=True, kind='linear', dtype=C.np.double,
                            linear_threshold=self.threshold, r_b_max=self.r_b, time=self.time, **{**dict(nMassFlow=0), **attrs})
        self.calls = []
        # an arbitrary segment and an arbitrary earlier step, to look at the history that is handed over
        self.ei, self.ea = C.fresh('segment', 'i'), C.fresh('step', 'i')
        C.assume(C.And(self.ei >= 0, self.ei < n, self.ea >= 0))

        def factors(self_, t, alpha, kind='linear'):
            C.check('ground thermal diffusivity', alpha == self.alpha)
            self.t = t
            self.m = C.len(t)
            self.h = Factors(C, n, self.m)
            return self.h

        def reconstruct(self_, time, Q):
            out = fresh(C, 'Q_rec', (n, C.len(time)))
            # (only meaningful when the earlier step is part of the history)
            get = lambda a, *ix: C.A.as_sarr(a).getter()(ix)
            self.calls.append(SimpleNamespace(n=C.len(time), time=get(time, self.ea), Q=get(Q, self.ei, self.ea), Q0=get(Q, self.ei, 0), shape=C.np.shape(Q), Q_rec=out, h=None, T=None))
            return out

        def superpose(self_, h, Q):
            out = fresh(C, 'T_b0', (n,))
            c = self.calls[-1]
            C.check('superposition of the reconstructed loads', Q is c.Q_rec)
            c.h, c.T = (lambda i, j, a: C.at(h, i, j, a)), out
            return out
        C.stub(cls, 'thermal_response_factors', factors)
        C.stub(cls, 'segment_lengths', lambda self_: self.H)
        C.stub(cls, 'load_history_reconstruction', reconstruct)
        C.stub(cls, 'temporal_superposition', superpose)
        self.it = C.iteration(SOLVE)

    def solve(self):
        """-> g-function; sets p (number of times up to the threshold), k (the arbitrary step), col (its column) and dt"""
        C = self.C
        g = self.s.solve(self.time, self.alpha)
        self.p = 0 if C.entails(C.at(self.time, 0) > self.thr) else self.nt - self.m + 1
        self.low = self.p if isinstance(self.p, int) else True      # 0: no time below the threshold
        self.p0 = 0 if not self.low else self.p - 1
        return g

    def step(self, n=0):
        C = self.C
        k = self.it.k[n]
        first = C.entails(k == 0)
        self.k = 0 if first else k
        self.col = self.p0 + self.k
        self.dt = C.at(self.t, 0) if first else C.at(self.t, k) - C.at(self.t, k - 1)
        return first

    def check_times(self):
        C = self.C
        if self.low:
            C.eq('response factors requested from the threshold on', C.at(self.t, 0), self.thr)
            for i in C.each((1, self.m)):
                C.eq('response factors requested at the times above the threshold', C.at(self.t, i), C.at(self.time, self.p + i - 1))
            C.eq('no time skipped', self.m, self.nt - self.p + 1)
            C.check('times up to the threshold are below it', C.at(self.time, self.p - 1) <= self.thr)
        else:
            C.eq('no time skipped', self.m, self.nt)
            for i in C.each(self.m):
                C.eq('response factors requested at every time', C.at(self.t, i), C.at(self.time, i))

    def check_history(self, c, final, scaled):
        """the loads handed to the reconstruction are the loads of the solution at the earlier steps;
        final(i, column), scaled(i, m): solution at the threshold recovered from the time m below it"""
        C, a, i, k = self.C, self.ea, self.ei, self.k
        C.eq('history up to the current step', c.n, k + 1)
        C.eq('history up to the current step', c.shape[0], self.n)
        C.eq('history up to the current step', c.shape[1], k + 1)
        C.check('history: times of the steps', C.implies(a <= k, c.time == C.at(self.t, C.min(a, k))) if not isinstance(k, int) else C.implies(a == 0, c.time == C.at(self.t, 0)))
        if not isinstance(k, int):
            C.under(C.And(a < k, a >= 1), lambda: C.check('history: loads of the earlier steps', c.Q == final(i, self.p0 + a)))
            C.check('history: load of the first step', c.Q0 == (scaled(i, self.p - 1) if self.low else final(i, 0)))
        for i in C.each(self.n):
            for j in C.each(self.n):
                for a in C.each(self.k + 1):
                    C.eq('superposition with the response factors of the elapsed times', c.h(i, j, a), C.at(self.h.y, i, j, a + 1))

    def unscale(self, v, m):
        """value at the threshold from the value at an earlier time, proportional to time"""
        return v * self.thr / self.C.at(self.time, m)


class FieldNetwork:
    """heat transfer of a network, for any coefficients (one set per mass flow rate)"""

    def __init__(self, C, S, nf):
        self.C, self.marks = C, []
        self.k_s, self.cp = C.real('k_s', gt=0.), C.real('cp', gt=0.)
        self.p = [type('P', (), dict(k_s=self.k_s))()]
        self.flows = [C.real(f'm{i}') for i in range(nf)]
        self.n = S.n
        self.a_in, self.a_b = [C.array(f'a_in{i}', (S.n, 1)) for i in range(nf)], [C.array(f'a_b{i}', (S.n, S.n)) for i in range(nf)]
        self.A_in, self.A_b = [C.array(f'A_in{i}', (1, 1)) for i in range(nf)], [C.array(f'A_b{i}', (1, S.n)) for i in range(nf)]
        self.R = [C.real(f'R_field{i}') for i in range(nf)]
        for i in range(nf):
            C.assume(self.flows[i] != 0.)
            C.assume(C.at(self.A_in[i], 0, 0) != 0.)
        self.S = S
        s, n, np = S.s, S.n, C.np
        s.network, s.cp_f = self, self.cp
        s.m_flow = np.array(self.flows) if C.choice('network flow', (True, False)) else np.array([[f] for f in self.flows])
        s.nBoreSegments, s.segment_ratios = [object()], [object()]
        s.boreSegments = C.symlist(n, lambda i: type('B', (), dict(H=C.at(S.H, i)))())
        C.stub(C.gt.solvers._base_solver, 'network_thermal_resistance', lambda net, m, cp: self.R[self.which(m, cp)])

    def which(self, m, cp):
        C = self.C
        C.check('heat capacity of the fluid', cp == self.cp)
        v = C.np.sum(m)
        for i, f in enumerate(self.flows):
            if C.entails(v == f):
                return i
        C.check('mass flow rate of the field', False)
        return 0

    def last(self, a):
        """linear system and reconstruction of the iteration for the mass flow rate a"""
        ends = (self.marks + [(len(self.C.solves()), len(self.S.calls))])[a + 1]
        return self.C.solves()[ends[0] - 1], self.S.calls[ends[1] - 1]

    def coefficients_borehole_heat_extraction_rate(self, m, cp, nSegments, segment_ratios=None):
        C = self.C
        C.check('discretization of the solver', nSegments is self.S.s.nBoreSegments and segment_ratios is self.S.s.segment_ratios)
        i = self.which(m, cp)
        self.marks.append((len(C.solves()), len(self.S.calls)))
        return self.a_in[i], self.a_b[i]

    def coefficients_network_heat_extraction_rate(self, m, cp, nSegments, segment_ratios=None):
        self.C.check('discretization of the solver', nSegments is self.S.s.nBoreSegments and segment_ratios is self.S.s.segment_ratios)
        i = self.which(m, cp)
        return self.A_in[i], self.A_b[i]


def a_solver(C, nb, bc, time=None):
    """solver of nb boreholes with any numbers of segments and segment ratios"""
    np, gt = C.np, C.gt
    b = [gt.boreholes.Borehole(C.real(f'H{i}', gt=0.), C.real(f'D{i}', gt=0.), C.real(f'r_b{i}', gt=0.), C.real(f'x{i}'), C.real(f'y{i}')) for i in range(nb)]
    ns = [C.int(f'n{i}', 1) for i in range(nb)]
    r = [C.array(f'ratios{i}', (ns[i],), gt=0.) for i in range(nb)]
    for i in range(nb):
        C.assume(C.sum(0, ns[i], lambda k: C.at(r[i], k)) == 1.)
    t = C.array('time', (C.int('nt', 1),), gt=0.)
    s = gt.solvers.Detailed(b, None, t, bc, nSegments=list(ns), segment_ratios=list(r))
    return s, b, ns, r, t
