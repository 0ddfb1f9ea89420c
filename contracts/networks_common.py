"""Networks for the contract drivers."""


def connectivities(n):
    """all valid connectivity lists of n boreholes"""
    import itertools
    out = []
    for c in itertools.product(range(-1, n), repeat=n):
        if any(x != -1 and c.count(x) > 1 for x in c):
            continue
        ok = True
        for i in range(n):
            k, s = i, 0
            while k != -1 and s <= n:
                k, s = c[k], s + 1
            ok = ok and k == -1
        if ok:
            out.append(list(c))
    return out


def circuits(c, reverse):
    """(borehole that feeds each borehole or None, outlets, circuit of each borehole) from the definition"""
    n = len(c)
    inlets = [i for i in range(n) if c[i] == -1]

    def root(i):
        while c[i] != -1:
            i = c[i]
        return inlets.index(i)
    last = [i for i in range(n) if i not in c]
    if not reverse:
        return [None if c[i] == -1 else c[i] for i in range(n)], last, [root(i) for i in range(n)]
    return [c.index(i) if i in c else None for i in range(n)], inlets, [root(i) for i in range(n)]


class PipeContract(object):
    """contract of a pipe model (P01, P02): linear outlet temperature and heat extraction rates with the energy balance"""

    def __init__(self, C, i, n, one=None):
        np = C.np
        self.C, self.i, self.n, self.nInlets = C, i, n, 1
        self.A = np.array([[C.real(f'A{i}')]])
        self.B = np.array([[C.real(f'B{i}_{s}') for s in range(n)]])
        self.q = [[C.real(f'q{i}_{s}_{t}') for t in range(n + 1)] for s in range(n - 1)]
        self.calls = []

    def _rec(self, what, m, cp, n, r):
        self.calls.append((what, m, cp, n, r))

    def coefficients_outlet_temperature(self, m, cp, nSegments, segment_ratios=None):
        self._rec('outlet', m, cp, nSegments, segment_ratios)
        return self.A, self.B

    def fluid(self, m, cp):
        k = self.C.abs(m) * cp
        return k * (self.A[0, 0] - 1.), [k * self.B[0, s] for s in range(self.n)]

    def coefficients_fluid_heat_extraction_rate(self, m, cp, nSegments, segment_ratios=None):
        self._rec('fluid', m, cp, nSegments, segment_ratios)
        f_in, f_b = self.fluid(m, cp)
        return self.C.np.array([[f_in]]), self.C.np.array([f_b])

    def coefficients_borehole_heat_extraction_rate(self, m, cp, nSegments, segment_ratios=None):
        self._rec('borehole', m, cp, nSegments, segment_ratios)
        np, n = self.C.np, self.n
        f_in, f_b = self.fluid(m, cp)
        q = self.q
        a_in = [[q[s][n]] for s in range(n - 1)] + [[f_in - sum(q[s][n] for s in range(n - 1))]]
        a_b = [[q[s][t] for t in range(n)] for s in range(n - 1)] + [[f_b[t] - sum(q[s][t] for s in range(n - 1)) for t in range(n)]]
        return np.array(a_in), np.array(a_b)


def symbolic_network(C, nb, segments=(1,)):
    gt, np = C.gt, C.np
    c = C.choice('connectivity', connectivities(nb))
    direction = C.choice('direction', (1, -1))
    nseg = [segments[i % len(segments)] for i in range(nb)]
    bs = [gt.boreholes.Borehole(C.real(f'H{i}', gt=0.), 2., 0.075, 6. * i, 0.) for i in range(nb)]
    pipes = [PipeContract(C, i, nseg[i]) for i in range(nb)]
    cls = gt.networks.Network
    C.stub(cls, '_initialize_stored_coefficients', lambda self, *a: None)
    net = cls(bs, pipes, bore_connectivity=c)
    C.stub(cls, '_set_stored_coefficients', lambda self, *a: None)

    def check(self, m, cp, n, r, i, tol=1e-6):
        self._format_inputs(m, cp, n, r)
        return False
    C.stub(cls, '_check_coefficients', check)
    C.stub(cls, '_check_mixing_coefficients', lambda self, m, tol=1e-6: False)
    feed, outlets, circuit = circuits(c, direction < 0)
    ni = c.count(-1)
    if C.choice('total', (True, False)):
        m = C.real('m', gt=0.) * direction
        mi = [m / ni] * ni
    else:
        mi = [C.real(f'm{i}', gt=0.) * direction for i in range(ni)]
        m = np.array(mi)
    cp = C.real('cp', gt=0.)
    return net, c, nseg, pipes, m, mi, cp, feed, outlets, circuit
