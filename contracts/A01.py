"""A01: load aggregation conserves the injected energy of every source."""
from pyvc.api import contract, meta

meta('A01', level='proof', note='One time step from an arbitrary state of each scheme satisfying its representation invariant, for every number of sources, '
     'cells and every cell width; the invariants are established by the constructors and preserved by every public operation.')

LA = 'load_aggregation.'


# --- Claesson and Javed ------------------------------------------------------------------
def a_ClaessonJaved(C):
    ns = C.int('nS', 1, conc=(1, 4))
    c = C.int('cells', 1, conc=(1, 6))
    dt = C.real('dt', gt=0., conc=(1., 1e4))
    if C.sym:
        n = C.int('n', 1)
        t = C.array('t', (n,), gt=0.)
        # contract of the time grid (A03): anchored, steps at least one time step long
        C.assume(C.at(t, 0) == dt)
        C.forall((n - 1,), lambda k: C.at(t, k + 1) - C.at(t, k) >= dt)
        C.stub(C.gt.utilities, 'time_ClaessonJaved', lambda a, b, cells_per_level=5: t)
        tmax = C.real('tmax', gt=0.)
    else:
        tmax = dt * C.real('steps', gt=0., conc=(0.3, 3.)) * 10 ** C.int('mag', 0, conc=(0, 3))
        t = C.gt.utilities.time_ClaessonJaved(dt, tmax, cells_per_level=c)
        n = len(t)
    g = C.gt.load_aggregation.ClaessonJaved(dt, tmax, nSources=ns, cells_per_level=c)
    # number of time steps of cell k >= 1 (cell 0 is one time step)
    w = lambda k: (C.at(t, k) - C.at(t, k - 1)) / dt
    return g, ns, n, w, dt


@contract('A01', targets=(LA + 'ClaessonJaved.next_time_step', LA + 'ClaessonJaved._build_cells'))
def step_ClaessonJaved(C):
    g, ns, n, w, dt = a_ClaessonJaved(C)
    for i in C.each(ns):
        for k in C.each(n):
            C.eq('loads are zero initially', C.at(g.q_b, i, k), 0.)
    q = C.array('q', (ns, n), conc=(-5., 5.))
    g.q_b = q if C.sym else q.copy()
    g.next_time_step(C.real('time'))
    p = g.q_b
    C.same_shape('cells are kept', p, (ns, n))
    for i in C.each(ns):
        C.sum_congruence('cell energy', 1, n, lambda k: C.at(p, i, k) * w(k), lambda k: C.at(q, i, k) * w(k) - C.at(q, i, k) + C.at(q, i, k - 1))
        C.eq('energy of a source is conserved, except past the last cell', C.at(p, i, 0) + C.sum(1, n, lambda k: C.at(p, i, k) * w(k)),
             C.at(q, i, 0) + C.sum(1, n, lambda k: C.at(q, i, k) * w(k)) - C.at(q, i, n - 1))
        C.eq('no load in the new cell', C.at(p, i, 0), 0.)
        for k in C.each((1, n)):
            C.eq('cell load', C.at(p, i, k) * w(k), C.at(q, i, k) * (w(k) - 1) + C.at(q, i, k - 1))
            C.check('within the range of the loads', C.And(C.le_(C.min(C.at(q, i, k), C.at(q, i, k - 1)), C.at(p, i, k)),
                                                           C.le_(C.at(p, i, k), C.max(C.at(q, i, k), C.at(q, i, k - 1)))))


@contract('A01', targets=(LA + 'ClaessonJaved.set_current_load',))
def load_ClaessonJaved(C):
    g, ns, n, w, dt = a_ClaessonJaved(C)
    q = C.array('q', (ns, n), conc=(-5., 5.))
    g.q_b = q.copy()
    x = C.array('x', (ns,), conc=(-5., 5.))
    g.set_current_load(x)
    for i in C.each(ns):
        C.eq('current load', C.at(g.q_b, i, 0), C.at(x, i))
        for k in C.each((1, n)):
            C.eq('other cells are unchanged', C.at(g.q_b, i, k), C.at(q, i, k))


# --- MLAA ------------------------------------------------------------------------------------
def a_MLAA(C, ns=None):
    """an arbitrary reachable state: INV(g) of the scheme"""
    ns = C.int('nS', 1, conc=(1, 4)) if ns is None else ns
    dt = C.real('dt', gt=0., conc=(1., 1e4))
    N = [C.int(f'N{k}', 1, conc=(1, 5)) for k in range(4)]
    Nt = C.int('Nt', 2, conc=(2, 40))
    g = C.gt.load_aggregation.MLAA(dt, (Nt - 1 + C.real('frac', gt=0., hi=1.)) * dt, nSources=ns, N0=N[0], N1=N[1], N2=N[2], N3=N[3])
    return g, ns, N, Nt


def mlaa_counts(C, g, N, t):
    """number of time steps of each cell at time step t"""
    n0 = C.ite(t < N[0], t, N[0])
    n1 = C.ite(t >= N[0] + N[1], N[1], 0)
    n2 = C.ite(t >= N[0] + N[1] + N[2], N[2], 0)
    n3 = C.ite(t >= N[0] + N[1] + N[2] + N[3], N[3], 0)
    return n0, n1, n2, n3, t - (n0 + n1 + n2 + n3)


def set_MLAA(C, g, ns, N, Nt, t):
    """put g in the state INV prescribes at time step t with arbitrary past loads"""
    n = mlaa_counts(C, g, N, t)
    q = C.array('q', (ns, Nt), conc=(-5., 5.))
    if C.sym:
        C.forall((ns, Nt), lambda i, k: C.implies(k >= t, C.at(q, i, k) == 0))
        g.q_b = q.copy()
        g._nt, g._n0, g._n1, g._n2, g._n3, g._n4 = t, *n
        e = t
        ends = []
        for k in range(5):
            ends.append((e - n[k], e))
            e = e - n[k]
        f = C.array('Q0old', (ns, N[0]))
        g.Q0 = f.copy()
        for k, nm in ((1, 'Q1'), (2, 'Q2'), (3, 'Q3'), (4, 'Q4')):
            lo, hi = ends[k]
            Q = C.array(nm, (ns,))
            C.forall((ns,), lambda i: C.implies(n[k] > 0, C.at(Q, i) * n[k] == C.sum(lo, hi, lambda j: C.at(q, i, j))))
            setattr(g, nm, Q)
        # the latest n0 entries of Q0 are the latest loads
        C.forall((ns, n[0]), lambda i, k: C.at(f, i, N[0] - 1 - k) == C.at(q, i, t - 1 - k))
    else:
        q = q.copy()
        q[:, t:] = 0.
        for k in range(t):
            g.next_time_step(k * g.dt)
            g.set_current_load(q[:, k])
    return q


def check_MLAA(C, g, ns, N, t, q, Nt):
    n = mlaa_counts(C, g, N, t)
    C.check('time step is counted', g._nt == t)
    for k in range(5):
        C.check(f'time steps of the cells', getattr(g, f'_n{k}') == n[k])
    C.check('cells represent all time steps', g._n0 + g._n1 + g._n2 + g._n3 + g._n4 == t)
    for i in C.each(ns):
        for k in C.each(n[0]):
            C.eq('single cells hold the latest loads', C.at(g.Q0, i, N[0] - 1 - k), C.at(q, i, t - 1 - k))
        e = t - n[0]
        for k, Q in ((1, g.Q1), (2, g.Q2), (3, g.Q3), (4, g.Q4)):
            lo, hi = e - n[k], e
            if C.sym:
                C.check(f'cell {k} holds the energy of its time steps', C.under(n[k] > 0, lambda: C.at(Q, i) * n[k] == C.sum(lo, hi, lambda j: C.at(q, i, j))))
            else:
                C.eq(f'cell {k} holds the energy of its time steps', Q[i] * n[k], q[i, lo:hi].sum())
            e = lo
        for j in C.each(Nt):
            C.eq('load history is unchanged', C.at(g.q_b, i, j), C.at(q, i, j))


@contract('A01', targets=(LA + 'MLAA.__init__', LA + 'MLAA._build_cells'))
def new_MLAA(C):
    g, ns, N, Nt = a_MLAA(C)
    C.check('number of time steps', g.Nt == Nt)
    q = C.np.zeros((ns, Nt))
    check_MLAA(C, g, ns, N, 0, q, Nt)


@contract('A01', targets=(LA + 'MLAA.next_time_step',), budget=200)
def step_MLAA(C):
    g, ns, N, Nt = a_MLAA(C)
    t = C.int('t', 0, conc=(0, 39))
    C.assume(t < Nt)
    q = set_MLAA(C, g, ns, N, Nt, t)
    g.next_time_step(C.real('time'))
    check_MLAA(C, g, ns, N, t + 1, q, Nt)
    if not C.sym:
        E = g.Q0[:, N[0] - g._n0:].sum(axis=1) + g._n1 * g.Q1 + g._n2 * g.Q2 + g._n3 * g.Q3 + g._n4 * g.Q4
        C.eq('energy of every source is conserved', E, q[:, :t].sum(axis=1))


@contract('A01', targets=(LA + 'MLAA.set_current_load',), budget=200)
def load_MLAA(C):
    g, ns, N, Nt = a_MLAA(C)
    t = C.int('t', 1, conc=(1, 39))
    C.assume(t < Nt)
    q = set_MLAA(C, g, ns, N, Nt, t)
    x = C.array('x', (ns,), conc=(-5., 5.))
    old = g.Q0.copy() if not C.sym else g.Q0.copy()
    g.set_current_load(x)
    for i in C.each(ns):
        C.eq('current load', C.at(g.Q0, i, N[0] - 1), C.at(x, i))
        C.eq('current load enters the history', C.at(g.q_b, i, t - 1), C.at(x, i))
        for k in C.each(N[0] - 1):
            C.eq('other cells are unchanged', C.at(g.Q0, i, k), C.at(old, i, k))
        for k in C.each((0, t - 1)):
            C.eq('earlier loads are unchanged', C.at(g.q_b, i, k), C.at(q, i, k))


@contract('A01', targets=(LA + 'MLAA.next_time_step',), budget=200)
def range_MLAA(C):
    g, ns, N, Nt = a_MLAA(C)
    t = C.int('t', 0, conc=(0, 39))
    C.assume(t < Nt)
    q = set_MLAA(C, g, ns, N, Nt, t)
    L, U = loads_range(C, [(q, Nt)], ns)
    if C.sym:
        for Q in (g.Q1, g.Q2, g.Q3, g.Q4):
            C.forall((ns,), lambda i: C.And(C.at(Q, i) >= L, C.at(Q, i) <= U))
        C.forall((ns, N[0]), lambda i, k: C.And(C.at(g.Q0, i, k) >= L, C.at(g.Q0, i, k) <= U))
        n = mlaa_counts(C, g, N, t + 1)
    g.next_time_step(C.real('time'))
    for i in C.each(ns):
        if C.sym:
            e = t + 1 - n[0]
            for k in range(1, 5):
                C.sum_bounds('loads are within range', e - n[k], e, lambda j: C.at(q, i, j), L, U)
                e = e - n[k]
        for Q in (g.Q1, g.Q2, g.Q3, g.Q4):
            C.check('within the range of the loads', C.And(C.le_(L, C.at(Q, i)), C.le_(C.at(Q, i), U)))
        for k in C.each(N[0]):
            C.check('within the range of the loads', C.And(C.le_(L, C.at(g.Q0, i, k)), C.le_(C.at(g.Q0, i, k), U)))


def loads_range(C, arrays, ns):
    """a range that contains zero and all loads"""
    if C.sym:
        L, U = C.real('L', hi=0.), C.real('U', lo=0.)
        for q, n in arrays:
            C.forall((ns, n), lambda i, k: C.And(C.at(q, i, k) >= L, C.at(q, i, k) <= U))
        return L, U
    return min([0.] + [q.min() for q, n in arrays]), max([0.] + [q.max() for q, n in arrays])


# --- Liu et al. ------------------------------------------------------------------------------
def a_Liu(C, ns=None):
    ns = C.int('nS', 1, conc=(1, 4)) if ns is None else ns
    dt = C.real('dt', gt=0., conc=(1., 1e4))
    N = [0] + [C.int(f'N{k}', 1, conc=(1, 4)) for k in (1, 2, 3)]
    W = [0] + [C.int(f'W{k}', 1, conc=(1, 4)) for k in (1, 2, 3)]
    Nt = C.int('Nt', 2, conc=(2, 90))
    g = C.gt.load_aggregation.Liu(dt, (Nt - 1 + C.real('frac', gt=0., hi=1.)) * dt, nSources=ns, N1=N[1], N2=N[2], N3=N[3], W1=W[1], W2=W[2], W3=W[3])
    return g, ns, N, W, Nt


def liu_widths(N):
    return 1, N[1], N[1] * N[2], N[1] * N[2] * N[3]


def set_Liu(C, g, ns, N, W, Nt, t):
    q = C.array('q', (ns, Nt), conc=(-5., 5.))
    if not C.sym:
        for k in range(t):
            g.next_time_step(k * g.dt)
            g.set_current_load(q[:, k])
        return [g._n0, g._n1, g._n2, g._n3], [g.Q0.copy(), g.Q1.copy(), g.Q2.copy(), g.Q3.copy()]
    n = [C.int(f'n{k}', 0) for k in range(4)]
    for k in range(3):
        C.assume(n[k] < N[k + 1] + W[k + 1])
    w = liu_widths(N)
    C.assume(n[0] + w[1] * n[1] + w[2] * n[2] + w[3] * n[3] == t)
    Q = []
    for k, m in enumerate((N[1] + W[1], N[2] + W[2], N[3] + W[3], C.np.shape(g.Q3)[1])):
        Q.append(C.array(f'Q{k}', (ns, m)))
        setattr(g, f'Q{k}', Q[k].copy())
        setattr(g, f'_n{k}', n[k])
        # cells not in use hold nothing
        if k == 3:
            C.assume(n[3] <= m)
    g._nt = t
    return n, Q


def energy_Liu(C, N, n, Q, i):
    w = liu_widths(N)
    return sum((w[k] * C.sum(0, n[k], lambda j: C.at(Q[k], i, j)) for k in range(4)), 0.)


@contract('A01', targets=(LA + 'Liu.__init__', LA + 'Liu._build_cells'))
def new_Liu(C):
    g, ns, N, W, Nt = a_Liu(C)
    C.check('number of time steps', g.Nt == Nt)
    C.check('no time step yet', C.And(*[getattr(g, f'_n{k}') == 0 for k in range(4)], g._nt == 0))
    for k, m in ((0, N[1] + W[1]), (1, N[2] + W[2]), (2, N[3] + W[3])):
        C.same_shape('number of cells', getattr(g, f'Q{k}'), (ns, m))
    m = C.np.shape(g.Q3)[1]
    C.check('the largest cells can represent every time step', C.And(C.le_(Nt, m * N[1] * N[2] * N[3]), m >= 1))
    for k in range(4):
        C.eq('no load yet', getattr(g, f'Q{k}'), 0.)


@contract('A01', targets=(LA + 'Liu.next_time_step',), budget=300)
def step_Liu(C):
    g, ns, N, W, Nt = a_Liu(C)
    t = C.int('t', 0, conc=(0, 89))
    C.assume(t < Nt)
    n, Q = set_Liu(C, g, ns, N, W, Nt, t)
    g.next_time_step(C.real('time'))
    m = [g._n0, g._n1, g._n2, g._n3]
    w = liu_widths(N)
    C.check('time step is counted', g._nt == t + 1)
    C.check('cells represent all time steps', m[0] + w[1] * m[1] + w[2] * m[2] + w[3] * m[3] == t + 1)
    for k in range(3):
        C.check('cells are within their number', C.And(m[k] >= 0, m[k] < N[k + 1] + W[k + 1]))
    C.check('a current cell exists', m[0] >= 1)
    for i in C.each(ns):
        C.eq('no load in the new cell', C.at(g.Q0, i, 0), 0.)
        C.eq('energy of every source is conserved', energy_Liu(C, N, m, [g.Q0, g.Q1, g.Q2, g.Q3], i), energy_Liu(C, N, n, Q, i))


@contract('A01', targets=(LA + 'Liu.set_current_load',))
def load_Liu(C):
    g, ns, N, W, Nt = a_Liu(C)
    t = C.int('t', 1, conc=(1, 89))
    C.assume(t < Nt)
    n, Q = set_Liu(C, g, ns, N, W, Nt, t)
    x = C.array('x', (ns,), conc=(-5., 5.))
    g.set_current_load(x)
    P = [g.Q0, g.Q1, g.Q2, g.Q3]
    for i in C.each(ns):
        C.eq('current load', C.at(P[0], i, 0), C.at(x, i))
        for k in range(4):
            for j in C.each((1 if k == 0 else 0, C.np.shape(Q[k])[1])):
                C.eq('other cells are unchanged', C.at(P[k], i, j), C.at(Q[k], i, j))
    C.check('number of cells is unchanged', C.And(*[getattr(g, f'_n{k}') == n[k] for k in range(4)]))


@contract('A01', targets=(LA + 'Liu.next_time_step',), budget=300)
def range_Liu(C):
    g, ns, N, W, Nt = a_Liu(C)
    t = C.int('t', 0, conc=(0, 89))
    C.assume(t < Nt)
    n, Q = set_Liu(C, g, ns, N, W, Nt, t)
    L, U = loads_range(C, [(q, C.np.shape(q)[1]) for q in Q], ns)
    g.next_time_step(C.real('time'))
    P = [g.Q0, g.Q1, g.Q2, g.Q3]
    for i in C.each(ns):
        if C.sym:
            for k in range(3):
                # the oldest cells of a level are averaged into the next
                lo, hi = n[k] - N[k + 1], n[k]
                C.sum_bounds('loads are within range', lo, hi, lambda j: C.at(Q[k], i, j), L, U, given=lo >= 0)
        for k in range(4):
            for j in C.each(C.np.shape(P[k])[1]):
                C.check('within the range of the loads', C.And(C.le_(L, C.at(P[k], i, j)), C.le_(C.at(P[k], i, j), U)))
