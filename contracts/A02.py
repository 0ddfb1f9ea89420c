"""A02: load aggregation superposes the supplied step responses exactly."""
import importlib.util
import os
from pyvc.api import contract, meta

_spec = importlib.util.spec_from_file_location('contracts_A01_shared', os.path.join(os.path.dirname(__file__), 'A01.py'))
A01 = importlib.util.module_from_spec(_spec)
_spec.loader.exec_module(A01)

meta('A02', level='proof', note='temporal_superposition of each scheme in an arbitrary state, for arbitrary response factors, numbers of sources and cells.')

LA = 'load_aggregation.'


def factors(C, ns, n, scalar):
    """response factors as the user supplies them, and g(i, j, k)"""
    if scalar:
        g = C.array('g', (n,), conc=(0., 3.))
        return g, lambda i, j, k: C.at(g, k)
    g = C.array('g', (ns, ns, n), conc=(0., 3.))
    return g, lambda i, j, k: C.at(g, i, j, k)


def sources(C):
    """number of sources; a single source may use a plain array of factors"""
    kind = C.choice('kind', ['one source, plain factors', 'one source', 'several sources'])
    return (C.int('nS', 2, conc=(2, 4)) if kind == 'several sources' else 1), kind == 'one source, plain factors'


@contract('A02', targets=(LA + 'ClaessonJaved.initialize', LA + 'ClaessonJaved.temporal_superposition', LA + 'ClaessonJaved._build_cells'))
def superposition_ClaessonJaved(C):
    ns, scalar = sources(C)
    c = C.int('cells', 1, conc=(1, 6))
    dt, tmax = C.real('dt', gt=0., conc=(1., 2.)), C.real('tmax', gt=0., conc=(1., 300.))
    if C.sym:
        n = C.int('n', 1)
        t = C.array('t', (n,), gt=0.)
        C.stub(C.gt.utilities, 'time_ClaessonJaved', lambda a, b, cells_per_level=5: t)
    A = C.gt.load_aggregation.ClaessonJaved(dt, tmax, nSources=ns, cells_per_level=c)
    if not C.sym:
        n = len(A.get_times_for_simulation())
    gd, g = factors(C, ns, n, scalar)
    A.initialize(gd)
    q = C.array('q', (ns, n), conc=(-5., 5.))
    A.q_b = q.copy()
    dT = A.temporal_superposition()
    spec = lambda i: C.sum(0, ns, lambda j: g(i, j, 0) * C.at(q, j, 0)) + \
        C.sum(1, n, lambda k: C.sum(0, ns, lambda j: (g(i, j, k) - g(i, j, k - 1)) * C.at(q, j, k)))
    if scalar:
        C.eq('sum over cells of load times response increment', dT, spec(0))
    else:
        C.same_shape('one value per source', dT, (ns,))
        for i in C.each(ns):
            C.eq('sum over sources and cells of load times response increment', C.at(dT, i), spec(i))
    # constant loads: the response at the end of the last cell
    q0 = C.array('q0', (ns,), conc=(-5., 5.))
    A.q_b = C.np.repeat(q0[:, None], n, axis=1) if not C.sym else C.A.SArr.lam((ns, n), lambda ix: C.at(q0, ix[0]))
    dT = A.temporal_superposition()
    full = lambda i: C.sum(0, ns, lambda j: g(i, j, n - 1) * C.at(q0, j))
    if scalar:
        C.eq('constant loads give the response factors', dT, full(0))
    else:
        for i in C.each(ns):
            C.eq('constant loads give the response factors', C.at(dT, i), full(i))


@contract('A02', targets=(LA + 'MLAA.initialize', LA + 'MLAA.temporal_superposition', LA + 'MLAA._build_cells'), budget=200)
def superposition_MLAA(C):
    ns, scalar = sources(C)
    g_, ns, N, Nt = A01.a_MLAA(C, ns)
    t = C.int('t', 1, conc=(1, 40))
    C.assume(t <= Nt)
    gd, g = factors(C, ns, Nt, scalar)
    g_.initialize(gd)
    n = A01.mlaa_counts(C, g_, N, t)
    if C.sym:
        n = arbitrary_counts(C, g_, ns, N, Nt)
    else:
        A01.set_MLAA(C, g_, ns, N, Nt, t)
    check_MLAA_superposition(C, g_, ns, N, n, g, t)


def arbitrary_counts(C, A, ns, N, Nt):
    """any loads in any numbers of cells"""
    n = [C.int('n0', 1)] + [C.int(f'n{k}', 0) for k in (1, 2, 3, 4)]
    C.assume(n[0] <= N[0])
    C.assume(n[0] + n[1] + n[2] + n[3] + n[4] <= Nt)
    A._n0, A._n1, A._n2, A._n3, A._n4 = n
    A.Q0 = C.array('Q0', (ns, N[0]))
    for k in (1, 2, 3, 4):
        setattr(A, f'Q{k}', C.array(f'Q{k}', (ns,)))
    return n


def check_MLAA_superposition(C, A, ns, N, n, g, t):
    Q0, Q = A.Q0, (None, A.Q1, A.Q2, A.Q3, A.Q4)
    dT = A.temporal_superposition()
    C.same_shape('one value per source', dT, (ns, 1))
    for i in C.each(ns):
        r = C.sum(0, ns, lambda j: g(i, j, 0) * C.at(Q0, j, N[0] - 1)) + \
            C.sum(1, n[0], lambda k: C.sum(0, ns, lambda j: (g(i, j, k) - g(i, j, k - 1)) * C.at(Q0, j, N[0] - 1 - k)))
        e = n[0]
        for k in (1, 2, 3, 4):
            r = r + C.sum(0, ns, lambda j: (g(i, j, e + n[k] - 1) - g(i, j, e - 1)) * C.at(Q[k], j))
            e = e + n[k]
        C.eq('sum over sources and cells of load times response increment', C.at(dT, i, 0), r)


@contract('A02', targets=(LA + 'MLAA.temporal_superposition',), budget=200)
def constant_MLAA(C):
    ns, scalar = sources(C)
    A, ns, N, Nt = A01.a_MLAA(C, ns)
    t = C.int('t', 1, conc=(1, 40))
    C.assume(t <= Nt)
    gd, g = factors(C, ns, Nt, scalar)
    A.initialize(gd)
    q = C.array('q', (ns,), conc=(-5., 5.))
    if C.sym:
        n = arbitrary_counts(C, A, ns, N, Nt)
        t = n[0] + n[1] + n[2] + n[3] + n[4]
        A.Q0 = C.A.SArr.lam((ns, N[0]), lambda ix: C.at(q, ix[0]))
        for k, nm in ((1, 'Q1'), (2, 'Q2'), (3, 'Q3'), (4, 'Q4')):
            setattr(A, nm, C.A.SArr.lam((ns,), lambda ix: C.at(q, ix[0])))
    else:
        for k in range(t):
            A.next_time_step(k * A.dt)
            A.set_current_load(q)
    dT = A.temporal_superposition()
    for i in C.each(ns):
        C.eq('constant loads give the response factors', C.at(dT, i, 0), C.sum(0, ns, lambda j: g(i, j, t - 1) * C.at(q, j)))


@contract('A02', targets=(LA + 'Liu.initialize', LA + 'Liu.temporal_superposition', LA + 'Liu._build_cells'), budget=500)
def superposition_Liu(C):
    ns, scalar = sources(C)
    A, ns, N, W, Nt = A01.a_Liu(C, ns)
    t = C.int('t', 1, conc=(1, 89))
    C.assume(t <= Nt)
    gd, g = factors(C, ns, Nt, scalar)
    A.initialize(gd)
    n, Q = A01.set_Liu(C, A, ns, N, W, Nt, t)
    if C.sym:
        C.assume(n[0] >= 1)
        unused_are_empty(C, A, ns, n, Q)
    w = A01.liu_widths(N)
    dT = A.temporal_superposition()
    C.same_shape('one value per source', dT, (ns,))
    for i in C.each(ns):
        r = C.sum(0, ns, lambda j: g(i, j, 0) * C.at(Q[0], j, 0)) + \
            C.sum(1, n[0], lambda k: C.sum(0, ns, lambda j: (g(i, j, k) - g(i, j, k - 1)) * C.at(Q[0], j, k)))
        e = n[0]
        for l in (1, 2, 3):
            if C.sym and n[l] == 0:
                for col in (0, C.np.shape(Q[l])[1] - 1):
                    C.sum_congruence('an unused level contributes nothing', 0, ns, lambda j: g(i, j, e - 1) * C.at(Q[l], j, col), lambda j: 0.)
            r = r + C.sum(0, n[l], lambda k: C.sum(0, ns, lambda j: (g(i, j, e + (k + 1) * w[l] - 1) - g(i, j, e + k * w[l] - 1)) * C.at(Q[l], j, k)))
            e = e + n[l] * w[l]
        C.eq('sum over sources and cells of load times response increment', C.at(dT, i), r)


def unused_are_empty(C, A, ns, n, Q):
    """a level without cells holds zeros (part of the invariant of the scheme)"""
    for l in (1, 2, 3):
        C.forall((ns, C.np.shape(Q[l])[1]), lambda i, j: C.implies(n[l] == 0, C.at(Q[l], i, j) == 0))


@contract('A02', targets=(LA + 'Liu.next_time_step', LA + 'Liu.temporal_superposition'), modes=('conc',))
def constant_Liu(C):
    ns, scalar = sources(C)
    A, ns, N, W, Nt = A01.a_Liu(C, ns)
    t = C.int('t', 1, conc=(1, 89))
    C.assume(t <= Nt)
    gd, g = factors(C, ns, Nt, scalar)
    A.initialize(gd)
    q = C.array('q', (ns,), conc=(-5., 5.))
    for k in range(t):
        A.next_time_step(k * A.dt)
        A.set_current_load(q)
    dT = A.temporal_superposition()
    for i in C.each(ns):
        C.eq('constant loads give the response factors', C.at(dT, i), C.sum(0, ns, lambda j: g(i, j, t - 1) * C.at(q, j)))
