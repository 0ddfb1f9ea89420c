"""P02: fluid temperature profiles meet inlet, outlet, junction and bottom conditions."""
from pyvc.api import contract, meta
from contracts.pipes_common import a_pipe, flow, some_ratios, inlet, symbolic_pipe, edges_contract, solution_contract

meta('P02', level='proof', note='End, junction and bottom conditions: every number of segments, flow direction and delta-circuit, 1 and 2 U-tubes, from the contract of the general '
     'solution (equal to the top temperatures at zero depth). Profiles of real pipes of every kind, their heat balance along the depth and the inverse are bounded.',
     assumptions=['the stored coefficients return what was computed for the same arguments (C01)'])

B = 'pipes._BasePipe.'
S = 'pipes.SingleUTube.'
M = 'pipes.MultipleUTube.'
I = 'pipes.IndependentMultipleUTube.'
HOOKS = ('_continuity_condition_head', '_flow_direction', '_pipe_connectivity', '_format_inputs')
COEF = tuple(B + f for f in ('coefficients_temperature', 'coefficients_outlet_temperature', 'coefficients_inlet_temperature'))
GET = tuple(B + 'get_' + f for f in ('temperature', 'inlet_temperature', 'outlet_temperature', 'borehole_heat_extraction_rate', 'fluid_heat_extraction_rate',
                                     'total_heat_extraction_rate'))


def connections(kind, P, rev):
    """(pipe with downward flow, pipe with upward flow, what the downward pipe is connected to at the top) for each U-tube; what the outlets are"""
    rev = rev if isinstance(rev, (list, tuple)) else [rev] * P
    dn = [i + P if rev[i] else i for i in range(P)]
    up = [i if rev[i] else i + P for i in range(P)]
    if kind == 'series':
        order = list(range(P))[::-1] if rev[0] else list(range(P))
        src = {u: ('inlet', 0) if k == 0 else ('up', order[k - 1]) for k, u in enumerate(order)}
        out = [[(order[-1], 1.)]]
    elif kind == 'independent':
        src = {u: ('inlet', u) for u in range(P)}
        out = [[(u, 1.)] for u in range(P)]
    else:
        src = {u: ('inlet', 0) for u in range(P)}
        out = [[(u, 1. / P) for u in range(P)]]
    return dn, up, [src[u] for u in range(P)], out


@contract('P02', targets=GET + COEF, modes=('conc',), weight=3)
def profile(C):
    pipe, kind = a_pipe(C)
    m, cp = flow(C, pipe)
    n = C.int('n', 1, conc=(1, 6))
    r = some_ratios(C, n)
    np = C.np
    T_b, T_in = C.array('T_b', (n,), conc=(-5., 20.)), inlet(C, pipe)
    if C.choice('uniform', (False, False, True)):
        T_b[:] = T_b[0]
        T_in = T_b[0] if np.isscalar(T_in) else np.full(len(T_in), T_b[0])
    H, P = pipe.b.H, pipe.nPipes
    z = np.concatenate(([0.], np.sort(C.array('z', (3,), conc=(0., 1.))) * H, [H]))
    T = pipe.get_temperature(z, T_in, T_b, m, cp, segment_ratios=r)
    T_out = np.atleast_1d(pipe.get_outlet_temperature(T_in, T_b, m, cp, segment_ratios=r))
    C.same_shape('one temperature per depth and pipe', T, (5, 2 * P))
    rev = [bool(x < 0 and pipe.reversible_flow) for x in np.broadcast_to(m, P)]
    k = dict(coaxial='single').get(kind, kind)
    dn, up, src, out = connections('parallel' if k == 'single' else k, P, rev)
    tol = dict(rtol=1e-7, atol=1e-6)
    Tin = np.broadcast_to(T_in, (pipe.nInlets,))
    for u in range(P):
        C.eq('continuous at the bottom of each U-tube', T[-1, dn[u]], T[-1, up[u]], **tol)
        C.eq('starts from the inlet or the connected pipe', T[0, dn[u]], Tin[src[u][1]] if src[u][0] == 'inlet' else T[0, up[src[u][1]]], **tol)
    for k, o in enumerate(out):
        C.eq('ends at the returned outlet temperature', T_out[k], sum(w * T[0, up[u]] for u, w in o), **tol)
    C.eq('scalar depth', pipe.get_temperature(float(z[2]), T_in, T_b, m, cp, segment_ratios=r), T[2, :], **tol)
    if np.all(T_b == T_b[0]) and np.all(Tin == T_b[0]):
        C.eq('no temperature difference: uniform profile', T, np.full((5, 2 * P), T_b[0]), **tol)


@contract('P02', targets=GET + COEF, modes=('conc',))
def heat_balance_along_the_pipes(C):
    """the temperature gradient of each pipe results from the heat flows of its delta-circuit"""
    pipe, kind = a_pipe(C)
    m, cp = flow(C, pipe)
    n = C.int('n', 1, conc=(1, 4))
    np = C.np
    T_b, T_in = C.array('T_b', (n,), conc=(-5., 20.)), inlet(C, pipe)
    H, P = pipe.b.H, pipe.nPipes
    k = C.int('segment', 0, conc=(0, n - 1))
    z0 = (k + C.real('x', conc=(0.1, 0.9))) * H / n
    dz = 1e-3
    T = pipe.get_temperature(np.array([z0 - dz, z0, z0 + dz]), T_in, T_b, m, cp)
    dT = (T[2] - T[0]) / (2 * dz)
    sg = np.sign(m) if pipe.reversible_flow else np.ones_like(np.sign(m))
    mp = np.abs(m) * sg / (P if kind == 'parallel' else 1)
    mp = np.broadcast_to(mp, P)
    mcp = np.concatenate((mp, -mp)) * np.tile(np.broadcast_to(cp, P), 2)
    Rd = pipe._Rd
    q = [-(T[1, i] - T_b[k]) / Rd[i, i] - sum((T[1, i] - T[1, j]) / Rd[i, j] for j in range(2 * P) if j != i) for i in range(2 * P)]
    C.eq('heat balance', mcp * dT, np.array(q), rtol=1e-3, atol=1e-3)


@contract('P02', targets=GET + COEF, modes=('conc',))
def inverse_and_linear(C):
    pipe, kind = a_pipe(C)
    m, cp = flow(C, pipe)
    n = C.int('n', 1, conc=(1, 5))
    np = C.np
    r = some_ratios(C, n)
    T_b, T_in = C.array('T_b', (n,), conc=(-5., 20.)), inlet(C, pipe)
    k = dict(segment_ratios=r)
    Qf = pipe.get_fluid_heat_extraction_rate(T_in, T_b, m, cp, **k)
    C.eq('inlet temperature reproduces the heat extraction rate', pipe.get_inlet_temperature(Qf, T_b, m, cp, **k), T_in, rtol=1e-6, atol=1e-5)
    z = C.array('z', (3,), conc=(0., 1.)) * pipe.b.H
    Ti = np.atleast_1d(T_in)
    for f, c in (('get_temperature', 'coefficients_temperature'), ('get_outlet_temperature', 'coefficients_outlet_temperature'),
                 ('get_borehole_heat_extraction_rate', 'coefficients_borehole_heat_extraction_rate'),
                 ('get_fluid_heat_extraction_rate', 'coefficients_fluid_heat_extraction_rate')):
        zz = (z,) if f == 'get_temperature' else ()
        a_in, a_b = getattr(pipe, c)(*zz, m, cp, n, **k)
        C.eq(f + ' is the linear function of its coefficients', getattr(pipe, f)(*zz, T_in, T_b, m, cp, **k), (a_in @ Ti + a_b @ T_b).reshape(
            np.shape(getattr(pipe, f)(*zz, T_in, T_b, m, cp, **k))))


# -- proofs ------------------------------------------------------------------------------------------------
def setup(C, kind, nPipes, update):
    pipe = symbolic_pipe(C, kind, nPipes, reversible=C.choice('reversible', (True, False)), update=update)
    n = C.int('n', 1)
    cp = C.real('cp', gt=0.)
    if kind == 'independent':
        s = [C.choice(f'sign{i}', (1, -1)) for i in range(nPipes)]
        m = C.np.array([C.real(f'm{i}', gt=0.) * s[i] for i in range(nPipes)])
    else:
        s = [C.choice('sign', (1, -1))] * nPipes
        m = C.real('m', gt=0.) * s[0]
    rev = [x < 0 and pipe.reversible_flow for x in s]
    return pipe, n, m, cp, rev


def proved_ends(C, pipe, kind, n, m, cp, rev):
    """coefficient by coefficient: each column is the solution of the same conditions"""
    P, N, H = pipe.nPipes, pipe.nInlets, pipe.b.H
    z = C.np.array([0., C.real('z', gt=0.), H])
    C.assume(C.at(z, 1) < H)
    a_in, a_b = pipe.coefficients_temperature(z, m, cp, n)
    o_in, o_b = pipe.coefficients_outlet_temperature(m, cp, n)
    dn, up, src, out = connections(kind, P, rev)

    def conditions(a, o, cols, what):
        for j in cols:
            one = lambda i: (1. if what == 'inlet' and i == j else 0.)
            for u in range(P):
                C.eq(f'{what}: continuous at the bottom of each U-tube', C.at(a, 2, dn[u], j), C.at(a, 2, up[u], j))
                C.eq(f'{what}: starts from the inlet or the connected pipe', C.at(a, 0, dn[u], j), one(src[u][1]) if src[u][0] == 'inlet' else C.at(a, 0, up[src[u][1]], j))
            for k, w in enumerate(out):
                C.eq(f'{what}: ends at the outlet temperature', C.at(o, k, j), sum(x * C.at(a, 0, up[u], j) for u, x in w))
    conditions(a_in, o_in, range(N), 'inlet')
    for k in C.each(n):
        conditions(a_b, o_b, [k], 'wall')


def multiple_ends(C, kind, nPipes):
    pipe, n, m, cp, rev = setup(C, kind, nPipes, '_format_inputs')
    solution_contract(C, pipe)
    proved_ends(C, pipe, kind, n, m, cp, rev)


@contract('P02', targets=COEF + tuple(M + h for h in HOOKS), modes=('prove',))
def ends_parallel(C):
    multiple_ends(C, 'parallel', C.choice('nPipes', (1, 2)))


@contract('P02', targets=COEF + tuple(M + h for h in HOOKS), modes=('prove',))
def ends_series(C):
    multiple_ends(C, 'series', C.choice('nPipes', (1, 2)))


@contract('P02', targets=COEF + tuple(I + h for h in HOOKS), modes=('prove',))
def ends_independent(C):
    multiple_ends(C, 'independent', C.choice('nPipes', (1, 2)))


@contract('P02', targets=(S + 'coefficients_temperature', S + 'coefficients_outlet_temperature', S + '_update_model_variables', S + '_format_inputs'), modes=('prove',))
def ends_single(C):
    pipe, n, m, cp, rev = setup(C, 'single', 1, '_update_model_variables')
    edges_contract(C, pipe, n)
    proved_ends(C, pipe, 'parallel', n, m, cp, rev)
