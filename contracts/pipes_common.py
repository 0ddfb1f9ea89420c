"""Pipe models for the contract drivers."""
KINDS = ('single', 'coaxial', 'parallel', 'series', 'independent')


def a_pipe(C, kinds=KINDS, reversible=None, nPipes=(1, 2, 3), J=None, tilted=None, name=''):
    """a pipe model of the real package (bounded runs), and the number of inlets"""
    gt, np = C.gt, C.np
    kind = C.choice(name + 'kind', kinds)
    b = gt.boreholes.Borehole(C.real(name + 'H', conc=(20., 200.)), 2., C.real(name + 'r_b', conc=(0.06, 0.09)), 0., 0.)
    rev = C.choice(name + 'reversible', (True, False)) if reversible is None else reversible
    k_s, k_g = C.real(name + 'k_s', conc=(1., 3.)), C.real(name + 'k_g', conc=(0.6, 2.))
    J = C.choice(name + 'J', (0, 1, 2)) if J is None else J
    P = gt.pipes
    if kind == 'coaxial':
        r_in, r_out = np.array([0.02, 0.045]), np.array([0.024, 0.05])
        if C.choice(name + 'order', (True, False)):
            r_in, r_out = r_in[::-1].copy(), r_out[::-1].copy()
        return P.Coaxial((0., 0.), r_in, r_out, b, k_s, k_g, C.real(name + 'R_ff', conc=(0.05, 0.3)), C.real(name + 'R_fp', conc=(0.02, 0.2)), J=J,
                         reversible_flow=rev), kind
    n = 1 if kind == 'single' else C.choice(name + 'nPipes', nPipes)
    D, phi = C.real(name + 'shank', conc=(0.034, 0.042)), C.real(name + 'phi', conc=(0., 6.))
    r_out, r_in = 0.012, 0.01
    ang = [phi + np.pi * i / n for i in range(n)] + [phi + np.pi + np.pi * i / n for i in range(n)]
    rad = [D] * (2 * n)
    if C.choice(name + 'symmetric', (True, False)) is False:
        rad[0] = D - 0.004
    pos = [(float(r * np.cos(a)), float(r * np.sin(a))) for r, a in zip(rad, ang)]
    R_fp = C.real(name + 'R_fp', conc=(0.02, 0.2))
    if kind == 'single':
        return P.SingleUTube(pos, r_in, r_out, b, k_s, k_g, R_fp, J=J, reversible_flow=rev), kind
    if kind == 'independent':
        return P.IndependentMultipleUTube(pos, r_in, r_out, b, k_s, k_g, R_fp, n, J=J, reversible_flow=rev), kind
    return P.MultipleUTube(pos, r_in, r_out, b, k_s, k_g, R_fp, n, config=kind, J=J, reversible_flow=rev), kind


def flow(C, pipe, name='', signs=(1., -1.)):
    """mass flow rate(s) and heat capacity"""
    n = pipe.nInlets
    if n == 1 and not isinstance(pipe, C.gt.pipes.IndependentMultipleUTube):
        return C.real(name + 'm_flow', conc=(0.05, 0.8)) * C.choice(name + 'sign', signs), 4000.
    m = C.array(name + 'm_flow', (n,), conc=(0.05, 0.8))
    s = [C.choice(name + f'sign{i}', signs) for i in range(n)]
    cp = 4000. if C.choice(name + 'cp', (True, False)) else C.array(name + 'cp_f', (n,), conc=(3500., 4200.))
    return m * C.np.array(s), cp


def some_ratios(C, n, name='ratios'):
    if C.choice(name + '?', (True, False)):
        return None
    r = C.array(name, (n,), conc=(0.2, 1.))
    return r / C.np.sum(r)


def inlet(C, pipe, name='T_in'):
    if pipe.nInlets == 1 and not isinstance(pipe, C.gt.pipes.IndependentMultipleUTube):
        return C.real(name, conc=(-5., 40.))
    return C.array(name, (pipe.nInlets,), conc=(-5., 40.))


# -- symbolic pipe models: any delta-circuit resistances -------------------------------------------------
def symbolic_pipe(C, kind, nPipes=1, reversible=True, update='_update_model_variables'):
    """a pipe model with arbitrary positive delta-circuit resistances (its constructor is under contract in P03, P04)"""
    P = C.gt.pipes
    cls = dict(single=P.SingleUTube, coaxial=P.Coaxial, parallel=P.MultipleUTube, series=P.MultipleUTube, independent=P.IndependentMultipleUTube)[kind]
    H = C.real('H', gt=0.)
    b = C.gt.boreholes.Borehole(H, C.real('D', lo=0.), C.real('r_b', gt=0.), 0., 0.)
    N = 2 * nPipes
    p = C.instance(cls, b=b, nPipes=nPipes, nInlets=nPipes if kind == 'independent' else 1, nOutlets=nPipes if kind == 'independent' else 1,
                   reversible_flow=reversible, config=kind)
    Rd = C.np.array([[C.real(f'R{min(i, j)}{max(i, j)}', gt=0.) for j in range(N)] for i in range(N)])
    if kind == 'coaxial':
        raise NotImplementedError
    p._Rd = Rd
    no_reuse(C, update)
    return p


def no_reuse(C, update):
    """contract of the stored coefficients (C01): a query returns what it computes"""
    P = C.gt.pipes._BasePipe

    def check_model_variables(self, m_flow_borehole, cp_f, nSegments, segment_ratios, tol=1e-6):
        getattr(self, update)(m_flow_borehole, cp_f, nSegments, segment_ratios)
        return False
    C.stub(P, '_check_coefficients', lambda self, *a, **k: False)
    C.stub(P, '_set_stored_coefficients', lambda self, *a, **k: None)
    C.stub(P, '_check_model_variables', check_model_variables)


def edges_contract(C, pipe, n):
    """contract of Borehole._segment_edges (B02): increasing from 0 to the length of the borehole"""
    e = C.array('edges', (n + 1,), gt=0., lt=None)
    H = pipe.b.H

    def edges(self, nSegments, segment_ratios=None):
        np = C.np
        return np.concatenate((np.zeros(1), e[1:-1], np.zeros(1) + H))
    C.stub(C.gt.boreholes.Borehole, '_segment_edges', edges)


def profile(C, z, H, top, bottom, name):
    """any values along the depths z (from 0 to H), with the given ones at both ends of the borehole"""
    from pyvc.arrays import SArr, as_sarr
    top, bottom = as_sarr(top), as_sarr(bottom)
    nz = C.len(z)
    C.check('profile requested from the top to the bottom of the borehole', C.And(C.at(z, 0) == 0., C.at(z, nz - 1) == H))
    N, M = top.shape
    F = C.array('profile_' + name, (nz, N, M))
    for i in range(N):
        if isinstance(M, int):
            for j in range(M):
                C.assume(C.And(F[0, i, j] == top[i, j], F[nz - 1, i, j] == bottom[i, j]))
        else:
            C.forall((M,), lambda j: C.And(F[0, i, j] == top[i, j], F[nz - 1, i, j] == bottom[i, j]))
    return F


def ends_contract(C, pipe):
    """contract of coefficients_temperature and coefficients_outlet_temperature (P02): the profiles start from the inlets and
    the connected pipes, are continuous at the bottom, and end at the outlets"""
    N, P = pipe.nInlets, pipe.nPipes

    made = {}

    def ends(m, cp, n, r):
        if 'x' in made:
            return made['x']
        U = dict(i=C.array('U_in', (P, N)), b=C.array('U_b', (P, n)))
        V = dict(i=C.array('V_in', (P, N)), b=C.array('V_b', (P, n)))
        c_in, c_fu = pipe._continuity_condition_head(m, cp, n, r)
        fd, fu = pipe._flow_direction(m, cp, n, r)
        d_fu = pipe._pipe_connectivity(m, cp, n, r)
        made['x'] = U, V, c_in, c_fu, fd, fu, d_fu
        return made['x']

    def outlet(self, m, cp, nSegments, segment_ratios=None):
        U, V, c_in, c_fu, fd, fu, d_fu = ends(m, cp, nSegments, segment_ratios)
        return d_fu @ U['i'], d_fu @ U['b']

    def temperature(self, z, m, cp, nSegments, segment_ratios=None):
        U, V, c_in, c_fu, fd, fu, d_fu = ends(m, cp, nSegments, segment_ratios)
        out = []
        for k, first in (('i', c_in), ('b', None)):
            down0 = c_fu @ U[k] if first is None else c_fu @ U[k] + first
            top = fd @ down0 + fu @ U[k]
            bottom = (fd + fu) @ V[k]
            out.append(profile(C, z, self.b.H, top, bottom, k))
        return tuple(out)
    cls = type(pipe)
    C.stub(cls, 'coefficients_outlet_temperature', outlet)
    C.stub(cls, 'coefficients_temperature', temperature)


def solution_contract(C, pipe, constant=False):
    """contract of _general_solution: a linear function of the temperatures at the top of the pipes and of the wall temperatures,
    equal to the temperatures at the top at zero depth; constant: uniform temperatures are a solution"""
    np = C.np
    N = 2 * pipe.nPipes

    def at(z, n):
        zero = isinstance(z, (int, float)) and z == 0.
        if zero or C.entails(z == 0.):
            return np.eye(N), np.zeros((N, n))
        k = 'H' if C.entails(z == pipe.b.H) else 'z'
        G, W = C.array('G' + k, (N, N)), C.array('W' + k, (N, n))
        if constant:
            for i in range(N):
                C.assume(C.sum(0, n, lambda j: C.at(W, i, j)) == 1. - sum(G[i, j] for j in range(N)))
        return G, W

    def general_solution(self, z, m, cp, nSegments, segment_ratios=None):
        if np.isscalar(z):
            return at(z, nSegments)
        r = [at(C.at(z, i), nSegments) for i in range(len(z))]
        return np.stack([a for a, _ in r], axis=0), np.stack([b for _, b in r], axis=0)
    C.stub(type(pipe), '_general_solution', general_solution)
