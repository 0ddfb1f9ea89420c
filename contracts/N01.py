"""N01: networks of boreholes conserve energy."""
from pyvc.api import contract, meta
from contracts.networks_common import symbolic_network
from contracts.C01 import a_network

meta('N01', level='proof', note='Every connectivity list of 1, 2 and 3 boreholes, both flow directions, total or per-circuit flow rates, any linear pipe behaviour that satisfies '
     'the contract of P01 (1 or 2 segments per borehole). Networks of up to 5 boreholes with real pipes and networks of equivalent boreholes are bounded.',
     assumptions=['pipes satisfy their contract (P01, P02)', 'the stores return what was computed for the same arguments (C01)', 'numpy.linalg.solve and scipy.linalg.block_diag are used through their contracts'])

N = 'networks.Network.'
T = tuple(N + f for f in ('coefficients_inlet_temperature', 'coefficients_outlet_temperature', 'coefficients_network_inlet_temperature',
                          'coefficients_network_outlet_temperature', 'coefficients_borehole_heat_extraction_rate', 'coefficients_fluid_heat_extraction_rate',
                          'coefficients_network_heat_extraction_rate', '_coefficients_mixing', '_format_inputs', '_find_inlets_outlets', '_path_to_inlet',
                          '_initialize_coefficients_connectivity', '_verify_bore_connectivity'))


def balance(C, nb, segments):
    net, c, nseg, pipes, m, mi, cp, feed, outlets, circuit = symbolic_network(C, nb, segments)
    arg = (m, cp, list(nseg) if len(set(nseg)) > 1 else nseg[0])
    q_in, q_b = net.coefficients_borehole_heat_extraction_rate(*arg)
    f_in, f_b = net.coefficients_fluid_heat_extraction_rate(*arg)
    n_in, n_b = net.coefficients_network_heat_extraction_rate(*arg)
    o_in, o_b = net.coefficients_outlet_temperature(*arg)
    x_in, x_b = net.coefficients_network_outlet_temperature(*arg)
    ntot = sum(nseg)
    first = [sum(nseg[:i]) for i in range(nb)]
    M = sum(C.abs(x) for x in mi)
    cols = [('inlet', lambda a, r: a[r, 0])] + [('wall', lambda a, r, k=k: a[r, k]) for k in range(ntot)]
    for j, (what, at) in enumerate(cols):
        nets = at(n_in if j == 0 else n_b, 0)
        f, q, o, x = (f_in, q_in, o_in, x_in) if j == 0 else (f_b, q_b, o_b, x_b)
        C.eq(f'{what}: network heat extraction rate is the sum over the boreholes', nets, sum(at(f, i) for i in range(nb)))
        for i in range(nb):
            C.eq(f'{what}: heat extraction rate of a borehole is the sum over its segments', at(f, i), sum(at(q, s) for s in range(first[i], first[i] + nseg[i])))
        C.eq(f'{what}: outlet temperature is the flow-weighted mix', at(x, 0) * M, sum(C.abs(mi[circuit[i]]) * at(o, i) for i in outlets))
        one = 1. if j == 0 else 0.
        C.eq(f'{what}: network heat extraction rate is gained by the fluid', nets, M * cp * (at(x, 0) - one))
    b_in, b_b = C.real('b_in'), [C.real(f'b{k}') for k in range(ntot)]
    C.assume(b_in != 0.)
    C.stub(C.gt.networks.Network, 'coefficients_network_heat_extraction_rate', lambda self, *a, **k: (C.np.array([[b_in]]), C.np.array([b_b])))
    a_q, a_b = net.coefficients_network_inlet_temperature(*arg)
    C.eq('inlet temperature of a heat extraction rate', a_q[0, 0] * b_in, 1.)
    for k in range(ntot):
        C.eq('inlet temperature of a heat extraction rate: wall', b_in * a_b[0, k] + b_b[k], 0.)


@contract('N01', targets=T, modes=('prove',), max_paths=200, budget=300)
def one_and_two(C):
    balance(C, C.choice('boreholes', (1, 2)), C.choice('segments', ((1,), (2,), (2, 1))))


@contract('N01', targets=T, modes=('prove',), max_paths=200, budget=400)
def three(C):
    balance(C, 3, (1,))


GET = tuple(N + 'get_' + f for f in ('inlet_temperature', 'outlet_temperature', 'borehole_heat_extraction_rate', 'fluid_heat_extraction_rate', 'network_inlet_temperature',
                                     'network_outlet_temperature', 'network_heat_extraction_rate'))


@contract('N01', targets=GET + T, modes=('conc',), weight=2)
def energy(C):
    np = C.np
    net, c = a_network(C)
    nb = net.nBoreholes
    sign = C.choice('direction', (1., -1.))
    m = C.array('m', (net.nInlets,), conc=(0.1, 0.6)) * sign
    if C.choice('total', (False, False, True)):
        m = float(np.sum(m))
    cp = 4000.
    nseg = C.int('n', 1, conc=(1, 4)) if C.choice('same', (True, False)) else [C.int(f'n{i}', 1, conc=(1, 4)) for i in range(nb)]
    ns = [nseg] * nb if isinstance(nseg, int) else nseg
    T_b, T_in = C.array('T_b', (sum(ns),), conc=(-2., 15.)), C.real('T_in', conc=(16., 40.))
    if C.choice('scalar T_b', (False, False, False, True)):
        T_b = float(T_b[0])
    a = (m, cp, nseg)
    Q = net.get_network_heat_extraction_rate(T_in, T_b, *a)
    Qf = net.get_fluid_heat_extraction_rate(T_in, T_b, *a)
    Qb = net.get_borehole_heat_extraction_rate(T_in, T_b, *a)
    To = net.get_network_outlet_temperature(T_in, T_b, *a)
    tol = dict(rtol=1e-7, atol=1e-5)
    M = np.sum(np.abs(m))
    C.eq('sum over the boreholes', Q, np.sum(Qf), **tol)
    C.eq('sum over the segments', Q, np.sum(Qb), **tol)
    first = np.concatenate(([0], np.cumsum(ns)))
    C.eq('each borehole', Qf, np.array([np.sum(Qb[first[i]:first[i + 1]]) for i in range(nb)]), **tol)
    C.eq('gained by the fluid', Q, M * cp * (To - T_in), **tol)
    out = net.get_outlet_temperature(T_in, T_b, *a)
    mi = np.abs(np.broadcast_to(m if np.ndim(m) else m / net.nInlets, (net.nInlets,)))
    from contracts.networks_common import circuits
    feed, outlets, circuit = circuits(c, sign < 0)
    C.eq('flow-weighted mix', To, sum(mi[circuit[i]] * out[i] for i in outlets) / M, **tol)
    C.eq('inlet temperature reproduces the heat extraction rate', net.get_network_inlet_temperature(Q, T_b, *a), T_in, rtol=1e-6, atol=1e-5)
    C.same_shape('scalar for a scalar', np.asarray(To), ())


@contract('N01', targets=('networks._EquivalentNetwork.coefficients_network_heat_extraction_rate', 'networks._EquivalentNetwork._coefficients_mixing',
                          'networks._EquivalentNetwork._format_inputs'), modes=('conc',))
def equivalent(C):
    """groups of boreholes in parallel: as the network of all boreholes with the temperatures of their groups"""
    np, gt = C.np, C.gt
    ng = C.int('groups', 1, conc=(1, 4))
    w = [C.int(f'w{i}', 1, conc=(1, 3)) for i in range(ng)]
    groups, all_, kinds = [], [], []
    for i in range(ng):
        H = C.real(f'H{i}', conc=(40., 150.))
        bs = [gt.boreholes.Borehole(H, 2., 0.075, 6. * i, 6. * k) for k in range(w[i])]
        groups.append(bs)
    pipe = lambda b, i: gt.pipes.SingleUTube([(-0.04, 0.), (0.04, 0.)], 0.01, 0.012, b, 2., 1.2, 0.1 + 0.01 * i, J=0)
    eq = gt.networks._EquivalentNetwork([gt.boreholes._EquivalentBorehole(bs) for bs in groups], [pipe(bs[0], i) for i, bs in enumerate(groups)])
    full = gt.networks.Network([b for bs in groups for b in bs], [pipe(b, i) for i, bs in enumerate(groups) for b in bs])
    m, cp, n = C.real('m', conc=(0.2, 2.)) * C.choice('direction', (1., -1.)), 4000., C.int('n', 1, conc=(1, 3))
    T_b, T_in = C.array('T_b', (ng, n), conc=(-2., 15.)), C.real('T_in', conc=(16., 40.))
    Tf = np.concatenate([T_b[i] for i in range(ng) for _ in range(w[i])])
    a = (m, cp, n)
    Q = eq.get_network_heat_extraction_rate(T_in, T_b.flatten(), *a)
    C.eq('network heat extraction rate', Q, full.get_network_heat_extraction_rate(T_in, Tf, *a), rtol=1e-7)
    To = eq.get_network_outlet_temperature(T_in, T_b.flatten(), *a)
    C.eq('network outlet temperature', To, full.get_network_outlet_temperature(T_in, Tf, *a), rtol=1e-7)
    C.eq('gained by the fluid', Q, abs(m) * cp * (To - T_in), rtol=1e-6)
    C.eq('sum over the segments', Q, np.sum(eq.get_borehole_heat_extraction_rate(T_in, T_b.flatten(), *a).reshape(ng, n).sum(axis=1) * np.array(w)), rtol=1e-6)
    C.eq('inlet temperature reproduces the heat extraction rate', eq.get_network_inlet_temperature(Q, T_b.flatten(), *a), T_in, rtol=1e-6)
