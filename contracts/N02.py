"""N02: every borehole of a network is fed by the borehole it is connected to."""
from pyvc.api import contract, meta
from contracts.networks_common import symbolic_network, circuits
from contracts.C01 import a_network
from contracts.N01 import T, GET

meta('N02', level='proof', note='Every connectivity list of 1, 2 and 3 boreholes, both flow directions, total or per-circuit flow rates, any linear pipe behaviour '
     '(1 or 2 segments per borehole). Networks of up to 5 boreholes with real pipes are bounded.',
     assumptions=['pipes satisfy their contract (P01, P02)', 'the stores return what was computed for the same arguments (C01)', 'numpy.linalg.solve and scipy.linalg.block_diag are used through their contracts'])

N = 'networks.Network.'


def feeds(C, nb, segments):
    net, c, nseg, pipes, m, mi, cp, feed, outlets, circuit = symbolic_network(C, nb, segments)
    nsegs = list(nseg) if len(set(nseg)) > 1 else nseg[0]
    arg = (m, cp, nsegs)
    i_in, i_b = net.coefficients_inlet_temperature(*arg)
    o_in, o_b = net.coefficients_outlet_temperature(*arg)
    first = [sum(nseg[:i]) for i in range(nb)]
    for i in range(nb):
        A, B = pipes[i].A[0, 0], pipes[i].B[0]
        C.eq('inlet: inlet temperature of a borehole', i_in[i, 0], 1. if feed[i] is None else o_in[feed[i], 0])
        C.eq('inlet: outlet temperature of a borehole', o_in[i, 0], A * i_in[i, 0])
        for k in range(sum(nseg)):
            C.eq('wall: inlet temperature of a borehole', i_b[i, k], 0. if feed[i] is None else o_b[feed[i], k])
            own = B[k - first[i]] if first[i] <= k < first[i] + nseg[i] else 0.
            C.eq('wall: outlet temperature of a borehole', o_b[i, k], A * i_b[i, k] + own)
        for what, m_, cp_, n_, r_ in pipes[i].calls:
            C.eq('mass flow rate of the circuit', m_, mi[circuit[i]])
            C.eq('heat capacity of the circuit', cp_, cp)
            C.eq('number of segments of the borehole', n_, nseg[i])
        C.check('every borehole is evaluated', len(pipes[i].calls) >= 2)
    C.check('outlets', sorted(net.iOutlets) == sorted(outlets))
    C.check('inlets', sorted(net.iInlets) == sorted([i for i in range(nb) if feed[i] is None]))
    C.check('one circuit per borehole', net.iCircuit == circuit)


@contract('N02', targets=T, modes=('prove',), max_paths=200, budget=300)
def one_and_two(C):
    feeds(C, C.choice('boreholes', (1, 2)), C.choice('segments', ((1,), (2,), (2, 1))))


@contract('N02', targets=T, modes=('prove',), max_paths=200, budget=400)
def three(C):
    feeds(C, 3, (1,))


@contract('N02', targets=GET + T, modes=('conc',), weight=2)
def connections(C):
    np = C.np
    net, c = a_network(C)
    nb = net.nBoreholes
    sign = C.choice('direction', (1., -1.))
    ni = net.nInlets
    m = C.array('m', (ni,), conc=(0.1, 0.6)) * sign
    if C.choice('total', (False, False, True)):
        m = float(np.sum(m))
    mi = np.broadcast_to(m if np.ndim(m) else m / ni, (ni,))
    cp = 4000.
    nseg = C.int('n', 1, conc=(1, 4)) if C.choice('same', (True, False)) else [C.int(f'n{i}', 1, conc=(1, 4)) for i in range(nb)]
    ns = [nseg] * nb if isinstance(nseg, int) else nseg
    ratios = None
    if C.choice('ratios', (False, True)):
        ratios = [np.arange(2., k + 2.) / np.sum(np.arange(2., k + 2.)) for k in ns]
    T_b, T_in = C.array('T_b', (sum(ns),), conc=(-2., 15.)), C.real('T_in', conc=(16., 40.))
    a, k = (T_in, T_b, m, cp, nseg), dict(segment_ratios=ratios)
    Ti, To = np.asarray(net.get_inlet_temperature(*a, **k)).flatten(), np.asarray(net.get_outlet_temperature(*a, **k)).flatten()
    Qb = np.asarray(net.get_borehole_heat_extraction_rate(*a, **k)).flatten()
    feed, outlets, circuit = circuits(c, sign < 0)
    tol = dict(rtol=1e-8, atol=1e-6)
    first = np.concatenate(([0], np.cumsum(ns)))
    for i in range(nb):
        C.eq('inlet temperature of a borehole', Ti[i], T_in if feed[i] is None else To[feed[i]], **tol)
        Tbi = T_b[first[i]:first[i + 1]]
        r = None if ratios is None else ratios[i]
        C.eq('outlet temperature of a borehole', To[i], net.p[i].get_outlet_temperature(Ti[i], Tbi, mi[circuit[i]], cp, segment_ratios=r), **tol)
        C.eq('heat extraction rates of a borehole', Qb[first[i]:first[i + 1]],
             net.p[i].get_borehole_heat_extraction_rate(Ti[i], Tbi, mi[circuit[i]], cp, segment_ratios=r), rtol=1e-7, atol=1e-4)
    C.check('outlets are the boreholes that feed no other', sorted(net.iOutlets) == sorted(outlets))
    C.check('circuits', net.iCircuit == circuit)
