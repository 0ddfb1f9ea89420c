"""P01: heat given up by the fluid equals heat extracted along the borehole."""
from pyvc.api import contract, meta
from contracts.pipes_common import a_pipe, flow, some_ratios, inlet, symbolic_pipe, edges_contract, ends_contract

meta('P01', level='proof', note='Every number of segments, wall temperature profile, inlet temperature, flow direction and delta-circuit; 1 to 3 U-tubes in parallel, series and '
     'independent circuits. The profiles are used through their contract of P02 (they start from the inlets and connected pipes and end at the outlets); coaxial pipes, '
     'the constructors and the whole chain on real pipes are bounded.',
     assumptions=['the stored coefficients return what was computed for the same arguments (C01)'])

B = 'pipes._BasePipe.'
GET = tuple(B + f for f in ('get_borehole_heat_extraction_rate', 'get_fluid_heat_extraction_rate', 'get_total_heat_extraction_rate', 'get_outlet_temperature'))
COEF = tuple(B + f for f in ('coefficients_borehole_heat_extraction_rate', 'coefficients_fluid_heat_extraction_rate'))


def heat_balance(C, pipe, m, cp, n, ratios=None, name=''):
    T_b, T_in = C.array('T_b', (n,), conc=(-5., 20.)), inlet(C, pipe)
    if C.mode == 'conc' and n == 1 and C.choice('scalar T_b', (True, False)):
        T_b = float(T_b[0])
    args = (T_in, T_b, m, cp)
    Q = pipe.get_borehole_heat_extraction_rate(*args, segment_ratios=ratios)
    Qf = pipe.get_fluid_heat_extraction_rate(*args, segment_ratios=ratios)
    Qt = pipe.get_total_heat_extraction_rate(*args, segment_ratios=ratios)
    T_out = pipe.get_outlet_temperature(*args, segment_ratios=ratios)
    tol = dict(rtol=1e-6, atol=1e-5)
    C.eq('total heat extraction rate is the sum over the segments', Qt, C.np.sum(Q), **tol)
    C.eq('fluid heat extraction rate of each circuit', Qf, C.abs(m) * cp * (T_out - T_in), **tol)
    C.eq('total heat extraction rate is the sum over the circuits', Qt, C.np.sum(Qf), **tol)


@contract('P01', targets=GET + COEF, modes=('conc',), weight=3)
def energy_balance(C):
    pipe, kind = a_pipe(C)
    m, cp = flow(C, pipe)
    n = C.int('n', 1, conc=(1, 6))
    heat_balance(C, pipe, m, cp, n, some_ratios(C, n))


@contract('P01', targets=GET + COEF, modes=('conc',))
def flow_reversal_not_allowed(C):
    pipe, kind = a_pipe(C, reversible=False)
    m, cp = flow(C, pipe, signs=(1.,))
    n = C.int('n', 1, conc=(1, 5))
    T_b, T_in = C.array('T_b', (n,), conc=(-5., 20.)), inlet(C, pipe)
    z = C.array('z', (4,), conc=(0., 1.)) * pipe.b.H
    first = C.choice('first', (True, False))
    s = -1. if kind != 'independent' else C.np.array([C.choice(f's{i}', (-1., 1.)) for i in range(pipe.nInlets)])
    ms = (m, m * s) if first else (m * s, m)
    for f in ('borehole_heat_extraction_rate', 'fluid_heat_extraction_rate', 'outlet_temperature', 'total_heat_extraction_rate'):
        x, y = [getattr(pipe, 'get_' + f)(T_in, T_b, mm, cp) for mm in ms]
        C.eq(f'{f} does not depend on the sign of the flow rate', x, y)
    x, y = [pipe.get_temperature(z, T_in, T_b, mm, cp) for mm in ms]
    C.eq('temperature profile does not depend on the sign of the flow rate', x, y)


def proved_coefficients(C, kind, pipe, m, cp, n):
    """the sums over segments are exchanged with those over wall temperatures: the balance holds coefficient by coefficient"""
    q_in, q_b = pipe.coefficients_borehole_heat_extraction_rate(m, cp, n)
    f_in, f_b = pipe.coefficients_fluid_heat_extraction_rate(m, cp, n)
    N = pipe.nInlets
    for j in range(N):
        C.eq('heat extracted along the borehole, inlet temperatures', C.sum(0, n, lambda s: C.at(q_in, s, j)), sum(C.at(f_in, i, j) for i in range(N)))
    for k in C.each(n):
        C.eq('heat extracted along the borehole, wall temperatures', C.sum(0, n, lambda s: C.at(q_b, s, k)), sum(C.at(f_b, i, k) for i in range(N)))
    T_b, T_in = C.array('T_b', (n,)), C.array('T_in', (N,))
    args = (T_in, T_b, m, cp)
    Q, Qf, Qt, T_out = [getattr(pipe, 'get_' + f)(*args) for f in ('borehole_heat_extraction_rate', 'fluid_heat_extraction_rate', 'total_heat_extraction_rate',
                                                                   'outlet_temperature')]
    for s in C.each(n):
        C.eq('segment heat extraction rate', C.at(Q, s), sum(C.at(q_in, s, j) * T_in[j] for j in range(N)) + C.sum(0, n, lambda k: C.at(q_b, s, k) * C.at(T_b, k)))
    for i in range(N):
        mi = m[i] if kind == 'independent' else m
        C.eq('fluid heat extraction rate', C.at(Qf, i), sum(C.at(f_in, i, j) * T_in[j] for j in range(N)) + C.sum(0, n, lambda k: C.at(f_b, i, k) * C.at(T_b, k)))
        C.eq('fluid heat extraction rate of each circuit', C.at(Qf, i), C.abs(mi) * cp * (C.at(T_out, i) - T_in[i]))
    C.eq('total heat extraction rate is the sum over the circuits', Qt, sum(C.at(Qf, i) for i in range(N)))


def proved_balance(C, kind, nPipes):
    # the flow direction enumerates the signs of the flow rates
    pipe = symbolic_pipe(C, kind, nPipes, reversible=C.choice('reversible', (True, False)), update='_format_inputs')
    n = C.int('n', 1)
    cp = C.real('cp', gt=0.)
    if kind == 'independent':
        m = C.np.array([C.real(f'm{i}', gt=0.) * C.choice(f'sign{i}', (1, -1)) for i in range(nPipes)])
    else:
        m = C.real('m', gt=0.) * C.choice('sign', (1, -1))
    edges_contract(C, pipe, n)
    ends_contract(C, pipe)
    proved_coefficients(C, kind, pipe, m, cp, n)


@contract('P01', targets=GET + COEF, modes=('prove',))
def single(C):
    proved_balance(C, 'single', 1)


@contract('P01', targets=GET + COEF, modes=('prove',))
def parallel(C):
    proved_balance(C, 'parallel', C.choice('nPipes', (1, 2, 3)))


@contract('P01', targets=GET + COEF, modes=('prove',))
def series(C):
    proved_balance(C, 'series', C.choice('nPipes', (1, 2, 3)))


@contract('P01', targets=GET + COEF, modes=('prove',))
def independent(C):
    proved_balance(C, 'independent', C.choice('nPipes', (1, 2, 3)))
