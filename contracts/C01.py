"""C01: results never depend on previous queries."""
from copy import deepcopy
from pyvc.api import contract, meta
from contracts.pipes_common import a_pipe, flow, symbolic_pipe

meta('C01', level='proof', note='The stores: an entry is reused only for the arguments it was computed for (to the reuse tolerance), keys are copies, every method uses an entry '
     'of its own, for arbitrary stored contents, numbers of circuits and of segments. That whole sequences of queries return what fresh objects return is bounded (random sequences '
     'of up to 7 queries, in-place modification of arguments included).',
     assumptions=['arrays returned to the caller are not modified by it', 'resistances of a pipe are not changed behind a network that uses it'])

B, N = 'pipes._BasePipe.', 'networks.Network.'
COEF = ('coefficients_inlet_temperature', 'coefficients_outlet_temperature', 'coefficients_temperature', 'coefficients_borehole_heat_extraction_rate',
        'coefficients_fluid_heat_extraction_rate')
STORE = tuple(B + f for f in ('_check_coefficients', '_set_stored_coefficients', '_get_stored_coefficients', '_check_model_variables'))


# -- bounded: sequences of queries against fresh objects -------------------------------------------------------
def variants(C, base, kinds, name):
    """base, changed or close to base (beyond the reuse tolerance of 1e-6)"""
    what = C.choice(name, kinds)
    if what == 'same':
        return base
    if what == 'reversed':
        return -base
    f = {'close': 1. + 5e-6, 'double': 2., 'half': 0.5}[what]
    return base * f


def moved(C, r, k):
    """ratios with the same sum: two of them exchanged, or a part of one moved to another"""
    n = len(r)
    r = r.copy()
    if n < 2:
        return r
    i = C.choice('from' + k, tuple(range(n)))
    j = (i + C.choice('to' + k, tuple(range(1, n)))) % n
    if C.choice('exchange' + k, (True, False)):
        r[i], r[j] = r[j], r[i]
    else:
        d = 0.1 * r[i]
        r[i] -= d
        r[j] += d
    return r


@contract('C01', targets=STORE + tuple(B + f for f in COEF), modes=('conc',), weight=2)
def pipe_queries(C):
    np = C.np
    pipe, kind = a_pipe(C)
    m0, cp0 = flow(C, pipe)
    n0 = C.int('n', 1, conc=(1, 5))
    r0 = C.array('ratios', (n0,), conc=(0.2, 1.))
    r0 = r0 / np.sum(r0)
    array = isinstance(m0, np.ndarray)
    names = ('get_temperature', 'get_inlet_temperature', 'get_outlet_temperature', 'get_borehole_heat_extraction_rate', 'get_fluid_heat_extraction_rate',
             'get_total_heat_extraction_rate', 'effective_borehole_thermal_resistance') if not array else (
        'get_temperature', 'get_inlet_temperature', 'get_outlet_temperature', 'get_borehole_heat_extraction_rate', 'get_fluid_heat_extraction_rate',
        'get_total_heat_extraction_rate')
    fresh = deepcopy(pipe)
    for k in range(C.int('queries', 2, conc=(2, 7))):
        f = C.choice(f'query{k}', names)
        m = variants(C, m0, ('same', 'same', 'reversed', 'close', 'double', 'half'), f'm{k}')
        if array and C.choice(f'one{k}', (False, False, True)):
            m = np.concatenate((m0[:-1], m[-1:]))
        cp = variants(C, cp0, ('same', 'same', 'close', 'double', 'half'), f'cp{k}')
        dn = C.choice(f'dn{k}', (0, 0, 1))
        n = n0 + dn
        r = C.choice(f'r{k}', (0, 0, 1, 2, 2, 3))
        if r == 0 or n == 1:
            r = None
        elif r == 1:
            r = np.full(n, 1. / n)
        else:
            r = r0[::-1].copy() if r == 3 else r0.copy()
            if dn:
                r = np.concatenate((r[:-1], r[-1:] / 2, r[-1:] / 2))
            if C.choice(f'moved{k}', (False, True)):
                r = moved(C, r, str(k))
        T_in = np.array([20. + 3 * i + k for i in range(pipe.nInlets)]) if array else 20. + k
        T_b = np.array([10. + i - k for i in range(n)])
        if f == 'effective_borehole_thermal_resistance':
            if np.ndim(cp):
                continue
            args, kw = (m, cp), {}
        else:
            first = T_in
            if f == 'get_inlet_temperature':
                first = 1000. * T_in
            args, kw = (first, T_b, m, cp), dict(segment_ratios=r)
            if f == 'get_temperature':
                args = (np.linspace(0., pipe.b.H, 4),) + args
        # arguments of its own, modified after the query
        own, okw = deepcopy(args), deepcopy(kw)
        got = getattr(pipe, f)(*own, **okw)
        got = deepcopy(got)
        for a, b in zip(own + tuple(okw.values()), args + tuple(kw.values())):
            if isinstance(a, np.ndarray):
                C.eq('arguments are not modified', a, b, rtol=0., atol=0.)
                if C.choice(f'mutate{k}', (True, False)):
                    a *= 3.
        want = getattr(deepcopy(fresh), f)(*args, **kw)
        C.eq('as a fresh pipe model', got, want, rtol=1e-8, atol=1e-8 * (np.max(np.abs(want)) + 1e-3))


def a_network(C, kinds=None, name=''):
    """networks of real pipes: circuits in a random order"""
    np, gt = C.np, C.gt
    nb = C.int(name + 'boreholes', 1, conc=(1, 5))
    key = C.array(name + 'order', (nb,), conc=(0., 1.))
    order = sorted(range(nb), key=lambda i: key[i])
    c = [-1] * nb
    for k in range(1, nb):
        if C.choice(name + f'series{k}', (True, False)):
            c[order[k]] = order[k - 1]
    bs, pipes = [], []
    for i in range(nb):
        b = gt.boreholes.Borehole(C.real(name + f'H{i}', conc=(40., 150.)), 2., 0.075, 7. * i, 0.)
        kind = C.choice(name + f'kind{i}', ('single', 'parallel', 'series'))
        R_fp = C.real(name + f'R_fp{i}', conc=(0.05, 0.2))
        if kind == 'single':
            p = gt.pipes.SingleUTube([(-0.04, 0.), (0.04, 0.)], 0.01, 0.012, b, 2., 1.2, R_fp, J=0)
        else:
            p = gt.pipes.MultipleUTube([(-0.04, 0.), (0., -0.04), (0.04, 0.), (0., 0.04)], 0.01, 0.012, b, 2., 1.2, R_fp, 2, config=kind, J=0)
        bs.append(b)
        pipes.append(p)
    return gt.networks.Network(bs, pipes, bore_connectivity=c), c


NQ = ('get_inlet_temperature', 'get_outlet_temperature', 'get_borehole_heat_extraction_rate', 'get_fluid_heat_extraction_rate', 'get_network_inlet_temperature',
      'get_network_outlet_temperature', 'get_network_heat_extraction_rate')


@contract('C01', targets=tuple(N + f for f in ('_check_coefficients', '_set_stored_coefficients', '_get_stored_coefficients', '_check_mixing_coefficients',
                                               '_coefficients_mixing', '_format_inputs') + NQ) + ('networks.network_thermal_resistance',), modes=('conc',), weight=2)
def network_queries(C):
    np = C.np
    net, c = a_network(C)
    fresh = deepcopy(net)
    nb, ni = net.nBoreholes, net.nInlets
    m0 = C.array('m', (ni,), conc=(0.1, 0.6))
    seg0 = [C.int(f'n{i}', 1, conc=(1, 3)) for i in range(nb)]
    for k in range(C.int('queries', 2, conc=(2, 6))):
        f = C.choice(f'query{k}', NQ + ('network_thermal_resistance',))
        m = variants(C, m0, ('same', 'same', 'reversed', 'close', 'double', 'half'), f'm{k}')
        if C.choice(f'scalar{k}', (False, True)):
            m = float(np.sum(m)) if C.choice(f'total{k}', (True, False)) else float(m[0])
        elif ni > 1 and C.choice(f'one{k}', (False, False, True)):
            m = np.concatenate((m[:1] * 1.5, m[1:]))
        cp = variants(C, 4000., ('same', 'same', 'close', 'double', 'half'), f'cp{k}')
        s = C.choice(f'seg{k}', (0, 0, 1, 2))
        nseg = 2 if s == 0 else list(seg0) if s == 1 else [x + 1 for x in seg0]
        ns = [2] * nb if s == 0 else nseg
        rr = C.choice(f'ratios{k}', (0, 0, 1, 2, 3))
        ratios = None if rr == 0 else [np.full(x, 1. / x) if rr == 1 or x == 1 else np.concatenate(([0.5], np.full(x - 1, 0.5 / (x - 1)))) for x in ns]
        if rr == 3:     # other ratios for one borehole
            i = C.choice(f'which{k}', tuple(range(nb)))
            ratios[i] = moved(C, ratios[i], str(k))
        T_b = 8. + np.arange(sum(ns)) * 0.5
        if f == 'network_thermal_resistance':
            own = (deepcopy(m), cp)
            got = deepcopy(C.gt.networks.network_thermal_resistance(net, *own))
            want = C.gt.networks.network_thermal_resistance(deepcopy(fresh), m, cp)
        else:
            args, kw = (20. + k if f != 'get_network_inlet_temperature' else 3000. + 100 * k, T_b, m, cp, nseg), dict(segment_ratios=ratios)
            own, okw = deepcopy(args), deepcopy(kw)
            got = deepcopy(getattr(net, f)(*own, **okw))
            want = getattr(deepcopy(fresh), f)(*args, **kw)
            C.check('segments are not modified', own[4] == nseg)
            C.eq('wall temperatures are not modified', own[1], T_b)
            C.eq('flow rates are not modified', own[2], m)
            if C.choice(f'mutate{k}', (True, False)):
                own[1][:] = 99.
                if isinstance(own[2], np.ndarray):
                    own[2][:] = 7.
                if isinstance(own[4], list):
                    own[4][0] += 1
                if okw['segment_ratios'] is not None:
                    okw['segment_ratios'][0][:] = 5.
        C.eq('as a fresh network', got, want, rtol=1e-8, atol=1e-8 * (np.max(np.abs(want)) + 1e-3))


@contract('C01', targets=('pipes.thermal_resistances', 'pipes._compare_thermal_resistances_inputs'), modes=('conc',))
def resistance_queries(C):
    np, P = C.np, C.gt.pipes
    base = dict(pos=[(-0.04, 0.001), (0.035, -0.002)], r_out=0.012, r_b=0.075, k_s=2., k_g=1.2, R_fp=0.1, J=C.choice('J', (0, 1)))
    for k in range(C.int('queries', 2, conc=(2, 6))):
        a = deepcopy(base)
        for w in ('x', 'y', 'r_out', 'r_b', 'k_s', 'k_g', 'R_fp', 'J', 'n'):
            if not C.choice(f'{w}{k}', (False, False, False, True)):
                continue
            f = C.choice(f'f{w}{k}', (1. + 5e-6, 0.9))
            if w in 'xy':
                p = list(a['pos'][-1])
                p[w == 'y'] *= f
                a['pos'][-1] = tuple(p)
            elif w == 'J':
                a['J'] += 1
            elif w == 'n':
                a['pos'] = a['pos'] + [(0., 0.04)]
            else:
                a[w] = a[w] * f
        for w in ('r_out', 'R_fp'):
            if C.choice(f'array{w}{k}', (False, True)):
                a[w] = np.full(len(a['pos']), a[w])
                if C.choice(f'last{w}{k}', (False, True)):
                    a[w][-1] *= 1.05
        b = deepcopy(a)
        got = [x.copy() for x in P.thermal_resistances(**b)]
        if C.choice(f'mutate{k}', (True, False)):
            b['pos'][0] = (0.01, 0.)
            for w in ('r_out', 'R_fp'):
                if isinstance(b[w], np.ndarray):
                    b[w] *= 2.
        P._thermal_resistances_dict_saved = dict(P._thermal_resistances_dict)
        P._thermal_resistances_dict.update({x: None for x in P._thermal_resistances_dict})
        want = P.thermal_resistances(**a)
        P._thermal_resistances_dict.update(P._thermal_resistances_dict_saved)
        C.eq('resistances as if never called before', got[0], want[0], rtol=1e-9, atol=1e-12)
        C.eq('delta-circuit as if never called before', got[1], want[1], rtol=1e-7)


# -- proofs: what the store returns is what was computed for the same arguments ----------------------------------
def store(C, cls, ids, scalar=False, lists=False):
    """an object with arbitrary stored keys"""
    np = C.np
    ni = 1 if scalar else C.int('nInlets', 1)
    num = lambda name: C.real(name) if scalar else C.array(name, (ni,))
    o = C.instance(cls, nInlets=ni, reversible_flow=True)
    S = dict(coef=[], mcp=[], n=[], r=[])
    kind = C.choice('stored ratios', ('none', 'array', 'nan'))
    for i in range(ids):
        S['coef'].append((object(), object()))
        S['mcp'].append(num(f'stored{i}'))
        S['n'].append(C.int(f'stored_n{i}', 1))
        S['r'].append({'none': None, 'nan': float('nan')}.get(kind) if kind != 'array' else C.array(f'stored_r{i}', (S['n'][i],)))
    o._stored_coefficients, o._stored_m_flow_cp, o._stored_nSegments, o._stored_segment_ratios = [list(S[k]) for k in ('coef', 'mcp', 'n', 'r')]
    return o, S, ni, num


def key(C, num, name=''):
    n = C.int(name + 'n', 1)
    r = None if C.choice(name + 'ratios', ('none', 'array')) == 'none' else C.array(name + 'r', (n,))
    return num(name + 'm'), C.real(name + 'cp', gt=0.), n, r


def close(C, ni, scalar, m, cp, s, tol=1e-6):
    if scalar:
        return C.abs(m * cp - s) < C.abs(s) * tol
    for i in C.each(ni):
        C.check('flow rates within the reuse tolerance', C.abs(C.at(m, i) * cp - C.at(s, i)) < C.abs(C.at(s, i)) * tol)
    return True


@contract('C01', targets=(B + '_check_coefficients',), modes=('prove',))
def reuse_coefficients(C):
    scalar = C.choice('scalar', (False, True))
    o, S, ni, num = store(C, C.gt.pipes._BasePipe, 3, scalar)
    m, cp, n, r = key(C, num)
    i = C.choice('method', (0, 2))
    if not o._check_coefficients(m, cp, n, r, i):
        return
    reused(C, m, cp, n, r, S, i, ni, scalar)


def reused(C, m, cp, n, r, S, i, ni, scalar):
    C.check('flow rates within the reuse tolerance', close(C, ni, scalar, m, cp, S['mcp'][i]))
    C.eq('same number of segments', n, S['n'][i])
    C.check('both uniform or both with ratios', (r is None) == (S['r'][i] is None))
    if r is None:
        return
    C.check('ratios were stored', not isinstance(S['r'][i], float))
    for k in C.each(n):
        C.check('ratios within the reuse tolerance', C.abs(C.at(r, k) - C.at(S['r'][i], k)) < C.abs(C.at(S['r'][i], k)) * 1e-6)


@contract('C01', targets=(B + '_check_model_variables',), modes=('prove',))
def reuse_model_variables(C):
    """updated for exactly the given arguments, or kept only if they were set for the same arguments"""
    scalar = C.choice('scalar', (False, True))
    o, S, ni, num = store(C, C.gt.pipes._BasePipe, 1, scalar)
    m, cp, n, r = key(C, num)
    o._m_flow_cp_model_variables, o._nSegments_model_variables, o._segment_ratios_model_variables = S['mcp'][0], S['n'][0], S['r'][0]
    updated = []
    C.stub(C.gt.pipes._BasePipe, '_update_model_variables', lambda self, *a: updated.append(a))
    # number of ratios is the number of segments
    kept = o._check_model_variables(m, cp, n, r)
    if len(updated) == 0:
        C.check('reported as kept', kept)
        reused(C, m, cp, n, r, S, 0, ni, scalar)
        return
    C.check('updated once, reported as updated', len(updated) == 1 and not kept)
    C.check('updated for the given arguments', updated[0][0] is m and updated[0][1] is cp and updated[0][2] is n and updated[0][3] is r)
    stored_key(C, m, cp, n, r, o._m_flow_cp_model_variables, o._nSegments_model_variables, o._segment_ratios_model_variables, ni, scalar)


def stored_key(C, m, cp, n, r, s_mcp, s_n, s_r, ni, scalar):
    C.eq('number of segments of the key', s_n, n)
    C.check('ratios of the key', (s_r is None) == (r is None))
    if scalar:
        C.eq('flow rate of the key', s_mcp, m * cp)
    else:
        C.check('flow rates of the key are a copy', s_mcp is not m)
        old = [C.at(m, i) for i in range(1)]
        for i in C.each(ni):
            C.eq('flow rates of the key', C.at(s_mcp, i), C.at(m, i) * cp)
        m[0] = C.real('later')
        C.eq('flow rates of the key are kept', C.at(s_mcp, 0), old[0] * cp)
    if r is not None:
        for k in C.each(n):
            C.eq('ratios of the key', C.at(s_r, k), C.at(r, k))
        old = C.at(r, 0)
        r[0] = C.real('later')
        C.eq('ratios of the key are kept', C.at(s_r, 0), old)


@contract('C01', targets=(B + '_set_stored_coefficients', B + '_get_stored_coefficients'), modes=('prove',))
def store_coefficients(C):
    scalar = C.choice('scalar', (False, True))
    o, S, ni, num = store(C, C.gt.pipes._BasePipe, 3, scalar)
    m, cp, n, r = key(C, num)
    i, c = C.choice('method', (0, 1, 2)), (object(), object())
    o._set_stored_coefficients(m, cp, n, r, c, i)
    C.check('returns what was stored', o._get_stored_coefficients(i)[0] is c[0] and o._get_stored_coefficients(i)[1] is c[1])
    for j in range(3):
        if j != i:
            C.check('other methods are untouched', o._get_stored_coefficients(j) is S['coef'][j] and o._stored_m_flow_cp[j] is S['mcp'][j]
                    and o._stored_nSegments[j] is S['n'][j] and o._stored_segment_ratios[j] is S['r'][j])
    stored_key(C, m, cp, n, r, o._stored_m_flow_cp[i], o._stored_nSegments[i], o._stored_segment_ratios[i], ni, scalar)


def record(C, cls, hit):
    """stubs of the store: which entries the methods use"""
    log = dict(check=[], get=[], set=[])
    made = {}

    def check(self, m, cp, n, r, i, tol=1e-6):
        log['check'].append((m, cp, n, r, i))
        return hit

    def get(self, i):
        log['get'].append(i)
        return made.setdefault(i, (object(), object()))

    def put(self, m, cp, n, r, c, i):
        log['set'].append((m, cp, n, r, c, i))
    C.stub(cls, '_check_coefficients', check)
    C.stub(cls, '_get_stored_coefficients', get)
    C.stub(cls, '_set_stored_coefficients', put)
    return log, made


def entries(C, make, cls, methods, prepare):
    """each method reads and writes an entry of its own, for its own arguments"""
    ids = {}
    for f in methods:
        o, a, k = make()
        log, made = record(C, cls, True)
        out = getattr(o, f)(*a, **k)
        C.check('one entry is read', len(log['check']) == 1 and len(log['get']) == 1 and len(log['set']) == 0)
        i = log['check'][0][4]
        C.check('returns the stored entry', log['get'][0] == i and out[0] is made[i][0] and out[1] is made[i][1])
        C.check('entry of the same arguments', all(x is y for x, y in zip(log['check'][0][:3], a)) and log['check'][0][3] is k.get('segment_ratios'))
        C.check('entries are distinct', i not in ids.values())
        ids[f] = i
    return ids


@contract('C01', targets=tuple(B + f for f in COEF if f != 'coefficients_temperature') + ('pipes.SingleUTube.coefficients_outlet_temperature',), modes=('prove',))
def entries_of_pipes(C):
    kind = C.choice('kind', ('single', 'parallel', 'independent'))
    methods = [f for f in COEF if f != 'coefficients_temperature']

    def make():
        return make.pipe, make.args, make.kw
    pipe = symbolic_pipe(C, kind, 1, update='_format_inputs')
    n = C.int('n', 1)
    m = C.np.array([C.real('m', gt=0.)]) if kind == 'independent' else C.real('m', gt=0.)
    make.pipe, make.args, make.kw = pipe, (m, C.real('cp', gt=0.), n), dict(segment_ratios=C.array('r', (n,)) if C.choice('r', (True, False)) else None)
    ids = entries(C, make, C.gt.pipes._BasePipe, methods, None)
    # nothing stored: what is computed is stored in the same entry with the same arguments
    from contracts.pipes_common import edges_contract, ends_contract
    edges_contract(C, pipe, n)
    np = C.np
    for f in ('coefficients_borehole_heat_extraction_rate', 'coefficients_fluid_heat_extraction_rate', 'coefficients_inlet_temperature'):
        ends_contract(C, pipe)
        if f == 'coefficients_inlet_temperature':
            N = pipe.nInlets
            C.stub(C.gt.pipes._BasePipe, 'coefficients_fluid_heat_extraction_rate', lambda self, m, cp, n, segment_ratios=None: (C.array('b_in', (N, N)), C.array('b_b', (N, n))))
        log, made = record(C, C.gt.pipes._BasePipe, False)
        out = getattr(pipe, f)(*make.args, **make.kw)
        last = log['set'][-1]
        C.check('stored in its own entry', last[5] == ids[f])
        C.check('stored with its own arguments', all(x is y for x, y in zip(last[:3], make.args)) and last[3] is make.kw['segment_ratios'])
        C.check('stores what it returns', last[4][0] is out[0] and last[4][1] is out[1])


NC = ('coefficients_inlet_temperature', 'coefficients_outlet_temperature', 'coefficients_network_inlet_temperature', 'coefficients_network_outlet_temperature',
      'coefficients_borehole_heat_extraction_rate', 'coefficients_fluid_heat_extraction_rate', 'coefficients_network_heat_extraction_rate')


def network_store(C):
    np = C.np
    ni = C.int('nInlets', 1)
    o = C.instance(C.gt.networks.Network, nInlets=ni, nBoreholes=2)
    S = dict(coef=[], mcp=[], n=[], r=[])
    kind = C.choice('stored ratios', ('none', 'list', 'nan'))
    for i in range(2):
        S['coef'].append((object(), object()))
        S['mcp'].append(C.array(f'stored{i}', (ni,)))
        S['n'].append([C.int(f'stored_n{i}_{b}', 1) for b in range(2)])
        S['r'].append({'none': None, 'nan': float('nan')}.get(kind) if kind != 'list' else [C.array(f'stored_r{i}_{b}', (C.int(f'len{i}_{b}', 1),)) for b in range(2)])
    o._stored_coefficients, o._stored_m_flow_cp, o._stored_nSegments, o._stored_segment_ratios = [list(S[k]) for k in ('coef', 'mcp', 'n', 'r')]
    n = [C.int(f'n{b}', 1) for b in range(2)]
    r = None if C.choice('ratios', ('none', 'list')) == 'none' else [C.array(f'r{b}', (n[b],)) for b in range(2)]
    m, cp = C.array('m', (ni,)), C.array('cp', (ni,))

    def fmt(self, m_, cp_, n_, r_):
        C.check('inputs of the query', m_ is m and cp_ is cp and n_ is n and r_ is r)
        self._m_flow_in, self._cp_in = m, cp
    C.stub(C.gt.networks.Network, '_format_inputs', fmt)
    return o, S, ni, m, cp, n, r


@contract('C01', targets=(N + '_check_coefficients',), modes=('prove',))
def reuse_network_coefficients(C):
    o, S, ni, m, cp, n, r = network_store(C)
    i = C.choice('method', (0, 1))
    if not o._check_coefficients(m, cp, n, r, i):
        return
    for k in C.each(ni):
        C.check('flow rates within the reuse tolerance', C.abs(C.at(m, k) * C.at(cp, k) - C.at(S['mcp'][i], k)) < C.abs(C.at(S['mcp'][i], k)) * 1e-6)
    for b in range(2):
        C.eq('same number of segments', n[b], S['n'][i][b])
    C.check('both uniform or both with ratios', (r is None) == (S['r'][i] is None))
    if r is not None:
        C.check('ratios were stored', isinstance(S['r'][i], list))
        for b in range(2):
            C.eq('same number of ratios', C.len(r[b]), C.len(S['r'][i][b]))
            for k in C.each(n[b]):
                C.check('ratios within the reuse tolerance', C.abs(C.at(r[b], k) - C.at(S['r'][i][b], k)) < C.abs(C.at(S['r'][i][b], k)) * 1e-6)


@contract('C01', targets=(N + '_set_stored_coefficients', N + '_get_stored_coefficients'), modes=('prove',))
def store_network_coefficients(C):
    o, S, ni, m, cp, n, r = network_store(C)
    o._m_flow_in, o._cp_in = m, cp
    i, c = C.choice('method', (0, 1)), (object(), object())
    o._set_stored_coefficients(m, cp, n, r, c, i)
    C.check('returns what was stored', o._get_stored_coefficients(i)[0] is c[0] and o._get_stored_coefficients(i)[1] is c[1])
    j = 1 - i
    C.check('other methods are untouched', o._get_stored_coefficients(j) is S['coef'][j] and o._stored_m_flow_cp[j] is S['mcp'][j]
            and o._stored_nSegments[j] is S['n'][j] and o._stored_segment_ratios[j] is S['r'][j])
    for k in C.each(ni):
        C.eq('flow rates of the key', C.at(o._stored_m_flow_cp[i], k), C.at(m, k) * C.at(cp, k))
    old = list(n)
    for b in range(2):
        C.eq('segments of the key', o._stored_nSegments[i][b], n[b])
    n[0] = C.int('later', 1)
    C.eq('segments of the key are kept', o._stored_nSegments[i][0], old[0])
    if r is None:
        C.check('ratios of the key', o._stored_segment_ratios[i] is None)
        return
    for b in range(2):
        for k in C.each(old[b]):
            C.eq('ratios of the key', C.at(o._stored_segment_ratios[i][b], k), C.at(r[b], k))
    v = C.at(r[0], 0)
    r[0][0] = C.real('later')
    C.eq('ratios of the key are kept', C.at(o._stored_segment_ratios[i][0], 0), v)


@contract('C01', targets=(N + '_check_mixing_coefficients', N + '_coefficients_mixing'), modes=('prove',))
def reuse_mixing(C):
    """the mixing weights are those of the flow rates of the query"""
    np = C.np
    scalar = C.choice('scalar', (True, False))
    stored = C.real('stored') if scalar else C.array('stored', (2,))
    mix = np.array([[C.real('w0'), C.real('w1'), C.real('w2')]])
    o = C.instance(C.gt.networks.Network, nBoreholes=3, _mixing_m_flow=stored, _mix_out=mix, iOutlets=[2, 0])
    m = C.real('m', gt=0.) if scalar else np.array([C.real('m0', gt=0.), C.real('m1', gt=0.)])
    mb = np.array([C.real(f'mb{i}', gt=0.) for i in range(3)])
    o._m_flow_borehole = mb * (1 if C.choice('direction', (True, False)) else -1)
    got = o._coefficients_mixing(m)
    if got is mix:
        for i in range(1 if scalar else 2):
            a, b = (m, stored) if scalar else (m[i], C.at(stored, i))
            C.check('same flow rates as stored', C.abs(a - b) < C.abs(b) * 1e-6)
        return
    tot = mb[2] + mb[0]
    C.eq('weight of an outlet', got[0, 2], mb[2] / tot)
    C.eq('weight of an outlet', got[0, 0], mb[0] / tot)
    C.eq('no other weights', got[0, 1], 0.)
    if scalar:
        C.eq('key', o._mixing_m_flow, m)
    else:
        for i in range(2):
            C.eq('key', o._mixing_m_flow[i], m[i])
        v = m[0]
        m[0] = C.real('later')
        C.eq('the key is kept', o._mixing_m_flow[0], v)


@contract('C01', targets=tuple(N + f for f in NC), modes=('prove',))
def entries_of_networks(C):
    n = C.int('n', 1)
    o = C.instance(C.gt.networks.Network, nInlets=1, nBoreholes=2)
    args, kw = (C.real('m', gt=0.), C.real('cp', gt=0.), n), dict(segment_ratios=C.choice('r', (None, [1., 2.])))
    ids = entries(C, lambda: (o, args, kw), C.gt.networks.Network, NC, None)
    C.check('all entries exist', all(0 <= i < 7 for i in ids.values()))


@contract('C01', targets=('pipes._compare_thermal_resistances_inputs',), modes=('prove',))
def reuse_resistances(C):
    np, P = C.np, C.gt.pipes
    n, k = C.choice('n', (1, 2)), C.choice('stored n', (1, 2))
    D = P._thermal_resistances_dict
    saved = dict(D)
    num = lambda name, j: np.array([C.real(f'{name}{i}') for i in range(j)])
    pos, pos0 = [[(C.real(f'{w}x{i}'), C.real(f'{w}y{i}')) for i in range(j)] for w, j in (('', n), ('s', k))]
    g = {w: C.real(w, gt=0.) for w in ('r_b', 'k_s', 'k_g')}
    s = {w: C.real('s' + w, gt=0.) for w in g}
    r, R, r0, R0, J, J0 = num('r', n), num('R', n), num('sr', k), num('sR', k), C.int('J', 0), C.int('sJ', 0)
    try:
        D.update(pos=pos0, r_out=r0, R_fp=R0, J=J0, R='R', Rd='Rd', **s)
        same = P._compare_thermal_resistances_inputs(pos, r, g['r_b'], g['k_s'], g['k_g'], R, J)
        if not same:
            return
        C.check('same number of pipes', n == k)
        t = 1.000001e-6
        for w in g:
            C.check('same ' + w, C.abs(g[w] - s[w]) <= t * g[w])
        C.eq('same order', J, J0)
        for i in range(n):
            C.check('same radii', C.abs(r[i] - r0[i]) <= t * C.abs(r0[i]))
            C.check('same resistances', C.abs(R[i] - R0[i]) <= t * C.abs(R0[i]))
            for c in range(2):
                C.check('same positions', C.abs(pos[i][c] - pos0[i][c]) <= t * C.abs(pos[i][c]))
    finally:
        D.update(saved)
