"""g-functions of real fields, for the concrete contracts of the solvers"""
from types import SimpleNamespace


def a_field(C, most=5, vertical=None, equal=None, name=''):
    """boreholes at distinct positions: all equal, a few kinds, or all different; vertical or inclined"""
    np, gt = C.np, C.gt
    nb = C.int(name + 'boreholes', 1, conc=(1, most))
    tilted = False if vertical else C.choice(name + 'inclined', (False, False, True))
    layout = C.choice(name + 'layout', ('grid', 'line', 'random'))
    variety = 'equal' if equal else C.choice(name + 'variety', ('equal', 'kinds', 'kinds', 'different'))
    B = C.choice(name + 'spacing', (5., 7.5))
    key = C.array(name + 'order', (nb,), conc=(0., 1.))
    cells = sorted(range(nb), key=lambda i: key[i])
    kinds = [(C.real(name + f'H{k}', conc=(20., 150.)), C.real(name + f'D{k}', conc=(1., 6.)), C.choice(name + f'r_b{k}', (0.075, 0.06)), C.real(name + f'tilt{k}', conc=(0.05, 0.5)))
             for k in range(1 if variety == 'equal' else 2)]
    out = []
    for k in range(nb):
        q = cells[k]
        if layout == 'grid':
            x, y = B * (q % 2), 1.3 * B * (q // 2)
        elif layout == 'line':
            x, y = B * q, 0.
        else:
            x, y = B * 1.5 * q + C.real(name + f'dx{k}', conc=(0., 3.)), C.real(name + f'dy{k}', conc=(0., 20.))
        if variety == 'different':
            H, D, r_b, tilt = (C.real(name + f'H_{k}', conc=(20., 150.)), C.real(name + f'D_{k}', conc=(1., 6.)), 0.075, C.real(name + f'tilt_{k}', conc=(0.05, 0.5)))
        else:
            j = C.choice(name + f'kind{k}', range(len(kinds)))
            H, D, r_b, tilt = kinds[j]
            if variety == 'kinds' and C.choice(name + f'mix{k}', (False, False, True)):
                D = kinds[1 - j][1]     # same length, other depth
        if tilted and C.choice(name + f'tilted{k}', (True, True, False)):
            a = C.choice(name + f'orientation{k}', (0., np.pi / 2, np.pi, -1., 'outward'))
            a = np.arctan2(y - B / 2, x - B / 2) if a == 'outward' else a
            out.append(gt.boreholes.Borehole(H, D, r_b, x, y, tilt=tilt, orientation=a))
        else:
            out.append(gt.boreholes.Borehole(H, D, r_b, x, y))
    return out


def segments(C, n, equal=False, most=4, name=''):
    """nSegments and segment_ratios options; what they mean for each borehole"""
    np = C.np
    if equal or C.choice(name + 'same segments', (True, True, False)):
        k = C.int(name + 'nSegments', 1, conc=(1, most))
        ns, option = [k] * n, k
        kind = C.choice(name + 'ratios', ('uniform', 'default', 'array', 'function'))
        if kind == 'uniform':
            return dict(nSegments=k, segment_ratios=None), ns, [np.full(k, 1. / k)] * n
        if kind == 'default' and k > 2:
            r = np.asarray(C.gt.utilities.segment_ratios(k))
            return dict(nSegments=k), ns, [r] * n
        w = C.array(name + 'w', (k,), conc=(0.5, 2.))
        w = w / np.sum(w)
        return dict(nSegments=k, segment_ratios=w if kind == 'array' else lambda m: w.copy()), ns, [w] * n
    ns = [C.int(name + f'nSegments{i}', 1, conc=(1, most)) for i in range(n)]
    if C.choice(name + 'uniform segments', (True, False)):
        return dict(nSegments=list(ns), segment_ratios=None), ns, [np.full(k, 1. / k) for k in ns]
    if C.choice(name + 'few segments', (True, False)):     # the same numbers, few different ratios
        k = C.int(name + 'k', 2, conc=(2, most))
        ns = [k] * n
        w = [C.array(name + f'w{i}', (k,), conc=(0.5, 2.)) for i in range(3)]
        w = [w[C.choice(name + f'which{i}', (0, 0, 1, 2))] for i in range(n)]
    else:
        w = [C.array(name + f'w{i}', (k,), conc=(0.5, 2.)) for i, k in enumerate(ns)]
    w = [x / np.sum(x) for x in w]
    return dict(nSegments=list(ns), segment_ratios=[x.copy() for x in w]), ns, w


def times(C, r_b, alpha, H):
    np = C.np
    ts = H ** 2 / (9. * alpha)
    own = C.choice('own threshold', (False, False, True))
    thr = C.choice('threshold', (3600., 1e5)) if own else r_b ** 2 / (25. * alpha)
    k = C.int('short times', 0, conc=(0, 3))
    short = np.sort(C.array('t_short', (k,), conc=(0.01, 1.))) * thr
    if k and C.choice('at the threshold', (False, False, True)):
        short[-1] = thr
    n = C.int('long times', 0 if k else 1, conc=(0 if k else 1, 5))
    long_ = thr * 1.01 + np.cumsum(C.array('dt', (n,), conc=(0.02, 1.)) ** 3) * ts * C.choice('scale', (1., 0.1, 10.))
    if C.choice('uniform steps', (False, False, True)):
        long_ = thr * (1.5 + np.arange(n) * 40.)
    return np.concatenate((short, long_)), thr if own else None, thr


def networks(C, method):
    np, gt = C.np, C.gt
    if method == 'equivalent':
        b = a_field(C, 5, vertical=True)
        pos = [(-0.03, 0.), (0.03, 0.)]
        pipes = [gt.pipes.SingleUTube(pos, 0.01, 0.012, x, 2., 1.2, 0.1) for x in b]
        return gt.networks.Network(b, pipes)
    b = a_field(C, 4, vertical=method == 'equivalent', equal=False)
    nb = len(b)
    c = [-1] * nb
    key = C.array('circuit order', (nb,), conc=(0., 1.))
    order = sorted(range(nb), key=lambda i: key[i])
    for k in range(1, nb):
        if C.choice(f'series{k}', (True, False)):
            c[order[k]] = order[k - 1]
    pipes = []
    for i, x in enumerate(b):
        R_fp = C.choice(f'R_fp{i}', (0.08, 0.14))
        if C.choice(f'pipes{i}', ('single', 'double')) == 'single':
            pipes.append(gt.pipes.SingleUTube([(-0.03, 0.), (0.03, 0.)], 0.01, 0.012, x, 2., 1.2, R_fp))
        else:
            pipes.append(gt.pipes.MultipleUTube([(-0.03, 0.), (0., -0.03), (0.03, 0.), (0., 0.03)], 0.01, 0.012, x, 2., 1.2, R_fp, 2, config='parallel'))
    return gt.networks.Network(b, pipes, bore_connectivity=c)


def solution(C):
    """a g-function with its solution -> everything the laws are about"""
    np, gt = C.np, C.gt
    R = SimpleNamespace()
    R.method = C.choice('method', ('detailed', 'similarities', 'equivalent'))
    R.bc = C.choice('boundary condition', ('UHTR', 'UBWT', 'MIFT', 'MIFT'))
    R.alpha = C.choice('alpha', (1e-6, 6e-7))
    kw = {}
    R.nM = 0
    R.cp = 4000.
    if R.bc == 'MIFT':
        R.net = net = networks(C, R.method)
        R.b = b = net.b
        R.given = C.choice('flow', ('network', 'network', 'circuits', 'networks', 'circuits of networks'))
        f = lambda i: C.real(f'm{i}', conc=(0.1, 0.6)) * C.choice(f'sign{i}', (1., 1., 1., -1.))
        if R.given == 'network':
            kw = dict(m_flow_network=f(0) * net.nInlets)
            R.flows = [kw['m_flow_network']]
        elif R.given == 'networks':
            kw = dict(m_flow_network=np.array([f(0), f(1)]) * net.nInlets)
            R.nM, R.flows = 2, list(kw['m_flow_network'])
        elif R.given == 'circuits':
            same = R.method == 'equivalent'
            kw = dict(m_flow_borehole=np.array([f(0 if same else i) for i in range(net.nInlets)]))
            kw['m_flow_borehole'] = np.abs(kw['m_flow_borehole']) * np.sign(kw['m_flow_borehole'][0])
            R.flows = [kw['m_flow_borehole'].copy()]
        else:
            same = R.method == 'equivalent'
            m = np.array([[f(0 if same else i) for i in range(net.nInlets)], [f(9 if same else 10 + i) for i in range(net.nInlets)]])
            m = np.abs(m) * np.sign(m[:, :1])
            kw = dict(m_flow_borehole=m)
            R.nM, R.flows = 2, [x.copy() for x in m]
        kw['cp_f'] = R.cp
        if len(R.flows) > 1 and np.any(np.sign(R.flows[0]) != np.sign(R.flows[1])):
            R.flows = [np.abs(x) for x in R.flows]
            kw = {k: np.abs(v) if k != 'cp_f' else v for k, v in kw.items()}
    else:
        R.net = None
        b = R.b = a_field(C, 5, vertical=R.method == 'equivalent')
    seg, R.ns, R.ratios = segments(C, len(b), equal=R.method == 'equivalent')
    R.time, thr, R.thr = times(C, max(x.r_b for x in b), R.alpha, b[0].H)
    opts = dict(seg, profiles=True)
    if thr is not None:
        opts['linear_threshold'] = thr
    if C.choice('approximate', (False, False, False, True)):
        opts.update(approximate_FLS=True)
    g = gt.gfunction.gFunction(R.net if R.net is not None else b, R.alpha, time=R.time.copy(), method=R.method, boundary_condition=R.bc, options=opts, **kw)
    R.gf, R.s, R.g = g, g.solver, g.gFunc
    R.Q, R.T, R.H = R.s.Q_b, R.s.T_b, np.asarray(R.s.segment_lengths(), dtype=float)
    R.n = len(R.H)
    R.eq = isinstance(R.s, gt.solvers.Equivalent)
    return R
