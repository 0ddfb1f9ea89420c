"""A03: simulation time grids."""
from pyvc.api import contract, meta

meta('A03', level='proof', note='Claesson-Javed and Marcotte-Pasquier grids for every time step, duration and number of cells, by loop invariant; '
     'geometric grids: count, anchoring, end and order for every converged expansion rate (the Newton-like iteration for the rate is used through the '
     'contract that it ends above one; that contract is checked on concrete runs).')


def grid(C, mag=4):
    dt = C.real('dt', gt=0., conc=(1., 1e5))
    tmax = C.real('tmax', gt=0.)
    if C.mode == 'conc':
        tmax = dt * C.real('steps', gt=0., conc=(0.01, 3.)) * 10. ** C.int('mag', 0, conc=(0, mag))
        if C.int('exact', 0, conc=(0, 3)) == 0:
            tmax = dt * max(1, round(tmax / dt))
    return dt, tmax


def check_grid(C, t, n, dt, tmax, width):
    C.check('at least one time value', n >= 1)
    C.eq('starts at one time step', C.at(t, 0), dt)
    for k in C.each((1, n)):
        C.eq('documented cell width', C.at(t, k) - C.at(t, k - 1), width(k) * dt)
        C.lt('strictly increasing', C.at(t, k - 1), C.at(t, k))
    C.le('reaches the maximum time', tmax, C.at(t, n - 1))
    for k in C.each((n - 2, n - 1)):
        if C.sym:
            C.check('no superfluous cell', C.implies(n >= 2, C.at(t, k) < tmax))
        elif n >= 2:
            C.lt('no superfluous cell', C.at(t, k), tmax)


@contract('A03', targets=('utilities.time_ClaessonJaved',))
def time_ClaessonJaved(C):
    dt, tmax = grid(C, 10)
    c = C.int('cells', 1, conc=(1, 8))
    W = lambda j: C.np.power(2., C.np.ceil(j / c) - 1)
    if C.sym:
        invariant(C, 'utilities.time_ClaessonJaved', W, dt, tmax)
    t = C.gt.utilities.time_ClaessonJaved(dt, tmax, cells_per_level=c)
    # 0-based cell k belongs to level floor(k/c) = ceil((k+1)/c) - 1 (lemma level_widths)
    check_grid(C, t, C.len(t), dt, tmax, (lambda k: W(k + 1)) if C.sym else (lambda k: 2 ** (k // c)))


@contract('A03', targets=('utilities.time_MarcottePasquier',))
def time_MarcottePasquier(C):
    dt, tmax = grid(C, 10)
    c = C.int('cells', 1, conc=(1, 60))
    W = lambda j: C.ite(j <= c, 1., C.np.power(2., j - c))
    if C.sym:
        invariant(C, 'utilities.time_MarcottePasquier', W, dt, tmax)
    t = C.gt.utilities.time_MarcottePasquier(dt, tmax, non_expanding_cells=c)
    check_grid(C, t, C.len(t), dt, tmax, lambda k: W(k + 1))


@contract('A03', targets=())
def level_widths(C):
    """arithmetic of the level widths used above: equal within a level, doubling after each level"""
    if not C.sym:
        C.check('levels', True)
        return
    c, q, r = C.int('c', 1), C.int('q', 0), C.int('r', 0)
    C.assume(r < c)
    k = q * c + r
    lv = C.np.ceil((k + 1) / c) - 1
    C.lemma('quotient bounds', C.And((k + 1) / c > q, (k + 1) / c <= q + 1))
    C.eq('cell k belongs to level floor(k/c)', lv, q)


@contract('A03', targets=('utilities.time_geometric',))
def time_geometric(C):
    dt, tmax = grid(C)
    Nt = C.int('Nt', 1, conc=(1, 60))
    if C.sym:
        def hv(v):
            return dict(dr=C.T.CTX.fresh('dr'), r=C.T.CTX.fresh('r'))
        # the expansion rate stays above one while iterating (the iteration itself is not claimed to terminate)
        C.invariant('utilities.time_geometric', hv, lambda v: [('expansion rate above one', v['r'] > 1)])
        C.lemma('exponent of the rate', 1 / C.T.SReal(C.T.zr(Nt)) > 0)
        C.lemma('growth', C.implies(tmax > Nt * dt, tmax / dt > Nt))
    t = C.gt.utilities.time_geometric(dt, tmax, Nt)
    C.same_shape('exactly the requested number of values', t, (Nt,))
    if C.sym:
        for k in C.each((0, Nt - 1)):
            C.check('starts at one time step', C.implies(C.And(k == 0), C.at(t, k) == dt))
        for k in C.each((1, Nt - 1)):
            C.check('strictly increasing', C.at(t, k - 1) < C.at(t, k))
        for k in C.each((2, Nt - 1)):
            w1, w0 = C.at(t, k) - C.at(t, k - 1), C.at(t, k - 1) - C.at(t, k - 2)
            C.check('steps never shrink', w1 >= w0)
            w1b, w0b = C.at(t, 1) - C.at(t, 0), C.at(t, 0)
            C.eq('steps expand by one constant factor', w1 * w0b, w0 * w1b)
        C.check('ends at the maximum time', C.implies(tmax > Nt * dt, C.at(t, Nt - 1) == tmax))
        for k in C.each(Nt):
            C.check('uniform otherwise', C.implies(tmax <= Nt * dt, C.at(t, k) == (k + 1) * dt))
        return
    w = C.np.diff(C.np.concatenate([[0.], t]))
    C.check('strictly increasing', C.np.all(w > 0))
    if tmax > Nt * dt * (1 + 1e-6):
        C.check('ends at the maximum time', t[-1] == tmax)
    if tmax <= Nt * dt:
        C.eq('uniform otherwise', t, dt * C.np.arange(1, Nt + 1))
        return
    if Nt > 1:
        C.eq('starts at one time step', t[0], dt, rtol=1e-5)
        C.eq('steps expand by one constant factor', w[1:-1] / w[:-2], C.np.full(max(Nt - 2, 0), (w[1] / w[0])), rtol=1e-5)
    C.check('steps never shrink', C.np.all(w[1:-1] >= w[:-2] * (1 - 1e-6)) and (Nt < 2 or w[-1] >= 0.98 * w[-2]))


@contract('A03', targets=('load_aggregation.ClaessonJaved.get_times_for_simulation', 'load_aggregation.ClaessonJaved._build_cells',
                          'load_aggregation.ClaessonJaved.__init__'))
def request_ClaessonJaved(C):
    dt, tmax = grid(C)
    c, ns = C.int('cells', 1, conc=(1, 8)), C.int('nS', 1, conc=(1, 4))
    if C.sym:
        n = C.int('n', 1)
        grid_ = C.array('grid', (n,), gt=0.)
        seen = []
        C.stub(C.gt.utilities, 'time_ClaessonJaved', lambda a, b, cells_per_level=5: (seen.append((a, b, cells_per_level)), grid_)[1])
        g = C.gt.load_aggregation.ClaessonJaved(dt, tmax, nSources=ns, cells_per_level=c)
        C.check('one grid is built', len(seen) == 1)
        a, b, k = seen[0]
        C.eq('grid for the time step', a, dt)
        C.eq('grid for the duration', b, tmax)
        C.check('grid for the cells per level', k == c)
        C.eq('response factors are requested on the grid', g.get_times_for_simulation(), grid_)
        for e in C.each((1, n)):
            C.eq('cell widths in time steps', C.at(g._width, e) * dt, C.at(grid_, e) - C.at(grid_, e - 1))
        return
    g = C.gt.load_aggregation.ClaessonJaved(dt, tmax, nSources=ns, cells_per_level=c)
    t = g.get_times_for_simulation()
    check_grid(C, t, len(t), dt, tmax, lambda k: 2 ** (k // c))


def uniform(C, t, dt, tmax):
    n = C.np.ceil(tmax / dt)
    C.same_shape('one value per time step', t, (int(n),) if C.mode == 'conc' else (C.T.SInt(C.T.zi(n)) if not isinstance(n, C.T.SReal) else C.T.sceil(tmax / dt),))
    for k in C.each(C.len(t)):
        C.eq('uniform grid', C.at(t, k), (k + 1) * dt)


@contract('A03', targets=('load_aggregation.MLAA.get_times_for_simulation', 'load_aggregation.MLAA._build_cells', 'load_aggregation.MLAA.__init__'))
def request_MLAA(C):
    dt, tmax = grid(C)
    if C.mode == 'conc':
        C.assume(tmax / dt < 3000)
    ns = C.int('nS', 1, conc=(1, 4))
    g = C.gt.load_aggregation.MLAA(dt, tmax, nSources=ns, N0=C.int('N0', 1, conc=(1, 9)), N1=C.int('N1', 1, conc=(1, 9)),
                                   N2=C.int('N2', 1, conc=(1, 9)), N3=C.int('N3', 1, conc=(1, 9)))
    uniform(C, g.get_times_for_simulation(), dt, tmax)


@contract('A03', targets=('load_aggregation.Liu.get_times_for_simulation', 'load_aggregation.Liu._build_cells', 'load_aggregation.Liu.__init__'))
def request_Liu(C):
    dt, tmax = grid(C)
    if C.mode == 'conc':
        C.assume(tmax / dt < 3000)
    ns = C.int('nS', 1, conc=(1, 4))
    g = C.gt.load_aggregation.Liu(dt, tmax, nSources=ns, N1=C.int('N1', 1, conc=(1, 9)), N2=C.int('N2', 1, conc=(1, 9)), N3=C.int('N3', 1, conc=(1, 9)),
                                  W1=C.int('W1', 1, conc=(1, 9)), W2=C.int('W2', 1, conc=(1, 9)), W3=C.int('W3', 1, conc=(1, 9)))
    uniform(C, g.get_times_for_simulation(), dt, tmax)


def invariant(C, qual, W, dt, tmax):
    from pyvc import loops
    P = lambda k: C.sum(1, k + 1, W)

    def hv(v):
        i = C.T.CTX.fresh('cells_so_far', 'int')
        C.assume(i >= 0)
        out = dict(t=C.T.CTX.fresh('t'), i=i, time=C.symlist(i, lambda k: P(k + 1) * dt))
        if v.get('width', loops.UNSET) is not loops.UNSET:
            out['width'] = C.T.CTX.fresh('width')
        return out

    def inv(v):
        from pyvc.arrays import as_symlist
        i, t, tm = v['i'], v['t'], as_symlist(v['time'])
        r = [('cells are counted', i >= 0), ('one time value per cell', tm.n == i),
             ('time is the sum of the widths so far', t == P(i) * dt)]
        if not (isinstance(i, int) and i == 0):
            e = C.T.CTX.fresh('e', 'int')
            r.append(('time values', C.under(C.And(e >= 0, e < i), lambda: tm.elem(e) == P(e + 1) * dt)))
            r.append(('the last cell was needed', C.under(i >= 1, lambda: P(i - 1) * dt < tmax)))
        if v.get('width', loops.UNSET) is not loops.UNSET:
            r.append(('width', C.implies(i >= 1, v['width'] == W(i))))
            r.append(('initial width', C.implies(i < 1, v['width'] == 1)))
        return r
    C.invariant(qual, hv, inv, lambda v: (v['t'], dt))
