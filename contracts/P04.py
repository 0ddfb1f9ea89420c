"""P04: invalid pipe and network definitions are rejected, valid ones are accepted."""
from pyvc.api import contract, meta

meta('P04', level='proof', note='Pipe models: the constructor succeeds exactly for valid definitions, for all real values of positions, radii, conductivities and resistances; 1 and 2 '
     'U-tubes and coaxial pipes. Three U-tubes, not-a-number values and networks (all connectivity lists of up to 7 boreholes, sampled) are bounded.')

B = 'pipes._BasePipe._check_geometry'
CLASSES = dict(single='SingleUTube', parallel='MultipleUTube', series='MultipleUTube', independent='IndependentMultipleUTube')


def borehole(C):
    return C.gt.boreholes.Borehole(C.real('H', gt=0., conc=(50., 150.)), C.real('D', conc=(0., 4.)), C.real('r_b', conc=(0.05, 0.1)), 0., 0.)


def utube_bad(C, pos, r_in, r_out, r_b, k_s, k_g, R_fp, J, N):
    Or, And, Not = C.Or, C.And, C.Not
    bad = [Not(k_s > 0.), Not(k_g > 0.), Not(R_fp > 0.), Not(r_in > 0.), Not(r_out > r_in), Not(J >= 0)]
    sq = C.np.sqrt
    for i in range(N):
        bad.append(Not(sq(pos[i][0] ** 2 + pos[i][1] ** 2) + r_out <= r_b))
        for j in range(i):
            bad.append(Not(sq((pos[i][0] - pos[j][0]) ** 2 + (pos[i][1] - pos[j][1]) ** 2) >= 2 * r_out))
    return Or(*bad)


def make_utube(C, kind, n, pos, r_in, r_out, b, k_s, k_g, R_fp, J):
    cls = getattr(C.gt.pipes, CLASSES[kind])
    if kind == 'single':
        return cls(pos, r_in, r_out, b, k_s, k_g, R_fp, J=J)
    if kind == 'independent':
        return cls(pos, r_in, r_out, b, k_s, k_g, R_fp, n, J=J)
    return cls(pos, r_in, r_out, b, k_s, k_g, R_fp, n, config=kind, J=J)


def prove_utube(C, kind, n):
    pos = [(C.real(f'x{i}'), C.real(f'y{i}')) for i in range(2 * n)]
    b = borehole(C)
    g = [C.real(k) for k in ('r_in', 'r_out', 'k_s', 'k_g', 'R_fp')]
    J = C.int('J', -3, 5)
    r_in, r_out, k_s, k_g, R_fp = g
    made = []
    for cls in set(CLASSES.values()):
        C.stub(getattr(C.gt.pipes, cls), 'update_thermal_resistances', lambda self, R: made.append((self, R)))
    bad = utube_bad(C, pos, r_in, r_out, b.r_b, k_s, k_g, R_fp, J, 2 * n)
    p = C.iff_raises('created exactly when the definition is valid', bad, (ValueError,), lambda: make_utube(C, kind, n, pos, r_in, r_out, b, k_s, k_g, R_fp, J))
    if p is None:
        return
    C.check('resistances initialized', len(made) == 1)
    C.eq('fluid-to-pipe resistance', made[0][1], R_fp)
    for k, v in (('r_in', r_in), ('r_out', r_out), ('k_s', k_s), ('k_g', k_g), ('J', J), ('nPipes', n), ('nInlets', n if kind == 'independent' else 1)):
        C.eq('attribute ' + k, getattr(p, k), v)
    C.check('borehole', p.b is b)


@contract('P04', targets=(B, 'pipes.SingleUTube.__init__'), modes=('prove',))
def single(C):
    prove_utube(C, 'single', 1)


@contract('P04', targets=(B, 'pipes.MultipleUTube.__init__', 'pipes.IndependentMultipleUTube.__init__'), modes=('prove',), max_paths=3000, budget=400)
def multiple(C):
    prove_utube(C, C.choice('kind', ('parallel', 'independent')), C.choice('nPipes', (1, 2)))


@contract('P04', targets=('pipes.Coaxial.__init__', 'pipes.Coaxial._check_geometry'), modes=('prove',), max_paths=1000)
def coaxial(C):
    np = C.np
    b = borehole(C)
    x, y = C.real('x'), C.real('y')
    ri, ro = [C.real('ri0'), C.real('ri1')], [C.real('ro0'), C.real('ro1')]
    k_s, k_g, R_ff, R_fp = [C.real(k) for k in ('k_s', 'k_g', 'R_ff', 'R_fp')]
    J = C.int('J', -3, 5)
    made = []
    C.stub(C.gt.pipes.Coaxial, 'update_thermal_resistances', lambda self, a, b: made.append((self, a, b)))
    Or, Not = C.Or, C.Not
    inner = C.ite(ro[0] <= ro[1], 0, 1)
    rin_outer, rout_inner = C.ite(ro[0] < ro[1], ri[1], ri[0]), C.ite(ro[0] <= ro[1], ro[0], ro[1])
    bad = [Not(k_s > 0.), Not(k_g > 0.), Not(R_ff >= 0.), Not(R_fp > 0.), Not(J >= 0), Not(rin_outer > rout_inner)]
    for k in range(2):
        bad += [Not(ri[k] > 0.), Not(ro[k] > ri[k]), Not(np.sqrt(x ** 2 + y ** 2) + ro[k] <= b.r_b)]
    pos = (x, y) if C.choice('tuple', (True, False)) else [(x, y)]
    p = C.iff_raises('created exactly when the definition is valid', Or(*bad), (ValueError,),
                     lambda: C.gt.pipes.Coaxial(pos, np.array(ri), np.array(ro), b, k_s, k_g, R_ff, R_fp, J=J))
    if p is None:
        return
    C.check('resistances initialized', len(made) == 1)
    C.eq('fluid-to-fluid resistance', made[0][1], R_ff)
    C.eq('fluid-to-pipe resistance', made[0][2], R_fp)
    C.check('inner pipe', C.And(p._iInner == inner, p._iOuter == 1 - inner))


# -- bounded -------------------------------------------------------------------------------------------------
def pick(C, name, good, bad):
    return C.choice(name, tuple(good) * 3 + tuple(bad))


@contract('P04', targets=(B, 'pipes.SingleUTube.__init__', 'pipes.MultipleUTube.__init__', 'pipes.IndependentMultipleUTube.__init__'), modes=('conc',))
def utubes(C):
    np = C.np
    kind = C.choice('kind', tuple(CLASSES))
    n = 1 if kind == 'single' else C.choice('nPipes', (1, 2, 3))
    b = borehole(C)
    one = lambda name, good: good if not C.choice(name + '?', (False,) * 12 + (True,)) else C.choice(name, (0., -1., -1e-9, float('nan')))
    r_out = one('r_out', C.real('r_o', conc=(0.008, 0.016)))
    r_in = one('r_in', C.choice('r_i', (0.5, 0.8, 0.99, 1., 1.001)) * 0.01 if C.choice('rel', (False, True)) else C.choice('f', (0.5, 0.9, 0.9999, 1., 1.01)) * r_out)
    k_s, k_g, R_fp = one('k_s', 2.), one('k_g', 1.), one('R_fp', 0.1)
    J = C.choice('J', (0, 1, 2, 2, -1))
    D = C.real('shank', conc=(0.015, 0.09))
    a = C.real('phi', conc=(0., 6.)) + np.arange(2 * n) * np.pi / n
    pos = [(float(x), float(y)) for x, y in zip(D * np.cos(a), D * np.sin(a))]
    if C.choice('touching', (False, False, True)) and r_out > 0:   # exact contact between two pipes or with the borehole
        pos[0], pos[n] = (-r_out, 0.), (r_out, 0.)
    elif C.choice('near', (False, False, True)) and r_out > 0:     # one pipe is moved next to (or over) another one
        i, j = C.choice('i', tuple(range(2 * n))), C.choice('j', tuple(range(1, 2 * n)))
        k, t = (i + j) % (2 * n), C.choice('gap', (1.9, 1.999, 2.001, 2.1)) * r_out / np.hypot(*pos[i])
        pos[k] = (pos[i][0] * (1. - t), pos[i][1] * (1. - t)) if C.choice('inwards', (True, False)) else (pos[i][0] - t * pos[i][1], pos[i][1] + t * pos[i][0])
    bad = utube_bad(C, pos, r_in, r_out, b.r_b, k_s, k_g, R_fp, J, 2 * n)
    C.iff_raises('created exactly when the definition is valid', bad, (ValueError,), lambda: make_utube(C, kind, n, pos, r_in, r_out, b, k_s, k_g, R_fp, J))


@contract('P04', targets=('pipes.Coaxial.__init__', 'pipes.Coaxial._check_geometry'), modes=('conc',))
def coaxials(C):
    np = C.np
    b = borehole(C)
    r = np.cumsum(C.array('r', (4,), conc=(0.003, 0.022)))
    which = C.choice('defect', (None, None, 'inner', 'outer', 'fit', 'negative', 'k_s', 'k_g', 'R_ff', 'R_fp', 'J', 'edge'))
    a = dict(k_s=2., k_g=1., R_ff=0.1, R_fp=0.1, J=2)
    if which in a:
        a[which] = C.choice('value', (-1, -2)) if which in ('J', 'R_ff') else C.choice('value', (0., -1., float('nan')))
    if which == 'inner':
        r[1] = r[0] * C.choice('f', (1., 0.9))
    if which == 'outer':
        r[3] = r[2] * C.choice('f', (1., 0.9))
    if which == 'fit':
        r[2] = r[1] * C.choice('f', (1., 0.9))
    if which == 'negative':
        r[0] = C.choice('v', (0., -0.01))
    ri, ro = np.array([r[0], r[2]]), np.array([r[1], r[3]])
    if C.choice('order', (True, False)):
        ri, ro = ri[::-1].copy(), ro[::-1].copy()
    x = b.r_b - r[3] if which == 'edge' else C.choice('x', (0., 0., 0.01, 0.03))
    bad = not (a['k_s'] > 0 and a['k_g'] > 0 and a['R_ff'] >= 0 and a['R_fp'] > 0 and a['J'] >= 0 and np.all(ri > 0) and np.all(ro > ri)
               and ri[ro.argmax()] > ro[ro.argmin()] and np.all(np.sqrt(x ** 2) + ro <= b.r_b))
    C.iff_raises('created exactly when the definition is valid', bad, (ValueError,),
                 lambda: C.gt.pipes.Coaxial(C.choice('pos', ((float(x), 0.), [(float(x), 0.)])), ri, ro, b, a['k_s'], a['k_g'], a['R_ff'], a['R_fp'], J=a['J']))


def valid_network(c, n):
    if len(c) != n or any(not -1 <= x < n for x in c):
        return False
    if any(x != -1 and c.count(x) > 1 for x in c):
        return False
    for i in range(n):
        seen, k = set(), i
        while k != -1:
            if k in seen:
                return False
            seen.add(k)
            k = c[k]
    return True


@contract('P04', targets=('networks.Network.__init__', 'networks.Network._verify_bore_connectivity', 'networks.Network._find_inlets_outlets',
                          'networks.Network._path_to_inlet'), modes=('conc',))
def networks(C):
    gt = C.gt
    n = C.int('n', 1, conc=(1, 7))
    mode = C.choice('mode', ('any', 'path', 'path', 'defect'))
    if mode == 'any':
        c = [C.int(f'c{i}', -2, conc=(-2, n)) for i in range(n + C.choice('length', (0, 0, 0, 1, -1)))]
    else:   # circuits in a random order
        order = sorted(range(n), key=lambda i, k=C.array('order', (n,), conc=(0., 1.)): k[i])
        c = [-1] * n
        for k in range(1, n):
            if C.choice(f'series{k}', (True, True, False)):
                c[order[k]] = order[k - 1]
        if mode == 'defect':
            c[C.int('where', 0, conc=(0, n - 1))] = C.int('what', -2, conc=(-2, n))
    bs = [gt.boreholes.Borehole(100., 2., 0.075, 5. * i, 0.) for i in range(n)]
    pipe = gt.pipes.SingleUTube([(-0.03, 0.), (0.03, 0.)], 0.01, 0.012, bs[0], 2., 1., 0.1, J=0)
    C.iff_raises('created exactly when the connectivity is valid', not valid_network(c, n), (ValueError,) if min(c, default=0) >= -1 else (ValueError, IndexError),
                 lambda: gt.networks.Network(bs, [pipe] * n, bore_connectivity=c))
