"""S03: grouping similar boreholes and segments does not change response factors."""
from pyvc.api import contract, meta
from contracts.solvers_real import a_field, segments
from contracts.grouping_common import separated, a_pair, same_vertical

meta('S03', level='proof', note='Comparisons of boreholes and pairs: whatever is found similar has the same response factor arguments, for all geometries. Grouping, segment maps: any outcome '
     'of the comparisons, up to 3 boreholes and 2 segments each (bounded). Response factors of whole fields against pairwise evaluation: bounded.',
     assumptions=['compared quantities are equal or differ by more than the tolerance (the method is approximate in between)',
                  'the inclined response factor of a pair depends on the compared quantities only (checked numerically)'])

SIM = 'solvers.similarities.Similarities.'
DET = 'solvers.detailed.Detailed.'


def pairwise(C, segs, t, alpha, M=11):
    """response factor of every pair of segments on its own: [on, of, time]; values by every evaluation that applies
    (vertical; inclined; inclined from the reciprocal pair)"""
    np, ht = C.np, C.gt.heat_transfer
    n = len(segs)
    a = {f: np.array([getattr(s, f) for s in segs], dtype=float) for f in ('H', 'D', 'r_b', 'x', 'y', 'tilt', 'orientation')}
    q, p = np.tile(np.arange(n), n), np.repeat(np.arange(n), n)       # of, on
    H = a['H']
    dis = np.maximum(np.hypot(a['x'][p] - a['x'][q], a['y'][p] - a['y'][q]), a['r_b'][q])
    vertical = ((a['tilt'][p] == 0.) & (a['tilt'][q] == 0.)).reshape(n, n)
    V = ht.finite_line_source_vectorized(t, alpha, dis, H[q], a['D'][q], H[p], a['D'][p]).reshape(n, n, len(t))
    if np.all(vertical):
        return [V]
    I = ht.finite_line_source_inclined_vectorized(t, alpha, a['r_b'][q], a['x'][q], a['y'][q], H[q], a['D'][q], a['tilt'][q], a['orientation'][q],
                                                  a['x'][p], a['y'][p], H[p], a['D'][p], a['tilt'][p], a['orientation'][p], M=M).reshape(n, n, len(t))
    V = np.where(vertical[:, :, None], V, I)
    return [V, I, np.swapaxes(I, 0, 1) * H[None, :, None] / H[:, None, None]]


def a_case(C, cls, kw, most=4, **field):
    np = C.np
    b = a_field(C, most, **field)
    seg, ns, r = segments(C, len(b), most=3)
    alpha = C.choice('alpha', (1e-6, 6e-7))
    n = C.int('times', 1, conc=(1, 3))
    t = np.cumsum(C.array('dt', (n,), conc=(0.01, 1.)) ** 4) * 1e9 + 3600.
    s = cls(list(b), None, t, 'UBWT', **seg, **kw)
    return b, ns, r, alpha, t, s


def all_segments(b, ns, r):
    return [s for x, n, w in zip(b, ns, r) for s in x.segments(n, segment_ratios=w)]


def compare(C, b, ns, r, alpha, t, s):
    np = C.np
    h = s.thermal_response_factors(t, alpha)
    segs = all_segments(b, ns, r)
    n = len(segs)
    want = pairwise(C, segs, t, alpha, M=s.mQuad)
    got = np.stack([h(x) for x in t], axis=2)
    C.same_shape('one response factor per pair of segments', got, (n, n, len(t)))
    d = np.min([np.abs(got - w) / (1. + np.abs(w)) for w in want], axis=0)
    C.check('response factor of every pair of segments', bool(np.all(d <= 2e-7)), f'{got[d > 2e-7][:5]} != {want[0][d > 2e-7][:5]} at {np.argwhere(d > 2e-7)[:5].tolist()}')
    H = np.array([x.H for x in segs])
    which = np.repeat(np.arange(len(b)), ns)
    other = which[:, None] != which[None, :] if len(want) > 1 else np.ones((n, n), dtype=bool)
    C.eq('reciprocity', (got * H[:, None, None])[other], (np.swapaxes(got, 0, 1) * H[None, :, None])[other], rtol=1e-8, atol=1e-8)
    C.eq('no response at zero time', h(0.), 0.)


@contract('S03', targets=tuple(SIM + f for f in (
    'thermal_response_factors', '_thermal_response_factors_borehole_to_self_vertical', '_thermal_response_factors_borehole_to_self_inclined',
    '_thermal_response_factors_borehole_to_borehole_inclined', 'find_similarities', '_find_axial_borehole_pairs', '_find_distances', '_map_axial_segment_pairs_vertical',
    '_map_axial_segment_pairs_inclined', '_map_segment_pairs_vertical', '_map_segment_pairs_inclined', '_compare_boreholes', '_compare_borehole_pairs_vertical',
    '_compare_realandimage_pairs_vertical', '_compare_real_pairs_vertical', '_compare_image_pairs_vertical', '_compare_realandimage_pairs_inclined')), modes=('conc',), weight=3)
def similarities(C):
    small = C.choice('distance tolerance', (True, False))
    kw = dict(disTol=1e-7) if small else {}
    if C.choice('quadrature', (True, False)):
        kw['mQuad'] = 7
    b, ns, r, alpha, t, s = a_case(C, C.gt.solvers.Similarities, kw)
    if not small:
        # distances are either equal or more than 5 % apart
        d = sorted(x.distance(y) for i, x in enumerate(b) for y in b[i + 1:])
        if any(1e-9 < (q - p) / p < 0.05 for p, q in zip(d, d[1:])) or any(x.is_tilted() for x in b):
            s.disTol = 1e-7
            s.find_similarities()
    compare(C, b, ns, r, alpha, t, s)


@contract('S03', targets=(DET + 'thermal_response_factors', DET + '_thermal_response_factors_borehole_to_self'), modes=('conc',))
def detailed(C):
    kw = dict(mQuad=7) if C.choice('quadrature', (True, False)) else {}
    compare(C, *a_case(C, C.gt.solvers.Detailed, kw))


@contract('S03', targets=(SIM + 'thermal_response_factors', SIM + '_map_axial_segment_pairs_inclined', SIM + '_compare_realandimage_pairs_inclined'), modes=('conc',))
def similarities_horizontal(C):
    """segments of horizontal boreholes are all at the same depth"""
    np, gt = C.np, C.gt
    nb = C.int('boreholes', 1, conc=(1, 3))
    H = [C.choice(f'H{k}', (40., 55.)) for k in range(nb)]
    b = [gt.boreholes.Borehole(H[k], C.choice(f'D{k}', (2., 3.)), 0.075, 0., 9. * k, tilt=np.pi / 2 if C.choice(f'horizontal{k}', (True, True, False)) else 0.3,
                               orientation=C.choice(f'orientation{k}', (0., np.pi, 0.3))) for k in range(nb)]
    seg, ns, r = segments(C, nb, most=3)
    t = np.array([1e7, 1e9])
    s = gt.solvers.Similarities(list(b), None, t, 'UBWT', disTol=1e-7, **seg)
    compare(C, b, ns, r, 1e-6, t, s)


VP = ('_compare_realandimage_pairs_vertical', '_compare_real_pairs_vertical', '_compare_image_pairs_vertical', '_compare_borehole_pairs_vertical')


@contract('S03', targets=tuple(SIM + f for f in VP), modes=('prove',))
def similar_pairs_vertical(C):
    """pairs of (segments of) boreholes that are found similar have the same response factors"""
    s = C.instance(C.gt.solvers.Similarities, tol=1e-6, disTol=1e-2)
    p, q = a_pair(C, 'p'), a_pair(C, 'q')
    same_vertical(C, s.tol, p, q, s._compare_realandimage_pairs_vertical, 'pairs of segments: ')
    for a, b in zip(p, q):
        separated(C, s.tol, a.D, b.D)
    if s._compare_borehole_pairs_vertical(p, q):
        _ = [C.eq('pairs of boreholes: same lengths and depths', getattr(x, f), getattr(y, f)) for x, y in zip(p, q) for f in 'HD']


@contract('S03', targets=(SIM + '_compare_boreholes',), modes=('prove',))
def similar_boreholes(C):
    s = C.instance(C.gt.solvers.Similarities, tol=1e-6)
    (a, b) = a_pair(C, 'p', tilt=True)
    for f in ('H', 'r_b', 'D', 'tilt'):
        separated(C, s.tol, getattr(a, f), getattr(b, f))
    if s._compare_boreholes(a, b):
        _ = [C.eq('same dimensions: ' + f, getattr(a, f), getattr(b, f)) for f in ('H', 'r_b', 'D', 'tilt')]


@contract('S03', targets=(SIM + '_compare_realandimage_pairs_inclined',), modes=('prove',))
def similar_pairs_inclined(C):
    np = C.np
    s = C.instance(C.gt.solvers.Similarities, tol=1e-6, disTol=1e-2)
    p, q = a_pair(C, 'p', tilt=True, position=True), a_pair(C, 'q', tilt=True, position=True)

    def quantities(a, b):
        dx, dy = a.x - b.x, a.y - b.y
        th = np.arctan2(dy, dx)
        return dict(distance=np.sqrt(dx ** 2 + dy ** 2), H1=a.H, H2=b.H, D1=a.D, D2=b.D, tilt1=a.tilt, tilt2=b.tilt,
                    direction1=np.sin(a.tilt) * np.cos(th - a.orientation), direction2=np.sin(b.tilt) * np.cos(th - b.orientation),
                    mutual=np.sin(a.tilt) * np.sin(b.tilt) * np.cos(a.orientation - b.orientation))
    C.light()
    A, B = quantities(*p), quantities(*q)
    if s._compare_realandimage_pairs_inclined(p, q):
        for k in A:
            separated(C, s.disTol if k == 'distance' else s.tol, A[k], B[k])
            C.eq('same ' + k, A[k], B[k])


def relation(C, s, names, index, facts, log):
    """comparisons with arbitrary outcomes; what holds when they succeed is their contract (similar_pairs_*, similar_boreholes)"""
    cls = C.gt.solvers.Similarities

    def stub(name):
        def f(self, p, q):
            r = bool(C.bool(f'{name}!{next(C.T.CTX.fresh_count)}'))
            log.append((name, index(p), index(q), r))
            if r:
                facts(name, p, q)
            return r
        C.stub(cls, name, f)
    for n in names:
        stub(n)


def field_of(C, nb, tilted):
    gt = C.gt
    pos = [(0., 0.), (5., 0.), (5., 9.)]
    return [gt.boreholes.Borehole(C.real(f'H{i}', gt=0.), C.real(f'D{i}', gt=0.), C.real(f'r_b{i}', gt=0.), *pos[i], tilt=C.choice(f'tilt{i}', (0., 0.2)) if tilted else 0.,
                                  orientation=0.3 * i) for i in range(nb)]


def same(C, x, y, fields):
    for f in fields:
        C.assume(getattr(x, f) == getattr(y, f))


AX = (SIM + '_find_axial_borehole_pairs', SIM + 'find_similarities')


@contract('S03', targets=AX[:1], modes=('bounded',), budget=200, max_paths=5000)
def groups_of_similar_boreholes(C):
    np = C.np
    nb = C.choice('boreholes', (1, 2, 3))
    b = field_of(C, nb, True)
    kinds = ('equal', 'numbers', 'ratios') if nb > 1 else ('equal', 'ratios')
    kind = C.choice('segments', kinds)
    equal = kind == 'equal'
    ns = [1, 2, 2][:nb] if kind == 'numbers' else [2] * nb
    half, quarter, third = [0.5, 0.5], [0.25, 0.75], [0.75, 0.25]
    w = [half] * nb if equal else [[1.], half, quarter][:nb] if kind == 'numbers' else \
        list(C.choice('ratios', {1: ((half,),), 2: ((half, quarter), (half, half)), 3: ((half, quarter, half), (half, quarter, third))}[nb]))
    w = [np.array(x) for x in w]
    s = C.instance(C.gt.solvers.Similarities, nBoreSegments=ns, segment_ratios=w, _equal_segment_ratios=equal, boreholes=b, tol=1e-6, disTol=0.01)
    log = []
    ids = {id(x): i for i, x in enumerate(b)}
    index = lambda p: tuple(ids[id(x)] for x in p) if isinstance(p, tuple) else ids[id(p)]
    relation(C, s, ('_compare_boreholes', '_compare_borehole_pairs_vertical', '_compare_realandimage_pairs_inclined'), index, lambda *a: None, log)
    own_v, own_i, pair_v, pair_i = s._find_axial_borehole_pairs(b)
    vertical = [x.tilt == 0. for x in b]
    C.check('every vertical borehole in one group', sorted(i for g in own_v for i in g) == [i for i in range(nb) if vertical[i]])
    C.check('every inclined borehole in one group', sorted(i for g in own_i for i in g) == [i for i in range(nb) if not vertical[i]])
    both = [(i, j) for i in range(nb) for j in range(i + 1, nb)]
    C.check('every pair of vertical boreholes in one group', sorted(tuple(sorted(p)) for g in pair_v for p in g) == [p for p in both if vertical[p[0]] and vertical[p[1]]])
    C.check('every other pair in one group', sorted(tuple(sorted(p)) for g in pair_i for p in g) == [p for p in both if not (vertical[p[0]] and vertical[p[1]])])
    found = {(n, p, q) for n, p, q, r in log if r}
    seg = lambda i, j: equal or (ns[i] == ns[j] and list(w[i]) == list(w[j]))
    for g in own_v + own_i:
        for i in g[1:]:
            C.check('similar to the first of the group, same segments', ('_compare_boreholes', i, g[0]) in found and seg(i, g[0]))
    for gs, name in ((pair_v, '_compare_borehole_pairs_vertical'), (pair_i, '_compare_realandimage_pairs_inclined')):
        for g in gs:
            for p in g[1:]:
                C.check('similar to the first pair of the group in the same order, same segments', (name, p, g[0]) in found and seg(p[0], g[0][0]) and seg(p[1], g[0][1]))


@contract('S03', targets=(SIM + '_find_distances',), modes=('bounded', 'conc'), budget=200, max_paths=3000)
def groups_of_distances(C):
    """pairs are evaluated at a distance within the tolerance of their own; pairs at the same distance at the same"""
    gt, np = C.gt, C.np
    tol = C.choice('disTol', (0.01, 0.25))
    n = C.choice('pairs', (1, 2, 3)) if C.sym else C.int('n', 1, conc=(1, 40))
    if C.sym:
        d = [C.real(f'd{i}', gt=0.) for i in range(n)]
        b = [gt.boreholes.Borehole(100., 4., 0.075, 5. * i, 0.) for i in range(n + 1)]
    else:
        d = C.array('d', (n,), conc=(1., 3.)) ** C.choice('spread', (0, 1, 3, 6)) * 5.
        if C.choice('repeated', (True, False)):
            d = np.round(d)
        b = [gt.boreholes.Borehole(100., 4., 0.075, x, 0.) for x in (0., *d)]
        d = [b[0].distance(x) for x in b[1:]]
    C.stub(gt.boreholes.Borehole, 'distance', lambda self, other: d[[i for i in range(n) if b[i + 1] is other][0]])
    pairs = [(0, i + 1) for i in range(n)]
    cut = C.choice('groups', (0, 1)) if n > 1 else 0
    groups = [pairs[:cut], pairs[cut:]] if cut else [pairs]
    s = C.instance(gt.solvers.Similarities, disTol=tol)
    distances, indices = s._find_distances(b, groups)
    C.check('one list of distances for each group', len(distances) == len(groups) and len(indices) == len(groups))
    for g, dis, ind in zip(groups, distances, indices):
        C.check('one index for each pair', len(ind) == len(g))
        k = [int(x) for x in ind]
        C.check('indices of distances', all(0 <= x < len(dis) for x in k))
        for (p, i), x in zip(g, k):
            C.check('evaluated at its own distance', abs(dis[x] - d[i - 1]) <= tol * d[i - 1])
            for (q, j), y in zip(g, k):
                if x != y:
                    C.check('equal distances are evaluated together', d[i - 1] != d[j - 1])


@contract('S03', targets=(SIM + '_map_axial_segment_pairs_vertical', SIM + '_map_axial_segment_pairs_inclined'), modes=('bounded',), budget=200, max_paths=3000)
def pairs_of_similar_segments(C):
    np = C.np
    kind = C.choice('kind', ('vertical', 'inclined'))
    b = field_of(C, 2, False)
    if kind == 'inclined':
        for x in b:
            x.tilt = 0.2
    ns = C.choice('segments', ([1, 2], [2, 1], [2, 2]))
    w = [C.array(f'w{i}', (n,), gt=0.) for i, n in enumerate(ns)]
    s = C.instance(C.gt.solvers.Similarities, nBoreSegments=ns, segment_ratios=w, boreholes=b, tol=1e-6, disTol=0.01)
    own = C.choice('own', (False, True))
    i, j = (1, 1) if own else (0, 1)
    log = []
    relation(C, s, ('_compare_realandimage_pairs_vertical', '_compare_realandimage_pairs_inclined'), lambda p: (p[0].H, p[0].D, p[1].H, p[1].D), lambda n, p, q: None, log)
    name = '_compare_realandimage_pairs_' + kind
    out = getattr(s, '_map_axial_segment_pairs_' + kind)(i, j)
    a, c = b[i].segments(ns[i], segment_ratios=w[i]), b[j].segments(ns[j], segment_ratios=w[j])
    if kind == 'vertical':
        H1, D1, H2, D2, ip, jp, kp = out
    else:
        r1, x1, y1, H1, D1, t1, o1, x2, y2, H2, D2, t2, o2, ip, jp, kp = out
    C.check('every pair of segments once', sorted(zip([int(x) for x in ip], [int(x) for x in jp])) == [(u, v) for u in range(ns[i]) for v in range(ns[j])])
    n = C.len(H1)
    for k in range(ns[i] * ns[j]):
        u, v, m = int(ip[k]), int(jp[k]), int(kp[k])
        C.check('refers to an evaluated pair', 0 <= m < n)
        me = (a[u].H, a[u].D, c[v].H, c[v].D)
        ref = (C.at(H1, m), C.at(D1, m), C.at(H2, m), C.at(D2, m))
        eq = lambda p, q: C.And(*[x == y for x, y in zip(p, q)])
        C.check('evaluated at its own lengths and depths, or at those of a similar pair',
                C.Or(eq(me, ref), *[C.And(eq(p, me), eq(q, ref)) for nm, p, q, r in log if r and nm == name]))
    if kind == 'inclined':
        for m in range(n):
            C.check('parameters of one pair of segments', C.Or(*[C.And(*[C.at(p, m) == q for p, q in (
                (r1, x.r_b), (x1, x.x), (y1, x.y), (H1, x.H), (D1, x.D), (t1, x.tilt), (o1, x.orientation),
                (x2, y.x), (y2, y.y), (H2, y.H), (D2, y.D), (t2, y.tilt), (o2, y.orientation))]) for x in a for y in c]))
