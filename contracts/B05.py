"""B05: distances, duplicates and equivalent-distance weights."""
from pyvc.api import contract, meta
from contracts.common import a_borehole  # noqa

meta('B05', level='proof', note='Distances for every pair of boreholes and of equivalent boreholes; duplicate pairs for every number of boreholes (index arithmetic of the '
     'condensed distance matrix included); distinct distances and their counts for every number of distances (loop invariant).',
     assumptions=['scipy pdist (condensed order of pairs), numpy sort (sorted permutation) and argwhere (exactly the true positions, in order) are used through their contracts'])

B, E = 'boreholes.Borehole.', 'boreholes._EquivalentBorehole.'


@contract('B05', targets=(B + 'distance',))
def distance(C):
    r = C.real('r', gt=0., conc=(0.05, 0.1))
    same = C.bool('coincident')
    x, y = C.real('x', conc=(-20., 20.)), C.real('y', conc=(-20., 20.))
    a = a_borehole(C, 'a', r_b=r, x=x, y=y)
    b = a_borehole(C, 'b', r_b=C.real('r2', gt=0., conc=(0.05, 0.1)) if C.bool('radii') else r, **(dict(x=x, y=y) if same else {}))
    d, e = a.distance(b), b.distance(a)
    far = (a.x - b.x) ** 2 + (a.y - b.y) ** 2 >= C.max(a.r_b, b.r_b) ** 2
    C.check('symmetric', C.implies(C.Or(a.r_b == b.r_b, far), C.And(C.le_(d, e), C.le_(e, d))))
    C.le('not below the radius', r, d)
    s = (a.x - b.x) ** 2 + (a.y - b.y) ** 2
    C.check('exact', C.And(C.implies(s <= r ** 2, d == r), C.implies(s > r ** 2, C.And(C.le_(s, d * d), C.le_(d * d, s)))))


def an_equivalent(C, p, m, r):
    return C.gt.boreholes._EquivalentBorehole((
        C.real(p + 'H', gt=0., conc=(20., 200.)), C.real(p + 'D', lo=0., conc=(0., 10.)), r,
        C.array(p + 'x', (m,), conc=(-20., 20.)), C.array(p + 'y', (m,), conc=(-20., 20.)), 0., C.np.zeros(m)))


@contract('B05', targets=(E + 'distance', E + '__init__'))
def equivalent_distance(C):
    r = C.real('r', gt=0., conc=(0.05, 0.1))
    n, m = C.int('n', 1, conc=(1, 6)), C.int('m', 1, conc=(1, 6))
    a, b = an_equivalent(C, 'a', n, r), an_equivalent(C, 'b', m, r)
    d, e = a.distance(b), b.distance(a)
    C.same_shape('one distance per pair', d, (m, n))
    for j, i in C.each(m, n):
        v = C.at(d, j, i)
        C.eq('symmetric', v, C.at(e, i, j))
        C.le('not below the radius', r, v)
        s = (C.at(a.x, i) - C.at(b.x, j)) ** 2 + (C.at(a.y, i) - C.at(b.y, j)) ** 2
        C.check('exact', C.And(C.implies(s <= r ** 2, v == r), C.implies(s > r ** 2, C.And(C.le_(s, v * v), C.le_(v * v, s)))))


@contract('B05', targets=(E + 'unique_distance',), budget=200)
def unique_distance(C):
    r = C.real('r', gt=0., conc=(0.05, 0.1))
    tol = C.real('tol', gt=0., conc=(1e-3, 0.3))
    if C.sym:
        N = C.int('N', 1)
        d, unsorted = C.array('d', (N,), gt=0.), C.array('unsorted', (N,), gt=0.)
        C.forall((N, N), lambda i, j: C.implies(i <= j, C.raw(d, i) <= C.raw(d, j)))
        a = C.instance(C.gt.boreholes._EquivalentBorehole, x=None)
        C.stub(C.gt.boreholes._EquivalentBorehole, 'distance', lambda self, t: unsorted)

        def sort(v):
            for k in C.each(N):
                C.eq('all distances are sorted', C.raw(v, k), C.raw(unsorted, k))
            return d
        C.stub(C.np, 'sort', sort)
        b = None
        groups(C, d, N, tol)
    else:
        n, m = C.int('n', 1, conc=(1, 8)), C.int('m', 1, conc=(1, 8))
        a, b = an_equivalent(C, 'a', n, r), an_equivalent(C, 'b', m, r)
        if C.bool('grid'):
            a.x, a.y, b.x, b.y = [C.np.round(v / 7) * 7 for v in (a.x, a.y, b.x, b.y)]
        d = C.np.sort(a.distance(b).flatten())
        N = n * m
    dis, w = a.unique_distance(b, disTol=tol)
    M = C.len(w)
    C.same_shape('one count per distance', dis, (M,))
    check_groups(C, d, N, tol, M, lambda i: C.at(dis, i), lambda i: C.at(w, i))
    C.eq('every pair counted once', C.sum(0, M, lambda i: C.at(w, i)), N)


def group(C, d, N, tol, dis, w, i):
    """the i-th group starts where the previous ones end and its distance is the mean of its members"""
    s = C.isum(0, i, w)
    return s, [('groups are not empty', lambda: w(i) >= 1),
               ('distance of a group is the mean of its members', lambda: C.same(dis(i) * w(i), C.sum(s, s + w(i), lambda k: C.raw(d, k)))),
               ('members lie within tolerance', lambda: C.raw(d, s + w(i) - 1) < (1 + tol) * C.raw(d, s))]


def check_groups(C, d, N, tol, M, dis, w):
    for i in C.each(M):
        s, conds = group(C, d, N, tol, dis, w, i)
        for nm, c in conds:
            C.check(nm, c())
    for i in C.each((0, M - 1)):
        s = C.isum(0, i, w)
        C.check('next group starts out of tolerance', C.raw(d, s + w(i)) >= (1 + tol) * C.raw(d, s))
        C.unfold(i, w)
        t, f = C.isum(0, i + 1, w), lambda k: C.raw(d, k)
        C.sum_bounds('mean lies within the group', s, s + w(i), f, f(s), f(s + w(i) - 1))
        C.sum_bounds('mean lies within the next group', t, t + w(i + 1), f, f(t), f(t + w(i + 1) - 1))
        C.check('increasing order', dis(i) < dis(i + 1))


def groups(C, d, N, tol):
    def hv(v):
        m = C.fresh('m', 'i')
        C.assume(m >= 0)
        return dict(j0=C.fresh('j0', 'i'), j1=C.fresh('j1', 'i'), dis=C.fresh_list('dis', m), wDis=C.fresh_list('wDis', m, 'i'))

    def inv(v):
        m = C.len(v['wDis'])
        w, dis = lambda i: C.at(v['wDis'], i), lambda i: C.at(v['dis'], i)
        tot = C.isum(0, m, w)
        out = [('as many counts as distances', C.len(v['dis']) == m),
               ('progress', C.And(C.Or(C.And(v['j0'] == 0, v['j1'] == 1), C.And(v['j1'] == v['j0'])), v['j0'] >= 0, v['j0'] <= N)),
               ('counts so far', tot == C.ite(v['j1'] > 0, v['j0'], N))]
        each = lambda f: C.all((m,), lambda i: f(i))
        for k in range(3):
            out.append((group(C, d, N, tol, dis, w, 0)[1][k][0], each(lambda i, k=k: group(C, d, N, tol, dis, w, i)[1][k][1]())))
        out.append(('group within range', each(lambda i: C.And(C.isum(0, i, w) >= 0, C.isum(0, i, w) + w(i) <= N))))
        out.append(('next group starts out of tolerance', each(lambda i: C.implies(C.Or(i < m - 1, C.isum(0, i, w) + w(i) < N),
            C.raw(d, C.isum(0, i, w) + w(i)) >= (1 + tol) * C.raw(d, C.isum(0, i, w))))))
        return out
    C.invariant('boreholes._EquivalentBorehole.unique_distance', hv, inv)


@contract('B05', targets=('boreholes.find_duplicates',))
def find_duplicates(C):
    n = C.int('n', 2, conc=(2, 40))
    if not C.sym:
        field = some_boreholes(C, n)
        pairs = C.gt.boreholes.find_duplicates(field)
        r = max(b.r_b for b in field)
        want = [(i, j) for i in range(n) for j in range(i + 1, n) if C.np.hypot(field[i].x - field[j].x, field[i].y - field[j].y) < r]
        C.check('duplicates are exactly the coincident pairs', sorted(pairs) == want and len(set(pairs)) == len(pairs), (pairs, want))
        return
    x, y, radii = C.array('x', (n,)), C.array('y', (n,)), C.array('r', (n,), gt=0.)
    field = C.symlist(n, lambda i: C.gt.boreholes.Borehole(100., 1., C.raw(radii, i), C.raw(x, i), C.raw(y, i)))
    # largest radius
    r, largest = C.real('largest', gt=0.), C.int('which', 0)
    C.assume(C.And(largest < n, C.raw(radii, largest) == r))
    C.forall((n,), lambda i: C.raw(radii, i) <= r)
    z3, T = C.z3, C.T
    I = z3.IntSort()
    pi, pj = [z3.Function(f, I, I) for f in ('first', 'second')]
    D = lambda i, j: C.np.sqrt((C.raw(x, i) - C.raw(x, j)) ** 2 + (C.raw(y, i) - C.raw(y, j)) ** 2)
    kn = [0]

    def dist(k):
        i, j = T.SInt(pi(T.zi(k))), T.SInt(pj(T.zi(k)))
        return D(i, j)

    def entry(k):
        """contract of pdist for entry k: distance of the pair in row-major order of the pairs i < j"""
        i, j = T.SInt(pi(T.zi(k))), T.SInt(pj(T.zi(k)))
        C.assume(C.And(0 <= i, i < j, j < n, 2 * k == 2 * n * i - i * (i + 1) + 2 * (j - i - 1)))
        return i, j

    def pdist(X, metric='euclidean'):
        C.check('euclidean distances', metric == 'euclidean')
        C.same_shape('all coordinates', X, (n, 2))
        for i in C.each(n):
            C.eq('coordinates x', C.at(X, i, 0), C.raw(x, i))
            C.eq('coordinates y', C.at(X, i, 1), C.raw(y, i))
        nd = C.int('npairs', 1)
        C.assume(2 * nd == n * (n - 1))
        return C.A.SArr.lam((nd,), lambda ix: dist(ix[0]))

    found = C.S.FOUND
    del found[:]
    C.stub(C.gt.boreholes, 'pdist', pdist)
    pairs = C.gt.boreholes.find_duplicates(field)
    C.check('duplicates are sought once', len(found) == 1)
    w = found[0]

    def index(k, i, j):
        """the code's inversion of the condensed index gives the pair back"""
        m, l = n - 2 - i, j - i - 1
        X = -8 * k + 4 * n * (n - 1) - 7
        C.lemma('index polynomial', C.And(X == 4 * m * m + 12 * m + 1 - 8 * l))
        s = C.np.sqrt(X)
        C.lemma('lower bound of the root', s >= 2 * m + 1)
        C.lemma('upper bound of the root', s < 2 * m + 3)
        C.lemma('row of the pair', C.np.floor(s / 2 - 0.5) == m)

    for q in C.each(C.len(pairs)):
        k = w._where(q)
        i, j = entry(k)
        index(k, i, j)
        a, b = C.at(pairs, q)
        C.eq('listed pair is the pair of its distance', a, i)
        C.eq('listed pair is the pair of its distance (second)', b, j)
        C.check('listed pairs coincide within the radius', D(i, j) < r)
    i, j, k = C.int('i', 0), C.int('j', 0), C.int('k', 0)
    C.assume(C.And(i < j, j < n, 2 * k == 2 * n * i - i * (i + 1) + 2 * (j - i - 1)))
    # pdist: entry k belongs to the pair (i, j)
    C.assume(C.And(T.SInt(pi(k.e)) == i, T.SInt(pj(k.e)) == j))
    index(k, i, j)
    C.assume(D(i, j) < r)
    C.lemma('index within range', 2 * k < n * (n - 1))
    q = w._pos(k)
    C.check('coincident pair is listed', C.And(q >= 0, q < C.len(pairs), w._where(q) == k))
    C.lemma('entry of the pair', w._where(q) == k)
    index(w._where(q), i, j)
    a, b = C.at(pairs, q)
    C.eq('coincident pair is listed (first)', a, i)
    C.eq('coincident pair is listed (second)', b, j)


def some_boreholes(C, n):
    r = C.real('r', gt=0., conc=(0.05, 0.5))
    h = C.real('pitch', gt=0., conc=(0.3, 3.))
    rs = C.array('radii', (n,), gt=0., conc=(0.05, 0.5)) if C.bool('radii') else [r] * n
    x, y = C.array('x', (n,), conc=(0., 4.)), C.array('y', (n,), conc=(0., 4.))
    if C.bool('grid'):
        x, y = C.np.round(x / h) * h, C.np.round(y / h) * h
    return [C.gt.boreholes.Borehole(100., 1., c, a, b) for a, b, c in zip(x, y, rs)]


@contract('B05', targets=('boreholes.remove_duplicates',), modes=('bounded', 'conc'))
def remove_duplicates(C):
    n = C.int('n', 1, 4, conc=(2, 40))
    if C.sym:
        r = C.real('r', gt=0.)
        x, y = C.array('x', (n,)), C.array('y', (n,))
        field = [C.gt.boreholes.Borehole(100., 1., r, x[i], y[i]) for i in range(n)]
        near = {}
        for i in range(n):
            for j in range(i + 1, n):
                near[i, j] = C.bool(f'near_{i}_{j}')
        C.stub(C.gt.boreholes, 'find_duplicates', lambda f, disp=False: [p for p in sorted(near) if near[p]])
    else:
        field = some_boreholes(C, n)
        r = max(b.r_b for b in field)
        near = {(i, j): C.np.hypot(field[i].x - field[j].x, field[i].y - field[j].y) < r for i in range(n) for j in range(i + 1, n)}
    before = list(field)
    out = C.gt.boreholes.remove_duplicates(field)
    C.check('input list unchanged', len(field) == len(before) and all(a is b for a, b in zip(field, before)))
    kept = [[a is b for b in field].index(True) for a in out]
    C.check('boreholes are kept in order', kept == sorted(set(kept)))
    for i in range(n):
        for j in range(i + 1, n):
            if near[i, j]:
                C.check('no two kept boreholes coincide', not (i in kept and j in kept))
    for j in range(n):
        if j not in kept:
            C.check('removed boreholes coincide with an earlier one', any(near[i, j] for i in range(j)))
