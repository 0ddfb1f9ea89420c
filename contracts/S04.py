"""S04: equivalent boreholes account for every borehole exactly once."""
from pyvc.api import contract, meta
from contracts.solvers_real import a_field, segments
from contracts.S03 import pairwise, all_segments

meta('S04', level='exploration', note='Groups, distances, weights and response factors of random fields against pairwise evaluation (bounded).')

EQ = 'solvers.equivalent.Equivalent.'


def a_case(C, most=7):
    np, gt = C.np, C.gt
    b = a_field(C, most, vertical=True)
    seg, ns, r = segments(C, len(b), equal=True, most=3)
    kw = {}
    if C.choice('clusters', (True, False)):
        kw['kClusters'] = C.int('kClusters', 0, conc=(0, 4))
    if C.choice('distance tolerance', (True, True, False)):
        kw['disTol'] = 1e-7
    t = np.array([1e7, 3e9])
    s = gt.solvers.Equivalent(list(b), None, t, 'UBWT', **seg, **kw)
    return b, ns, r, t, s, kw


def groups_of(C, b, s):
    """boreholes each equivalent borehole stands for, by position"""
    np = C.np
    out = []
    for e in s.boreholes:
        x, y = np.atleast_1d(e.x), np.atleast_1d(e.y)
        out.append([[k for k, q in enumerate(b) if q.x == u and q.y == v] for u, v in zip(x, y)])
    return out


@contract('S04', targets=tuple(EQ + f for f in ('find_groups', '_find_unique_boreholes', '_compare_boreholes', 'segment_lengths')) + ('boreholes._EquivalentBorehole.__init__',),
          modes=('conc',), weight=2)
def groups(C):
    np = C.np
    b, ns, r, t, s, kw = a_case(C, 9)
    G = groups_of(C, b, s)
    C.check('positions are those of the boreholes', all(len(k) == 1 for g in G for k in g), repr(G))
    G = [[k[0] for k in g] for g in G]
    C.check('every borehole is in exactly one group', sorted(k for g in G for k in g) == list(range(len(b))), repr(G))
    for g, e in zip(G, s.boreholes):
        C.check('number of boreholes of the group', e.nBoreholes == len(g))
        for f in ('H', 'D', 'r_b'):
            C.eq('the boreholes of a group have the dimensions of the equivalent borehole: ' + f, np.array([getattr(b[k], f) for k in g]), getattr(e, f), rtol=3e-6, atol=0.)
    L = s.segment_lengths()
    C.same_shape('segments', L, (len(G) * ns[0],))
    C.eq('total length', np.sum(L), sum(x.H for x in b), rtol=1e-6, atol=0.)
    for k, g in enumerate(G):
        C.eq('total length of each segment of a group', L[k * ns[0]:(k + 1) * ns[0]], r[0] * sum(b[j].H for j in g), rtol=1e-6, atol=0.)


@contract('S04', targets=tuple(EQ + f for f in ('thermal_response_factors', '_find_unique_distances', '_find_axial_borehole_pairs', '_map_axial_segment_pairs', '_compare_realandimage_pairs',
                                                '_compare_real_pairs', '_compare_image_pairs')) + ('heat_transfer.finite_line_source_equivalent_boreholes_vectorized',),
          modes=('conc',), weight=3)
def response_factors(C):
    np = C.np
    b, ns, r, t, s, kw = a_case(C, 5)
    h = s.thermal_response_factors(t, 1e-6)
    n, nG = ns[0], len(s.boreholes)
    got = np.stack([h(x) for x in t], axis=2)
    C.same_shape('one per pair of segments', got, (nG * n, nG * n, 2))
    G = [[k[0] for k in g] for g in groups_of(C, b, s)]
    segs = all_segments(b, ns, r)
    one = pairwise(C, segs, t, 1e-6)[0]
    d = sorted(x.distance(y) for i, x in enumerate(b) for y in b[i + 1:])
    near = 'disTol' not in kw and any(1e-9 < (q - p) / p < 0.05 for p, q in zip(d, d[1:]))
    if not near:
        for J, gj in enumerate(G):
            for I, gi in enumerate(G):
                for v in range(n):
                    for u in range(n):
                        want = sum(one[j * n + v, i * n + u] for j in gj for i in gi) / len(gj)
                        C.eq('mean over a group of the response to every borehole of a group', got[J * n + v, I * n + u], want, rtol=2e-6, atol=2e-7)
    L = s.segment_lengths()
    C.eq('reciprocity of total lengths', got * L[:, None, None], np.swapaxes(got, 0, 1) * L[None, :, None], rtol=1e-6, atol=1e-7)


@contract('S04', targets=(EQ + '_find_unique_distances',), modes=('conc',))
def unique_distances(C):
    np, gt = C.np, C.gt
    b, ns, r, t, s, kw = a_case(C, 8)
    N = len(s.boreholes)
    pairs = [(i, j) for i in range(N) for j in range(N)]
    keep = [p for k, p in enumerate(pairs) if C.choice(f'pair{k % 6}', (True, True, False))] or pairs[:1]
    d, w = s._find_unique_distances(s.dis, keep)
    for k, (i, j) in enumerate(keep):
        m, n = s.boreholes[i].nBoreholes, s.boreholes[j].nBoreholes
        C.check('every pair of boreholes counted once', int(np.sum(w[:, k])) == (m * n if i != j else m * (m - 1)))
        x1, y1, x2, y2 = [np.atleast_1d(a) for a in (s.boreholes[i].x, s.boreholes[i].y, s.boreholes[j].x, s.boreholes[j].y)]
        D = np.hypot(x1[:, None] - x2[None, :], y1[:, None] - y2[None, :])
        if i == j:
            D = D[~np.eye(m, dtype=bool)]
        C.eq('distances of all pairs', np.sort(np.repeat(d.ravel(), w[:, k].astype(int))), np.sort(D.ravel()), rtol=0.011, atol=1e-12)
