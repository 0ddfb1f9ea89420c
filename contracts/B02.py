"""B02: segments tile their borehole."""
from pyvc.api import contract, meta
from contracts.common import a_borehole, ratios

meta('B02', level='proof', note='Segments, edges and mid-points of Borehole and _EquivalentBorehole for every number of segments and every ratio vector '
     '(symbolic extents), default (equal) ratios included.')

T = ('boreholes.Borehole.segments', 'boreholes.Borehole._segment_edges', 'boreholes.Borehole.__init__')
E = ('boreholes._EquivalentBorehole.segments', 'boreholes._EquivalentBorehole._segment_edges', 'boreholes._EquivalentBorehole.__init__')


def check_tiling(C, b, segs, n, r):
    C.check('number of segments', C.len(segs) == n)
    st, ct = C.np.sin(b.tilt), C.np.cos(b.tilt)
    so, co = C.np.sin(b.orientation), C.np.cos(b.orientation)
    for i in C.each(n):
        s = C.at(segs, i)
        z = C.sum(0, i, lambda k: r(k)) * b.H
        C.eq('segment length is the requested fraction', s.H, r(i) * b.H)
        C.eq('segment starts where the previous ones end: depth', s.D, b.D + z * ct)
        C.eq('... x', s.x, b.x + z * st * co)
        C.eq('... y', s.y, b.y + z * st * so)
        C.eq('radius', s.r_b, b.r_b)
        C.eq('tilt', s.tilt, b.tilt)
        C.eq('orientation', s.orientation, b.orientation)
    C.le('segment lengths add up to the borehole length',
         C.abs(C.sum(0, n, lambda k: C.at(segs, k).H) - b.H), 1e-6 * b.H)
    # consecutive segments join: end of segment i is the start of segment i+1
    for i in C.each((0, n - 1)):
        s, t = C.at(segs, i), C.at(segs, i + 1)
        C.eq('consecutive segments join: depth', s.D + s.H * ct, t.D)
        C.eq('consecutive segments join: x', s.x + s.H * st * co, t.x)
        C.eq('consecutive segments join: y', s.y + s.H * st * so, t.y)


@contract('B02', targets=T)
def borehole_segments(C):
    b = a_borehole(C)
    n = C.int('n', 1, conc=(1, 12))
    r = ratios(C, n)
    check_tiling(C, b, b.segments(n, segment_ratios=r), n, lambda k: C.at(r, k))


@contract('B02', targets=T)
def borehole_segments_equal(C):
    b = a_borehole(C)
    n = C.int('n', 1, conc=(1, 12))
    check_tiling(C, b, b.segments(n), n, lambda k: 1. / n)


def check_edges(C, b, n, r, e, m):
    C.same_shape('as many edges as segments plus one', e, (n + 1,))
    C.same_shape('as many mid-points as segments', m, (n,))
    for i in C.each(n + 1):
        C.eq('edge', C.at(e, i), C.sum(0, i, r) * b.H)
    C.eq('first edge at the head', C.at(e, 0), 0.)
    C.le('last edge at the bottom', C.abs(C.at(e, n) - b.H), 1e-6 * b.H)
    for i in C.each(n):
        C.eq('mid-point lies between the edges', C.at(m, i), (C.at(e, i) + C.at(e, i + 1)) / 2)
        C.le('edges are ordered', C.at(e, i), C.at(e, i + 1))


@contract('B02', targets=T + ('boreholes.Borehole._segment_midpoints',))
def borehole_edges(C):
    b = a_borehole(C)
    n = C.int('n', 1, conc=(1, 12))
    r = ratios(C, n)
    check_edges(C, b, n, lambda k: C.at(r, k), b._segment_edges(n, segment_ratios=r), b._segment_midpoints(n, segment_ratios=r))


@contract('B02', targets=T + ('boreholes.Borehole._segment_midpoints',))
def borehole_edges_equal(C):
    b = a_borehole(C)
    n = C.int('n', 1, conc=(1, 12))
    check_edges(C, b, n, lambda k: 1. / n, b._segment_edges(n), b._segment_midpoints(n))


def an_equivalent(C):
    m = C.int('m', 1, conc=(1, 6))
    tilt = C.real('tilt', lo=0., lt=1.5, conc=(0., 1.), special=(0.,))
    return C.gt.boreholes._EquivalentBorehole((
        C.real('H', gt=0., conc=(20., 200.)), C.real('D', lo=0., conc=(0., 10.)), C.real('r', gt=0., conc=(0.05, 0.1)),
        C.array('x', (m,), conc=(-20., 20.)), C.array('y', (m,), conc=(-20., 20.)), tilt, C.array('or', (m,), conc=(-3., 3.)))), m


def check_equivalent(C, b, m, segs, n, r):
    C.check('number of segments', C.len(segs) == n)
    st, ct = C.np.sin(b.tilt), C.np.cos(b.tilt)
    for i in C.each(n):
        s = C.at(segs, i)
        z = C.sum(0, i, r) * b.H
        C.eq('segment length is the requested fraction', s.H, r(i) * b.H)
        C.eq('segment starts where the previous ones end: depth', s.D, b.D + z * ct)
        C.eq('radius', s.r_b, b.r_b)
        C.eq('tilt', s.tilt, b.tilt)
        C.check('number of boreholes', s.nBoreholes == b.nBoreholes)
        for j in C.each(m):
            o = C.at(b.orientation, j)
            C.eq('... x', C.at(s.x, j), C.at(b.x, j) + z * st * C.np.cos(o))
            C.eq('... y', C.at(s.y, j), C.at(b.y, j) + z * st * C.np.sin(o))
            C.eq('orientation', C.at(s.orientation, j), o)
    C.le('segment lengths add up to the borehole length',
         C.abs(C.sum(0, n, lambda k: C.at(segs, k).H) - b.H), 1e-6 * b.H)


@contract('B02', targets=E)
def equivalent_segments(C):
    b, m = an_equivalent(C)
    n = C.int('n', 1, conc=(1, 12))
    r = ratios(C, n)
    check_equivalent(C, b, m, b.segments(n, segment_ratios=r), n, lambda k: C.at(r, k))


@contract('B02', targets=E)
def equivalent_segments_equal(C):
    b, m = an_equivalent(C)
    n = C.int('n', 1, conc=(1, 12))
    check_equivalent(C, b, m, b.segments(n), n, lambda k: 1. / n)


@contract('B02', targets=E + ('boreholes._EquivalentBorehole._segment_midpoints',))
def equivalent_edges(C):
    b, m = an_equivalent(C)
    n = C.int('n', 1, conc=(1, 12))
    r = ratios(C, n)
    check_edges(C, b, n, lambda k: C.at(r, k), b._segment_edges(n, segment_ratios=r), b._segment_midpoints(n, segment_ratios=r))
