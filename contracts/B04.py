"""B04: regular bore field layouts."""
import warnings
from pyvc.api import contract, meta

meta('B04', level='proof', note='Rectangular, L, U, box and circle layouts of the Borefield class for every number of rows, columns, spacing, tilt and origin (symbolic); staggered and '
     'dense layouts and the deprecated list-returning functions for every spacing with up to 3 to 4 rows and columns (bounded), and on concrete layouts.')

BF = 'borefield.Borefield.'


def dims(C):
    return dict(H=C.real('H', gt=0., conc=(20., 200.)), D=C.real('D', lo=0., conc=(0., 10.)), r_b=C.real('r_b', gt=0., conc=(0.05, 0.1)),
                tilt=C.real('tilt', lo=0., lt=1.5, conc=(0.01, 1.), special=(0.,)))


def the_origin(C):
    """explicit origin or None"""
    return (C.real('ox', conc=(-10., 10.)), C.real('oy', conc=(-10., 10.))) if C.bool('given origin') else None


def check_layout(C, f, n, pos, d, origin, centre, edge=False):
    """n boreholes at pos(k), common dimensions, leaning away from the origin"""
    x0, y0 = origin if origin is not None else centre
    isfield = not isinstance(f, list) and hasattr(f, 'nBoreholes')
    C.check('number of boreholes', C.len(f) == n if not isfield else f.nBoreholes == n)
    get = (lambda a, k: C.at(getattr(f, a), k)) if isfield else (lambda a, k: getattr(C.at(f, k), a))
    for k in C.each(n):
        px, py = pos(k)
        C.eq('x position', get('x', k), px)
        C.eq('y position', get('y', k), py)
        C.eq('length', get('H', k), d['H'])
        C.eq('buried depth', get('D', k), d['D'])
        C.eq('radius', get('r_b', k), d['r_b'])
        # positions as proved above
        dx, dy = (get('x', k) - x0, get('y', k) - y0) if C.sym else (px - x0, py - y0)
        t, o = get('tilt', k), get('orientation', k)
        rho = C.np.sqrt(dx ** 2 + dy ** 2)
        if C.sym:
            if edge:
                C.assume(rho != d['r_b'])
            C.eq('tilt is the requested tilt, or zero at the centre', t, (0. if rho < d['r_b'] else d['tilt']) if C.mode == 'bounded' else C.ite(rho < d['r_b'], 0., d['tilt']))
            C.check('leans away from the centre', C.implies(t > 1e-6, o == C.np.arctan2(dy, dx)))
        else:
            if abs(rho - d['r_b']) > 1e-9:
                C.eq('tilt is the requested tilt, or zero at the centre', t, 0. if rho < d['r_b'] else d['tilt'])
            if t > 1e-6:
                C.eq('leans away from the centre (x)', C.np.cos(o) * rho, dx, rtol=1e-7)
                C.eq('leans away from the centre (y)', C.np.sin(o) * rho, dy, rtol=1e-7)
        C.check('vertical boreholes have no orientation', C.implies(t <= 1e-6, o == 0))


def no_duplicates(C, n, pos, cell=None):
    """distinct boreholes: in the proofs, distinct grid cells and positive spacings"""
    if C.sym:
        a, b, B = C.real('a'), C.real('b'), C.real('B', gt=0.)
        C.check('cells apart are boreholes apart', C.implies(a != b, a * B != b * B))
    for k, l in C.each(n, n):
        if not C.sym and k == l:
            continue
        (a, b), (c, d) = (cell or pos)(k), (cell or pos)(l)
        C.check('no duplicates', C.implies(k != l, C.Or(a != c, b != d)))


def rows(C, lo=1):
    return (C.int('N1', lo, conc=(1, 7)), C.int('N2', lo, conc=(1, 7)), C.real('B1', gt=0., conc=(1., 8.)), C.real('B2', gt=0., conc=(1., 8.)))


def both(C, name, args, d, origin, n, pos, centre, bounded):
    if bounded:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            f = getattr(C.gt.boreholes, name)(*args, d['H'], d['D'], d['r_b'], tilt=d['tilt'], origin=origin)
    else:
        f = getattr(C.gt.borefield.Borefield, name)(*args, d['H'], d['D'], d['r_b'], tilt=d['tilt'], origin=origin)
    check_layout(C, f, n, pos, d, origin, centre, bounded)


def grid_pos(C, N1, B1, B2):
    def pos(k):
        j = k // N1
        i = k - j * N1
        return i * B1, j * B2
    return pos


def rectangle(C, bounded=False):
    N1, N2, B1, B2 = rows(C)
    d, o = dims(C), the_origin(C)
    pos = grid_pos(C, N1, B1, B2)
    both(C, 'rectangle_field', (N1, N2, B1, B2), d, o, N1 * N2, pos, ((N1 - 1) / 2 * B1, (N2 - 1) / 2 * B2), bounded)
    return N1, N2, B1, B2, pos


@contract('B04', targets=(BF + 'rectangle_field', BF + '__init__'))
def rectangle_field(C):
    N1, N2, B1, B2, pos = rectangle(C)
    if C.sym:
        # pairs written as (row, column): k = j N1 + i with i < N1 is a bijection
        i, j, k, l = C.int('i', 0), C.int('j', 0), C.int('k', 0), C.int('l', 0)
        C.assume(C.And(i < N1, k < N1, j < N2, l < N2))
        C.check('no duplicates', C.implies(C.Or(i != k, j != l), C.Or(i * B1 != k * B1, j * B2 != l * B2)))
    else:
        no_duplicates(C, N1 * N2, pos)


def two_sided(C):
    """number of columns 1 or more, number of boreholes per line of the sides"""
    N1, N2, B1, B2 = rows(C)
    if C.choice('columns', [1, 2]) == 1:
        return 1, 1, N2, B1, B2
    C.assume(N1 >= 2)
    return N1, 2, N2, B1, B2


def L_cell(C, N1):
    return lambda k: (C.ite(k < N1, k, 0), C.ite(k < N1, 0, k - N1 + 1))


def U_cell(C, N1, nv):
    def cell(k):
        m = k - N1
        return C.ite(k < N1, k, C.ite(m % nv == 0, 0, N1 - 1)), C.ite(k < N1, 0, m // nv + 1)
    return cell


def box_cell(C, N1, nv, N2):
    u = U_cell(C, N1, nv)
    bottom = N1 + nv * (N2 - 2 if N2 > 2 else 0)

    def cell(k):
        i, j = u(k)
        return C.ite(k < bottom, i, k - bottom), C.ite(k < bottom, j, N2 - 1)
    return bottom + (N1 if N2 > 1 else 0), cell


def at_cells(cell, B1, B2):
    def pos(k):
        i, j = cell(k)
        return i * B1, j * B2
    return pos


@contract('B04', targets=(BF + 'L_shaped_field', BF + '__init__'))
def L_shaped_field(C):
    N1, N2, B1, B2 = rows(C)
    d, o = dims(C), the_origin(C)
    both(C, 'L_shaped_field', (N1, N2, B1, B2), d, o, N1 + N2 - 1, at_cells(L_cell(C, N1), B1, B2), ((N1 - 1) / 2 * B1, (N2 - 1) / 2 * B2), False)


@contract('B04', targets=(BF + 'U_shaped_field', BF + '__init__'), budget=160)
def U_shaped_field(C):
    N1, nv, N2, B1, B2 = two_sided(C)
    d, o = dims(C), the_origin(C)
    both(C, 'U_shaped_field', (N1, N2, B1, B2), d, o, N1 + nv * (N2 - 1), at_cells(U_cell(C, N1, nv), B1, B2), ((N1 - 1) / 2 * B1, (N2 - 1) / 2 * B2), False)


@contract('B04', targets=(BF + 'box_shaped_field', BF + '__init__'), budget=200)
def box_shaped_field(C):
    N1, nv, N2, B1, B2 = two_sided(C)
    d, o = dims(C), the_origin(C)
    n, cell = box_cell(C, N1, nv, N2)
    both(C, 'box_shaped_field', (N1, N2, B1, B2), d, o, n, at_cells(cell, B1, B2), ((N1 - 1) / 2 * B1, (N2 - 1) / 2 * B2), False)


@contract('B04', modes=('prove',), note='the documented layouts have no duplicates (lemma over the specifications of L, U and box fields)')
def no_duplicate_boreholes(C):
    N1, nv, N2, B1, B2 = two_sided(C)
    what = C.choice('layout', ['L', 'U', 'box'])
    if what == 'L':
        n, cell = N1 + N2 - 1, L_cell(C, N1)
    elif what == 'U':
        n, cell = N1 + nv * (N2 - 1), U_cell(C, N1, nv)
    else:
        n, cell = box_cell(C, N1, nv, N2)
    no_duplicates(C, n, None, cell)


@contract('B04', targets=(BF + 'circle_field', BF + '__init__'))
def circle_field(C):
    N, R = C.int('N', 1, conc=(1, 20)), C.real('R', gt=0., conc=(1., 20.))
    d, o = dims(C), the_origin(C)
    pos = lambda k: (R * C.np.cos(2 * C.np.pi * k / N), R * C.np.sin(2 * C.np.pi * k / N))
    both(C, 'circle_field', (N, R), d, o, N, pos, (0., 0.), False)
    if not C.sym:
        no_duplicates(C, N, pos)


# --- staggered layouts and deprecated functions: numbers of boreholes enumerated up to a bound
def small(C, hi=2):
    return (C.int('N1', 1, hi, conc=(1, 6)), C.int('N2', 1, hi, conc=(1, 6)), C.real('B1', gt=0., conc=(1., 8.)), C.real('B2', gt=0., conc=(1., 8.)))


def staggered(C, name, bounded):
    N1, N2, B1, B2 = small(C)
    d, o = dims(C), the_origin(C)
    last = C.bool('last')
    args = (N1, N2, B1, B2)
    if name.startswith('dense'):
        B2 = C.np.sqrt(3) / 2 * B1 if N1 > 1 else B1
        args = (N1, N2, B1)
    plain = N1 == 1 or N2 == 1
    where = [(i * B1 + (B1 / 2 if j % 2 == 1 and not plain else 0.), j * B2) for j in range(N2) for i in range(N1)
             if plain or i < N1 - 1 or last or j % 2 == 0]
    if plain:
        c = ((N1 - 1) / 2 * B1, (N2 - 1) / 2 * B2)
    elif bounded:
        c = ((N1 - (1 if last else 0.5)) / 2 * B1, (N2 - (1 if last else 0.5)) / 2 * B2)
    else:
        c = ((N1 - 0.5) / 2 * B1 if last else (N1 - 1) / 2 * B1, (N2 - 1) / 2 * B2)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        owner = C.gt.boreholes if bounded else C.gt.borefield.Borefield
        f = getattr(owner, name)(*args, d['H'], d['D'], d['r_b'], last, tilt=d['tilt'], origin=o)
    check_layout(C, f, len(where), lambda k: where[k], d, o, c, bounded)
    for a in range(len(where)):
        for b in range(a):
            C.check('no duplicates', C.Or(where[a][0] != where[b][0], where[a][1] != where[b][1]))


@contract('B04', targets=(BF + 'staggered_rectangle_field',), modes=('bounded', 'conc'))
def staggered_rectangle_field(C):
    staggered(C, 'staggered_rectangle_field', False)


@contract('B04', targets=(BF + 'dense_rectangle_field',), modes=('bounded', 'conc'))
def dense_rectangle_field(C):
    staggered(C, 'dense_rectangle_field', False)


@contract('B04', targets=('boreholes.staggered_rectangle_field', 'boreholes.dense_rectangle_field'), modes=('bounded', 'conc'))
def deprecated_staggered(C):
    staggered(C, C.choice('layout', ['staggered_rectangle_field', 'dense_rectangle_field']), True)


@contract('B04', targets=('boreholes.rectangle_field', 'boreholes.L_shaped_field', 'boreholes.U_shaped_field', 'boreholes.box_shaped_field', 'boreholes.circle_field'),
          modes=('bounded', 'conc'))
def deprecated(C):
    name = C.choice('layout', ['rectangle', 'L_shaped', 'U_shaped', 'box_shaped', 'circle'])
    d, o = dims(C), the_origin(C)
    if name == 'circle':
        N, R = C.int('N', 1, 3, conc=(1, 12)), C.real('R', gt=0., conc=(1., 20.))
        where = [(R * C.np.cos(2 * C.np.pi * i / N), R * C.np.sin(2 * C.np.pi * i / N)) for i in range(N)]
        both(C, 'circle_field', (N, R), d, o, N, lambda k: where[k], (0., 0.), True)
        return
    N1, N2, B1, B2 = small(C)
    full = [(i, j) for j in range(N2) for i in range(N1)]
    if name == 'L_shaped':
        cells = [(i, 0) for i in range(N1)] + [(0, j) for j in range(1, N2)]
    elif name == 'U_shaped' and N1 > 2 and N2 > 1:
        cells = [(i, 0) for i in range(N1)] + [(i, j) for j in range(1, N2) for i in (0, N1 - 1)]
    elif name == 'box_shaped' and N1 > 2 and N2 > 2:
        cells = [(i, j) for i in range(N1) for j in (0, N2 - 1)] + [(i, j) for j in range(1, N2 - 1) for i in (0, N1 - 1)]
    else:
        cells = full
    both(C, name + '_field', (N1, N2, B1, B2), d, o, len(cells), lambda k: (cells[k][0] * B1, cells[k][1] * B2), ((N1 - 1) / 2 * B1, (N2 - 1) / 2 * B2), True)
