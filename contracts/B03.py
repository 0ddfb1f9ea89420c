"""B03: borefields and lists of boreholes."""
import re
import copy
import os
import shutil
import tempfile
import warnings
from pyvc.api import contract, meta

meta('B03', level='proof', note='Every number of boreholes and all parameter values (symbolic); numpy.savetxt followed by numpy.loadtxt is used through its contract '
     '(the array comes back), and runs on real files in the bounded mode.',
     assumptions=['numpy.loadtxt returns the array written by numpy.savetxt (to the 18 digits of its default format)',
                  'iteration of an object without __iter__ is the sequence of its items from 0 to __len__ - 1'])

BF = 'borefield.Borefield.'
NAMES = ('H', 'D', 'r_b', 'x', 'y', 'tilt', 'orientation')
RANGES = dict(H=dict(gt=0., conc=(20., 200.)), D=dict(lo=0., conc=(0., 10.)), r_b=dict(gt=0., conc=(0.05, 0.1)), x=dict(conc=(-50., 50.)), y=dict(conc=(-50., 50.)),
              tilt=dict(lo=0., lt=1.5, conc=(0., 1.)), orientation=dict(conc=(-3., 3.)))


def params(C, p, n, scalars=()):
    """arrays (or scalars) for the seven parameters, some boreholes vertical"""
    out = {}
    for a in NAMES:
        out[a] = C.real(p + a, **RANGES[a]) if a in scalars else C.array(p + a, (n,), **RANGES[a])
    if not C.sym:
        if 'tilt' not in scalars:
            m = C.int(p + 'vertical', 0, 2, conc=(0, 2))
            out['tilt'] = out['tilt'] * (C.np.arange(n) % 2 == 0 if m == 0 else 1. if m == 1 else 0.)
        elif C.bool(p + 'no tilt'):
            out['tilt'] = 0.
    return out


def value(C, v, k):
    return C.at(v, k) if getattr(v, 'shape', ()) != () else v


def expected(C, d, a, k):
    v = value(C, d[a], k)
    return C.ite(C.abs(value(C, d['tilt'], k)) > 1e-6, v, 0.) if a == 'orientation' else v


def build(C, p, n, scalars=()):
    d = params(C, p, n, scalars)
    return d, C.gt.borefield.Borefield(d['H'], d['D'], d['r_b'], d['x'], d['y'], tilt=d['tilt'], orientation=d['orientation'])


def a_list(C, p, n):
    """list of n boreholes with arbitrary parameters"""
    d = params(C, p, n)
    mk = lambda k: C.gt.boreholes.Borehole(*[C.at(d[a], k) for a in NAMES[:5]], tilt=C.at(d['tilt'], k), orientation=C.at(d['orientation'], k))
    return d, (C.symlist(n, mk) if C.sym else [mk(k) for k in range(n)])


def same_field(C, f, n, where, what='', tag='field'):
    """f has n boreholes, borehole k with the parameters where(k, name)"""
    C.check(f'{tag}: number of boreholes', f.nBoreholes == n)
    for a in NAMES:
        C.same_shape(f'{tag}: one value per borehole', getattr(f, a), (n,))
        for k in C.each(n):
            C.eq(f'{tag}: {a}', C.at(getattr(f, a), k), where(k, a), rtol=1e-12, atol=1e-12)


def same_borehole(C, b, tag, want):
    for a in NAMES:
        C.eq(f'{tag}: {a}', getattr(b, a), want(a), rtol=1e-12, atol=1e-12)


def unchanged(C, f, d, n, tag='operand unchanged'):
    same_field(C, f, n, lambda k, a: expected(C, d, a, k), tag=tag)


@contract('B03', targets=(BF + '__init__', BF + '__len__'))
def constructor(C):
    n = C.int('n', 1, conc=(1, 8))
    kind = C.choice('kind', ['arrays', 'scalars', 'x scalar', 'tilt scalar'])
    sc = dict(arrays=(), scalars=('H', 'D', 'r_b', 'tilt', 'orientation'))
    sc['x scalar'], sc['tilt scalar'] = ('x', 'H'), ('tilt', 'r_b')
    d, f = build(C, '', n, sc[kind])
    same_field(C, f, n, lambda k, a: expected(C, d, a, k))
    C.check('len', C.len(f) == n)


@contract('B03', targets=(BF + 'from_boreholes', 'boreholes.Borehole.__init__'))
def from_boreholes(C):
    n = C.int('n', 1, conc=(1, 8))
    d, bs = a_list(C, '', n)
    f = C.gt.borefield.Borefield.from_boreholes(bs)
    same_field(C, f, n, lambda k, a: expected(C, d, a, k))
    if not C.sym:
        for k, b in enumerate(bs):
            same_borehole(C, b, 'argument unchanged', lambda a: expected(C, d, a, k))


@contract('B03', targets=(BF + 'from_boreholes',))
def from_one_borehole(C):
    d, bs = a_list(C, '', 1)
    b = C.at(bs, 0)
    f = C.gt.borefield.Borefield.from_boreholes(b)
    same_field(C, f, 1, lambda k, a: expected(C, d, a, 0))


@contract('B03', targets=(BF + '__getitem__',))
def index(C):
    n = C.int('n', 1, conc=(1, 8))
    d, f = build(C, '', n)
    for k in C.each(n):
        b = f[k]
        C.check('a borehole', isinstance(b, C.gt.boreholes.Borehole))
        same_borehole(C, b, 'item', lambda a: expected(C, d, a, k))
        b = f[k - n]
        same_borehole(C, b, 'item from the end', lambda a: expected(C, d, a, k))
    unchanged(C, f, d, n)


@contract('B03', targets=(BF + '__getitem__',))
def slices(C):
    slicing(C, ['from', 'last', 'all'])


@contract('B03', targets=(BF + '__getitem__',))
def slices_to(C):
    slicing(C, ['to', 'reversed'])


@contract('B03', targets=(BF + '__getitem__',))
def slices_between(C):
    slicing(C, ['between'])


def slicing(C, kinds):
    n = C.int('n', 1, conc=(1, 8))
    d, f = build(C, '', n)
    kind = C.choice('slice', kinds)
    i, j = C.int('i', 0, conc=(0, 3)), C.int('j', 0, conc=(0, 8))
    C.assume(i < n)
    if kind == 'from':
        g, m, w = f[i:], n - i, lambda k: k + i
    elif kind == 'to':
        C.assume(C.And(j >= 1, j <= n))
        g, m, w = f[:j], j, lambda k: k
    elif kind == 'between':
        C.assume(C.And(j > i, j <= n))
        g, m, w = f[i:j], j - i, lambda k: k + i
    elif kind == 'last':
        C.assume(i >= 1)
        g, m, w = f[-i:], i, lambda k: n - i + k
    elif kind == 'all':
        g, m, w = f[:], n, lambda k: k
    else:
        g, m, w = f[::-1], n, lambda k: n - 1 - k
    C.check('a borefield', isinstance(g, C.gt.borefield.Borefield))
    same_field(C, g, m, lambda k, a: expected(C, d, a, w(k)), tag='slice')
    unchanged(C, f, d, n)


@contract('B03', targets=(BF + '__getitem__',), modes=('conc',))
def fancy(C):
    n = C.int('n', 1, conc=(1, 8))
    d, f = build(C, '', n)
    ix = C.array('ix', (C.int('m', 1, conc=(1, 5)),), conc=(0, n - 1), kind='i')
    key = C.choice('key', ['array', 'list', 'mask', 'step', 'numpy integer'])
    if key == 'mask':
        m = C.np.zeros(n, dtype=bool)
        m[ix] = True
        ix, g = C.np.flatnonzero(m), f[m]
    elif key == 'step':
        s = int(ix[0]) + 1
        ix, g = C.np.arange(n)[::s], f[::s]
    elif key == 'numpy integer':
        b = f[ix[0]]
        C.check('a borehole', isinstance(b, C.gt.boreholes.Borehole))
        same_borehole(C, b, 'item', lambda a: expected(C, d, a, ix[0]))
        return
    else:
        g = f[ix if key == 'array' else ix.tolist()]
    same_field(C, g, len(ix), lambda k, a: expected(C, d, a, ix[k]), tag='selection')
    unchanged(C, f, d, n)


@contract('B03', targets=(BF + 'to_boreholes', BF + '__getitem__', BF + '__len__'))
def to_boreholes(C):
    n = C.int('n', 1, conc=(1, 8))
    d, f = build(C, '', n)
    bs = f.to_boreholes()
    C.check('number of boreholes', C.len(bs) == n)
    for k in C.each(n):
        same_borehole(C, C.at(bs, k), 'borehole', lambda a: expected(C, d, a, k))
    unchanged(C, f, d, n)
    if not C.sym:
        for k, b in enumerate(f):
            same_borehole(C, b, 'iteration', lambda a: expected(C, d, a, k))
        C.check('iteration stops', k == n - 1)


ADD = (BF + '__add__', BF + '__radd__', BF + 'from_boreholes', 'boreholes.Borehole.__add__', 'boreholes.Borehole.__radd__')


@contract('B03', targets=ADD, budget=160)
def add_fields(C):
    addition(C, ['field + field'])


@contract('B03', targets=ADD, budget=160)
def add_field_list(C):
    addition(C, ['field + list', 'list + field'])


@contract('B03', targets=ADD, budget=160)
def add_field_borehole(C):
    addition(C, ['field + borehole', 'borehole + field'])


@contract('B03', targets=ADD, budget=160)
def add_boreholes(C):
    addition(C, ['borehole + borehole', 'borehole + list', 'list + borehole'])


def addition(C, kinds):
    kind = C.choice('kind', kinds)
    left, right = kind.split(' + ')
    ops = []
    for p, what in (('a', left), ('b', right)):
        m = 1 if what == 'borehole' else C.int(p + 'n', 1, conc=(1, 5))
        if what == 'field':
            d, o = build(C, p, m)
        else:
            d, o = a_list(C, p, m)
            o = C.at(o, 0) if what == 'borehole' else o
        ops.append((what, d, m, o))
    (la, da, na, a), (lb, db, nb, b) = ops
    f = b.__radd__(a) if C.sym and la == 'list' else a + b
    C.check('a borefield', isinstance(f, C.gt.borefield.Borefield))
    C.check('sum: number of boreholes', f.nBoreholes == na + nb)
    for q in NAMES:
        C.same_shape('sum: one value per borehole', getattr(f, q), (na + nb,))
        for k in C.each(na):
            C.eq(f'sum: {q} of the left operand', C.at(getattr(f, q), k), expected(C, da, q, k))
        for k in C.each(nb):
            C.eq(f'sum: {q} of the right operand', C.at(getattr(f, q), na + k), expected(C, db, q, k))
    for what, d, m, o in ops:
        if what == 'field':
            unchanged(C, o, d, m)
        elif what == 'borehole':
            same_borehole(C, o, 'operand unchanged', lambda q: expected(C, d, q, 0))
        elif not C.sym:
            C.check('operand unchanged', len(o) == m)


EQ = (BF + '__eq__', BF + '__ne__', BF + 'from_boreholes')


@contract('B03', targets=EQ, budget=200)
def equality_fields(C):
    equality(C, 'field')


@contract('B03', targets=EQ, budget=200)
def equality_lists(C):
    equality(C, 'list')


@contract('B03', targets=EQ)
def equality_borehole(C):
    equality(C, 'borehole')


def equality(C, what):
    n, m = C.int('n', 1, conc=(1, 4)), C.int('m', 1, conc=(1, 4))
    d, f = build(C, 'a', n)
    if what == 'borehole':
        m = 1
    if not C.sym and C.bool('copy'):
        m = n if what != 'borehole' else 1
        e = {a: C.np.array(d[a][:m] if C.np.ndim(d[a]) else d[a], dtype=float) for a in NAMES}
        if C.bool('perturb'):
            q = C.choice('which', list(NAMES))
            e[q][C.int('at', 0, conc=(0, m - 1)) % m] += C.choice('by', [1e-12, 0.1])
        g = C.gt.borefield.Borefield(*[e[a] for a in NAMES[:5]], tilt=e['tilt'], orientation=e['orientation'])
        other = g if what == 'field' else g.to_boreholes() if what == 'list' else g[0]
    elif what == 'field':
        e, other = build(C, 'b', m)
    else:
        e, other = a_list(C, 'b', m)
        other = C.at(other, 0) if what == 'borehole' else other
    r, s = f == other, f != other
    C.check('a truth value', isinstance(r, bool) and isinstance(s, bool))
    C.check('unequal is not equal', r != s)
    close = lambda a, b: C.abs(a - b) <= 1e-8 + 1e-5 * C.abs(b)
    agree = lambda k: C.And(*[close(expected(C, d, a, k), expected(C, e, a, k)) for a in NAMES])
    if r:
        C.check('equal fields have equal sizes', n == m)
        for k in C.each(n):
            C.check('equal fields have equal boreholes', agree(k))
    elif n == m:
        C.check('different fields differ', C.Not(C.every((n,), agree)))
    unchanged(C, f, d, n)


@contract('B03', targets=(BF + 'to_file', BF + 'from_file'))
def files(C):
    n = C.int('n', 1, conc=(1, 6))
    d, f = build(C, '', n)
    if C.sym:
        saved = {}

        def savetxt(fname, X, fmt='%.18e', delimiter=' ', header='', **k):
            if delimiter.strip() or k:
                raise NotImplementedError('savetxt: format')
            digits = re.fullmatch(r'%\.(\d+)([eg])', fmt) if isinstance(fmt, str) else None
            if not digits or int(digits[1]) < (16 if digits[2] == 'e' else 17):
                # a double may not survive: nothing is known of what is read
                X = C.array('file', C.np.shape(X))
            saved[fname] = X

        def loadtxt(fname, ndmin=0, **k):
            if k:
                raise NotImplementedError('loadtxt: format')
            return saved[fname]
        C.stub(C.np, 'savetxt', savetxt)
        C.stub(C.np, 'loadtxt', loadtxt)
        f.to_file('file')
        g = C.gt.borefield.Borefield.from_file('file')
        same_field(C, g, n, lambda k, a: expected(C, d, a, k), tag='read back')
        unchanged(C, f, d, n)
        return
    tmp = tempfile.mkdtemp(prefix='b03')
    try:
        p = os.path.join(tmp, 'field.txt')
        f.to_file(p)
        g = C.gt.borefield.Borefield.from_file(p)
        same_field(C, g, n, lambda k, a: expected(C, d, a, k), tag='read back')
        C.check('read back equals', f == g)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            bs = C.gt.boreholes.field_from_file(p)
        C.check('list read back', len(bs) == n)
        for k, b in enumerate(bs):
            same_borehole(C, b, 'list read back', lambda a: expected(C, d, a, k))
        # five columns: vertical boreholes
        C.np.savetxt(p, C.np.stack([d[a] for a in ('x', 'y', 'H', 'D', 'r_b')], axis=-1))
        g = C.gt.borefield.Borefield.from_file(p)
        same_field(C, g, n, lambda k, a: 0. if a in ('tilt', 'orientation') else expected(C, d, a, k), tag='five columns')
    finally:
        shutil.rmtree(tmp)
    unchanged(C, f, d, n)
