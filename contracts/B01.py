"""B01: borehole discretization ratios."""
import warnings
from pyvc.api import contract, meta

meta('B01', level='proof', note='Every number of segments and every end-length ratio (symbolic); the polynomial roots are used through the contract that they are some numbers '
     '(three arbitrary candidates; the acceptance test of the code is what is relied on).',
     assumptions=['numpy.polynomial roots: any list of candidates (three arbitrary real candidates are explored, the loop treats candidates alike)'])


def check_ratios(C, r, n, a, nz):
    C.same_shape('as many ratios as segments', r, (n,))
    for i in C.each(n):
        C.check('positive', C.at(r, i) > 0)
        C.eq('symmetric about mid-length', C.at(r, i), C.at(r, n - 1 - i))
    C.le('ratios add up to one', C.abs(C.sum(0, n, lambda i: C.at(r, i)) - 1), 1e-6, tol=0 if C.sym else 1e-9)


def expansion(C, r, n, a, nz, last):
    """end ratio a, one constant factor up to segment `last`"""
    C.eq('starts with the end ratio', C.at(r, 0), a)
    for i in C.each((1, last)):
        C.eq('one constant expansion factor', C.at(r, i + 1) * C.at(r, 0), C.at(r, i) * C.at(r, 1), rtol=1e-6)


@contract('B01', targets=('utilities.segment_ratios',))
def few_segments(C):
    n = C.choice('n', [1, 2, 3])
    a = C.real('a', gt=0., lt=0.5, conc=(0.005, 0.49))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        r = C.gt.utilities.segment_ratios(n, end_length_ratio=a)
    check_ratios(C, r, n, a, None)
    if n == 3:
        C.eq('starts with the end ratio', C.at(r, 0), a)


class Roots(object):
    """stands for numpy.polynomial.Polynomial: roots are some numbers"""
    C = None

    def __init__(self, coefs):
        self.coefs = coefs

    def roots(self):
        C = Roots.C
        return [C.T.SReal(C.z3.Real(f'root{i}')) for i in range(3)]


def many(C, n, nz, odd):
    a = C.real('a', gt=0., lt=0.5, conc=(0.005, 0.49), special=(0.02,))
    if C.sym:
        Roots.C = C
        C.stub(C.gt.utilities.poly, 'Polynomial', Roots)
    elif C.int('uniform', 0, conc=(0, 5)) == 0:
        a = 1. / n
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            r = C.gt.utilities.segment_ratios(n, end_length_ratio=a)
        except RuntimeError:
            # no discretization exists: nothing is returned
            if not C.sym:
                C.check('typical discretizations exist', not (n <= 30 and 0.005 < a < 1. / n * 1.5 and n * a < 1.2))
            return
    check_ratios(C, r, n, a, nz)
    if C.sym and C.abs(1 - n * a) < 1e-6 or not C.sym and abs(1 - n * a) < 1e-6:
        for i in C.each(n):
            C.eq('uniform', C.at(r, i) * n, 1.)
    else:
        expansion(C, r, n, a, nz, nz if odd else nz - 1)


@contract('B01', targets=('utilities.segment_ratios',))
def even_segments(C):
    nz = C.int('nz', 2, conc=(2, 20))
    many(C, 2 * nz, nz, False)


@contract('B01', targets=('utilities.segment_ratios',))
def odd_segments(C):
    nz = C.int('nz', 2, conc=(2, 20))
    many(C, 2 * nz + 1, nz, True)


@contract('B01', targets=('utilities.segment_ratios',), modes=('conc',))
def invalid_arguments(C):
    bad = C.choice('bad', [(0, 0.02), (-3, 0.02), (4.0, 0.02), (5, 0.), (5, 0.5), (5, -0.1), (7, 0.7), (5, 1), (3, 0.5)])
    C.raises('invalid arguments are rejected', (AssertionError,), lambda: C.gt.utilities.segment_ratios(bad[0], end_length_ratio=bad[1]))
