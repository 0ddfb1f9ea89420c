"""argument generators shared by the contract drivers"""


def a_borehole(C, p='b', tilted=None, H=None, D=None, r_b=None, x=None, y=None):
    tilt = 0. if tilted is False else C.real(p + 'tilt', lo=0., lt=1.5, conc=(0.05, 1.) if tilted else (0., 1.),
                                             special=() if tilted else (0.,))
    if tilted:
        C.assume(tilt > 0.01)
    return C.gt.boreholes.Borehole(
        H if H is not None else C.real(p + 'H', gt=0., conc=(20., 200.)),
        D if D is not None else C.real(p + 'D', lo=0., conc=(0., 10.)),
        r_b if r_b is not None else C.real(p + 'r', gt=0., conc=(0.05, 0.1)),
        x if x is not None else C.real(p + 'x', conc=(-20., 20.)), y if y is not None else C.real(p + 'y', conc=(-20., 20.)),
        tilt=tilt, orientation=0. if tilted is False else C.real(p + 'or', conc=(-3., 3.)))


def ratios(C, n, name='ratio'):
    r = C.array(name, (n,), gt=0., conc=(0.1, 1.))
    if C.mode == 'conc':
        r = r / r.sum()
    C.assume(C.abs(C.sum(0, n, lambda i: C.at(r, i)) - 1) <= 1e-6)
    return r
