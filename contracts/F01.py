"""F01: fluid film and pipe wall resistances are physical and continuous."""
from types import SimpleNamespace
from pyvc.api import contract, meta

meta('F01', level='proof', note='Friction factor (laminar law; the implicit law to the tolerance, by loop invariant, at every exit of the iteration), film coefficients in circular '
     'and annular pipes in the three flow regimes, wall resistances and their sums for all pipe types, fluid properties: every flow rate, geometry and fluid. '
     'Convergence of the friction factor iteration is bounded (concrete runs).',
     assumptions=['log10(E/3.7 + 2.51/(Re sqrt(f))) is defined and not zero where the code divides by it (true for E < 3.7 minus the smooth term)',
                  'scp fluids: prandtl(T) = specific_heat(T) viscosity(T) / conductivity(T) (contract of the dependency)',
                  'positive turbulent film coefficients are proved for Pr >= 1; bounded for 0.5 <= Pr < 1'])

FF, HC, HA, RP, NU = ('pipes.fluid_friction_factor_circular_pipe', 'pipes.convective_heat_transfer_coefficient_circular_pipe',
                      'pipes.convective_heat_transfer_coefficient_concentric_annulus', 'pipes.conduction_thermal_resistance_circular_pipe',
                      'pipes._Nusselt_number_turbulent_flow')
RFP, RFF = 'pipes.fluid_to_pipe_thermal_resistance', 'pipes.fluid_to_fluid_thermal_resistance'


def fluid(C):
    return dict(mu=C.real('mu', gt=0., conc=(3e-4, 3e-3)), rho=C.real('rho', gt=0., conc=(800., 1100.)))


def flow_at(C, g, r, lo=None, hi=None, name='Re'):
    """a mass flow rate in a circular pipe of radius r: any (prove), within a Reynolds number range (conc)"""
    if C.sym:
        return C.real('m')
    Re = C.real(name, conc=(lo, hi))
    return Re * C.np.pi * r * g['mu'] / 2.


def reynolds(C, m, g, r):
    return 2. * abs(m) / (C.np.pi * r * g['mu'])


def implicit(C, E, Re, f):
    """right-hand side of the rough-pipe law"""
    return 1. / (-2. * C.np.log10(E / 3.7 + 2.51 / (Re * C.np.sqrt(f)))) ** 2


@contract('F01', targets=(FF,))
def friction(C):
    g = fluid(C)
    r = C.real('r', gt=0., conc=(0.005, 0.05))
    eps = C.real('epsilon', lo=0., conc=(0., 1e-3)) if C.sym else C.choice('eps', (0., 1e-6, 1e-4)) * C.real('e', conc=(0., 1.))
    tol = C.real('tol', gt=0.) if C.sym else 10. ** C.int('log tol', -9, conc=(-9, -3))
    m = flow_at(C, g, r, 10., 10. ** C.int('mag', 3, 6, conc=(2, 6))) * (1 if C.sym else C.choice('sign', (1, -1)))
    C.assume(m != 0.)
    Re = reynolds(C, m, g, r)
    E = eps / (2. * r)
    w = {}
    if C.sym:
        def hv(v):
            w['df'] = C.T.CTX.fresh('df')
            return dict(df=w['df'], fDarcy=C.T.CTX.fresh('f'), one_over_sqrt_f=C.T.CTX.fresh('y'), fDarcy_new=C.T.CTX.fresh('f_new'))

        def inv(v):
            f, df = v['fDarcy'], v['df']
            if not isinstance(df, C.T.SReal):
                return [('positive', f > 0.), ('not started, or the law holds with the previous value', df > 1e90)]
            return [('positive', f > 0.), ('not started, or the law holds with the previous value',
                                           C.Or(df > 1e90, C.And(f - df > 0., f == implicit(C, E, Re, f - df))))]
        C.invariant(FF, hv, inv)
    f = C.gt.pipes.fluid_friction_factor_circular_pipe(m, r, g['mu'], g['rho'], eps, tol=tol)
    if C.sym:
        C.check('laminar law', C.implies(Re < 2300., f * Re == 64.))
        C.check('positive', f > 0.)
        if 'df' in w:
            C.check('iterated at or above the transition only', Re >= 2300.)
            C.assume(C.Or(tol < 1e80, f > 1e80))       # (nothing but an absurd tolerance or value stops the iteration before it starts)
            C.assume(C.And(tol <= 1., f < 1e80))
            C.le('last change within the tolerance', abs(w['df']), tol * f)
            C.eq('implicit rough-pipe law', f, implicit(C, E, Re, f - w['df']))
        else:
            C.check('not iterated below the transition only', Re < 2300.)
        return
    if Re < 2300. * (1 - 1e-9):
        C.eq('laminar law', f * Re, 64.)
    elif Re > 2300. * (1 + 1e-9):
        C.le('implicit rough-pipe law', abs(f - implicit(C, E, Re, f)), tol * f * (1 + 1e-6))
    C.check('depends on the magnitude of the flow', f == C.gt.pipes.fluid_friction_factor_circular_pipe(-m, r, g['mu'], g['rho'], eps, tol=tol))
    C.lt('positive', 0., f)


@contract('F01', targets=(NU,), modes=('prove',))
def nusselt(C):
    Re, Pr, f = C.real('Re', gt=1000.), C.real('Pr', lo=1.), C.real('f', gt=0.)
    Nu = C.gt.pipes._Nusselt_number_turbulent_flow(Re, Pr, f)
    C.lt('positive', 0., Nu)
    C.eq('Gnielinski correlation', Nu * (1. + 12.7 * C.np.sqrt(f / 8.) * (Pr ** (2. / 3.) - 1.)), f / 8. * (Re - 1000.) * Pr)


def film_stubs(C, r_expected, m, eps, g):
    """friction factor and turbulent correlation through their contracts: positive functions of their arguments"""
    P = C.gt.pipes
    fD = C.real('fDarcy', gt=0.)
    seen = {}

    def ff(m_, r_, mu_, rho_, eps_, tol=1e-6):
        C.check('friction factor of the same flow', C.And(C.Or(m_ == m, m_ == -m), r_ == r_expected, mu_ == g['mu'], rho_ == g['rho'], eps_ == eps))
        return fD

    N = C.T.z3.Function('Nu_turb', *[C.T.z3.RealSort()] * 4)

    def nu(Re_, Pr_, f_):
        C.check('within the range of the correlation', Re_ > 3000.)
        t = C.T.SReal(N(C.T.zr(Re_), C.T.zr(Pr_), C.T.zr(f_)))
        C.assume(C.implies(Re_ > 1000., t > 0.))
        return t
    C.stub(P, 'fluid_friction_factor_circular_pipe', ff)
    C.stub(P, '_Nusselt_number_turbulent_flow', nu)
    return fD, nu


@contract('F01', targets=(HC,), modes=('prove',))
def film_circular(C):
    g = fluid(C)
    r, k, cp, m, eps = C.real('r', gt=0.), C.real('k', gt=0.), C.real('cp', gt=0.), C.real('m'), C.real('epsilon', lo=0.)
    C.assume(m != 0.)
    fD, nu = film_stubs(C, r, m, eps, g)
    P = C.gt.pipes
    h = P.convective_heat_transfer_coefficient_circular_pipe(m, r, g['mu'], g['rho'], k, cp, eps)
    Re, Pr = reynolds(C, m, g, r), cp * g['mu'] / k
    regimes(C, Re, Pr, fD, nu, h * 2. * r / k, lambda x: 3.66)
    C.lt('positive', 0., h)
    C.eq('depends on the magnitude of the flow', h, P.convective_heat_transfer_coefficient_circular_pipe(-m, r, g['mu'], g['rho'], k, cp, eps))


def regimes(C, Re, Pr, fD, nu, Nu, lam, tag=''):
    l = lam(0)
    if C.entails(Re <= 2300.):
        C.eq(tag + 'laminar value up to the lower critical Reynolds number', Nu, l)
    elif C.entails(Re >= 4000.):
        C.eq(tag + 'turbulent correlation from the upper critical Reynolds number', Nu, nu(Re, Pr, fD))
    else:
        C.check(tag + 'between the critical Reynolds numbers', C.And(Re > 2300., Re < 4000.))
        y = (Re - 2300.) / 1700.
        C.eq(tag + 'continuous interpolation between both', Nu, (1. - y) * l + y * nu(4000., Pr, fD))


@contract('F01', targets=(HA,), modes=('prove',))
def film_annulus(C):
    g = fluid(C)
    ri, ro = C.real('r_a_in', gt=0.), C.real('r_a_out')
    C.assume(ro > ri)
    k, cp, m, eps = C.real('k', gt=0.), C.real('cp', gt=0.), C.real('m'), C.real('epsilon', lo=0.)
    C.assume(m != 0.)
    D = 2. * (ro - ri)
    fD, nu = film_stubs(C, ro - ri, m, eps, g)
    P = C.gt.pipes
    hs = P.convective_heat_transfer_coefficient_concentric_annulus(m, ri, ro, g['mu'], g['rho'], k, cp, eps)
    Re, Pr = 2. * abs(m) * (ro - ri) / (C.np.pi * g['mu'] * (ro ** 2 - ri ** 2)), cp * g['mu'] / k
    other = P.convective_heat_transfer_coefficient_concentric_annulus(-m, ri, ro, g['mu'], g['rho'], k, cp, eps)
    for i, (h, p) in enumerate(zip(hs, (-0.8, 0.5))):
        regimes(C, Re, Pr, fD, nu, h * D / k, lambda x: 3.66 + 1.2 * (ri / ro) ** p, tag=('inner wall: ', 'outer wall: ')[i])
        C.lt('positive', 0., h)
        C.eq('depends on the magnitude of the flow', h, other[i])


@contract('F01', targets=(HC, HA, FF, NU), modes=('conc',), weight=4)
def film_concrete(C):
    """positive, even, without jumps: a fine sweep over the three regimes and across the critical Reynolds numbers"""
    P, np = C.gt.pipes, C.np
    g = fluid(C)
    r, k, eps = C.real('r', conc=(0.005, 0.05)), C.real('k', conc=(0.2, 0.7)), C.choice('eps', (0., 1e-6, 1e-4))
    Pr = C.real('Pr', conc=(0.5, 60.))
    cp = Pr * k / g['mu']
    ann = C.bool('annulus')
    q = C.real('ratio', conc=(0.1, 0.9))
    if ann:
        f = lambda Re: P.convective_heat_transfer_coefficient_concentric_annulus(Re * np.pi * g['mu'] * r * (1 + q) / 2., q * r, r, g['mu'], g['rho'], k, cp, eps)
        D, lam = 2 * r * (1 - q), (3.66 + 1.2 * q ** -0.8, 3.66 + 1.2 * q ** 0.5)
    else:
        f = lambda Re: (P.convective_heat_transfer_coefficient_circular_pipe(Re * np.pi * r * g['mu'] / 2., r, g['mu'], g['rho'], k, cp, eps),)
        D, lam = 2 * r, (3.66,)

    def turb(Re):
        # the friction factor is the one of a circular pipe of the hydraulic radius with the same mass flow rate
        x = implicit_solution(np, eps / (2 * r * (1 - q) if ann else 2 * r), Re * (1 + q) / (1 - q) if ann else Re)
        return 0.125 * x * (Re - 1000.) * Pr / (1 + 12.7 * np.sqrt(x / 8) * (Pr ** (2 / 3) - 1))

    for Re in (1., 500., 2299., C.real('lam', conc=(1., 2299.))):
        C.eq('laminar value', np.array(f(Re)) * D / k, np.array(lam))
    for Re in (4001., C.real('turb', conc=(4001., 3e5))):
        C.eq('turbulent correlation', np.array(f(Re)) * D / k, np.full(len(lam), turb(Re)), rtol=1e-5)
    Res = np.concatenate([np.linspace(2250., 4100., 75), 2300. * (1 + np.array([-1e-6, -1e-9, 0., 1e-9, 1e-6])), 4000. * (1 + np.array([-1e-6, -1e-9, 0., 1e-9, 1e-6]))])
    Res.sort()
    h = np.array([f(Re) for Re in Res]) * D / k
    C.check('positive', bool(np.all(h > 0)))
    lip = np.abs(np.diff(h, axis=0)) / np.maximum(np.diff(Res), 1e-3)[:, None]
    C.check('no jumps', bool(np.all(lip <= 0.05 + 3 * (np.max(h) + 10.) / 1000.)))
    for Re in (700., 3000., 9000.):
        C.check('depends on the magnitude of the flow', tuple(f(Re)) == tuple(f(-Re)))


def implicit_solution(np, E, Re):
    x = 0.02
    for _ in range(60):
        x = 1. / (-2. * np.log10(E / 3.7 + 2.51 / (Re * np.sqrt(x)))) ** 2
    return x


@contract('F01', targets=(RP,))
def conduction(C):
    a, k = C.real('a', gt=0., conc=(0.005, 0.1)), C.real('k', gt=0., conc=(0.05, 400.))
    b = a * (1. + C.real('t1', gt=0., conc=(1e-3, 1.)))
    c = b * (1. + C.real('t2', gt=0., conc=(1e-3, 1.)))
    f = C.gt.pipes.conduction_thermal_resistance_circular_pipe
    if C.sym:
        C.lemma('radius ratios', C.And(b / a > 1., c / b > 1., c / a > 1.))
    C.lt('positive', 0., f(a, b, k))
    C.eq('nested layers add up', f(a, b, k) + f(b, c, k), f(a, c, k), rtol=1e-9)
    C.eq('value', f(a, b, k) * 2. * C.np.pi * k, C.np.log(b / a))
    s = C.real('s', gt=0., conc=(0.1, 10.))
    C.eq('inversely proportional to the conductivity', f(a, b, s * k) * s, f(a, b, k))


UTUBES = ('SINGLE_UTUBE', 'DOUBLE_UTUBE_PARALLEL', 'DOUBLE_UTUBE_SERIES')
COAX = ('COAXIAL_ANNULAR_IN', 'COAXIAL_ANNULAR_OUT')


def setup(C):
    g = fluid(C)
    fl = SimpleNamespace(mu=g['mu'], rho=g['rho'], k=C.real('k_f', gt=0., conc=(0.2, 0.7)), cp=C.real('cp', gt=0., conc=(3000., 4200.)))
    eps, m = C.real('epsilon', lo=0., conc=(0., 1e-5)), C.real('m', gt=0., conc=(0.02, 2.))
    if not C.sym:
        m = m * C.choice('scale', (0.02, 0.1, 1.))
    m = m * C.choice('sign', (1, -1))
    P = C.gt.pipes
    if C.sym:
        calls = {}

        def film(name, n):
            F = [C.T.z3.Function(f'{name}{i}', *[C.T.z3.RealSort()] * 9) for i in range(n)]

            def h(m_, *a):
                C.check('properties of the fluid', C.And(a[-5] == fl.mu, a[-4] == fl.rho, a[-3] == fl.k, a[-2] == fl.cp, a[-1] == eps))
                # contract: positive, of the magnitude of the flow
                args = [abs(m_)] + [x for x in a[:-5]] + ([0.] if len(a) == 6 else []) + list(a[-5:])
                out = [C.T.SReal(f(*[C.T.zr(x) for x in args])) for f in F]
                for o in out:
                    C.assume(o > 0.)
                return tuple(out) if n > 1 else out[0]
            return h
        C.stub(P, 'convective_heat_transfer_coefficient_circular_pipe', film('h_pipe', 1))
        C.stub(P, 'convective_heat_transfer_coefficient_concentric_annulus', film('h_ann', 2))
    return P, fl, eps, m


@contract('F01', targets=(RFP,))
def utube_resistance(C):
    P, fl, eps, m = setup(C)
    t = C.choice('type', UTUBES)
    pt = getattr(P.PipeType, t)
    r = C.real('r_in', gt=0., conc=(0.005, 0.05))
    ro, k = r * (1. + C.real('t', gt=0., conc=(0.01, 0.5))), C.real('k_p', gt=0., conc=(0.1, 50.))
    if C.sym:
        C.lemma('radius ratio', ro / r > 1.)
    R = P.fluid_to_pipe_thermal_resistance(pt, m, r, ro, k, eps, fl)
    mp = m / 2 if t == 'DOUBLE_UTUBE_PARALLEL' else m
    h = P.convective_heat_transfer_coefficient_circular_pipe(mp, r, fl.mu, fl.rho, fl.k, fl.cp, eps)
    C.eq('wall and film of one pipe at its flow rate', R, C.np.log(ro / r) / (2 * C.np.pi * k) + 1. / (2 * C.np.pi * r * h))
    C.lt('positive', 0., R)
    C.eq('independent of the flow direction', R, P.fluid_to_pipe_thermal_resistance(pt, -m, r, ro, k, eps, fl))


@contract('F01', targets=(RFP, RFF))
def coaxial_resistances(C):
    P, fl, eps, m = setup(C)
    t = C.choice('type', COAX)
    pt = getattr(P.PipeType, t)
    r1 = C.real('r1', gt=0., conc=(0.01, 0.03))
    r2 = r1 * (1. + C.real('t1', gt=0., conc=(0.01, 0.5)))
    r3 = r2 * (1. + C.real('t2', gt=0., conc=(0.2, 1.)))
    r4 = r3 * (1. + C.real('t3', gt=0., conc=(0.01, 0.5)))
    ki, ko = C.real('k_inner', gt=0., conc=(0.1, 50.)), C.real('k_outer', gt=0., conc=(0.1, 50.))
    if C.sym:
        C.lemma('radius ratios', C.And(r2 / r1 > 1., r4 / r3 > 1.))
    # annular in: the outer pipe is listed first
    order = (lambda inner, outer: (outer, inner)) if t == 'COAXIAL_ANNULAR_IN' else (lambda inner, outer: (inner, outer))
    a = (order(r1, r3), order(r2, r4), order(ki, ko), eps, fl)
    R_out, R_in = P.fluid_to_pipe_thermal_resistance(pt, m, *a), P.fluid_to_fluid_thermal_resistance(pt, m, *a)
    h_in = P.convective_heat_transfer_coefficient_circular_pipe(m, r1, fl.mu, fl.rho, fl.k, fl.cp, eps)
    h_ai, h_ao = P.convective_heat_transfer_coefficient_concentric_annulus(m, r2, r3, fl.mu, fl.rho, fl.k, fl.cp, eps)
    pi, log = C.np.pi, C.np.log
    C.eq('outer wall and film', R_out, log(r4 / r3) / (2 * pi * ko) + 1. / (2 * pi * r3 * h_ao))
    C.eq('films of both sides and wall of the inner pipe', R_in, 1. / (2 * pi * r1 * h_in) + log(r2 / r1) / (2 * pi * ki) + 1. / (2 * pi * r2 * h_ai))
    C.lt('positive', 0., R_out)
    C.lt('positive', 0., R_in)
    C.eq('independent of the flow direction', R_out, P.fluid_to_pipe_thermal_resistance(pt, -m, *a))
    C.eq('independent of the flow direction', R_in, P.fluid_to_fluid_thermal_resistance(pt, -m, *a))


@contract('F01', targets=(RFP, RFF))
def unsupported_types(C):
    P, fl, eps, m = setup(C)
    which = C.choice('which', UTUBES)
    a = (m, (0.02, 0.03), (0.022, 0.033), (0.4, 0.4), eps, fl)
    C.raises('no fluid to fluid resistance of U-tubes', ValueError, lambda: P.fluid_to_fluid_thermal_resistance(getattr(P.PipeType, which), *a))


@contract('F01', targets=('media.Fluid.__init__', 'media.Fluid.kinematic_viscosity', 'media.Fluid.volumetric_heat_capacity', 'media.Fluid.Prandlt_number',
                          'media.Fluid.density', 'media.Fluid.dynamic_viscosity', 'media.Fluid.specific_heat_capacity', 'media.Fluid.thermal_conductivity'))
def fluid_properties(C):
    name = C.choice('fluid', ('Water', 'MPG', 'MEG', 'MMA', 'MEA', 'propyleneGlycol', 'ETHYLENEGLYCOL', 'methylalcohol', 'EthylAlcohol'))
    x, T = C.real('percent', lo=0., conc=(0., 40.)), C.real('T', conc=(1., 30.))
    if C.sym:
        C.assume(x <= 60.)
        p = dict(density=C.real('rho', gt=0.), viscosity=C.real('mu', gt=0.), specific_heat=C.real('cp', gt=0.), conductivity=C.real('k', gt=0.))
        made = []

        class Scp:
            fluid_name = 'fluid'

            def __init__(self, frac=None):
                made.append(frac)

            def _at(self, t, v):
                C.check('at the temperature of the fluid', t == T)
                return v

            def density(self, t): return self._at(t, p['density'])
            def viscosity(self, t): return self._at(t, p['viscosity'])
            def specific_heat(self, t): return self._at(t, p['specific_heat'])
            def conductivity(self, t): return self._at(t, p['conductivity'])
            def prandtl(self, t): return self._at(t, p['specific_heat'] * p['viscosity'] / p['conductivity'])
        for cls in ('Water', 'PropyleneGlycol', 'EthyleneGlycol', 'MethylAlcohol', 'EthylAlcohol'):
            C.stub(C.gt.media, cls, Scp)
    f = C.gt.media.Fluid(name, x, T)
    if C.sym:
        if name != 'Water':
            C.eq('mass fraction', made[0], x / 100.)
        C.eq('density', f.rho, p['density'])
        C.eq('viscosity', f.mu, p['viscosity'])
        C.eq('heat capacity', f.cp, p['specific_heat'])
        C.eq('conductivity', f.k, p['conductivity'])
    else:
        import scp
        s = fresh_scp(name, x / 100.)
        C.check('the named fluid', f.fluid.__class__ is s.__class__)
        for nm, v in (('rho', s.density(T)), ('mu', s.viscosity(T)), ('cp', s.specific_heat(T)), ('k', s.conductivity(T))):
            C.eq(nm, getattr(f, nm), v)
        for v in (f.rho, f.mu, f.cp, f.k):
            C.lt('positive', 0., v)
    C.eq('kinematic viscosity', f.nu * f.rho, f.mu)
    C.eq('volumetric heat capacity', f.rhoCp, f.rho * f.cp)
    C.eq('Prandtl number', f.Pr * f.k, f.cp * f.mu)
    C.eq('temperature', f.T_C, T)
    C.eq('methods: kinematic viscosity', f.kinematic_viscosity(), f.nu)
    C.eq('methods: volumetric heat capacity', f.volumetric_heat_capacity(), f.rhoCp)
    C.eq('methods: Prandtl number', f.Prandlt_number(), f.Pr)
    C.eq('methods: density', f.density(), f.rho)
    C.eq('methods: conductivity', f.thermal_conductivity(), f.k)
    C.eq('methods: heat capacity', f.specific_heat_capacity(), f.cp)
    C.eq('methods: viscosity', f.dynamic_viscosity(), f.mu)


def fresh_scp(name, x):
    from scp.water import Water
    from scp.propylene_glycol import PropyleneGlycol
    from scp.ethylene_glycol import EthyleneGlycol
    from scp.methyl_alcohol import MethylAlcohol
    from scp.ethyl_alcohol import EthylAlcohol
    n = name.upper()
    return (Water() if n == 'WATER' else PropyleneGlycol(x) if n in ('PROPYLENEGLYCOL', 'MPG') else EthyleneGlycol(x) if n in ('ETHYLENEGLYCOL', 'MEG')
            else MethylAlcohol(x) if n in ('METHYLALCOHOL', 'MMA') else EthylAlcohol(x))
