"""C01-C04: Kepler, chirp mass, separation-eccentricity relation, rates."""
from pyvc.runner import Case
from pyvc.inputs import In, Lit, U, Dom
from pyvc.spec import *
from . import defs as d


def mass(*ax):
    return In('mass', ax, 'mass')


def freq(*ax):
    return In('frequency', ax, 'f')


def sep(*ax):
    return In('length', ax, 'a', units=['AU', 'km', 'm', 'Rsun'])


def ecc(*ax, d='ecc+'):
    return In(None, ax, d)


CASES = {}


def case(prop, *a, **k):
    CASES.setdefault(prop, []).append(Case(prop + '/' + a[0], *a[1:], **k))


def AUout(v):
    return Out(quantity(v, 'm'), 'AU')


SHAPES = [('scalar', (), ()), ('array', ('N',), ('N',)), ('matrix', ('N', 'T'), ('N', 1))]
for nm, ax, axm in SHAPES:
    case('C01', 'a_from_f.' + nm, dict(f=freq(*ax), m1=mass(*axm), m2=mass(*axm)),
         "result = utils.get_a_from_f_orb(f_orb=f, m_1=m1, m_2=m2)",
         lambda i: AUout(emap(d.kepler_a, i.f, i.m1, i.m2)))
    case('C01', 'f_from_a.' + nm, dict(a=sep(*ax), m1=mass(*axm), m2=mass(*axm)),
         "result = utils.get_f_orb_from_a(a=a, m_1=m1, m_2=m2)",
         lambda i: Out(emap(d.kepler_f, i.a, i.m1, i.m2, unit='Hz'), 'Hz'))
case('C01', 'inverse.f_a_f', dict(f=freq('N'), m1=mass('N'), m2=mass('N')),
     "result = utils.get_f_orb_from_a(utils.get_a_from_f_orb(f, m1, m2), m1, m2)", lambda i: i.f)
case('C01', 'inverse.a_f_a', dict(a=sep('N'), m1=mass('N'), m2=mass('N')),
     "result = utils.get_a_from_f_orb(utils.get_f_orb_from_a(a, m1, m2), m1, m2)", lambda i: i.a)
case('C01', 'third_law', dict(f=freq('N'), m1=mass('N'), m2=mass('N')),
     "a = utils.get_a_from_f_orb(f, m1, m2)\nresult = a**3 * (2 * np.pi * f)**2",
     lambda i: emap(lambda m1, m2: G * (m1 + m2), i.m1, i.m2, unit='m3/s2'))
case('C01', 'symmetric', dict(f=freq('N'), a=sep('N'), m1=mass('N'), m2=mass('N')),
     "x = utils.get_a_from_f_orb(f, m1, m2) / utils.get_a_from_f_orb(f, m2, m1)\n"
     "y = utils.get_f_orb_from_a(a, m1, m2) / utils.get_f_orb_from_a(a, m2, m1)\nresult = (x, y)",
     lambda i: [emap(lambda f: S(1), i.f), emap(lambda f: S(1), i.f)])

for nm, ax, axm in SHAPES:
    case('C02', 'chirp_mass.' + nm, dict(m1=mass(*ax), m2=mass(*axm)), "result = utils.chirp_mass(m_1=m1, m_2=m2)",
         lambda i: Out(emap(d.chirp, i.m1, i.m2, unit='kg'), 'Msun'))
    case('C02', 'chirp_mass.plain.' + nm, dict(m1=In(None, ax, 'pos'), m2=In(None, axm, 'pos')),
         "result = utils.chirp_mass(m_1=m1, m_2=m2)", lambda i: emap(d.chirp, i.m1, i.m2))
    case('C02', 'beta.' + nm, dict(m1=mass(*ax), m2=mass(*axm)), "result = utils.beta(m_1=m1, m_2=m2)",
         lambda i: Out(emap(d.beta, i.m1, i.m2, unit='m4/s'), 'm4/s'))
case('C02', 'exchange', dict(m1=mass('N'), m2=mass('N')),
     "result = (utils.chirp_mass(m1, m2) / utils.chirp_mass(m2, m1), utils.beta(m1, m2) / utils.beta(m2, m1))",
     lambda i: [emap(lambda f: S(1), i.m1), emap(lambda f: S(1), i.m1)])
case('C02', 'chirp_mass.numbers', dict(m1=In(None, (), 'pos', py=True), m2=In(None, (), 'pos', py=True)),
     "result = utils.chirp_mass(m1, m2)", lambda i: emap(d.chirp, i.m1, i.m2))

for nm, ax, axc in SHAPES:
    case('C03', 'a_from_ecc.' + nm, dict(e=ecc(*ax), c0=sep(*axc)), "result = utils.get_a_from_ecc(ecc=e, c_0=c0)",
         lambda i: emap(d.a_of_e, i.e, i.c0, unit='m'))
    case('C03', 'c0.' + nm, dict(a=sep(*ax), e=ecc(*axc)), "result = utils.c_0(a_i=a, ecc_i=e)",
         lambda i: emap(d.c0, i.a, i.e, unit='m'))
    case('C03', 'round_trip.' + nm, dict(a=sep(*ax), e=ecc(*axc)),
         "result = utils.get_a_from_ecc(e + 0 * np.ones_like(e), utils.c_0(a, e))",
         lambda i: emap(lambda a, e: a, i.a, i.e, unit='m'))
case('C03', 'numbers', dict(a=sep(), e=In(None, (), 'ecc+', py=True)),
     "result = utils.get_a_from_ecc(e, utils.c_0(a, e))", lambda i: i.a)

N_ANY = Dom(rng=(-2, 12), integer=True, special=[0, 1])
N_OK = Dom(lo=1, rng=(1, 12), integer=True, special=[1, 2])


def fn_dot_spec(i):
    """harmonics below 1 are rejected, otherwise Peters' rate"""
    bad = reduce(lambda n: n < 1, i.n)
    if bad:
        raise ValueError
    return emap(d.fn_dot, i.mc, i.f, i.e, i.n, unit='Hz/s')


for nm, ax, axc in SHAPES:
    case('C04', 'peters_f.' + nm, dict(e=ecc(*ax, d='ecc')), "result = utils.peters_f(e)", lambda i: emap(d.F_e, i.e))
    for nn, axn in (('n', ()), ('n_array', axc)):
        if axn == () and nn == 'n_array':
            continue
        case('C04', 'fn_dot.%s.%s' % (nm, nn), dict(mc=mass(*axc), f=freq(*ax), e=ecc(*axc, d='ecc'),
                                                   n=In(None, axn, N_ANY)),
             "result = utils.fn_dot(m_c=mc, f_orb=f, e=e, n=n)", fn_dot_spec)
case('C04', 'fn_dot.python_int', dict(mc=mass(), f=freq(), e=In(None, (), 'ecc', py=True), n=In(None, (), N_ANY, py=True)),
     "result = utils.fn_dot(mc, f, e, n)", fn_dot_spec)
case('C04', 'fn_dot.harmonic_axis', dict(mc=mass('N', 1, 1), f=freq('N', 'T', 1), e=ecc('N', 'T', 1, d='ecc'),
                                         n=In(None, (1, 1, 'H'), N_ANY)),
     "result = utils.fn_dot(m_c=mc, f_orb=f, e=e, n=n)", fn_dot_spec)

case('C04', 'de_dt.scalar', dict(e=ecc(), t=In(None, (), 'pos'), b=In(None, (), 'pos'), c0=In(None, (), 'pos')),
     "result = evol.de_dt(e, t, b, c0)", lambda i: emap(d.de_dt, i.e, i.b, i.c0))
case('C04', 'de_dt.array', dict(e=ecc('N'), t=In(None, (), 'pos'), b=In(None, ('N',), 'pos'), c0=In(None, ('N',), 'pos')),
     "result = evol.de_dt(e, t, b, c0)", lambda i: emap(d.de_dt, i.e, i.b, i.c0))


def chain(got):
    """n df_orb/da da/de de/dt = dfn/dt, derivatives of the code's own separation and frequency formulas"""
    from pyvc.diff import derivative
    from pyvc.terms import var
    e = next(v for v in fv(phys(got['a']).t) if v.args[0] == 'in_e')
    f = phys(got['f']).t
    rate = mul(derivative(f, e), got['de'].t, got['n'].t)
    return [('harmonic frequency rate = n df/de de/dt', eq(rate, phys(got['fd']).t))]


case('C04', 'chain_rule', dict(e=ecc(), m1=mass(), m2=mass(), c0=sep(), n=In(None, (), N_OK)),
     """
a = utils.get_a_from_ecc(e, c0)
f = utils.get_f_orb_from_a(a, m1, m2)
de = evol.de_dt(e, 0.0, utils.beta(m1, m2).to(u.m**4 / u.s).value, c0.to(u.m).value)
fd = utils.fn_dot(utils.chirp_mass(m1, m2), f, e, n)
result = {'a': a, 'f': f, 'de': de, 'fd': fd, 'n': n}
""", lambda i: Pred(chain))
