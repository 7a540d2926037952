"""C10-C12: strains and detector response."""
from pyvc.runner import Case
from pyvc.inputs import In, Lit, U, Dom, Sky, Call
from pyvc.spec import *
from pyvc.sym import new_array, bcast_axes, fit, as_array
from . import defs as d

CASES = {}
N_ANY = Dom(rng=(-2, 12), integer=True, special=[0, 1])
N_OK = Dom(lo=1, rng=(1, 12), integer=True, special=[1, 2])


def case(prop, *a, **k):
    CASES.setdefault(prop, []).append(Case(prop + '/' + a[0], *a[1:], **k))


def mass(*ax):
    return In('mass', ax, 'mass')


def freq(*ax):
    return In('frequency', ax, 'f')


def dist(*ax):
    return In('dist', ax, 'dist')


def ecc(*ax, dm='ecc'):
    return In(None, ax, dm)


def ang(*ax):
    return In('angle', ax, 'angle')


def cb_elementwise(twin):
    """callable whose value is an arbitrary function of the elements of its arguments"""
    def f(*args):
        arrs = [as_array(phys(a)) for a in args]
        axes = []
        for a in arrs:
            axes = bcast_axes(axes, a.axes)
        fs = [fit(a.snap(), a.axes, axes) for a in arrs]
        return new_array(axes, lambda idx: tfn('cb_' + twin, *[g(idx) for g in fs]), 'f')
    return f


def col(x, j):
    """index tuple access helper: axis j of an input, () when it has none"""
    return axis(x, j) if ndim(x) > j else Axis()


def strain_spec(i, kind, interp=False, mod=False):
    """h or h_c as an (x, y, z) array, each entry from its own source, time and harmonic"""
    n_in = i.n
    if anyof_(lambda n: n < 1, n_in):
        raise ValueError
    X = axis(i.mc)
    Y = axis(i.f, 1) if ndim(i.f) == 2 else (axis(i.e, 1) if ndim(i.e) == 2 else Axis())
    Z = axis(i.n)

    def xy(v, x, y):
        return at(v, x, y if not axis(v, 1).isone else ()) if ndim(v) == 2 else (at(v, x) if ndim(v) else at(v))

    def elem(x, y, z):
        n = at(i.n, z) if ndim(i.n) else at(i.n)
        e = xy(i.e, x, y)
        f = xy(i.f, x, y)
        if interp:
            g = unfun('cb_g_interp', n, e)
            g = where(g < 0, 0, g)
        else:
            g = d.op_g(n, e)
        mc = at(i.mc, x) if ndim(i.mc) else at(i.mc)
        D = at(i.D, x) if ndim(i.D) else at(i.D)
        h = d.h0(mc, f, D, g, n) if kind == 'h0' else d.hc(mc, f, e, D, g, n)
        if mod:
            one = lambda v: at(v, x) if ndim(v) else at(v)
            h = h * d.amp_mod(one(i.pos.lon), one(i.pos.lat), one(i.pol), one(i.inc)) ** F(1, 2)
        return h
    return array([X, Y, Z], elem)


ST = ('utils.peters_f', 'utils.peters_g')

# element formulas, harmonic and time layouts
LAYOUTS = [
    ('scalars', dict(mc=mass(), f=freq(), e=ecc(), n=In(None, (), N_ANY, py=True), D=dist())),
    ('one_harmonic', dict(mc=mass('X'), f=freq('X'), e=ecc('X'), n=In(None, (), N_ANY, py=True), D=dist('X'))),
    ('harmonics', dict(mc=mass('X'), f=freq('X'), e=ecc('X'), n=In(None, ('Z',), N_ANY), D=dist('X'))),
    ('times', dict(mc=mass('X'), f=freq('X', 'Y'), e=ecc('X', 'Y'), n=In(None, ('Z',), N_ANY), D=dist('X'))),
    ('fixed_ecc', dict(mc=mass('X'), f=freq('X', 'Y'), e=ecc('X'), n=In(None, ('Z',), N_ANY), D=dist('X'))),
    ('fixed_f', dict(mc=mass('X'), f=freq('X'), e=ecc('X', 'Y'), n=In(None, (), N_ANY, py=True), D=dist('X'))),
]
LISTS = [('list%d' % k, dict(mc=mass('X'), f=freq('X'), e=ecc('X'), n=In(None, (k,), N_ANY, py=True, as_list=True),
                             D=dist('X'))) for k in (1, 2, 3)]
ARGS = 'm_c=mc, f_orb=f, ecc=e, n=n, dist=D'
for kind, fun in (('h0', 'h_0_n'), ('hc', 'h_c_n')):
    for nm, ins in LAYOUTS + LISTS:
        p = 'C10' if nm in ('scalars', 'times', 'harmonics') or nm[:4] == 'list' else 'C11'
        case(p, '%s.%s' % (fun, nm), ins, 'result = strain.%s(%s)' % (fun, ARGS),
             lambda i, kind=kind: strain_spec(i, kind), stubs=ST)
        if nm != 'scalars':
            case('C11', '%s.%s.interp' % (fun, nm), dict(ins, g=Call('g_interp', cb_elementwise)),
                 'result = strain.%s(%s, interpolated_g=g)' % (fun, ARGS),
                 lambda i, kind=kind: strain_spec(i, kind, interp=True), stubs=ST)
        if nm in ('harmonics', 'times', 'one_harmonic'):
            case('C11', '%s.%s.modulated' % (fun, nm), dict(ins, pos=Sky(('X',)), pol=ang('X'), inc=ang('X')),
                 'result = strain.%s(%s, position=pos, polarisation=pol, inclination=inc)' % (fun, ARGS),
                 lambda i, kind=kind: strain_spec(i, kind, mod=True), rtol=1e-8, stubs=ST)
    case('C11', fun + '.interp.modulated', dict(LAYOUTS[3][1], pos=Sky(('X',)), pol=ang('X'), inc=ang('X'),
                                                g=Call('g_interp', cb_elementwise)),
         'result = strain.%s(%s, position=pos, polarisation=pol, inclination=inc, interpolated_g=g)' % (fun, ARGS),
         lambda i, kind=kind: strain_spec(i, kind, interp=True, mod=True), rtol=1e-8, stubs=ST)

for nm, ins in LAYOUTS[2:5]:
    ins = dict(ins, n=In(None, ('Z',), N_OK))
    case('C10', 'h_c_squared.' + nm, ins,
         """
h = strain.h_0_n(%s)
hc = strain.h_c_n(%s)
fd = np.zeros(np.shape(h))
F3 = f[:, :, np.newaxis] if f.ndim == 2 else f[:, np.newaxis, np.newaxis]
E3 = e[:, :, np.newaxis] if e.ndim == 2 else e[:, np.newaxis, np.newaxis]
N3 = n[np.newaxis, np.newaxis, :]
fd = utils.fn_dot(mc[:, np.newaxis, np.newaxis], F3, E3, N3)
result = {'lhs': hc**2 * fd, 'rhs': (N3 * F3)**2 * h**2}
""" % (ARGS, ARGS), lambda i: pair_eq(), stubs=ST)
for nm, ax in (('scalar', ()), ('array', ('X',)), ('outer', None)):
    ins = dict(n=In(None, ax, N_OK), e=ecc(*ax)) if ax is not None else dict(n=In(None, (1, 'Z'), N_OK), e=ecc('X', 1))
    case('C10', 'peters_g.' + nm, ins, 'result = utils.peters_g(n, e)', lambda i: emap(d.g_ne, i.n, i.e))

# ---------------------------------------------------------------- C12
for nm, ax in (('scalar', ()), ('array', ('X',)), ('matrix', ('X', 'Y'))):
    a3 = dict(th=ang(*ax), ph=ang(*ax), ps=ang(*ax))
    for fun, df, k3 in (('D_plus_squared', d.D_plus2, 2), ('D_cross_squared', d.D_cross2, 2),
                        ('D_plus_D_cross', d.D_pc, 2), ('F_plus_squared', d.F_plus2, 3),
                        ('F_cross_squared', d.F_cross2, 3)):
        ks = ['th', 'ph', 'ps'][:k3]
        case('C12', '%s.%s' % (fun, nm), {q: a3[q] for q in ks}, 'result = utils.%s(%s)' % (fun, ', '.join(
            ('theta', 'phi', 'psi')[j] + '=' + ks[j] for j in range(k3))),
            lambda i, df=df, ks=ks: emap(df, *[getattr(i, q) for q in ks]), atol=1e-12)
    pl = {q: In(None, ax, 'angle') for q in ('th', 'ph', 'ps')}
    case('C12', 'F_plain.' + nm, pl, 'result = (utils.F_plus_squared(th, ph, ps), utils.F_cross_squared(th, ph, ps))',
         lambda i: (emap(d.F_plus2, i.th, i.ph, i.ps), emap(d.F_cross2, i.th, i.ph, i.ps)), atol=1e-12)
for fun in ('F_plus_squared', 'F_cross_squared'):
    a3 = dict(th=ang('X'), ph=ang('X'), ps=ang('X'))
    case('C12', fun + '.polarisation_period', a3,
         "result = {'lhs': 1 + utils.%s(th, ph, ps), 'rhs': 1 + utils.%s(th, ph, ps + np.pi / 2 * u.rad)}" % (fun, fun),
         lambda i: pair_eq())
    case('C12', fun + '.longitude_period', a3,
         "result = {'lhs': 1 + utils.%s(th, ph, ps), 'rhs': 1 + utils.%s(th, ph + np.pi * u.rad, ps)}" % (fun, fun),
         lambda i: pair_eq())


def nonneg(names):
    def num_(g):
        for k in names:
            for v in g['v'][k]['v'] if isinstance(g['v'][k]['v'], list) else [g['v'][k]['v']]:
                if not v >= -1e-12:
                    return '%s is negative: %r' % (k, v)
    return num_


def response_lemmas():
    """the antenna quadratic form is positive semidefinite: u = cos^2 theta, v = sin^2 2phi in [0, 1]"""
    u = fresh('u', lambda t: le(ZERO, t), lambda t: le(t, ONE))
    v = fresh('v', lambda t: le(ZERO, t), lambda t: le(t, ONE))
    A = F(3, 2048) * (487 + 158 * u + 7 * u ** 2 - 162 * v * (1 + u) ** 2)
    Cc = F(3, 512) * (120 * (1 - u) + u + 162 * v * u)
    B2 = F(243, 512) ** 2 * u * v * (1 - v) * (1 + u) ** 2
    out = [('D_plus^2 >= 0', le(ZERO, A.t)), ('D_cross^2 >= 0', le(ZERO, Cc.t)),
           ('D_plus^2 D_cross^2 >= (D_plus D_cross)^2', le(ZERO, (A * Cc - B2).t))]
    return out


def square_lemma():
    """a c^2 + 2 b s c + d s^2 >= 0 when a, d >= 0 and a d >= b^2"""
    a, b, dd, s_, c_ = [fresh(x) for x in ('qa', 'qb', 'qd', 'qs', 'qc')]
    q = a * c_ ** 2 + 2 * b * s_ * c_ + dd * s_ ** 2
    hyp = band(le(ZERO, a.t), le(ZERO, dd.t), le((b ** 2).t, (a * dd).t))
    return [('quadratic form', implies(hyp, le(ZERO, q.t)))]


def link(names):
    """the code's responses are that quadratic form, for the contract's D terms written in u and v"""
    def f(got):
        from pyvc.inputs import fname
        th, p_, ps = [fresh_in(x) for x in ('th', 'ph', 'ps')]
        u, v = cos(th) ** 2, sin(2 * p_) ** 2
        A = F(3, 2048) * (487 + 158 * u + 7 * u ** 2 - 162 * v * (1 + u) ** 2)
        Cc = F(3, 512) * (120 * (1 - u) + u + 162 * v * u)
        B = F(243, 512) * cos(th) * sin(2 * p_) * cos(2 * p_) * (1 + u)
        B2 = F(243, 512) ** 2 * u * v * (1 - v) * (1 + u) ** 2
        c2, s2 = cos(2 * ps), sin(2 * ps)
        return [('D terms', eq((B ** 2).t, B2.t)),
                ('plus is the form', eq(phys(got['plus']).t, (F(1, 4) * (A * c2 ** 2 - 2 * B * s2 * c2 + Cc * s2 ** 2)).t)),
                ('cross is the form', eq(phys(got['cross']).t, (F(1, 4) * (Cc * c2 ** 2 + 2 * B * s2 * c2 + A * s2 ** 2)).t)),
                ] + response_lemmas() + square_lemma()
    return Pred(f, nonneg(names))


def fresh_in(x):
    return Sym(var('in_' + x), 'f')


case('C12', 'non_negative', dict(th=In(None, (), 'angle'), ph=In(None, (), 'angle'), ps=In(None, (), 'angle')),
     "result = {'plus': utils.F_plus_squared(th, ph, ps), 'cross': utils.F_cross_squared(th, ph, ps)}",
     lambda i: link(('plus', 'cross')), samples=40)

for nm, ax in (('scalar', ()), ('array', ('X',))):
    ins = dict(pos=Sky(ax), pol=ang(*ax), inc=ang(*ax))
    case('C12', 'amplitude_modulation.' + nm, ins,
         'result = strain.amplitude_modulation(position=pos, polarisation=pol, inclination=inc)',
         lambda i: emap(d.amp_mod, i.pos.lon, i.pos.lat, i.pol, i.inc), atol=1e-12)
    case('C12', 'amplitude_modulation.flip.' + nm, ins,
         "result = {'lhs': 1 + strain.amplitude_modulation(pos, pol, inc),"
         " 'rhs': 1 + strain.amplitude_modulation(pos, pol, np.pi * u.rad - inc)}", lambda i: pair_eq())


def mod_nonneg(got):
    """5/4 (p F+ + q Fx) >= 0 from p, q, F+, Fx >= 0, and that is what the code computes (contract above)"""
    p, q, a, b = [fresh(x, lambda t: le(ZERO, t)) for x in ('p', 'q', 'fa', 'fb')]
    return [('modulation non-negative', le(ZERO, (F(5, 4) * (p ** 2 * a + q ** 2 * b)).t))]


case('C12', 'amplitude_modulation.non_negative', dict(pos=Sky(('X',)), pol=ang('X'), inc=ang('X')),
     "result = {'mod': strain.amplitude_modulation(pos, pol, inc)}", lambda i: Pred(mod_nonneg, nonneg(('mod',))),
     samples=40)


def g_nonneg(got):
    """g is a combination of squares with non-negative weights, F is at least 1 (facts used by the callers)"""
    n, e, a, b, c = [fresh(x, *f) for x, f in (('n', [lambda t: le(ONE, t)]),
                                               ('e', [lambda t: le(ZERO, t), lambda t: lt(t, ONE)]),
                                               ('ja', []), ('jb', []), ('jc', []))]
    q = n ** 4 / 32 * (a ** 2 + (1 - e ** 2) * b ** 2 + F(4, 3) / n ** 2 * c ** 2)
    num_ = 1 + F(73, 24) * e ** 2 + F(37, 96) * e ** 4
    w = fresh('w', lambda t: lt(ZERO, t), lambda t: le(t, ONE))
    return [('g >= 0', le(ZERO, q.t)), ('numerator of F >= 1', le(ONE, num_.t)),
            ('1/w >= 1 for 0 < w <= 1', le(ONE, (1 / w).t)), ('1 - e^2 in (0, 1]', band(lt(ZERO, (1 - e ** 2).t),
                                                                                    le((1 - e ** 2).t, ONE)))]


case('C10', 'lemma.g_F_bounds', {}, 'result = 0', lambda i: Pred(g_nonneg), noconc=True)
