"""C16, C17: signal-to-noise ratios."""
import math
from pyvc.runner import Case
from pyvc.inputs import In, Lit, U, Dom, Sky, Call, unit_scale
from pyvc.spec import *
from pyvc.engine import E
from .c10_c12 import cb_elementwise
from . import defs as d

CASES = {}
STUBS = ('strain.h_0_n', 'strain.h_c_n', 'psd.power_spectral_density', 'utils.chirp_mass', 'utils.peters_g')
EVOL = STUBS + ('evol.evol_circ', 'evol.evol_ecc', 'evol.get_t_merge_circ', 'evol.get_t_merge_ecc')
FREQ = Dom(lo=0, lo_open=True, hi=100, hi_open=True, rng=(1e-4, 3e-2), special=[1e-3])
T_OBS = Dom(lo=0, lo_open=True, rng=(0.2 * float(YR), 12 * float(YR)), special=[float(YR) * x for x in (0.5, 1, 4, 5)])
HARM = Dom(lo=2, rng=(2, 6), integer=True, special=[2])
E_OPEN = Dom(lo=0, hi=1, lo_open=True, hi_open=True, rng=(0.02, 0.95), log=False, special=[0.1, 0.5])
N_STEP = Dom(lo=2, rng=(2, 7), integer=True, special=[2])


def case(prop, *a, **k):
    CASES.setdefault(prop, []).append(Case(prop + '/' + a[0], *a[1:], **k))


def cb_sc(twin):
    """interpolated sensitivity curve: an arbitrary function of the frequency"""
    def f(freq):
        if not isinstance(freq, SQuantity) or tuple(freq.unit.dims) != tuple(dims('Hz').dims):
            raise TypeError
        return emap(lambda v: unfun('cb_' + twin, v), freq, unit='s')
    return f


def cb_psd(twin):
    def f(f, t_obs, L, approximate_R, confusion_noise):
        return emap(lambda a, b, c: unfun('cb_' + twin, a, b, c), f, t_obs, L, unit='s')
    return f


def fr(*ax):
    return In('frequency', ax, FREQ)


def T1():
    return In('time', (), T_OBS, units=['yr', 's', 'd'])


def arm():
    return In('length', (), Dom(lo=0, lo_open=True, rng=(1e8, 1e10)), units=['m', 'km'])


def one(v):
    return at(v)


MC = dict(mc=In('mass', ('N',), 'mass'), f=fr('N'), D=In('dist', ('N',), 'dist'), t=T1())
AMC = 'm_c=mc, f_orb=f, dist=D, t_obs=t'
SC = dict(sc=Call('sc_interp', cb_sc))
G_ = dict(g=Call('g_interp', cb_elementwise))

# how the noise is asked for: inputs, keyword arguments, and the value at one frequency
NOISES = [
    ('default', {}, '', lambda i: lambda f: d.noise(f, one(i.t))),
    ('interpolated', SC, ', interpolated_sc=sc', lambda i: lambda f: unfun('cb_sc_interp', f)),
    ('arm_length', dict(L=arm()), ', L=L', lambda i: lambda f: d.noise(f, one(i.t), L=one(i.L))),
    ('options', dict(L=arm()), ', L=L, confusion_noise="robson19", approximate_R=True',
     lambda i: lambda f: d.noise(f, one(i.t), L=one(i.L), cn='robson19', ap=True)),
    ('no_confusion', {}, ', confusion_noise=None', lambda i: lambda f: d.noise(f, one(i.t), cn=None)),
    ('tianqin', {}, ', instrument="TianQin"', lambda i: lambda f: d.noise(f, one(i.t), 'TianQin')),
    ('decigo', {}, ', instrument="DECIGO", confusion_noise="huang20"',
     lambda i: lambda f: d.noise(f, one(i.t), 'DECIGO', cn='huang20')),
    ('custom', dict(L=arm(), cp=Call('my_psd', cb_psd)), ', instrument="custom", custom_psd=cp, L=L',
     lambda i: lambda f: unfun('cb_my_psd', f, one(i.t), one(i.L))),
    ('interpolated_wins', dict(SC, L=arm()), ', interpolated_sc=sc, L=L, instrument="TianQin"',
     lambda i: lambda f: unfun('cb_sc_interp', f)),
]


def g_of(i, n, e):
    if hasattr(i, 'g'):
        v = unfun('cb_g_interp', n, e)
        return where(v < 0, 0, v)
    return d.op_g(n, e)


def modulation(i, x):
    if not hasattr(i, 'pos'):
        return 1
    return d.op_am(at(i.pos.lon, x), at(i.pos.lat, x), at(i.pol, x), at(i.inc, x))


# ---------------------------------------------------------------- C16
def circ_stationary(i, S_):
    def elem(x):
        h = d.op_h0(at(i.mc, x), at(i.f, x), at(i.D, x), g_of(i, S(2), S(0)), S(2)) ** 2 * modulation(i, x)
        return (h * one(i.t) / S_(2 * at(i.f, x))) ** F(1, 2)
    return array([axis(i.f)], elem)


def snr2_terms(i, S_):
    """contribution of harmonic n = 1..H of each source"""
    H = at(i.H)
    Z = Axis((H.t,))

    def elem(x, z):
        n = Sym(z[0] if z else ZERO, 'i') + 1
        h = d.op_h0(at(i.mc, x), at(i.f, x), at(i.D, x), g_of(i, n, at(i.e, x)), n) ** 2
        return h * one(i.t) / S_(n * at(i.f, x))
    return array([axis(i.f), Z], elem)


def total(t2):
    return NP.sqrt(NP.sum(t2, axis=1))


def dominant(t2):
    return NP.argmax(t2, axis=1) + 1


MOD = dict(pos=Sky(('N',)), pol=In('angle', ('N',), 'angle'), inc=In('angle', ('N',), 'angle'))
MARG = ', position=pos, polarisation=pol, inclination=inc'
for nm, ins, kw, S_ in NOISES:
    case('C16', 'circular.' + nm, dict(MC, **ins), 'result = snr.snr_circ_stationary(%s%s)' % (AMC, kw),
         lambda i, S_=S_: circ_stationary(i, S_(i)), stubs=STUBS, rtol=1e-7)
    if nm in ('default', 'interpolated'):
        case('C16', 'circular.%s.interpolated_g' % nm, dict(MC, **ins, **G_),
             'result = snr.snr_circ_stationary(%s%s, interpolated_g=g)' % (AMC, kw),
             lambda i, S_=S_: circ_stationary(i, S_(i)), stubs=STUBS, rtol=1e-7)
        case('C16', 'circular.%s.modulated' % nm, dict(MC, **ins, **MOD),
             'result = snr.snr_circ_stationary(%s%s%s)' % (AMC, kw, MARG),
             lambda i, S_=S_: circ_stationary(i, S_(i)), stubs=STUBS, rtol=1e-7)
    EI = dict(MC, e=In(None, ('N',), 'ecc'), H=In(None, (), HARM, py=True), **ins)
    EA = AMC + ', ecc=e, harmonics_required=H' + kw
    case('C16', 'eccentric.' + nm, EI, 'result = snr.snr_ecc_stationary(%s)' % EA,
         lambda i, S_=S_: total(snr2_terms(i, S_(i))), stubs=STUBS, rtol=1e-7)
    if nm in ('default', 'interpolated', 'tianqin'):
        case('C16', 'eccentric.%s.dominant' % nm, EI, 'result = snr.snr_ecc_stationary(%s, ret_max_snr_harmonic=True)' % EA,
             lambda i, S_=S_: (lambda t2: (total(t2), dominant(t2)))(snr2_terms(i, S_(i))), stubs=STUBS, rtol=1e-7)
        case('C16', 'eccentric.%s.by_harmonic' % nm, EI, 'result = snr.snr_ecc_stationary(%s, ret_snr2_by_harmonic=True)' % EA,
             lambda i, S_=S_: snr2_terms(i, S_(i)), stubs=STUBS, rtol=1e-7)
        case('C16', 'eccentric.%s.by_harmonic_wins' % nm, EI,
             'result = snr.snr_ecc_stationary(%s, ret_snr2_by_harmonic=True, ret_max_snr_harmonic=True)' % EA,
             lambda i, S_=S_: snr2_terms(i, S_(i)), stubs=STUBS, rtol=1e-7)
        case('C16', 'eccentric.%s.interpolated_g' % nm, dict(EI, **G_),
             'result = snr.snr_ecc_stationary(%s, interpolated_g=g, ret_max_snr_harmonic=True)' % EA,
             lambda i, S_=S_: (lambda t2: (total(t2), dominant(t2)))(snr2_terms(i, S_(i))), stubs=STUBS, rtol=1e-7)
# the sum of the reported per-harmonic terms is the reported SNR squared
EI = dict(MC, e=In(None, ('N',), 'ecc'), H=In(None, (), HARM, py=True))
EA = AMC + ', ecc=e, harmonics_required=H'
case('C16', 'eccentric.sums_its_terms', EI,
     "result = {'lhs': snr.snr_ecc_stationary(%s)**2, 'rhs': np.sum(snr.snr_ecc_stationary(%s, ret_snr2_by_harmonic=True), axis=1)}"
     % (EA, EA), lambda i: pair_eq(), stubs=STUBS)


# ---------------------------------------------------------------- C17
BIN = dict(m1=In('mass', ('N',), 'mass'), m2=In('mass', ('N',), 'mass'), f=fr('N'), D=In('dist', ('N',), 'dist'), t=T1(),
           n=In(None, (), N_STEP, py=True))
ABIN = 'm_1=m1, m_2=m2, f_orb_i=f, dist=D, t_obs=t, n_step=n'
MERGED = 100
T_BEFORE = YR / 10


def TM(lo):
    return In('time', ('N',), Dom(lo=lo, lo_open=True, rng=(float(lo) * 1.5 + 1e5, 1e18), log=True), units=['yr', 's', 'Gyr'])


def held(f_at, X, Y):
    """the track, with steps flagged as merged (100 Hz) held at its highest other frequency: they contribute nothing"""
    n = Sym(Y.length(), 'i')
    top = lambda x: d.largest(n, lambda j: f_at(x, (j.t,)), lambda j: lnot(ceq(f_at(x, (j.t,)), MERGED)))
    return lambda x, y: where(ceq(f_at(x, y), MERGED), top(x), f_at(x, y))


def duration(i, x, tm, before):
    return minimum(tm(x) - before, one(i.t))


def circ_track(i):
    X, n = axis(i.f), at(i.n)
    tm = (lambda x: at(i.tm, x)) if hasattr(i, 'tm') else (lambda x: d.op_tc(at(i.f, x), at(i.m1, x), at(i.m2, x)))
    Y = Axis((n.t,))
    f = lambda x, y: d.op_fcirc(at(i.f, x), at(i.m1, x), at(i.m2, x),
                                duration(i, x, tm, 1) * Sym(y[0], 'i') / (n - 1))
    return X, Y, held(f, X, Y)


def circ_evolving(i, S_):
    X, Y, f = circ_track(i)

    def integrand(x, y):
        h = d.op_hc(d.op_mc(at(i.m1, x), at(i.m2, x)), f(x, y), S(0), at(i.D, x), g_of(i, S(2), S(0)), S(2))
        fg = 2 * f(x, y)
        return h ** 2 / (fg ** 2 * S_(fg))
    fg = array([X, Y], lambda x, y: 2 * f(x, y))
    return NP.sqrt(NP.trapezoid(y=array([X, Y], integrand), x=fg, axis=1))


def ecc_track(i):
    X, n = axis(i.f), at(i.n)
    tm = (lambda x: at(i.tm, x)) if hasattr(i, 'tm') else (
        lambda x: d.op_tm(at(i.e, x), d.op_ka(at(i.f, x), at(i.m1, x), at(i.m2, x)), d.op_beta(at(i.m1, x), at(i.m2, x))))
    Y = Axis((n.t,))
    args = lambda x, y: (at(i.e, x), at(i.f, x), at(i.m1, x), at(i.m2, x), duration(i, x, tm, S(T_BEFORE)), n, S(T_BEFORE),
                         tm(x), Sym(y[0], 'i'))
    return X, Y, (lambda x, y: d.op_ee(*args(x, y))), held_ecc(lambda x, y: d.op_fe(*args(x, y)), lambda x, y: d.op_ee(*args(x, y)), X, Y)


def held_ecc(f_at, e_at, X, Y):
    n = Sym(Y.length(), 'i')
    top = lambda x: d.largest(n, lambda j: f_at(x, (j.t,)),
                              lambda j: lnot(land(ceq(e_at(x, (j.t,)), 0), ceq(f_at(x, (j.t,)), MERGED))))
    return lambda x, y: where(ceq(f_at(x, y), MERGED), top(x), f_at(x, y))


def ecc_terms(i, S_):
    X, Y, e, f = ecc_track(i)
    H = at(i.H)
    Z = Axis((H.t,))

    def integrand(x, y, z):
        n = Sym(z[0] if z else ZERO, 'i') + 1
        h = d.op_hc(d.op_mc(at(i.m1, x), at(i.m2, x)), f(x, y), e(x, y), at(i.D, x), g_of(i, n, e(x, y)), n)
        fn_ = n * f(x, y)
        return h ** 2 / (fn_ ** 2 * S_(fn_))
    fn_ = array([X, Y, Z], lambda x, y, z: (Sym(z[0] if z else ZERO, 'i') + 1) * f(x, y))
    return NP.trapezoid(y=array([X, Y, Z], integrand), x=fn_, axis=1)


def later(nm, lo):
    """precondition: every binary is still at least this far from its merger"""
    def setup(world):
        unmerged(world)
        E.facts.fn('op_' + nm, lambda *a: [lt(S(lo).t, tfn('op_' + nm, *a))])
    return setup


def unmerged(world):
    """precondition: no binary starts at the frequency that flags merged ones (consequence of the domain, f < 100 Hz)"""
    E.facts.fn('op_f_circ', lambda *a: [lt(tfn('op_f_circ', *a), num(100))] if a[-1] is ZERO else [])


def wide(frac=False, lo=None):
    """sampling only: binaries that merge after 10 days to 100 Myr"""
    def drive(c, sizes, rng):
        GN, CN = 6.6743e-11, 299792458.0
        for j in range(len(c['f'].raw)):
            m1, m2 = c['m1'].phys(j)[0], c['m2'].phys(j)[0]
            mc = (m1 * m2) ** 0.6 / (m1 + m2) ** 0.2
            tc = 10 ** rng.uniform(6.5, 15)
            if rng.random() < 0.5:
                tc = c['t'].phys(0)[0] * rng.uniform(0.3, 3)
            fe = 1.0
            if 'e' in c:
                e = c['e'].raw[j] = min(c['e'].raw[j], 0.9)
                tc = max(tc, 3e7)
                fe = (1 - e * e) ** 3.5 / 1.4
            f = (5 / (256 * (2 * math.pi) ** (8 / 3) * tc / fe)) ** (3 / 8) * (GN * mc / CN ** 3) ** (-5 / 8)
            c['f'].raw[j] = f / unit_scale(c['f'].unit)
            if 'tm' in c:
                c['tm'].raw[j] = tc * rng.uniform(0.5, 1.0) / unit_scale(c['tm'].unit)
                if c['tm'].phys(j)[0] <= 3.2e6:
                    c['tm'].raw[j] = 5e6 / unit_scale(c['tm'].unit)
    return drive


for nm, ins, kw, S_ in NOISES:
    K = dict(stubs=EVOL, drive=wide())
    case('C17', 'circular.' + nm, dict(BIN, **ins), 'result = snr.snr_circ_evolving(%s%s)' % (ABIN, kw),
         lambda i, S_=S_: circ_evolving(i, S_(i)), setup=later('t_circ', 1), **K)
    case('C17', 'circular.%s.merger_given' % nm, dict(BIN, tm=TM(F(1)), **ins),
         'result = snr.snr_circ_evolving(%s%s, t_merge=tm)' % (ABIN, kw),
         lambda i, S_=S_: circ_evolving(i, S_(i)), setup=unmerged, **K)
    if nm in ('default', 'interpolated'):
        case('C17', 'circular.%s.interpolated_g' % nm, dict(BIN, tm=TM(F(1)), **ins, **G_),
             'result = snr.snr_circ_evolving(%s%s, t_merge=tm, interpolated_g=g)' % (ABIN, kw),
             lambda i, S_=S_: circ_evolving(i, S_(i)), setup=unmerged, **K)
    EI = dict(BIN, e=In(None, ('N',), E_OPEN), H=In(None, (), HARM, py=True), **ins)
    EA = ABIN + ', ecc=e, harmonics_required=H' + kw
    K['rtol'] = 2e-5
    K['samples'] = 12
    case('C17', 'eccentric.' + nm, EI, 'result = snr.snr_ecc_evolving(%s)' % EA,
         lambda i, S_=S_: total(ecc_terms(i, S_(i))), setup=later('t_merge', T_BEFORE), **K)
    EI = dict(EI, tm=TM(T_BEFORE))
    EA += ', t_merge=tm'
    case('C17', 'eccentric.%s.merger_given' % nm, EI, 'result = snr.snr_ecc_evolving(%s)' % EA,
         lambda i, S_=S_: total(ecc_terms(i, S_(i))), **K)
    if nm in ('default', 'interpolated', 'tianqin'):
        case('C17', 'eccentric.%s.dominant' % nm, EI, 'result = snr.snr_ecc_evolving(%s, ret_max_snr_harmonic=True)' % EA,
             lambda i, S_=S_: (lambda t2: (total(t2), dominant(t2)))(ecc_terms(i, S_(i))), **K)
        case('C17', 'eccentric.%s.by_harmonic' % nm, EI, 'result = snr.snr_ecc_evolving(%s, ret_snr2_by_harmonic=True)' % EA,
             lambda i, S_=S_: ecc_terms(i, S_(i)), **K)
        case('C17', 'eccentric.%s.interpolated_g' % nm, dict(EI, **G_),
             'result = snr.snr_ecc_evolving(%s, interpolated_g=g, ret_max_snr_harmonic=True)' % EA,
             lambda i, S_=S_: (lambda t2: (total(t2), dominant(t2)))(ecc_terms(i, S_(i))), **K)
    if nm == 'default':
        case('C17', 'eccentric.two_processes', EI, 'result = snr.snr_ecc_evolving(%s, n_proc=2)' % EA,
             lambda i, S_=S_: total(ecc_terms(i, S_(i))), **dict(K, samples=2))
