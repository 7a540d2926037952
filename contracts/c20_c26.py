"""C20 - C27: collections of sources."""
import math
from pyvc.runner import Case
from pyvc.inputs import In, Lit, U, Dom, Sky, Call, unit_scale
from pyvc.spec import *
from pyvc.engine import E, Unsupported
from pyvc.stubs import FunContract
from . import defs as d
from . import srcdefs as q

CASES = {}


def case(prop, *a, **k):
    k.setdefault('setup', q.facts)
    CASES.setdefault(prop, []).append(Case(prop + '/' + a[0], *a[1:], **k))


FREQ = Dom(lo=0, lo_open=True, hi=100, hi_open=True, rng=(1e-4, 3e-3), special=[1e-3])
E_MIX = Dom(lo=0, hi=F(95, 100), rng=(0.0, 0.9), log=False, special=[0, 0, 0.001, 0.01, 0.1, 0.6, 0.9])
T_OBS = Dom(lo=0, lo_open=True, rng=(0.2 * float(YR), 10 * float(YR)), special=[4 * float(YR), 5 * float(YR)])
STORED = Dom(lo=0, rng=(0.0, 50.0), log=False, special=[0])
HARM = Dom(lo=1, rng=(1, 60), integer=True)
N_STEP = Dom(lo=2, rng=(2, 6), integer=True)
TOL = F('0.05')
ETOL = unfun('cb_ecc_tol', S(TOL))
q.TOL['tol'] = TOL


def mass(*ax):
    return In('mass', ax, 'mass')


BASE = dict(m1=mass('N'), m2=mass('N'), e=In(None, ('N',), E_MIX), D=In('dist', ('N',), 'dist'), f=In('frequency', ('N',), FREQ))
MERGED = dict(mg=In(None, ('N',), boolean=True))
WHICH = dict(w=In(None, ('N',), boolean=True))
KEPT = dict(s0=In(None, ('N',), STORED), h0=In(None, ('N',), HARM, integer=True))
TOBS = dict(t=In('time', (), T_OBS, units=['yr', 's', 'd']))
ARM = dict(L=In('length', (), Dom(lo=0, lo_open=True, rng=(1e8, 1e10)), units=['m', 'km']))


def cb_psd(twin):
    def f(f, t_obs, L, approximate_R, confusion_noise):
        raise Unsupported('custom noise function called')
    f.vname = twin
    return f


def cb_noise(twin):
    def f(f, t_obs):
        raise Unsupported('custom noise function called')
    f.vname = twin
    return f


PSD = dict(cp=Call('my_psd', cb_psd))
CN = dict(cn=Call('my_noise', cb_noise))


def cb_g(twin):
    def f(n, e):
        return emap(lambda a, b: unfun('cb_' + twin, a, b), n, e)
    return f


G_ = dict(g=Call('g_decay', cb_g))

# options: (name, inputs, stored in sc_params, given to the call); values are expressions over the inputs
OPTS = [
    ('defaults', {}, {}, {}),
    ('t_obs_given', TOBS, {}, dict(t_obs='t')),
    ('t_obs_stored', TOBS, dict(t_obs='t'), {}),
    ('t_obs_replaced', dict(TOBS, t2=In('time', (), T_OBS, units=['yr', 's'])), dict(t_obs='t2'), dict(t_obs='t')),
    ('tianqin', {}, {}, dict(instrument='"TianQin"')),
    ('tianqin_stored', TOBS, dict(instrument='"TianQin"', t_obs='t', approximate_R='True'), {}),
    ('all_given', dict(TOBS, **ARM), {}, dict(t_obs='t', L='L', approximate_R='True', confusion_noise='"robson19"', instrument='"LISA"')),
    ('decigo', {}, dict(confusion_noise='"huang20"', instrument='"DECIGO"'), dict(confusion_noise='"robson19"')),
    ('custom', dict(TOBS, **ARM, **PSD), dict(L='L'), dict(instrument='"custom"', custom_psd='cp', t_obs='t')),
    ('defaults_over_stored', dict(TOBS, **ARM), dict(t_obs='t', L='L', approximate_R='True', confusion_noise='"robson19"', instrument='"TianQin"'),
     dict(t_obs='"auto"', L='"auto"', approximate_R='False', confusion_noise='"auto"', instrument='"LISA"')),
    ('custom_noise', dict(TOBS, **CN), dict(instrument='"TianQin"'), dict(confusion_noise='cn', t_obs='t', instrument='"LISA"')),
]


def value(i, x):
    if x is None or x[0] in '"TNF':
        return eval(x) if x else None
    return getattr(i, x)


def options(i, stored, given):
    o = dict(q.DEFAULTS)
    for src in (stored, given):
        o.update({k_: value(i, v) for k_, v in src.items()})
    if isinstance(o['t_obs'], str):
        o['t_obs'] = quantity(S((4 if o['instrument'] == 'LISA' else 5) * YR), 's')
    return o


def args(dct):
    return ', '.join('%s=%s' % kv for kv in dct.items())


def src_call(stored, extra='', pre='', cls='Source', ecc='e'):
    return "s = source.%s(m_1=m1, m_2=m2, ecc=%s, dist=D, f_orb=f, interpolate_g=False, sc_params=dict(%s)%s)\n%s" % (
        cls, ecc, args(stored), extra, pre)


def effect(i, method, o, n_step=None):
    """(SNR, dominant harmonic) that each source on its own would get from the method for its own eccentricity"""
    nz, t = q.noise(q.FS, o), q.t_(o['t_obs'])
    gs = q.g_sig(getattr(i, 'g', None))
    mc = emap(d.op_mc, i.m1, i.m2)
    if method == 'stationary':
        am = q.modulation(i.pos, i.pol, i.inc) if hasattr(i, 'pos') else None
        c = q.circ_stat(mc, i.f, i.D, t, nz, gs, am)
        x, h = [q.ecc_stat(mc, i.f, i.D, i.e, t, nz, gs, w) for w in ('', '_dom')]
    else:
        n = S(100) if n_step is None else q.t_(n_step)
        c = q.circ_evol(i.m1, i.m2, i.f, i.D, t, n, nz, gs, getattr(i, 'tm', None))
        x, h = [q.ecc_evol(i.m1, i.m2, i.f, i.D, i.e, t, n, nz, gs, w) for w in ('', '_dom')]
    ecc = [S(0) if hasattr(i, 'pos') else None]

    def pick(a, b):
        return array([axis(i.f)], lambda y: where((ecc[0] if ecc[0] is not None else at(i.e, y)) <= ETOL, at(a, y), at(b, y)))
    return pick(c, x), pick(emap(lambda v: S(2), i.f, kind='i'), h)


def flag(i, name, y, default):
    return S(at(getattr(i, name), y)) if hasattr(i, name) else (TRUE_ if default else FALSE_)


def single(i, method, stored, given, n_step=None):
    """what calling a single method returns and stores"""
    return single_(i, method, options(i, stored, given), n_step)


def single_(i, method, o, n_step=None):
    v, h = effect(i, method, o, n_step)
    X = [axis(i.f)]

    def ret(y):
        return where(flag(i, 'mg', y, False), 0, at(v, y))

    def kept(new, old, free):
        def f(y):
            sel, mg = flag(i, 'w', y, True), flag(i, 'mg', y, False)
            stay = at(old, y) if old is not None else None
            if stay is None:
                return unless(lor(mg, lnot(sel)), at(new, y))
            return unless(land(sel, mg), where(sel, at(new, y), stay))
        return f
    full = array(X, ret)
    r = full[i.w] if hasattr(i, 'w') else full
    return [r, array(X, kept(v, getattr(i, 's0', None), True)), array(X, kept(h, getattr(i, 'h0', None), True), kind='i')]


TRUE_, FALSE_ = Sym(TRUE, 'b'), Sym(FALSE, 'b')


def drive(c, sizes, rng):
    """sampling only: sources far enough from merging for every method, some of them evolving within the observation"""
    GN, CN_, AU = 6.6743e-11, 299792458.0, 1.496e11
    n = len(c['f'].raw)
    for j in range(n):
        m1, m2 = [c[k_].raw[j] * unit_scale(c[k_].unit) for k_ in ('m1', 'm2')]
        e = c['e'].raw[j]
        T = 10 ** rng.uniform(7.3, 15)
        beta = 64 / 5 * GN ** 3 / CN_ ** 5 * m1 * m2 * (m1 + m2)
        a4 = 4 * beta * T / (1 - e * e) ** 3.5
        f = math.sqrt(GN * (m1 + m2) / a4 ** 0.75) / (2 * math.pi)
        c['f'].raw[j] = f / unit_scale(c['f'].unit)


def snr_cases():
    for method in ('stationary', 'evolving'):
        for on, ins, stored, given in OPTS:
            for interp in (True, False):
                for mode in ('plain', 'masked', 'kept', 'g', 'tm'):
                    first = on == 'defaults'
                    if mode in ('plain', 'kept') and not first or mode == 'g' and not (first and interp):
                        continue
                    if mode == 'masked' and first:
                        continue
                    if mode == 'tm' and (method == 'stationary' or on not in ('defaults', 't_obs_given') or not interp):
                        continue
                    I = dict(BASE, **MERGED, **ins)
                    kw = dict(given)
                    pre = 's.merged = mg\n'
                    rk = dict(given='dict(%s)' % args(given), stored='dict(%s)' % args(stored), interp=interp,
                              merged='mg', method='"get_snr_%s"' % method)
                    if mode != 'plain':
                        I.update(WHICH)
                        kw['which_sources'] = 'w'
                        rk['which'] = 'w'
                    if mode in ('kept', 'g', 'tm'):
                        I.update(KEPT)
                        pre += 's.snr = s0\ns.max_snr_harmonic = h0\n'
                        rk.update(snr0='s0', msh0='h0')
                    if mode == 'g':
                        I.update(G_)
                        pre += 's.g = g\n'
                        rk['g'] = 'g'
                    if mode == 'tm':
                        I.update(tm=In('time', ('N',), 'time'))
                        pre += 's.t_merge = tm\n'
                        rk['with_t_merge'] = True
                    extra = '' if interp else ', interpolate_sc=False'
                    ns = None
                    if method == 'evolving':
                        I.update(n=In(None, (), N_STEP, py=True))
                        kw['n_step'] = 'n'
                        rk['n_step'] = 'n'
                    call = src_call(stored, extra, pre) + 'r = s.get_snr_%s(%s)\nresult = [r, s.snr, s.max_snr_harmonic]' % (
                        method, args(kw))
                    case('C20', '%s.%s.%s%s' % (method, on, mode, '' if interp else '.direct'), I, call,
                         lambda i, stored=stored, given=given, method=method: single(i, method, stored, given, getattr(i, 'n', None)),
                         stubs=q.CTOR + q.SNRS + ('source.Source.set_sc',), drive=drive,
                         real='result = check_snr(m1, m2, e, D, f, %s)' % args(rk), samples=3, budget=150,
                         setup=q.facts if first and mode in ('plain', 'kept') else q.few)


snr_cases()


# ---------------------------------------------------------------- the two methods as callees of get_snr
class State:
    """a collection seen as the inputs of the contracts"""

    def __init__(self, s, which, n_step=None):
        self.m1, self.m2, self.f, self.D, self.e = s.m_1, s.m_2, s.f_orb, s.dist, s.ecc
        self.mg, self.w = s.merged, which
        if s.g is not None:
            self.g = s.g
        if s.position is not None:
            self.pos, self.pol, self.inc = s.position, s.polarisation, s.inclination
        if s.t_merge is not None:
            self.tm = s.t_merge
        if s.snr is not None:
            self.s0 = s.snr
        if s.max_snr_harmonic is not None:
            self.h0 = s.max_snr_harmonic


def method_stub(method):
    def f(a):
        s = a['self']
        o = {k_: s.sc_params[k_] if a[k_] is None else a[k_] for k_ in q.DEFAULTS}
        if isinstance(o['t_obs'], str):
            o['t_obs'] = quantity(S((4 if o['instrument'] == 'LISA' else 5) * YR), 's')
        if a['which_sources'] is None:
            a['which_sources'] = array([axis(s.m_1)], lambda y: TRUE_, kind='b')
        st = State(s, a['which_sources'])
        s.sc_params.update(o)
        r, s.snr, s.max_snr_harmonic = single_(st, method, o, a.get('n_step'))
        return r
    FunContract('source.Source.get_snr_' + method, f)


method_stub('stationary')
method_stub('evolving')


def whole(i, stored, given, n_step=None, only=None):
    """what get_snr returns and stores (Stationary and Evolving collections: only one method)"""
    o = options(i, stored, given)
    X = [axis(i.f)]
    (vs, hs), (ve, he) = effect(i, 'stationary', o), effect(i, 'evolving', o, n_step)
    stat = q.stationary_(emap(d.op_mc, i.m1, i.m2), i.f, zero(i) if hasattr(i, 'pos') else i.e, q.t_(o['t_obs']), S(F('0.01')))

    def choose(a, b):
        if only:
            return lambda y: at(a if only == 'stationary' else b, y)
        return lambda y: where(Sym(at(stat, y).t, 'b'), at(a, y), at(b, y))
    v, h = choose(vs, ve), choose(hs, he)

    def val(y):
        r = where(flag(i, 'mg', y, False), 0, v(y))
        return unless(lnot(flag(i, 'w', y, True)), r) if hasattr(i, 'w') else r

    def dom(y):
        mg = flag(i, 'mg', y, False)
        if not hasattr(i, 'w'):
            return unless(mg, h(y))
        sel = flag(i, 'w', y, True)
        if hasattr(i, 'h0'):
            return unless(land(sel, mg), where(sel, h(y), at(i.h0, y)))
        return unless(lor(mg, lnot(sel)), h(y))
    busy = array(X, lambda y: land(flag(i, 'w', y, True), lnot(flag(i, 'mg', y, False))), kind='b')
    if not hasattr(i, 'h0') and not only and not anyof_(lambda v: v, busy):
        return [array(X, val), array(X, val), Any()]       # nothing to compute: no dominant harmonics
    return [array(X, val), array(X, val), array(X, dom, kind='i')]


def zero(i):
    return emap(lambda v: S(0), i.f)


def get_snr_cases():
    M = ('source.Source.get_snr_stationary', 'source.Source.get_snr_evolving')
    for on, ins, stored, given in OPTS:
        for mode in ('plain', 'masked', 'kept', 'g', 'direct', 'verbose'):
            if mode != 'masked' and on not in ('defaults', 'all_given'):
                continue
            I = dict(BASE, **MERGED, **ins, n=In(None, (), N_STEP, py=True))
            kw = dict(given, n_step='n')
            pre = 's.merged = mg\n'
            rk = dict(given='dict(%s)' % args(given), stored='dict(%s)' % args(stored), interp=mode != 'direct', merged='mg',
                      n_step='n')
            if mode != 'plain':
                I.update(WHICH)
                kw['which_sources'] = rk['which'] = 'w'
            if mode in ('kept', 'g', 'direct'):
                I.update(KEPT)
                pre += 's.snr = s0\ns.max_snr_harmonic = h0\n'
                rk.update(snr0='s0', msh0='h0')
            if mode == 'g':
                I.update(G_, tm=In('time', ('N',), 'time'))
                pre += 's.g = g\ns.t_merge = tm\n'
                rk.update(g='g', with_t_merge=True)
            if mode == 'verbose':
                kw['verbose'] = 'True'
            case('C20', 'get_snr.%s.%s' % (on, mode), I,
                 src_call(stored, ', interpolate_sc=False' if mode == 'direct' else '', pre)
                 + 'r = s.get_snr(%s)\nresult = [r, s.snr, s.max_snr_harmonic]' % args(kw),
                 lambda i, stored=stored, given=given: whole(i, stored, given, i.n),
                 stubs=q.CTOR + q.SNRS + M + ('source.Source.set_sc',), drive=drive,
                 real='result = check_snr(m1, m2, e, D, f, %s)' % args(rk), samples=3)
    for cls, only in (('Stationary', 'stationary'), ('Evolving', 'evolving')):
        for on, ins, stored, given in OPTS:
            if on not in ('defaults', 't_obs_given', 'tianqin', 'tianqin_stored', 't_obs_replaced'):
                continue
            I = dict(BASE, **MERGED, **ins)
            if only == 'evolving':
                I.update(n=In(None, (), N_STEP, py=True))
            kw = dict(given, n_step='n') if only == 'evolving' else given
            rk = dict(given='dict(%s)' % args(given), stored='dict(%s)' % args(stored), merged='mg', cls=repr(cls))
            if only == 'evolving':
                rk['n_step'] = 'n'
            case('C20', '%s.%s' % (cls, on), I,
                 src_call(stored, '', 's.merged = mg\n', cls) + 'r = s.get_snr(%s)\nresult = [r, s.snr, s.max_snr_harmonic]' % args(kw),
                 lambda i, stored=stored, given=given, only=only: whole(i, stored, given, getattr(i, 'n', None), only),
                 stubs=q.CTOR + q.SNRS + M + ('source.Source.set_sc',), drive=drive,
                 real='result = check_snr(m1, m2, e, D, f, %s)' % args(rk), samples=3)


get_snr_cases()

SKY = dict(pos=Sky(('N',), frame='barycentrictrueecliptic'), pol=In('angle', ('N',), 'angle'), inc=In('angle', ('N',), 'angle'))
SKYARG = ', position=pos, polarisation=pol, inclination=inc'
METHODS = ('source.Source.get_snr_stationary', 'source.Source.get_snr_evolving')
for on, ins, stored, given in OPTS:
    if on not in ('defaults', 'tianqin_stored', 't_obs_given'):
        continue
    I = dict(BASE, **MERGED, **WHICH, **SKY, **ins)
    rk = dict(given='dict(%s)' % args(given), stored='dict(%s)' % args(stored), merged='mg', which='w',
              sky='dict(position=pos, polarisation=pol, inclination=inc)')
    for interp in (True, False):
        ex = SKYARG + ('' if interp else ', interpolate_sc=False')
        case('C20', 'stationary.%s.sky%s' % (on, '' if interp else '.direct'), I,
             src_call(stored, ex, 's.merged = mg\n', ecc='np.zeros_like(e)') +
             'r = s.get_snr_stationary(%s)\nresult = [r, s.snr, s.max_snr_harmonic]' % args(dict(given, which_sources='w')),
             lambda i, stored=stored, given=given: single(i, 'stationary', stored, given),
             stubs=q.CTOR + q.SNRS + ('source.Source.set_sc',), drive=drive, samples=3,
             real='result = check_snr(m1, m2, 0 * e, D, f, %s)' % args(dict(rk, interp=interp, method='"get_snr_stationary"')))
    case('C20', 'get_snr.%s.sky' % on, I,
         src_call(stored, SKYARG, 's.merged = mg\n', ecc='np.zeros_like(e)') +
         'r = s.get_snr(%s)\nresult = [r, s.snr, s.max_snr_harmonic]' % args(dict(given, which_sources='w')),
         lambda i, stored=stored, given=given: whole(i, stored, given),
         stubs=q.CTOR + q.SNRS + METHODS + ('source.Source.set_sc',), drive=drive, samples=3,
         real='result = check_snr(m1, m2, 0 * e, D, f, %s)' % args(dict(rk, n_step=100)))
# a second call is not affected by the options of the first
for on, ins, stored, given in OPTS:
    if on not in ('t_obs_given', 'all_given', 'custom'):
        continue
    g2 = dict(dict(t_obs='"auto"', instrument='"LISA"', custom_psd='None', L='"auto"', approximate_R='False',
                   confusion_noise='"auto"'), **stored)
    g2.update(given)
    I = dict(BASE, **MERGED, **WHICH, **KEPT, **ins, n=In(None, (), N_STEP, py=True))
    first = 'dict(instrument="TianQin", t_obs=1.5 * u.yr)'
    case('C20', 'get_snr.%s.again' % on, I,
         src_call(stored, '', 's.merged = mg\ns.get_snr(instrument="TianQin", t_obs=1.5 * u.yr)\n'
                  's.snr = s0\ns.max_snr_harmonic = h0\n') +
         'r = s.get_snr(%s)\nresult = [r, s.snr, s.max_snr_harmonic]' % args(dict(g2, n_step='n', which_sources='w')),
         lambda i, g2=g2: whole(i, {}, g2, i.n), stubs=q.CTOR + q.SNRS + METHODS + ('source.Source.set_sc',), drive=drive, samples=3,
         real='result = check_snr(m1, m2, e, D, f, %s)' % args(dict(
             given='dict(%s)' % args(given), stored='dict(%s)' % args(stored), merged='mg', which='w', snr0='s0', msh0='h0', n_step='n',
             again=True)))


# which sources are circular / stationary
def mask_cases():
    tols = {'plain': ({}, ''), 'stat_tol': (dict(st=In(None, (), Dom(lo=0, lo_open=True, rng=(1e-6, 0.5)), py=True)), ', stat_tol=st')}
    for on, ins, stored, given in OPTS:
        if on not in ('defaults', 't_obs_given', 't_obs_stored', 't_obs_replaced', 'tianqin_stored'):
            continue
        for tn, (tins, targ) in tols.items():
            if tn != 'plain' and on != 'defaults':
                continue
            for circ in (None, True, False):
                for stat in (None, True, False):
                    if on != 'defaults' and (stat is None or circ):
                        continue
                    I = dict(BASE, **ins, **tins)

                    def spec(i, circ=circ, stat=stat, stored=stored, given=given):
                        o = options(i, stored, given)
                        tol = i.st if hasattr(i, 'st') else S(F('0.01'))
                        sm = q.stationary_(emap(d.op_mc, i.m1, i.m2), i.f, i.e, q.t_(o['t_obs']), tol)

                        def f(y):
                            r = TRUE_
                            if circ is not None:
                                c = at(i.e, y) <= ETOL
                                r = land(r, c if circ else lnot(c))
                            if stat is not None:
                                c = Sym(at(sm, y).t, 'b')
                                r = land(r, c if stat else lnot(c))
                            return r
                        return array([axis(i.f)], f, kind='b')
                    case('C20', 'mask.%s%s.%s_%s' % (on, '' if tn == 'plain' else '.' + tn, circ, stat), I,
                         src_call(stored, targ) + 'result = s.get_source_mask(circular=%s, stationary=%s%s)' % (
                             circ, stat, args({} if not given else {'': ''}) and ', t_obs=t'), spec,
                         stubs=q.CTOR + q.SNRS + ('source.Source.set_sc',), drive=drive, samples=3,
                         real='''import numpy as np
from legwork import evol
s = make(m1, m2, e, D, f, sc_params=dict(%s)%s)
got = np.asarray(s.get_source_mask(circular=%s, stationary=%s%s))
T = dict(%s).get("t_obs", dict(%s).get("t_obs", %s))
result = None if got.shape == (len(f),) else "shape %%s" %% (got.shape,)
for k in range(len(f)):
    want = True
    if %s is not None:
        want = want and bool(e[k] <= s.ecc_tol) == %s
    if %s is not None:
        st = bool(np.ravel(evol.determine_stationarity(m_1=m1[k:k + 1], m_2=m2[k:k + 1], f_orb_i=f[k:k + 1], t_evol=T, ecc_i=e[k:k + 1], stat_tol=s.stat_tol))[0])
        want = want and st == %s
    if result is None and bool(got[k]) != want:
        result = "source %%d: mask is %%s, expected %%s" %% (k, got[k], want)
''' % (args(stored), targ, circ, stat, ', t_obs=t' if given else '', args(given), args(stored),
       '5 * u.yr' if 'TianQin' in str(stored) else '4 * u.yr', circ, circ, stat, stat))


mask_cases()
