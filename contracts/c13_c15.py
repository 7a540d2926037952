"""C13-C15: noise curves, Galactic confusion noise, choice of instrument."""
from pyvc.runner import Case
from pyvc.inputs import In, Lit, U, Dom, Call
from pyvc.spec import *
from . import defs as d

CASES = {}
FREQ = Dom(lo=0, lo_open=True, rng=(1e-8, 10), special=[1e-7, 2.0, 1e-4, 1.0, 3e-8, 5.0])
T_MIS = Dom(lo=0, lo_open=True, rng=(0.2 * float(YR), 12 * float(YR)), special=[float(YR) * x for x in (0.5, 1, 2, 4, 5)])
ARM = Dom(lo=0, lo_open=True, rng=(1e8, 1e10), special=[2.5e9, 1e5 * 3 ** 0.5 * 1e3])


def case(prop, *a, **k):
    CASES.setdefault(prop, []).append(Case(prop + '/' + a[0], *a[1:], **k))


def fr(*ax, dom=FREQ):
    return In('frequency', ax, dom)


def tobs():
    return In('time', (), T_MIS, units=['yr', 's', 'd'])


def arm():
    return In('length', (), ARM, units=['m', 'km', 'AU'])


def psd_of(i, elem):
    f = i.f
    return Out(quantity(array([axis(f, j) for j in range(ndim(f))], lambda *x: elem(at(f, *x))), 's'), '1/Hz')


def bad(i):
    raise ValueError


def one(v):
    return at(v)


MODELS = {'robson19': d.cn_robson, 'huang20': d.cn_huang, 'karnesis21': d.cn_karnesis}
AUTO = {'robson19': 4, 'huang20': 5, 'karnesis21': 4, 'thiele21': 4}
SHAPES = [('value', ()), ('array', ('N',)), ('grid', ('N', 'M'))]

# ---------------------------------------------------------------- C14
for shape, ax in SHAPES:
    for m in ('robson19', 'huang20', 'karnesis21'):
        case('C14', '%s.%s' % (m, shape), dict(f=fr(*ax), t=tobs()),
             'result = psd.get_confusion_noise_%s(f=f, t_obs=t)' % m,
             lambda i, m=m: psd_of(i, lambda f: MODELS[m](f, one(i.t))))
        case('C14', '%s.%s.by_name' % (m, shape), dict(f=fr(*ax), t=tobs()),
             'result = psd.get_confusion_noise(f, %r, t_obs=t)' % m,
             lambda i, m=m: psd_of(i, lambda f: MODELS[m](f, one(i.t))))
        case('C14', '%s.%s.default_length' % (m, shape), dict(f=fr(*ax)),
             'result = psd.get_confusion_noise(f, %r)' % m,
             lambda i, m=m: psd_of(i, lambda f: MODELS[m](f, AUTO[m] * S(YR))))
    case('C14', 'thiele21.%s' % shape, dict(f=fr(*ax)), 'result = psd.get_confusion_noise_thiele21(f=f)',
         lambda i: psd_of(i, d.cn_thiele))
    case('C14', 'thiele21.%s.default_length' % shape, dict(f=fr(*ax)), "result = psd.get_confusion_noise(f, 'thiele21')",
         lambda i: psd_of(i, d.cn_thiele))

    def thiele(i):
        if not bool(ceq(one(i.t), 4 * S(YR))):
            raise ValueError
        return psd_of(i, d.cn_thiele)
    case('C14', 'thiele21.%s.by_name' % shape, dict(f=fr(*ax), t=tobs()),
         "result = psd.get_confusion_noise(f, 'thiele21', t_obs=t)", thiele, samples=20)
    case('C14', 'none.%s' % shape, dict(f=fr(*ax), t=tobs()), 'result = psd.get_confusion_noise(f, None, t_obs=t)',
         lambda i: psd_of(i, lambda f: S(0)))
    case('C14', 'unknown_model.' + shape, dict(f=fr(*ax), t=tobs()),
         "result = psd.get_confusion_noise(f, 'robson2019', t_obs=t)", bad, samples=3)


def nonneg(got):
    return [('never negative', elementwise_goal(lambda v: le(ZERO, v), got))]


def nonneg_num(got):
    from pyvc.runner import as_num
    r = as_num(got)
    if r is None:
        return 'not a number'
    for j, x in enumerate(r[1]):
        if not x >= 0:
            return 'entry %d is %r' % (j, x)


F_ALL = Dom(lo=0, lo_open=True, rng=(1e-9, 1e3), special=[5.0, 50.0, 100.0])
for m in ('robson19', 'huang20', 'karnesis21', 'thiele21', None):
    case('C14', '%s.nonnegative' % m, dict(f=fr('N', dom=F_ALL)),
         'result = psd.get_confusion_noise(f, %r)' % m, lambda i: Pred(nonneg, nonneg_num), samples=20)
    if m not in ('thiele21', None):
        case('C14', '%s.nonnegative.any_length' % m, dict(f=fr('N', dom=F_ALL), t=tobs()),
             'result = psd.get_confusion_noise(f, %r, t_obs=t)' % m, lambda i: Pred(nonneg, nonneg_num), samples=20)


# ---------------------------------------------------------------- C13
def cb_noise(twin):
    """confusion noise given by a function of (f, t_obs): f in Hz or a quantity"""
    def f(freq, t_obs):
        q = [freq if isinstance(freq, SQuantity) else quantity(freq, 'Hz'), t_obs]
        if tuple(q[0].unit.dims) != tuple(dims('Hz').dims) or not isinstance(t_obs, SQuantity) \
                or tuple(t_obs.unit.dims) != tuple(dims('s').dims):
            raise TypeError
        return emap(lambda a, b: unfun('cb_' + twin, a, b), *q, unit='s')
    return f


OPS = {'robson19': d.op_cnr, 'huang20': d.op_cnh, 'karnesis21': d.op_cnk, 'thiele21': lambda f, T: d.op_cnt(f),
       'custom': lambda f, T: unfun('cb_my_noise', f, T), None: lambda f, T: S(0)}
CN = tuple('psd.get_confusion_noise_' + n for n in ('robson19', 'huang20', 'karnesis21', 'thiele21'))
F_REAL = Dom(rng=(1e-8, 10), log=True, special=[1e-7, 2.0, 1e-4, 3e-8, 5.0, 0.0, -1e-3, 1e-3, 100.0, 1e5, 1e-12])
F_POS = Dom(lo=0, lo_open=True, rng=(1e-6, 30), special=[1e-4, 1.0, 3e-8, 500.0])
BAND = Dom(lo=0, lo_open=True, rng=(1e-9, 1e-2), special=[1e-8, 1e-3, 1e-10])
BAND_HI = Dom(lo=0, lo_open=True, rng=(1e-2, 1e3), special=[100.0, 1.0])
FS = F_REAL
WHICH = dict(lisa=FS, decigo=FS, tianqin=F_POS)
DEF = dict(lisa=(4, 'karnesis21', F(5, 2) * 10 ** 9), tianqin=(5, 'huang20', None), decigo=(4, 'karnesis21', None))
TQ_ARM = lambda: S(3) ** F(1, 2) * 10 ** 8


def curve(which, f, T, cn, L=None, approx=False, band=None):
    """the noise curve of one instrument at one frequency"""
    noise = OPS[cn](f, T)
    if which == 'lisa':
        return d.lisa(f, S(DEF['lisa'][2]) if L is None else L, noise, approx)
    if which == 'tianqin':
        return d.tianqin(f, TQ_ARM() if L is None else L, noise)
    return d.decigo(f, noise, *(band or ()))


def model(m):
    return {'custom': 'noise'}.get(m, repr(m))


def t_ins(m):
    return {} if m == 'thiele21' else dict(t=tobs())


def extra(m):
    return dict(noise=Call('my_noise', cb_noise)) if m == 'custom' else {}


def T_of(i, m, which='lisa'):
    return S(4 * YR) if m == 'thiele21' else one(i.t)


def targ(m):
    return '4 * u.yr' if m == 'thiele21' else 't'


for which in ('lisa', 'tianqin', 'decigo'):
    dom = WHICH[which]
    for shape, ax in SHAPES:
        case('C13', '%s.%s.defaults' % (which, shape), dict(f=fr(*ax, dom=dom)), 'result = psd.%s_psd(f)' % which,
             lambda i, w=which: psd_of(i, lambda f: curve(w, f, DEF[w][0] * S(YR), DEF[w][1])), stubs=CN, frame=shape != 'grid')
        for m in ('robson19', 'huang20', 'thiele21', 'karnesis21', None, 'custom'):
            if shape == 'grid' and m not in ('karnesis21', 'custom'):
                continue
            if which == 'decigo':
                ins = dict(f=fr(*ax, dom=dom), **t_ins(m), **extra(m))
                case('C13', 'decigo.%s.%s' % (shape, m), ins,
                     'result = psd.decigo_psd(f, t_obs=%s, confusion_noise=%s)' % (targ(m), model(m)),
                     lambda i, m=m: psd_of(i, lambda f: curve('decigo', f, T_of(i, m), m)), stubs=CN)
                case('C13', 'decigo.%s.%s.band' % (shape, m), dict(ins, lo=fr(dom=BAND), hi=fr(dom=BAND_HI)),
                     'result = psd.decigo_psd(f, t_obs=%s, confusion_noise=%s, f_low=lo, f_high=hi)' % (targ(m), model(m)),
                     lambda i, m=m: psd_of(i, lambda f: curve('decigo', f, T_of(i, m), m, band=(one(i.lo), one(i.hi)))), stubs=CN)
                continue
            ins = dict(f=fr(*ax, dom=dom), L=arm(), **t_ins(m), **extra(m))
            for ap in ((False, True) if which == 'lisa' else (None,)):
                case('C13', '%s.%s.%s%s' % (which, shape, m, {False: '', True: '.approximate', None: ''}[ap]), ins,
                     'result = psd.%s_psd(f, L=L, t_obs=%s, confusion_noise=%s%s)' % (
                         which, targ(m), model(m), '' if ap is None else ', approximate_R=%s' % ap),
                     lambda i, m=m, w=which, ap=ap: psd_of(i, lambda f: curve(w, f, T_of(i, m), m, one(i.L), ap)), stubs=CN)
for shape, ax in SHAPES[:2]:
    case('C13', 'lisa.%s.response' % shape, dict(f=fr(*ax, dom=F_POS), fs=fr(dom=Dom(lo=0, lo_open=True, rng=(1e-5, 1)))),
         'result = psd.load_response_function(f.to(u.Hz).value, fs.to(u.Hz).value)',
         lambda i: emap(lambda f: d.R_response(f / one(i.fs)), i.f))
    case('C13', 'lisa.%s.approximate_response' % shape,
         dict(f=fr(*ax, dom=F_POS), fs=fr(dom=Dom(lo=0, lo_open=True, rng=(1e-5, 1)))),
         'result = psd.approximate_response_function(f, fs)', lambda i: emap(lambda f: d.R_approx(f / one(i.fs)), i.f))


def positive(got):
    return [('positive', elementwise_goal(lambda v: lt(ZERO, v), got))]


def positive_num(got):
    from pyvc.runner import as_num
    r = as_num(got)
    if r is None:
        return 'not a number'
    for j, x in enumerate(r[1]):
        if not x > 0:
            return 'entry %d is %r' % (j, x)


for which in ('lisa', 'tianqin', 'decigo'):
    for m in ('robson19', 'huang20', 'thiele21', 'karnesis21', None):
        ins = dict(f=fr('N', dom=WHICH[which]), **t_ins(m))
        case('C13', '%s.positive.%s' % (which, m), ins if which == 'decigo' else dict(ins, L=arm()),
             'result = psd.%s_psd(f, t_obs=%s, confusion_noise=%r%s)' % (which, targ(m), m, '' if which == 'decigo' else ', L=L'),
             lambda i: Pred(positive, positive_num), stubs=CN, samples=20)


def response_table():
    """the facts assumed about the spline through R.npy (defs.data_facts), decided on the file with exact arithmetic"""
    import numpy as np
    from fractions import Fraction as Q
    from math import comb
    from scipy.interpolate import splrep
    from pyvc.twins import R_table
    f, R = [[float(v) for v in r] for r in R_table()]
    goals = [('positive and increasing frequencies', all(x < y for x, y in zip([0.0] + f, f))),
             ('positive response', all(r > 0 for r in R)),
             ('response within a factor 3 of Robson et al. Eq. 9',
              all(1 / 3 < r / (0.3 / (1 + 0.6 * x * x)) < 3 for x, r in zip(f, R)))]
    t, c, deg = splrep(np.array(f), np.array(R), s=0)
    # on [f_0, f_n] a B-spline with positive coefficients is positive
    goals.append(('positive spline coefficients', all(float(v) > 0 for v in c[:len(f)])))
    # below the table the first cubic is used: its Bernstein coefficients on [0, f_0]
    tt, cc = [Q(float(v)) for v in t[:8]], [Q(float(v)) for v in c[:4]]

    def blossom(args):
        v = list(cc)
        for r in range(1, 4):
            for j in range(3, r - 1, -1):
                al = (args[r - 1] - tt[j]) / (tt[j + 4 - r] - tt[j])
                v[j] = (1 - al) * v[j - 1] + al * v[j]
        return v[3]
    top = Q(f[0])
    goals.append(('positive below the table', all(blossom([Q(0)] * (3 - j) + [top] * j) > 0 for j in range(4))))
    return [(a, TRUE if b else FALSE) for a, b in goals]


def response_num(got):
    for a, b in response_table():
        if b is not TRUE:
            return 'R.npy: ' + a


case('C13', 'response_table', dict(x=In(None, (), 'ecc')), 'result = x', lambda i: Pred(lambda got: response_table(), response_num),
     samples=1, frame=False)

# ---------------------------------------------------------------- C15
INSTR = dict(LISA='lisa', TianQin='tianqin', DECIGO='decigo')
for name, which in INSTR.items():
    dom = WHICH[which]
    for shape, ax in SHAPES:
        case('C15', '%s.%s.auto' % (name, shape), dict(f=fr(*ax, dom=dom)),
             'result = psd.power_spectral_density(f, instrument=%r)' % name,
             lambda i, w=which: psd_of(i, lambda f: curve(w, f, DEF[w][0] * S(YR), DEF[w][1])), stubs=CN, frame=shape == 'array')
        if shape == 'grid':
            continue
        case('C15', '%s.%s.explicit_auto' % (name, shape), dict(f=fr(*ax, dom=dom)),
             'result = psd.power_spectral_density(f, %r, None, "auto", "auto", False, "auto")' % name,
             lambda i, w=which: psd_of(i, lambda f: curve(w, f, DEF[w][0] * S(YR), DEF[w][1])), stubs=CN, frame=False)
        for m in ('robson19', 'huang20', 'thiele21', 'karnesis21', None, 'custom', 'auto'):
            if shape == 'value' and m not in ('karnesis21', 'auto', 'custom'):
                continue
            for has_L in (True, False):
                if has_L and which == 'decigo':
                    continue
                for ap in ((False, True) if which == 'lisa' else (False,)):
                    ins = dict(f=fr(*ax, dom=dom), **t_ins(m), **extra(m), **(dict(L=arm()) if has_L else {}))
                    case('C15', '%s.%s.%s%s%s' % (name, shape, m, '.arm' if has_L else '', '.approximate' if ap else ''), ins,
                         'result = psd.power_spectral_density(f=f, instrument=%r, t_obs=%s, confusion_noise=%s, approximate_R=%r%s)' % (
                             name, targ(m), model(m), ap, ', L=L' if has_L else ''),
                         lambda i, m=m, w=which, ap=ap, h=has_L: psd_of(i, lambda f: curve(
                             w, f, T_of(i, m), DEF[w][1] if m == 'auto' else m, one(i.L) if h else None, ap)), stubs=CN,
                         frame=m == 'custom')
        for m in ('robson19', 'huang20', 'karnesis21', None, 'custom'):
            # the mission length of the instrument, whatever the noise model
            case('C15', '%s.%s.%s.auto_length' % (name, shape, m), dict(f=fr(*ax, dom=dom), **extra(m)),
                 'result = psd.power_spectral_density(f=f, instrument=%r, confusion_noise=%s)' % (name, model(m)),
                 lambda i, m=m, w=which: psd_of(i, lambda f: curve(w, f, DEF[w][0] * S(YR), m)), stubs=CN, frame=False)

RECORDER = """
seen = []
def curve(f, t_obs, L, approximate_R, confusion_noise):
    seen.append((f, t_obs, L, approximate_R, confusion_noise))
    return out
got = psd.power_spectral_density(f, instrument="custom", custom_psd=curve%s)
result = (got, len(seen), seen[0])
"""
OUTV = In('dist', ('M',), 'dist')       # any object at all may be returned


def custom(i, t, L, ap, cn):
    return (quantity(emap(lambda v: v, i.out), 'm'), 1, (i.f, t, L, ap, cn))


for shape, ax in SHAPES:
    ins = dict(f=fr(*ax), out=OUTV)
    case('C15', 'custom.%s.defaults' % shape, ins, RECORDER % '', lambda i: custom(i, 'auto', 'auto', False, 'auto'))
    case('C15', 'custom.%s.options' % shape, dict(ins, t=tobs(), L=arm()),
         RECORDER % ', t_obs=t, L=L, approximate_R=True, confusion_noise="robson19"',
         lambda i: custom(i, i.t, i.L, True, 'robson19'))
    case('C15', 'custom.%s.no_noise' % shape, dict(ins, t=tobs(), L=arm()),
         RECORDER % ', t_obs=t, L=L, approximate_R=None, confusion_noise=None', lambda i: custom(i, i.t, i.L, None, None))
    for nm in ('lisa', 'LISAA', 'taiji', ''):
        case('C15', 'unknown_instrument.%s.%s' % (shape, nm or 'empty'), dict(f=fr(*ax), t=tobs()),
             'result = psd.power_spectral_density(f, instrument=%r, t_obs=t)' % nm, bad, samples=3, frame=False)
