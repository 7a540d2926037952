"""C27: what is handed to the plotting back end."""
from pyvc.runner import Case
from pyvc.inputs import In, Lit, U, Dom, Sky, Call
from pyvc.spec import *
from pyvc.engine import E
from . import defs as d
from . import srcdefs as q
from .c20_c26 import BASE, STORED, HARM, T_OBS
from .c21 import FULL, SKYI
from .c26 import WGT
from pyvc.sym import Axis

CASES = {}
PSD_ = ('psd.power_spectral_density',)


def case(prop, *a, **k):
    k.setdefault('stubs', PSD_)
    CASES.setdefault(prop, []).append(Case(prop + '/' + a[0], *a[1:], **k))


FR = Dom(lo=0, lo_open=True, rng=(1e-5, 1.0), log=True)
FRQ = dict(F=In('frequency', ('K',), FR, units=['Hz', 'mHz', '1/yr']))
TT = dict(T=In('time', (), T_OBS, units=['yr', 's', 'Myr']))
ARM = dict(L=In('length', (), Dom(lo=0, lo_open=True, rng=(1e8, 1e10), log=True), units=['m', 'km', 'Gm']))


def cb_my_psd(twin):
    def f(f, t_obs, L, approximate_R, confusion_noise):
        return emap(lambda v: unfun('cb_my_psd', v, S(at(t_obs)), S(at(L))), f, unit='s')
    return f


CP = dict(cp=Call('my_psd', cb_my_psd))
# (name, inputs, keyword arguments, noise density at one frequency)
HOW = [
    ('defaults', {}, '', lambda i: lambda f: d.noise(f)),
    ('lisa', dict(TT, **ARM), 'instrument="LISA", t_obs=T, L=L, approximate_R=True, confusion_noise="robson19"',
     lambda i: lambda f: d.noise(f, at(i.T), 'LISA', at(i.L), 'robson19', True)),
    ('lisa_long', TT, 't_obs=T, confusion_noise="huang20"', lambda i: lambda f: d.noise(f, at(i.T), 'LISA', None, 'huang20')),
    ('tianqin', {}, 'instrument="TianQin"', lambda i: lambda f: d.noise(f, inst='TianQin')),
    ('tianqin_t', dict(TT, **ARM), 'instrument="TianQin", L=L, t_obs=T, confusion_noise=None',
     lambda i: lambda f: d.noise(f, at(i.T), 'TianQin', at(i.L), None)),
    ('decigo', TT, 'instrument="DECIGO", t_obs=T', lambda i: lambda f: d.noise(f, at(i.T), 'DECIGO')),
    ('custom', dict(TT, **ARM, **CP), 'instrument="custom", custom_psd=cp, t_obs=T, L=L',
     lambda i: lambda f: unfun('cb_my_psd', f, at(i.T), at(i.L))),
]


def height(nz, hc, snr=None):
    return lambda f, *r: (r[0] if r else S(1)) * (nz(f) * (f if hc else S(1))) ** F(1, 2)


def strain_units(v, hc):
    return v if hc else v * quantity(S(1), 'Hz') ** F(-1, 2)


def drawn(i, F_, nz, hc, name):
    return [dict(ax=name, x=F_, y=strain_units(emap(height(nz, hc), F_), hc))]


GIVEN = [('new', '', 'ax1', ('fig1', 'ax1')), ('given', ', fig=g[0], ax=g[1]', 'ax0', ('fig0', 'ax0')),
         ('figure_only', ', fig=g[0]', 'ax1', ('fig1', 'ax1')), ('axes_only', ', ax=g[1]', 'ax1', ('fig1', 'ax1'))]
LINE = 'dict(ax=z["ax"], x=u.Quantity(z["x"]), y=u.Quantity(z["y"]))'
KV = [{'K': 'sym'}, {'K': 'one'}]
for nm, ins, kw, nz in HOW:
    for y, hc in ((None, False), ('ASD', False), ('h_c', True)):
        for gn, gk, name, pair in GIVEN:
            if gn != 'new' and nm != 'defaults' or y == 'ASD' and nm not in ('defaults', 'tianqin'):
                continue
            for fill in ('', ', fill=False') if gn == 'new' else ('',):
                case('C27', 'curve.%s.%s.%s%s' % (nm, y or 'default', gn, '.nofill' if fill else ''), dict(FRQ, **ins), """
c = canvas()
g = c.given()
r = visualisation.plot_sensitivity_curve(frequency_range=F%s, show=False%s)
result = [[%s for z in c.curves()], [dict(ax=z['ax'], x=u.Quantity(z['x']), y=u.Quantity(z['hi'])) for z in c.fills()], c.names(r)]
""" % (''.join(', ' + x for x in ('y_quantity="%s"' % y if y else '', kw) if x), gk + fill, LINE),
                     lambda i, nz=nz, hc=hc, name=name, pair=pair, fill=fill: [
                         drawn(i, i.F, nz(i), hc, name), [] if fill else drawn(i, i.F, nz(i), hc, name), list(pair)], variants=KV, samples=8, rtol=1e-6)
        if y != 'ASD':
            case('C27', 'curve.%s.%s.range' % (nm, y or 'default'), ins, """
c = canvas()
visualisation.plot_sensitivity_curve(show=False%s)
z = c.curves()[0]
result = [len(c.curves()), dict(lhs=z['y'], rhs=np.sqrt(psd.power_spectral_density(z['x']%s)%s))]
""" % (''.join(', ' + x for x in ('y_quantity="%s"' % y if y else '', kw) if x), ', ' + kw if kw else '', ' * z["x"]' if hc else ''),
                 lambda i: [1, pair_eq()], samples=4)

# ---- sources on the curve
SN = Dom(lo=0, rng=(1e-3, 50), log=True, special=[0, 7, 7])
PTS = dict(f=In('frequency', ('N',), FR, units=['Hz', 'mHz', '1/yr']), s=In(None, ('N',), SN))
CUT = dict(cut=In(None, (), Dom(lo=0, rng=(0, 20), log=False, special=[0, 7, 7]), py=True))
W_ = dict(W=In(None, ('N',), WGT))
# selected sources only, each at its own frequency, with its SNR times the value of the curve there
CHECK = """
n = dict(lhs=len(p), rhs=1 if %(m)s.any() else 0)
out = [True, EQ, EQ, %(e)s]
if len(p) == 1 and %(m)s.any():
    curve = np.sqrt(psd.power_spectral_density(%(f)s[%(m)s]%(kw)s)%(hc)s)
    out = [p[0]["ax"] == "%(ax)s", dict(lhs=u.Quantity(p[0]["x"]), rhs=%(f)s[%(m)s]), dict(lhs=u.Quantity(p[0]["y"]), rhs=%(s)s[%(m)s] * curve), %(w)s]
""".replace('EQ', 'dict(lhs=0.0, rhs=0.0)')


def PAIRS(w):
    return [pair_eq(), True, pair_eq(), pair_eq(), pair_eq() if w else True]


NV = [{'N': 'sym'}, {'N': 'one'}]
for nm, ins, kw, nz in HOW:
    for hc in (False, True):
        for gn, gk, name, pair in GIVEN:
            for kind in ('scatter', 'kde'):
                for w in (False, True):
                    for cut in (False, True):
                        if nm != 'defaults' and (gn != 'new' or kind == 'kde' or not w or not cut) or gn in ('figure_only', 'axes_only') and (kind == 'kde' or not w):
                            continue
                        I = dict(PTS, **ins, **(W_ if w else {}), **(CUT if cut else {}), **(FRQ if gn != 'given' else {}))
                        sv = [x for x in ('y_quantity="h_c"' if hc else '', 'frequency_range=F' if gn != 'given' else '') if x]
                        k_ = [x for x in (kw, 'weights=W' if w else '', 'snr_cutoff=cut' if cut else '', 'disttype="kde"' if kind == 'kde' else 'scatter_s=12' if cut else '',
                                          'sc_vis_settings=dict(%s)' % ', '.join(sv) if sv else '') if x]
                        case('C27', 'points.%s.%s.%s.%s.%s.%s' % (nm, 'h_c' if hc else 'ASD', gn, kind, 'W' if w else 'equal', 'cut' if cut else 'all'), I, """
c = canvas()
g = c.given()
r = visualisation.plot_sources_on_sc(f, s%s, show=False%s)
p = c.points()
m = s > %s
""" % (''.join(', ' + x for x in k_), gk, 'cut' if cut else '0') + CHECK % dict(
                            f='f', s='s', m='m', hc=' * f[m]' if hc else '', kw=', ' + kw if kw else '', ax=name, e='dict(lhs=0.0, rhs=0.0)' if w else 'True',
                            w='True' if not w else 'dict(lhs=p[0]["weights"], rhs=W[m])' if kind == 'kde' else 'dict(lhs=p[0]["size"], rhs=%d * W[m])' % (12 if cut else 20)) +
                             'result = [[%s for z in c.curves()], c.names(r), n] + out' % LINE,
                             lambda i, nz=nz, hc=hc, name=name, pair=pair, gn=gn, w=w: [drawn(i, i.F, nz(i), hc, name) if gn != 'given' else [], list(pair)] + PAIRS(w),
                             variants=[dict(v, **({'K': 'sym'} if gn != 'given' else {})) for v in NV], samples=8, rtol=1e-6)

# ---- collections
SRC_OPTS = [
    ('defaults', {}, {}, {}),
    ('lisa', dict(TT, **ARM), dict(t_obs='T', L='L', approximate_R='True', confusion_noise='"robson19"'), {}),
    ('tianqin', TT, dict(instrument='"TianQin"', t_obs='T', confusion_noise='None'), {}),
    ('custom', dict(TT, **ARM, **CP), dict(instrument='"custom"', custom_psd='cp', t_obs='T', L='L'), {}),
]
FULL_ = dict(FULL, s0=In(None, ('N',), SN))
for nm, ins, stored, _ in SRC_OPTS:
    for hc in (False, True):
        for gn, gk, name, pair in GIVEN[:2]:
            for kind in ('scatter', 'kde'):
                for full in (('s0', 'h0'), ('s0', 'h0', 'mg', 'W'), ('s0', 'h0', 'W'), ('s0', 'h0', 'mg')):
                    w, cut = 'W' in full, 'mg' in full
                    if nm != 'defaults' and (gn != 'new' or kind == 'kde' or len(full) != 4):
                        continue
                    I = dict(BASE, **ins, **{k_: FULL_[k_] for k_ in full}, **(CUT if cut else {}), **(FRQ if gn != 'given' else {}))
                    sv = [x for x in ('y_quantity="h_c"' if hc else '', 'frequency_range=F' if gn != 'given' else '') if x]
                    k_ = [x for x in ('snr_cutoff=cut' if cut else '', 'disttype="kde"' if kind == 'kde' else 'scatter_s=12' if cut else '',
                                      'sc_vis_settings=dict(%s)' % ', '.join(sv) if sv else '') if x]
                    kw = ', '.join('%s=%s' % kv for kv in stored.items())
                    case('C27', 'collection.%s.%s.%s.%s.%s' % (nm, 'h_c' if hc else 'ASD', gn, kind, '_'.join(full[2:]) or 'plain'), I, """
s = source.Source(m_1=m1, m_2=m2, ecc=e, dist=D, f_orb=f, interpolate_g=False, interpolate_sc=False%s, sc_params=dict(%s))
s.snr = s0
s.max_snr_harmonic = h0
%s
c = canvas()
g = c.given()
r = s.plot_sources_on_sc(show=False%s%s)
p = c.points()
m = np.logical_and(s.get_source_mask(stationary=True), np.logical_and(s.snr > %s, np.logical_not(s.merged)))
fd = f * h0
""" % (', weights=W' if w else '', kw, 's.merged = mg' if 'mg' in full else '', gk, ''.join(', ' + x for x in k_), 'cut' if cut else '0') + CHECK % dict(
                        f='fd', s='s0', m='m', hc=' * fd[m]' if hc else '', kw=', ' + kw if kw else '', ax=name, e='dict(lhs=0.0, rhs=0.0)' if w else 'True',
                        w='True' if not w else 'dict(lhs=p[0]["weights"], rhs=W[m])' if kind == 'kde' else 'dict(lhs=p[0]["size"], rhs=%d * W[m])' % (12 if cut else 20)) + """
if not m.any():
    result = [True, True, n] + out
else:
    result = [c.names(r) == %r, len(c.curves()) == %d, n] + out
""" % (list(pair), gn == 'new'), lambda i, w=w: [True, True] + PAIRS(w), stubs=PSD_ + q.CTOR + ('source.Source.set_sc', 'evol.determine_stationarity', 'utils.chirp_mass'),
                        setup=q.facts, variants=[dict(v, **({'K': 'sym'} if gn != 'given' else {})) for v in NV], samples=6, rtol=1e-6)
