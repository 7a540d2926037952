"""C21: subsets and copies of collections."""
import itertools
from pyvc.runner import Case
from pyvc.inputs import In, Lit, U, Dom, Sky, Call
from pyvc.spec import *
from pyvc.engine import E
from . import defs as d
from . import srcdefs as q
from pyvc.sym import Axis
from .c20_c26 import BASE, mass, FREQ, E_MIX, STORED, HARM, T_OBS, G_, ETOL
from .c26 import WGT, length

CASES = {}
STUBS = q.CTOR + ('source.Source.set_sc',)


def case(prop, *a, **k):
    k.setdefault('setup', q.facts)
    k.setdefault('stubs', STUBS)
    CASES.setdefault(prop, []).append(Case(prop + '/' + a[0], *a[1:], **k))


FULL = dict(W=In(None, ('N',), WGT), s0=In(None, ('N',), STORED), h0=In(None, ('N',), HARM, integer=True),
            mg=In(None, ('N',), boolean=True), tm=In('time', ('N',), 'time'))
SKYI = dict(pos=Sky(('N',), frame='barycentrictrueecliptic'), pol=In('angle', ('N',), 'angle'), inc=In('angle', ('N',), 'angle'))
# per-source quantities and the inputs they come from
ATTR = dict(m_1='m1', m_2='m2', ecc='e', dist='D', f_orb='f', weights='W', t_merge='tm', snr='s0', max_snr_harmonic='h0', merged='mg',
            inclination='inc', polarisation='pol', lon='pos', lat='pos', distance='D')
UNITS_ = dict(m_1='kg', m_2='kg', dist='m', f_orb='Hz', t_merge='s', inclination='rad', polarisation='rad', lon='rad', lat='rad', distance='m')


def build(full, sky, cls='Source', extra=''):
    c = 's = source.%s(m_1=m1, m_2=m2, ecc=%s, dist=D, f_orb=f, interpolate_g=False%s%s%s)\n' % (
        cls, 'np.zeros_like(e)' if sky else 'e', ', weights=W' if full else '',
        ', position=pos, polarisation=pol, inclination=inc' if sky else '', extra)
    if full:
        c += 's.snr = s0\ns.max_snr_harmonic = h0\ns.merged = mg\ns.t_merge = tm\n'
    return c


def show(v, sky):
    per = ['m_1', 'm_2', 'ecc', 'dist', 'f_orb', 'weights', 't_merge', 'snr', 'max_snr_harmonic', 'merged']
    parts = ['%s=%s.%s' % (a, v, a) for a in per]
    if sky:
        parts += ['inclination=%s.inclination' % v, 'polarisation=%s.polarisation' % v, 'lon=%s.position.lon' % v, 'lat=%s.position.lat' % v,
                  'distance=%s.position.distance' % v]
    else:
        parts += ['position=%s.position' % v, 'inclination=%s.inclination' % v, 'polarisation=%s.polarisation' % v]
    return 'dict(%s)' % ', '.join(parts)


def values(i, full, sky, pick, X):
    """every per-source quantity at the selected indices"""
    out = {}
    for a, n in ATTR.items():
        if n in ('inc', 'pol', 'pos') or a == 'distance':
            if not sky:
                if a in ('inclination', 'polarisation'):
                    out[a] = out['position'] = None
                continue
        if n in FULL and not full:
            out[a] = None if n != 'mg' else pick(array([axis(i.f)], lambda y: Sym(FALSE, 'b'), kind='b'))
            continue
        x = getattr(i, n)
        x = phys(x.lon if a == 'lon' else x.lat if a == 'lat' else x)
        if a == 'ecc' and sky:
            x = emap(lambda v: S(0), x)
        v = pick(x)
        out[a] = v if a not in UNITS_ else quantity(v, UNITS_[a])
    return out


def by_map(X, f):
    """element y of the selection is element f(y) of the collection"""
    return lambda x: array([X], lambda y: at(x, f(y)), kind=x.kind)


IDX = Dom(lo=0, rng=(0, 3), integer=True)


def indices(world):
    """precondition: every index of the list is one of the collection"""
    q.facts(world)
    E.facts.fn('in_k', lambda *idx: [le(num(0), tfn('in_k', *idx)), lt(tfn('in_k', *idx), world.lens_terms['N'])])


def in_range(c, sizes, rng):
    k, n = c['k'], len(c['f'].raw)
    for j in range(len(k.raw)):
        k.raw[j] = int(k.raw[j]) % n

KINDS = {
    # name: (extra inputs, code of the index, selection, requires)
    'integer': (dict(k=In(None, (), IDX, py=True, integer=True)), 'k',
                lambda i: (Axis((num(1),)), lambda y: (S(i.k).t,)), lambda i: [S(i.k) < length(axis(i.f))]),
    'negative': (dict(k=In(None, (), Dom(hi=-1, rng=(-3, -1), integer=True, log=False), py=True, integer=True)), 'k',
                 lambda i: (Axis((num(1),)), lambda y: ((S(i.k) + length(axis(i.f))).t,)), lambda i: [S(0) <= S(i.k) + length(axis(i.f))]),
    'first': ({}, '0', lambda i: (Axis((num(1),)), lambda y: (num(0),)), None),
    'last': ({}, '-1', lambda i: (Axis((num(1),)), lambda y: ((length(axis(i.f)) - S(1)).t,)), None),
    'list': (dict(k=In(None, (2,), IDX, integer=True, as_list=True)), 'k',
             lambda i: (axis(i.k), lambda y: (at(i.k, y).t,)), None),
    'array': (dict(k=In(None, ('M',), IDX, integer=True)), 'k',
              lambda i: (axis(i.k), lambda y: (at(i.k, y).t,)), None),
    'all': ({}, ':', lambda i: (axis(i.f), lambda y: y), None),
    'from_two': ({}, '2:', lambda i: (Axis((sub(length(axis(i.f)).t, num(2)),)), lambda y: (add(y[0], num(2)),)),
                 lambda i: [S(3) <= length(axis(i.f))]),
    'reversed': ({}, '::-1', lambda i: (axis(i.f), lambda y: (sub(sub(length(axis(i.f)).t, num(1)), y[0]),)), None),
    'mask': (dict(w=In(None, ('N',), boolean=True)), 'w', None, None),
}


MANY = ('integer', 'negative', 'list', 'array', 'from_two', 'reversed')      # the case of one source is covered by 'first' and 'last'


def selection(kind, i):
    if kind in ('mask', 'mask_list'):
        w = i.w
        return lambda x: x[w]
    X, f = KINDS[kind][2](i)
    return by_map(X, f)


def extra(kind):
    return dict(setup=indices, drive=in_range) if kind in ('list', 'array') else {}


def subset_cases():
    for kind, (ins, code, sel, req) in KINDS.items():
        for full, sky in ((True, False), (True, True), (False, False)):
            I = dict(BASE, **ins)
            if full:
                I.update(FULL)
            if sky:
                I.update(SKYI)
            # subset, and the original afterwards
            case('C21', 'subset.%s.%s%s' % (kind, 'full' if full else 'bare', '.sky' if sky else ''), I,
                 build(full, sky) + 't = s[%s]\nresult = [%s, %s, t is s]' % (code, show('t', sky), show('s', sky)),
                 lambda i, full=full, sky=sky, kind=kind: [values(i, full, sky, selection(kind, i), None),
                                                           values(i, full, sky, lambda x: x, None), False],
                 requires=req, variants=None if kind not in MANY else [{'N': 'sym', 'M': 'sym'}, {'N': 'sym', 'M': 'one'}] if kind == 'array'
                 else [{'N': 'sym'}], **extra(kind))


subset_cases()


# ---- copies, other ways to write the same index
for full, sky in ((True, False), (True, True), (False, False)):
    I = dict(BASE)
    if full:
        I.update(FULL)
    if sky:
        I.update(SKYI)
    case('C21', 'copy.%s%s' % ('full' if full else 'bare', '.sky' if sky else ''), I,
         build(full, sky) + 't = s.copy()\nresult = [%s, %s, t is s]' % (show('t', sky), show('s', sky)),
         lambda i, full=full, sky=sky: [values(i, full, sky, lambda x: x, None), values(i, full, sky, lambda x: x, None), False])
case('C21', 'subset.numpy_integer', dict(BASE, **FULL), build(True, False) + 't = s[np.int64(1)]\nresult = %s' % show('t', False),
     lambda i: values(i, True, False, by_map(Axis((num(1),)), lambda y: (num(1),)), None), variants=[{'N': 'sym'}])
case('C21', 'subset.index_list', dict(BASE, **FULL), build(True, False) + 't = s[[1, 0, 1]]\nresult = %s' % show('t', False),
     lambda i: values(i, True, False, by_map(Axis((num(3),)), lambda y: (at(NP.array([1, 0, 1]), y).t,)), None),
     variants=[{'N': 'sym'}])
T3 = dict(m1=mass(3), m2=mass(3), e=In(None, (3,), E_MIX), D=In('dist', (3,), 'dist'), f=In('frequency', (3,), FREQ))
for bits in itertools.product((False, True), repeat=3):
    case('C21', 'subset.mask_list.%s' % ''.join('TF'[not b] for b in bits), dict(T3),
         build(False, False) + 't = s[%r]\nresult = %s' % (list(bits), show('t', False)),
         lambda i, bits=bits: values(i, False, False, lambda x: x[NP.array(list(bits))], None))


# ---- rejected indices
def reject(name, inputs, code, when=None, **k):
    def spec(i):
        if when is None or bool(when(i)):
            raise ValueError
        return Any()
    case('C21', 'rejected.' + name, inputs, build(False, False) + 't = s[%s]\nresult = None' % code, spec, **k)


reject('mask_length', dict(BASE, w=In(None, ('M',), boolean=True)), 'w', lambda i: lnot(ceq(length(axis(i.w)), length(axis(i.f)))))
reject('mask_list', dict(BASE), '[True, False, True, True]', lambda i: lnot(ceq(S(4), length(axis(i.f)))))
reject('float', dict(BASE, x=In(None, (), 'nonneg', py=True)), 'x')
reject('float_array', dict(BASE, x=In(None, ('M',), 'nonneg')), 'x')
reject('float_list', dict(BASE, x=In(None, (2,), 'nonneg', as_list=True)), 'x')

# ---- settings
SETTINGS = """dict(stat_tol=%(v)s.stat_tol, n_proc=%(v)s.n_proc, gw_lum_tol=%(v)s.gw_lum_tol, ecc_tol=%(v)s.ecc_tol, interpolate_sc=%(v)s.interpolate_sc,
 interpolate_g=%(v)s.interpolate_g, instrument=%(v)s.sc_params["instrument"], t_obs=%(v)s.sc_params["t_obs"], L=%(v)s.sc_params["L"],
 approximate_R=%(v)s.sc_params["approximate_R"], confusion_noise=%(v)s.sc_params["confusion_noise"], custom_psd=%(v)s.sc_params["custom_psd"])"""
SETI = dict(gt=In(None, (), Dom(lo=0, hi=1, lo_open=True, hi_open=True, rng=(0.005, 0.1)), py=True),
            st=In(None, (), Dom(lo=0, lo_open=True, rng=(1e-4, 0.5)), py=True),
            np_=In(None, (), Dom(lo=1, rng=(1, 4), integer=True), py=True), t=In('time', (), T_OBS, units=['yr', 's', 'd']), **G_)
EX = ', gw_lum_tol=gt, stat_tol=st, n_proc=np_, interpolate_sc=%s, sc_params=dict(t_obs=t, approximate_R=True, instrument="TianQin")'


def settings(i, isc, g, ecc_tol=True):
    return dict(stat_tol=i.st, n_proc=i.np_, gw_lum_tol=i.gt, ecc_tol=Any(), interpolate_sc=isc,
                interpolate_g=g, instrument='TianQin', t_obs=i.t, L='auto', approximate_R=True, confusion_noise='auto', custom_psd=None)


for code in (':', '0', '[0]', '::-1'):
    for cls in ('Source', 'Stationary', 'Evolving'):
        for isc in (True, False):
            for g in (True, False):
                if (cls != 'Source' or code != ':') and (g or not isc):
                    continue
                use = 't.harmonics_required(t.ecc)', 's.harmonics_required(t.ecc)'
                parts = ['dict(lhs=t.harmonics_required(t.ecc), rhs=s.harmonics_required(t.ecc))',
                         'dict(lhs=t.max_strain_harmonic(t.ecc), rhs=s.max_strain_harmonic(t.ecc))', 'dict(lhs=t.ecc_tol, rhs=s.ecc_tol)']
                if isc:
                    parts.append('dict(lhs=t.sc(t.f_orb), rhs=s.sc(t.f_orb))')
                if g:
                    parts.append('dict(lhs=t.g(2, t.ecc), rhs=s.g(2, t.ecc))')
                case('C21', 'settings.%s.%s%s%s' % (code.replace(':', 'c'), cls, '' if isc else '.direct', '.g' if g else ''), dict(BASE, **SETI),
                     build(False, False, cls, EX % isc) + ('s.g = g\n' if g else '') +
                     't = s[%s]\nresult = [%s, %s, isinstance(t, source.%s), t.sc is None, %s]' % (
                         code, SETTINGS % dict(v='t'), SETTINGS % dict(v='s'), cls, ', '.join(parts)),
                     lambda i, isc=isc, g=g, k=len(parts): [settings(i, isc, g), settings(i, isc, g), True, not isc] + [pair_eq()] * k)

# ---- later changes to either collection stay there
WRITES = {
    # in place changes of one collection (v), whatever is stored
    'arrays': '%(v)s.m_1[0] = 99 * u.Msun\n%(v)s.m_2[-1] = 77 * u.Msun\n%(v)s.ecc[0] = 0.5\n%(v)s.dist[0] = 1 * u.Mpc\n%(v)s.f_orb[0] = 7 * u.Hz\n'
              '%(v)s.weights[0] = 42.0\n%(v)s.snr[0] = 55.0\n%(v)s.max_snr_harmonic[0] = 7\n%(v)s.merged[0] = True\n%(v)s.merged[-1] = False\n'
              '%(v)s.t_merge[0] = 1 * u.s\n',
    'replaced': '%(v)s.m_1 = 2 * %(v)s.m_1\n%(v)s.ecc = 0.5 * %(v)s.ecc\n%(v)s.f_orb = 3 * %(v)s.f_orb\n%(v)s.snr = None\n%(v)s.t_merge = None\n'
                '%(v)s.merged = np.repeat(True, %(v)s.n_sources)\n%(v)s.weights = None\n',
    'augmented': '%(v)s.m_1 *= 2\n%(v)s.ecc *= 0.5\n%(v)s.dist *= 4\n%(v)s.snr += 1\n%(v)s.weights -= 1\n%(v)s.f_orb *= 2\n%(v)s.t_merge *= 0\n',
    'sky': '%(v)s.inclination[0] = 1 * u.rad\n%(v)s.polarisation[0] = 1 * u.rad\n%(v)s.position = None\n',
}


def later():
    for kind in ('all', 'integer', 'first', 'array', 'reversed', 'mask', 'copy'):
        ins, code, sel, req = KINDS.get(kind, ({}, None, None, None))
        make = 't = s.copy()\n' if kind == 'copy' else 't = s[%s]\n' % code
        pick = (lambda i: (lambda x: x)) if kind == 'copy' else (lambda i, kind=kind: selection(kind, i))
        var = None if kind not in MANY else [{'N': 'sym', 'M': 'sym'}] if kind == 'array' else [{'N': 'sym'}]
        for wn, code_w in WRITES.items():
            if kind == 'mask' and wn in ('arrays', 'sky'):
                dirs = ('s',)        # (an empty selection has no first element)
            else:
                dirs = ('s', 't')
            sky = wn == 'sky'
            for v in dirs:
                other = 't' if v == 's' else 's'
                case('C21', 'later.%s.%s.%s' % (kind, wn, 'original' if v == 's' else 'selection'), dict(BASE, **FULL, **ins, **(SKYI if sky else {})),
                     build(True, sky) + make + code_w % dict(v=v) + 'result = %s' % show(other, sky),
                     lambda i, other=other, pick=pick, sky=sky: values(i, True, sky, pick(i) if other == 't' else (lambda x: x), None),
                     requires=req, variants=var, samples=4, frame=v == 't', **extra(kind))
        # settings
        for v in ('s', 't'):
            other = 't' if v == 's' else 's'
            case('C21', 'later.%s.settings.%s' % (kind, 'original' if v == 's' else 'selection'), dict(BASE, **SETI, **ins),
                 build(False, False, 'Source', EX % True) + make +
                 'before = %(o)s.sc(%(o)s.f_orb)\nh = %(o)s.harmonics_required(%(o)s.ecc)\n'
                 '%(v)s.sc_params["instrument"] = "LISA"\n%(v)s.sc_params.update(t_obs=2 * u.yr, approximate_R=False)\n'
                 '%(v)s.gw_lum_tol = 0.2\n%(v)s.stat_tol = 0.9\n%(v)s.n_proc = 8\n%(v)s.g = None\n'
                 'result = [%(set)s, dict(lhs=before, rhs=%(o)s.sc(%(o)s.f_orb)), dict(lhs=h, rhs=%(o)s.harmonics_required(%(o)s.ecc)), '
                 '%(v)s.sc_params["instrument"], %(v)s.sc_params["approximate_R"]]' % dict(v=v, o=other, set=SETTINGS % dict(v=other)),
                 lambda i: [settings(i, True, False), pair_eq(), pair_eq(), 'LISA', False],
                 requires=req, variants=var, samples=3, **extra(kind))


later()
