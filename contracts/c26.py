"""C26: constructing collections."""
from pyvc.runner import Case
from pyvc.inputs import In, Lit, U, Dom, Sky
from pyvc.spec import *
from pyvc.engine import E
from . import defs as d
from . import srcdefs as q
from .c20_c26 import BASE, mass, FREQ, E_MIX

CASES = {}
STUBS = q.CTOR + ('source.Source.set_sc', 'utils.get_a_from_f_orb', 'utils.get_f_orb_from_a', 'utils.chirp_mass')


def case(prop, *a, **k):
    k.setdefault('setup', q.facts)
    k.setdefault('stubs', STUBS)
    CASES.setdefault(prop, []).append(Case(prop + '/' + a[0], *a[1:], **k))


SEP = In('length', ('N',), 'a', units=['AU', 'Rsun', 'km'])
SEP2 = In('length', ('N',), 'a', units=['AU', 'Rsun', 'km'])
KEYS = dict(a0='a', m1='m_1', m2='m_2', e='ecc', D='dist', f='f_orb', a='a', W='weights', pos='position', pol='polarisation', inc='inclination')


def make(names, cls='Source', over='', extra=''):
    kw = ['%s=%s' % (KEYS[n], n) for n in names if n not in over.split()]
    return 's = source.%s(%s, interpolate_g=False%s)\n' % (cls, ', '.join(kw), extra)


SHOW = 'result = [s.m_1, s.m_2, s.ecc, s.dist, s.f_orb, s.a, s.m_c, s.merged, s.n_sources, s.__len__(), s.weights, s.t_merge, s.snr, s.max_snr_harmonic]'


def col(x, X):
    """stored as an array, whatever was given"""
    x = phys(x)
    return x if ndim(x) else array([X], lambda y: at(x))


def faithful(i, a=None, weights=None):
    sh = [v for v in (i.m1, i.m2, i.e, i.D) + ((i.a,) if hasattr(i, 'a') and not hasattr(i, 'f') else (i.f,)) if ndim(v)]
    X = axis(sh[0]) if sh else Axis_one()
    m1, m2, e, D = [col(v, X) for v in (i.m1, i.m2, i.e, i.D)]
    if hasattr(i, 'f'):
        f = col(i.f, X)
    else:
        f = emap(d.op_kf, col(i.a, X), m1, m2)
    n = length(X)
    return [quantity(m1, 'kg'), quantity(m2, 'kg'), e, quantity(D, 'm'), quantity(f, 'Hz'),
            quantity(emap(d.op_ka, f, m1, m2), 'm'), quantity(emap(d.op_mc, m1, m2), 'kg'),
            array([X], lambda y: Sym(FALSE, 'b'), kind='b'), n, n,
            col(i.W, X) if hasattr(i, 'W') else None, None, None, None]


def Axis_one():
    from pyvc.sym import Axis
    return Axis((num(1),))


def length(X):
    n = num(1)
    for l in X.lens:
        n = mul(n, l)
    return Sym(n, 'i')


WGT = Dom(lo=0, rng=(0.0, 3.0), log=False)
ORDER = ('m1', 'm2', 'e', 'D', 'f')
for cls in ('Source', 'Stationary', 'Evolving'):
    case('C26', 'stored.%s' % cls, dict(BASE, W=In(None, ('N',), WGT)), make(ORDER + ('W',), cls) + SHOW, faithful)
    case('C26', 'stored.from_a.%s' % cls, dict({k_: v for k_, v in BASE.items() if k_ != 'f'}, a=SEP),
         make(('m1', 'm2', 'e', 'D', 'a'), cls) + SHOW, faithful)
case('C26', 'stored.both', dict(BASE, a=SEP), make(ORDER + ('a',)) + SHOW, faithful)
case('C26', 'stored.scalars', dict(m1=mass(), m2=mass(), e=In(None, (), E_MIX, py=True), D=In('dist', (), 'dist'), f=In('frequency', (), FREQ),
                                   W=In(None, (), WGT, py=True)), make(ORDER + ('W',)) + SHOW, faithful)
case('C26', 'stored.scalars.from_a', dict(m1=mass(), m2=mass(), e=In(None, (), E_MIX, py=True), D=In('dist', (), 'dist'),
                                          a=In('length', (), 'a', units=['AU', 'Rsun', 'km'])), make(('m1', 'm2', 'e', 'D', 'a')) + SHOW, faithful)
case('C26', 'stored.lists', dict(m1=mass(3), m2=mass(3), e=In(None, (3,), E_MIX, as_list=True), D=In('dist', (3,), 'dist'),
                                 f=In('frequency', (3,), FREQ), W=In(None, (3,), WGT, as_list=True)),
     make(ORDER + ('W',)) + SHOW, faithful)
# settings
SET = dict(gt=In(None, (), Dom(lo=0, hi=1, lo_open=True, hi_open=True, rng=(0.005, 0.3)), py=True),
           st=In(None, (), Dom(lo=0, lo_open=True, rng=(1e-4, 0.5)), py=True), np_=In(None, (), Dom(lo=1, rng=(1, 4), integer=True), py=True))
for isc in (True, False):
    case('C26', 'settings.%s' % isc, dict(BASE, **SET),
         make(ORDER, 'Source', '', ', gw_lum_tol=gt, stat_tol=st, n_proc=np_, interpolate_sc=%s, sc_params=dict(approximate_R=True)' % isc) +
         'result = [s.gw_lum_tol, s.stat_tol, s.n_proc, s.interpolate_sc, s.interpolate_g, s.sc_params["approximate_R"], '
         's.sc_params["instrument"], s.sc_params["t_obs"], s.sc_params["L"], s.sc_params["confusion_noise"], s.sc_params["custom_psd"]]',
         lambda i, isc=isc: [i.gt, i.st, i.np_, isc, False, True, 'LISA', 'auto', 'auto', 'auto', None])
# derived values follow the stored ones
CHANGES = {'a': dict(a=SEP), 'f': dict(f2=In('frequency', ('N',), FREQ)), 'm': dict(m3=mass('N')), 'D': dict(D2=In('dist', ('N',), 'dist'))}
CODE = {'a': 's.a = a\n', 'f': 's.f_orb = f2\n', 'm': 's.m_1 = m3\n', 'D': 's.dist = D2\n'}


def changed(i, ops):
    v = dict(m1=phys(i.m1), m2=phys(i.m2), f=phys(i.f) if hasattr(i, 'f') else emap(d.op_kf, i.a0, i.m1, i.m2), D=phys(i.D))
    for o in ops:
        if o == 'a':
            v['f'] = emap(d.op_kf, i.a, v['m1'], v['m2'])
        elif o == 'f':
            v['f'] = phys(i.f2)
        elif o == 'm':
            v['m1'] = phys(i.m3)
        else:
            v['D'] = phys(i.D2)
    a = phys(i.a) if ops[-1] == 'a' else emap(d.op_ka, v['f'], v['m1'], v['m2'])
    return [quantity(v['m1'], 'kg'), quantity(v['f'], 'Hz'), quantity(a, 'm'), quantity(emap(d.op_mc, v['m1'], v['m2']), 'kg'),
            quantity(v['D'], 'm')]


for ops in (['a'], ['f'], ['m'], ['D'], ['a', 'm'], ['m', 'a'], ['f', 'm'], ['a', 'f'], ['a', 'm', 'a']):
    I = dict(BASE)
    for o in ops:
        I.update(CHANGES[o])
    case('C26', 'derived.%s' % '_'.join(ops), I, make(ORDER) + ''.join(CODE[o] for o in ops) +
         'result = [s.m_1, s.f_orb, s.a, s.m_c, s.dist]', lambda i, ops=ops: changed(i, ops),
         stubs=q.CTOR + ('source.Source.set_sc',))
    I = {k_: v for k_, v in I.items() if k_ != 'f'}
    I['a0'] = SEP2
    case('C26', 'derived.from_a.%s' % '_'.join(ops), I, make(('m1', 'm2', 'e', 'D', 'a0')) + ''.join(CODE[o] for o in ops) +
         'result = [s.m_1, s.f_orb, s.a, s.m_c, s.dist]', lambda i, ops=ops: changed(i, ops),
         stubs=q.CTOR + ('source.Source.set_sc',))
# ---- rejected
def reject(name, inputs, call, exc, when=None, **k):
    def spec(i):
        if when is None or bool(when(i)):
            raise exc
        return Any()
    case('C26', 'rejected.' + name, inputs, call + 'result = None', spec, **k)


NOF = {k_: v for k_, v in BASE.items() if k_ != 'f'}
ANG = dict(pol=In('angle', ('N',), 'angle'), inc=In('angle', ('N',), 'angle'))
SKY = dict(pos=Sky(('N',), frame='barycentrictrueecliptic'))
reject('no_frequency_no_separation', NOF, make(('m1', 'm2', 'e', 'D')), ValueError)
reject('no_frequency_no_separation.scalars', dict(m1=mass(), m2=mass(), e=In(None, (), E_MIX, py=True), D=In('dist', (), 'dist')),
       make(('m1', 'm2', 'e', 'D')), ValueError)
for n in ('f', 'a'):
    base = BASE if n == 'f' else dict(NOF, a=SEP)
    order = ('m1', 'm2', 'e', 'D', n)
    reject('inclination_alone.%s' % n, dict(base, inc=ANG['inc']), make(order + ('inc',)), ValueError)
    reject('polarisation_alone.%s' % n, dict(base, pol=ANG['pol']), make(order + ('pol',)), ValueError)
    reject('angles_without_position.%s' % n, dict(base, **ANG), make(order + ('inc', 'pol')), ValueError)
    reject('eccentric_with_position.%s' % n, dict(base, **ANG, **SKY), make(order + ('pos', 'inc', 'pol')), ValueError,
           lambda i: anyof_(lambda v: S(v) > 0, i.e))
    for w in order:
        if w == 'e':
            continue
        I = dict(base)
        I[w] = In(None, ('N',), FREQ)
        reject('no_units.%s.%s' % (n, w), I, make(order), AssertionError)
    for w in order:
        if n == 'a' and w in ('m1', 'm2', 'a'):
            continue            # the frequency is computed from these three first
        I = dict(base)
        old = I[w]
        I[w] = {'m1': mass('M'), 'm2': mass('M'), 'e': In(None, ('M',), E_MIX), 'D': In('dist', ('M',), 'dist'),
                'f': In('frequency', ('M',), FREQ)}[w]
        other = 'e' if w != 'e' else 'D'
        reject('lengths.%s.%s' % (n, w), I, make(order), ValueError,
               lambda i, w=w, other=other: lnot(ceq(length(axis(getattr(i, w))), length(axis(getattr(i, other))))))
        I = dict(I)
        I[w] = {'m1': mass(), 'm2': mass(), 'e': In(None, (), E_MIX, py=True), 'D': In('dist', (), 'dist'), 'f': In('frequency', (), FREQ)}[w]
        reject('lengths.one_value.%s.%s' % (n, w), I, make(order), ValueError,
               lambda i, w=w, other=other: lnot(ceq(S(1), length(axis(getattr(i, other))))))
SC_ = dict(m1=mass(), m2=mass(), e=In(None, (), E_MIX, py=True), D=In('dist', (), 'dist'), f=In('frequency', (), FREQ))
for w in ('m1', 'm2', 'D', 'f'):
    reject('no_units.scalar.%s' % w, dict(SC_, **{w: In(None, (), FREQ, py=True)}), make(ORDER), AssertionError)
# sky position is kept with the sources
case('C26', 'stored.sky', dict(BASE, **ANG, **SKY), make(ORDER + ('pos', 'inc', 'pol'), extra='').replace('ecc=e', 'ecc=np.zeros_like(e)') +
     'result = [s.position.lon, s.position.lat, s.position.distance, s.inclination, s.polarisation, s.dist]',
     lambda i: [quantity(phys(i.pos.lon), 'rad'), quantity(phys(i.pos.lat), 'rad'), quantity(phys(i.D), 'm'),
                quantity(phys(i.inc), 'rad'), quantity(phys(i.pol), 'rad'), quantity(phys(i.D), 'm')])
