"""C22: saving collections and loading them back (file system and HDF5 library under assumed contracts: what is written under a
name is read back from it; str(unit) parses back to the unit)."""
from pyvc.runner import Case
from pyvc.inputs import In, Lit, U, Dom, Sky, Call
from pyvc.spec import *
from pyvc.engine import E
from pyvc.stubs import FunContract
from . import defs as d
from . import srcdefs as q
from .c20_c26 import BASE, mass, T_OBS, ARM, PSD, CN, TOBS, OPTS, args
from .c21 import FULL, SKYI, SETI, SETTINGS, EX, settings, build, show, values

from .c26 import WGT
from .c27 import CP

CASES = {}


def _set_g(a):
    a['self'].g = (lambda n, e: emap(lambda n, e: n * e, n, e)) if a['interpolate_g'] else None


FunContract('source.Source.set_g', _set_g)
REAL_SC = q.CTOR + ('source.Source.set_g', 'psd.power_spectral_density')
STUBS = q.CTOR + ('source.Source.set_sc', 'source.Source.set_g')


def case(prop, *a, **k):
    k.setdefault('setup', q.facts)
    k.setdefault('stubs', STUBS)
    k.setdefault('samples', 4)
    CASES.setdefault(prop, []).append(Case(prop + '/' + a[0], a[1], 'files()\nsimple_g()\n' + a[2], *a[3:], **k))


def same_units(sky):
    return '[%s]' % ', '.join('a.%s.unit == b.%s.unit' % (x, x) for x in ['m_1', 'm_2', 'dist', 'f_orb'] + (['inclination', 'polarisation'] if sky else []))


everything = lambda x: x
KEEP = {'W': ', weights=W', 's0': 's.snr = s0\n', 'h0': 's.max_snr_harmonic = h0\n', 'mg': 's.merged = mg\n', 'tm': 's.t_merge = tm\n'}


def part(names, sky, extra='', cls='Source', v='s'):
    c = '%s = source.%s(m_1=m1, m_2=m2, ecc=%s, dist=D, f_orb=f, interpolate_g=False%s%s%s)\n' % (
        v, cls, 'np.zeros_like(e)' if sky else 'e', KEEP['W'] if 'W' in names else '',
        ', position=pos, polarisation=pol, inclination=inc' if sky else '', extra)
    return c + ''.join(KEEP[n].replace('s.', v + '.', 1) for n in names if n != 'W')


def stored(i, names, sky):
    out = values(i, True, sky, everything, None) if len(names) == len(KEEP) else values(i, False, sky, everything, None)
    for a, n in dict(weights='W', snr='s0', max_snr_harmonic='h0', merged='mg', t_merge='tm').items():
        if n in names:
            out[a] = getattr(i, n)
    return out


NAMES = (("'src'", "'src'"), ("'src.h5'", "'src'"), ("'src'", "'src.h5'"), ("'src.hdf5'", "'src.hdf5'"))
SETS = [(), tuple(KEEP)] + [(n,) for n in KEEP] + [tuple(m for m in KEEP if m != n) for n in KEEP]
for names in SETS:
    for sky in (False, True):
        if sky and names not in ((), tuple(KEEP)):
            continue
        for na, nb in NAMES if len(names) == len(KEEP) else NAMES[:1]:
            I = dict(BASE, **{n: FULL[n] for n in names}, **(SKYI if sky else {}))
            units = '[%s]' % ', '.join('s.%s.unit == t.%s.unit' % (x, x) for x in ['m_1', 'm_2', 'dist', 'f_orb'] +
                                       (['inclination', 'polarisation'] if sky else []) + (['t_merge'] if 'tm' in names else []))
            case('C22', 'load.%s%s%s' % ('_'.join(names) or 'plain', '.sky' if sky else '', '' if na == "'src'" == nb else '.%s.%s' % (eval(na), eval(nb))), I,
                 part(names, sky) + 'r = s.save(%s)\nt = source.Source.from_file(%s)\nresult = [%s, %s, %s, r, t is s]' % (na, nb, show('t', sky), show('s', sky), units),
                 lambda i, names=names, sky=sky, k=units.count('==') : [stored(i, names, sky), stored(i, names, sky), [True] * k, None, False])

# ---- settings and classes
for cls in ('Source', 'Stationary', 'Evolving'):
    for isc in (True, False):
        for g in (True, False):
            if cls != 'Source' and (g or not isc):
                continue
            for how, ldr, ovr in (('plain', cls, ''), ('base', 'Source', ''), ('g_on', 'Source', 'interpolate_g=True'), ('g_off', 'Source', 'interpolate_g=False'),
                                  ('sc_on', 'Source', 'interpolate_sc=True'), ('sc_off', 'Source', 'interpolate_sc=False'), ('proc', 'Source', 'n_proc=7'),
                                  ('all', 'Source', 'not_g, not_sc, 5'.replace('not_g', str(not g)).replace('not_sc', str(not isc)))):
                if cls != 'Source' and how not in ('plain', 'base', 'all') or how == 'base' and cls == 'Source':
                    continue
                I = dict(BASE, **{k_: v for k_, v in SETI.items() if k_ != 'g'})
                isc2 = {'sc_on': True, 'sc_off': False, 'all': not isc}.get(how, isc)
                g2 = {'g_on': True, 'g_off': False, 'all': not g}.get(how, g)
                np2 = {'proc': 7, 'all': 5}.get(how)
                parts = ['dict(lhs=t.harmonics_required(t.ecc), rhs=s.harmonics_required(t.ecc))',
                         'dict(lhs=t.max_strain_harmonic(t.ecc), rhs=s.max_strain_harmonic(t.ecc))', 'dict(lhs=t.ecc_tol, rhs=s.ecc_tol)']
                if isc and isc2:
                    parts.append('dict(lhs=t.sc(t.f_orb), rhs=s.sc(t.f_orb))')
                if g and g2:
                    parts.append('dict(lhs=t.g(2, t.ecc), rhs=s.g(2, t.ecc))')

                def spec(i, isc=isc, g=g, isc2=isc2, g2=g2, np2=np2, k=len(parts)):
                    loaded = dict(settings(i, isc2, g2), n_proc=i.np_ if np2 is None else np2)
                    return [loaded, settings(i, isc, g), True, isc2] + [pair_eq()] * k
                case('C22', 'settings.%s.%s%s.%s' % (cls, 'sc' if isc else 'nosc', '.g' if g else '', how), I,
                     part((), False, EX % isc, cls) + ('s.set_g(True)\n' if g else '') + "s.save('x')\nt = source.%s.from_file('x'%s)\n" % (ldr, ', ' + ovr if ovr else '') +
                     'result = [%s, %s, type(t) is source.%s, t.sc is not None, %s]' % (SETTINGS % dict(v='t'), SETTINGS % dict(v='s'), cls, ', '.join(parts)), spec)

# ---- sensitivity curve parameters
KEYS = ('instrument', 't_obs', 'L', 'approximate_R', 'confusion_noise', 'custom_psd')


def sc_values(i, st):
    o = dict(q.DEFAULTS)
    for k_, v in st.items():
        o[k_] = v if v is None or isinstance(v, (bool, Any)) else eval(v) if v[0] in '"NTF' else getattr(i, v)
    return o


PARAMS = [
    ('defaults', {}, {}),
    ('t_obs', TOBS, dict(t_obs='t')),
    ('all', dict(TOBS, **ARM), dict(t_obs='t', L='L', approximate_R='True', confusion_noise='"robson19"', instrument='"LISA"')),
    ('no_confusion', ARM, dict(confusion_noise='None', L='L')),
    ('tianqin', TOBS, dict(instrument='"TianQin"', t_obs='t', confusion_noise='"huang20"')),
    ('decigo', TOBS, dict(instrument='"DECIGO"', t_obs='t', approximate_R='True')),
    ('custom', dict(TOBS, **ARM, **PSD), dict(instrument='"custom"', custom_psd='cp', t_obs='t', L='L')),
    ('custom_noise', dict(TOBS, **CN), dict(instrument='"TianQin"', confusion_noise='cn', t_obs='t', approximate_R='True')),
]
SHOW_SC = 'dict(%s)' % ', '.join('%s=%%(v)s.sc_params["%s"]' % (k_, k_) for k_ in KEYS if k_ != 'custom_psd')
for nm, ins, st in PARAMS:
    for isc in (True, False):
        back = {k_: v for k_, v in st.items() if v not in ('cp', 'cn')}
        un = [k_ for k_ in ('t_obs', 'L') if k_ in st]
        # (a custom curve cannot be stored: it takes effect as soon as it is supplied again)
        again = ' t.sc_params["custom_psd"] = cp' if 'custom_psd' in st else ''
        case('C22', 'params.%s.%s' % (nm, 'sc' if isc else 'nosc'), dict(BASE, **dict(ins, **(CP if 'cp' in ins else {}))),
             part((), False, ', interpolate_sc=%s, sc_params=dict(%s)' % (isc, args(st))) + "s.save('x')\nt = source.Source.from_file('x')\n" +
             'result = [%s, [%s], t.sc_params["custom_psd"] is None, t.interpolate_sc]' % (
                 SHOW_SC % dict(v='t'), ', '.join('t.sc_params["%s"].unit == s.sc_params["%s"].unit' % (k_, k_) for k_ in un)),
             lambda i, back=back, isc=isc, un=un: [{k_: v for k_, v in sc_values(i, back).items() if k_ != 'custom_psd'}, [True] * len(un), True, isc],
             **(dict(stubs=REAL_SC) if 'cp' in st.values() else {}))
        if 'cn' not in st.values():
            case('C22', 'curve.%s.%s' % (nm, 'sc' if isc else 'nosc'), dict(BASE, **ins),
                 part((), False, ', interpolate_sc=%s, sc_params=dict(%s)' % (isc, args(st))) + "s.save('x')\nt = source.Source.from_file('x')\n" +
                 ('t.sc_params["custom_psd"] = cp\n' if again else '') + 'result = %s' % ('dict(lhs=t.sc(f), rhs=s.sc(f))' if isc else 't.sc is None'),
                 lambda i, isc=isc: pair_eq() if isc else True)
    # a parameter changed after construction
case('C22', 'params.changed', dict(BASE, **TOBS, **ARM), part((), False) + 's.sc_params["instrument"] = "TianQin"\ns.sc_params.update(t_obs=t, L=L)\n'
     's.gw_lum_tol = 0.2\ns.stat_tol = 0.3\ns.n_proc = 3\n'
     "s.save('x')\nz = source.Source.from_file('x')\nresult = [%s, z.gw_lum_tol, z.stat_tol, z.n_proc, dict(lhs=z.ecc_tol, rhs=s.ecc_tol)]" % (SHOW_SC % dict(v='z')),
     lambda i: [{k_: v for k_, v in sc_values(i, dict(instrument='"TianQin"', t_obs='t', L='L')).items() if k_ != 'custom_psd'}, S(F('0.2')), S(F('0.3')), 3, pair_eq()])

# ---- files that exist, files that do not
B2 = dict(m3=mass('N'), W2=In(None, ('N',), WGT))
OTHER = "o = source.Source(m_1=m3, m_2=m2, ecc=0.5 * e, dist=2 * D, f_orb=f, interpolate_g=False, weights=W2)\n"
for nm, first, second in (('same', "'x'", "'x'"), ('long', "'x'", "'x.h5'"), ('short', "'x.h5'", "'x'"), ('hdf5', "'x.hdf5'", "'x.hdf5'")):
    for ow in ('', ', overwrite=False', ', False'):
        if ow and nm != 'same':
            continue
        case('C22', 'exists.%s%s' % (nm, ow.replace(', ', '.')), dict(BASE, **B2, W=FULL['W'], tm=FULL['tm']),
             part(('W', 'tm'), False) + OTHER + "s.save(%s)\ncaught = 'nothing'\ntry:\n    o.save(%s%s)\nexcept FileExistsError:\n    caught = 'exists'\n" % (first, second, ow) +
             't = source.Source.from_file(%s)\nresult = [caught, %s]' % (first, show('t', False)),
             lambda i: ['exists', stored(i, ('W', 'tm'), False)])
    case('C22', 'overwrite.' + nm, dict(BASE, **B2, W=FULL['W'], tm=FULL['tm'], mg=FULL['mg'], s0=FULL['s0']),
         part(('W', 'tm', 's0', 'mg'), False, v='s') + OTHER + 's.save(%s)\no.save(%s, overwrite=True)\nt = source.Source.from_file(%s)\nresult = %s' % (first, second, first, show('t', False)),
         lambda i: dict(stored(i, (), False), m_1=i.m3, ecc=emap(lambda v: v * F(1, 2), i.e), dist=quantity(emap(lambda v: 2 * v, i.D), 'm'), weights=i.W2))


case('C22', 'missing', dict(BASE), part((), False) + "s.save('x')\nresult = 'nothing'\ntry:\n    source.Source.from_file('y')\nexcept FileNotFoundError:\n    result = 'missing'\n",
     lambda i: 'missing')
case('C22', 'two_files', dict(BASE, **B2, W=FULL['W'], tm=FULL['tm']), part(('W', 'tm'), False) + OTHER +
     "s.save('x')\no.save('y')\nt, z = source.Source.from_file('x'), source.Source.from_file('y')\nresult = [%s, %s]" % (show('t', False), show('z', False)),
     lambda i: [stored(i, ('W', 'tm'), False), dict(stored(i, (), False), m_1=i.m3, ecc=emap(lambda v: v * F(1, 2), i.e), dist=quantity(emap(lambda v: 2 * v, i.D), 'm'), weights=i.W2)])
# ---- the file is what was saved, whatever happens to the collections afterwards
W_ = FULL
case('C22', 'later.original', dict(BASE, **FULL), part(tuple(KEEP), False) + "s.save('x')\ns.m_1 *= 2\ns.snr[0] = 99.0\ns.merged[0] = True\ns.sc_params['instrument'] = 'TianQin'\ns.weights = None\n"
     "t = source.Source.from_file('x')\nresult = [%s, t.sc_params['instrument']]" % show('t', False), lambda i: [stored(i, tuple(KEEP), False), 'LISA'], frame=False)
case('C22', 'later.loaded', dict(BASE, **FULL), part(tuple(KEEP), False) + "s.save('x')\nz = source.Source.from_file('x')\nz.m_1 *= 2\nz.snr[0] = 99.0\nz.merged[0] = True\nz.weights = None\n"
     "t = source.Source.from_file('x')\nresult = [%s, %s]" % (show('t', False), show('s', False)), lambda i: [stored(i, tuple(KEEP), False)] * 2)
case('C22', 'again', dict(BASE, **FULL), part(tuple(KEEP), False) + "s.save('x')\nsource.Source.from_file('x').save('y')\nt = source.Source.from_file('y')\nresult = %s" % show('t', False),
     lambda i: stored(i, tuple(KEEP), False))
ALL = ('m_1', 'm_2', 'ecc', 'dist', 'f_orb', 'weights', 'snr', 'max_snr_harmonic', 'merged', 't_merge')
for nm, code in (('subset', "s[w].save('x')"), ('reversed', "s[::-1].save('x')")):
    case('C22', 'of_' + nm, dict(BASE, **FULL, w=In(None, ('N',), boolean=True)), part(tuple(KEEP), False) + code + "\nt = source.Source.from_file('x')\nz = %s\n" % code.split('.save')[0] +
         'result = [%s]' % ', '.join('dict(lhs=t.%s, rhs=z.%s)' % (a, a) for a in ALL), lambda i: [pair_eq()] * len(ALL))
