"""C24: evolving collections, merger times and strains of collections."""
import math
from pyvc.runner import Case
from pyvc.inputs import In, Lit, U, Dom, Sky, Call, unit_scale
from pyvc.spec import *
from pyvc.engine import E
from . import defs as d
from . import srcdefs as q
from .c20_c26 import BASE, mass, FREQ, STORED, HARM, T_OBS, G_
from .c21 import FULL, SKYI, SETI, SETTINGS, EX, settings
from .c26 import WGT

CASES = {}
TMS = ('evol.get_t_merge_ecc',)
EVOL = TMS + ('evol.evol_circ', 'evol.evol_ecc')
STR = ('strain.h_0_n', 'strain.h_c_n', 'utils.chirp_mass')
CTOR = q.CTOR + ('source.Source.set_sc',)
VAR = [{'N': 'sym'}, {'N': 'one'}]


def case(prop, *a, **k):
    k.setdefault('setup', q.facts)
    k.setdefault('stubs', CTOR + EVOL)
    CASES.setdefault(prop, []).append(Case(prop + '/' + a[0], *a[1:], **k))


E_SRC = Dom(lo=0, hi=F(95, 100), rng=(0.0, 0.8), log=False, special=[0, 0, 0, 0.01, 0.1, 0.6])
B = dict(BASE, e=In(None, ('N',), E_SRC))
TD = Dom(lo=0, rng=(1e10, 1e15), special=[0])
ONE_T = dict(t=In('time', (), TD, units=['yr', 's', 'Myr', 'Gyr']))
EACH_T = dict(t=In('time', ('N',), TD, units=['yr', 's', 'Myr']))


def drive(c, sizes, rng):
    """sampling only: each source either well before or well after its merger at the end"""
    GN, CN_ = 6.6743e-11, 299792458.0
    n = len(c['f'].raw)
    T0 = 10 ** rng.uniform(9, 16)
    ts = c.get('t')
    for j in range(n):
        m1, m2 = [c[k_].raw[j] * unit_scale(c[k_].unit) for k_ in ('m1', 'm2')]
        e = c['e'].raw[j] if 'e' in c else 0.0
        if ts is not None and (len(ts.raw) > 1 or j == 0):
            ts.raw[j] = (T0 * 10 ** rng.uniform(-0.5, 0.5) if rng.random() > 0.1 else 0.0) / unit_scale(ts.unit)
        t = ts.raw[j if len(ts.raw) > 1 else 0] * unit_scale(ts.unit) if ts is not None else T0
        if 't2' in c:
            t += c['t2'].raw[0] * unit_scale(c['t2'].unit)
        T = t * (rng.uniform(1.3, 3) if rng.random() < 0.6 else rng.uniform(0.01, 0.45)) if t else T0
        beta = 64 / 5 * GN ** 3 / CN_ ** 5 * m1 * m2 * (m1 + m2)
        a4 = 4 * beta * T / (1 - e * e) ** 3.5
        c['f'].raw[j] = math.sqrt(GN * (m1 + m2) / a4 ** 0.75) / (2 * math.pi) / unit_scale(c['f'].unit)
        if 'tm' in c:
            c['tm'].raw[j] = T * rng.uniform(0.97, 1.0) / unit_scale(c['tm'].unit)


def lenient(c, sizes, rng):
    drive(c, sizes, rng)


def t_left(i, mg=True, exact=True):
    """time left until the merger of each source (stored or, if none is stored, computed)"""
    op = d.op_tm if exact else d.op_tf

    def f(y):
        v = op(at(i.e, y) if hasattr(i, 'e') else S(0), d.op_ka(at(i.f, y), at(i.m1, y), at(i.m2, y)), d.op_beta(at(i.m1, y), at(i.m2, y)))
        return where(S(at(i.mg, y)), 0, v) if mg and hasattr(i, 'mg') else v
    return f


def evolved(e, f, m1, m2, left, t):
    """state of one source after the time t: (eccentricity, frequency, merged, time left)"""
    gone = left <= t
    circ = ceq(e, 0)
    return (where(gone, 0, where(circ, 0, d.op_e0(e, f, m1, m2, t))),
            where(gone, 100, where(circ, d.op_fcirc(f, m1, m2, t), d.op_f0(e, f, m1, m2, t))), gone, where(gone, 0, left - t))


def state(i, tm, times, ecc=None):
    """expected per-source quantities after evolving for the times, one after the other"""
    X = axis(i.f)
    left = (lambda y: at(i.tm, y)) if tm else t_left(i)

    def one(k_):
        def f(y):
            s = (at(i.e, y) if ecc is None else ecc, at(i.f, y), None, left(y))
            m1, m2 = at(i.m1, y), at(i.m2, y)
            for t in times:
                s = evolved(s[0], s[1], m1, m2, s[3], at(t, y) if ndim(t) else at(t))
            return s[k_]
        return f
    q_ = lambda v, un: quantity(v, un)
    out = dict(ecc=array([X], one(0)), f_orb=q_(array([X], one(1)), 'Hz'), merged=array([X], one(2), kind='b'),
               t_merge=q_(array([X], one(3)), 's'), m_1=i.m1, m_2=i.m2, dist=i.D)
    out['weights'] = i.W if hasattr(i, 'W') else None
    return out


def per(v):
    return 'dict(%s)' % ', '.join('%s=%s.%s' % (a, v, a) for a in ('ecc', 'f_orb', 'merged', 't_merge', 'm_1', 'm_2', 'dist', 'weights'))


def src(full, extra='', sky=False, cls='Source'):
    c = 's = source.%s(m_1=m1, m_2=m2, ecc=%s, dist=D, f_orb=f, interpolate_g=False%s%s%s)\n' % (
        cls, 'np.zeros_like(f.value)' if sky else 'e', ', weights=W' if 'W' in full else '',
        ', position=pos, polarisation=pol, inclination=inc' if sky else '', extra)
    if 'mg' in full:
        c += 's.merged = mg\n'
    if 'tm' in full:
        c += 's.t_merge = tm\n'
    return c


def original(i, tm):
    """the original, which must be as it was (its merger times may have been computed meanwhile)"""
    X = axis(i.f)
    return dict(ecc=i.e, f_orb=i.f, merged=i.mg if hasattr(i, 'mg') else array([X], lambda y: FALSE_, kind='b'),
                t_merge=i.tm if tm else Any(), m_1=i.m1, m_2=i.m2, dist=i.D, weights=i.W if hasattr(i, 'W') else None)


FALSE_ = Sym(FALSE, 'b')
RT = dict(rtol=5e-4, atol=0.0, samples=6)
for tn, T in (('one', ONE_T), ('each', EACH_T)):
    for full in ((), ('W', 'tm'), ('tm', 'mg'), ('W', 'mg')):
        F_ = {k_: FULL[k_] for k_ in full}
        tm = 'tm' in full
        I = dict(B, **T, **F_)
        nm = '%s.%s' % (tn, '_'.join(full) or 'plain')
        case('C24', 'in_place.' + nm, I, src(full) + 'r = s.evolve_sources(t)\nresult = [r, %s]' % per('s'),
             lambda i, tm=tm: [None, state(i, tm, [i.t])], drive=drive, variants=VAR, **RT)
        for word in (', True', ', create_new_class=True') if not full else (', create_new_class=True',):
            case('C24', 'new.%s%s' % (nm, '.positional' if word == ', True' else ''), I,
                 src(full) + 'n = s.evolve_sources(t%s)\nresult = [%s, %s, n is s]' % (word, per('n'), per('s')),
                 lambda i, tm=tm: [state(i, tm, [i.t]), original(i, tm), False], drive=drive, variants=VAR, **RT)
# one after the other
T2 = dict(t2=In('time', (), Dom(lo=0, rng=(1e10, 1e15)), units=['yr', 's', 'Myr']))
for nm, code in (('in_place', 's.evolve_sources(t)\ns.evolve_sources(t2)\nn = s\n'), ('new', 'n = s.evolve_sources(t, True).evolve_sources(t2, True)\n'),
                 ('then_new', 's.evolve_sources(t)\nn = s.evolve_sources(t2, True)\n'),
                 ('new_then', 'n = s.evolve_sources(t, True)\nn.evolve_sources(t2)\n')):
    for full in ((), ('tm',)):
        case('C24', 'twice.%s.%s' % (nm, '_'.join(full) or 'plain'), dict(B, **ONE_T, **T2, **{k_: FULL[k_] for k_ in full}),
             src(full) + code + 'result = %s' % per('n'), lambda i, full=full: state(i, 'tm' in full, [i.t, i.t2]), drive=drive, variants=VAR[1:], **RT)
# settings stay
for isc in (True, False):
    for g in (True, False):
        for cls in ('Source', 'Evolving'):
            if cls == 'Evolving' and (g or not isc):
                continue
            parts = ['dict(lhs=n.harmonics_required(n.ecc), rhs=s.harmonics_required(n.ecc))', 'dict(lhs=n.max_strain_harmonic(n.ecc), rhs=s.max_strain_harmonic(n.ecc))',
                     'dict(lhs=n.ecc_tol, rhs=s.ecc_tol)']
            if isc:
                parts.append('dict(lhs=n.sc(n.f_orb), rhs=s.sc(n.f_orb))')
            for how in ('new', 'in_place'):
                I = dict(B, ot=ONE_T['t'], **{k_: v for k_, v in SETI.items() if g or k_ != 'g'})
                case('C24', 'settings.%s.%s.%s.%s' % (how, cls, 'sc' if isc else 'nosc', 'g' if g else 'nog'), I,
                     src((), EX % isc, cls=cls) + ('s.g = g\n' if g else '') + 's.stat_tol = 2 * st\n' * 0 +
                     ('n = s.evolve_sources(ot, create_new_class=True)\n' if how == 'new' else 'z = s.copy()\ns.evolve_sources(ot)\nn = s\n') +
                     'result = [%s, %s, %s]' % (SETTINGS % dict(v='n'), SETTINGS % dict(v='s' if how == 'new' else 'z'), ', '.join(parts)),
                     lambda i, isc=isc, g=g, k=len(parts): [settings(i, isc, g), settings(i, isc, g)] + [pair_eq()] * k,
                     variants=VAR[:1], samples=3, drive=lambda c, s, r: drive(dict(c, t=c['ot']), s, r))
# later changes to the new collection's parameters stay there
case('C24', 'settings.own', dict(B, **ONE_T), src((), ', sc_params=dict(t_obs=2 * u.yr)') + 'n = s.evolve_sources(t, create_new_class=True)\nb = s.sc(s.f_orb)\n'
     'n.sc_params["instrument"] = "TianQin"\nz = source.Source(m_1=m1, m_2=m2, ecc=e, dist=D, f_orb=f, interpolate_g=False, sc_params=dict(t_obs=2 * u.yr, instrument="TianQin"))\n'
     'result = [dict(lhs=s.sc(s.f_orb), rhs=b), dict(lhs=n.sc(f), rhs=z.sc(f)), s.sc_params["instrument"], n.sc_params["instrument"]]',
     lambda i: [pair_eq(), pair_eq(), 'LISA', 'TianQin'], variants=VAR[:1], samples=3, drive=drive)
# sky positions
CIRC = {k_: v for k_, v in B.items() if k_ != 'e'}
for how in ('new', 'in_place'):
    case('C24', 'sky.' + how, dict(CIRC, **ONE_T, **SKYI), src((), '', True) +
         ('n = s.evolve_sources(t, create_new_class=True)\n' if how == 'new' else 's.evolve_sources(t)\nn = s\n') +
         'result = [%s, n.inclination, n.polarisation, n.position.lon, n.position.lat]' % per('n'),
         lambda i: [state(i, False, [i.t], S(0)), i.inc, i.pol, quantity(phys(i.pos.lon), 'rad'), quantity(phys(i.pos.lat), 'rad')], drive=drive, variants=VAR[:1], **RT)
# ---- merger times
for ex in ('', 'exact=True', 'exact=False'):
    for full in ((), ('mg',)):
        for save in ('', 'save_in_class=True', 'save_in_class=False'):
            for which in (False, True):
                if ex == 'exact=True' and save:
                    continue
                I = dict(B, **{k_: FULL[k_] for k_ in full}, **(dict(w=In(None, ('N',), boolean=True)) if which else {}))
                kw = [x for x in (save, 'which_sources=w' if which else '', ex) if x]
                keep = save != 'save_in_class=False'

                def spec(i, ex=ex, which=which, keep=keep):
                    X = axis(i.f)
                    v = quantity(array([X], t_left(i, exact=ex != 'exact=False')), 's')
                    r = v[i.w] if which and not keep else v
                    return [r, v if keep else None]
                case('C24', 'merger_time.%s.%s.%s.%s' % (ex or 'default', '_'.join(full) or 'plain', save or 'default', 'which' if which else 'all'), I,
                     src(full) + 'r = s.get_merger_time(%s)\nresult = [r, s.t_merge]' % ', '.join(kw), spec, variants=VAR, samples=6, rtol=1e-6, stubs=CTOR + TMS,
                     drive=drive)
case('C24', 'merger_time.stored_kept', dict(B, tm=FULL['tm'], w=In(None, ('N',), boolean=True)), src(('tm',)) +
     'r = s.get_merger_time(save_in_class=False, which_sources=w)\nresult = [r, s.t_merge]',
     lambda i: [quantity(array([axis(i.f)], t_left(i)), 's')[i.w], i.tm], variants=VAR, samples=6, rtol=1e-6, stubs=CTOR + TMS)
# ---- strains
HN = Dom(lo=1, rng=(1, 8), integer=True)
NS = {'one': (dict(n=In(None, (), HN, py=True, integer=True)), 'n'), 'list': (dict(n=In(None, (2,), HN, integer=True, as_list=True)), 'n'),
      'array': (dict(n=In(None, ('K',), HN, integer=True)), 'n')}
for meth, op in (('get_h_0_n', 'h0'), ('get_h_c_n', 'hc')):
    for nn, (ni, ncode) in NS.items():
        for full in ((), ('mg',)):
            for which in (False, True):
                for mode in ('plain', 'g', 'sky'):
                    if mode != 'plain' and not (nn == 'array' and which and full) or nn == 'range' and not full:
                        continue
                    I = dict(B if mode != 'sky' else CIRC, **ni, **{k_: FULL[k_] for k_ in full}, **(dict(w=In(None, ('N',), boolean=True)) if which else {}),
                             **(SKYI if mode == 'sky' else {}), **(G_ if mode == 'g' else {}))

                    def spec(i, op=op, nn=nn, which=which, mode=mode):
                        X = axis(i.f)
                        Z = Axis() if nn == 'one' else Axis((num(3),)) if nn == 'range' else axis(i.n)

                        def v(y, z):
                            n = at(i.n) if nn == 'one' else Sym(z[0], 'i') + S(1) if nn == 'range' else at(i.n, z)
                            e = at(i.e, y) if hasattr(i, 'e') else S(0)
                            mc = d.op_mc(at(i.m1, y), at(i.m2, y))
                            if mode == 'g':
                                g = unfun('cb_g_decay', n, e)
                                g = where(g < 0, 0, g)
                            else:
                                g = d.op_g(n, e)
                            h = d.op_h0(mc, at(i.f, y), at(i.D, y), g, n) if op == 'h0' else d.op_hc(mc, at(i.f, y), e, at(i.D, y), g, n)
                            if mode == 'sky':
                                h = h * d.op_am(at(i.pos.lon, y), at(i.pos.lat, y), at(i.pol, y), at(i.inc, y)) ** F(1, 2)
                            return where(S(at(i.mg, y)), 0, h) if hasattr(i, 'mg') else h
                        r = array([X, Z], v)
                        return r[i.w] if which else r
                    case('C24', '%s.%s.%s.%s.%s' % (meth, nn, '_'.join(full) or 'plain', 'which' if which else 'all', mode), I,
                         src(full, sky=mode == 'sky') + ('s.g = g\n' if mode == 'g' else '') + 'result = s.%s(%s%s)' % (meth, ncode, ', which_sources=w' if which else ''), spec,
                         variants=[dict(v, **({'K': 'sym'} if nn == 'array' else {})) for v in VAR], samples=6, stubs=CTOR + STR)
# merged sources report nothing after evolving
case('C24', 'after_merger', dict(B, **ONE_T, n=In(None, (), HN, py=True, integer=True)), src(()) +
     's.evolve_sources(t)\nh, c = s.get_h_0_n(n), s.get_h_c_n(n)\nm = s.get_merger_time(save_in_class=False)\n'
     'result = [dict(lhs=h[:, 0] * s.merged, rhs=np.zeros(s.n_sources)), dict(lhs=c[:, 0] * s.merged, rhs=np.zeros(s.n_sources)), '
     'dict(lhs=m.to(u.s).value * s.merged, rhs=np.zeros(s.n_sources))]', lambda i: [pair_eq(), pair_eq(), pair_eq()], drive=drive, variants=VAR[:1], samples=6,
     stubs=CTOR + EVOL + STR)
