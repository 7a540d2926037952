"""State and callee contracts for the Source class (C20 - C27)."""
from pyvc.stubs import FunContract
from pyvc.inputs import In, Dom, Sky, Call
from pyvc.spec import *
from pyvc.engine import E, Unsupported
from pyvc.sym import SArray
from . import defs as d

FS = Sym(var('\u00a7F', 'p'), 'f')
NS, ES = Sym(var('\u00a7n', 'p'), 'f'), Sym(var('\u00a7e'), 'f')
DEFAULTS = dict(instrument='LISA', custom_psd=None, t_obs='auto', L='auto', approximate_R=False, confusion_noise='auto')
AUTO_T = {'LISA': 4, 'TianQin': 5, 'DECIGO': 4}
AUTO_CN = {'LISA': 'karnesis21', 'TianQin': 'huang20', 'DECIGO': 'karnesis21'}


def vname(x):
    return getattr(x, 'vname', None) or getattr(x, '__name__', None) or str(x)


def noise(F_, o):
    """value of the noise curve asked for with the options o, at the frequency F_"""
    inst = o['instrument']
    if not isinstance(inst, str):
        raise Unsupported('instrument is not a string')
    if inst == 'custom':
        inst = 'custom[%s]' % vname(o['custom_psd'])
    t = o['t_obs']
    if isinstance(t, str):
        if inst not in AUTO_T:
            raise Unsupported('unresolved t_obs')
        t = S(AUTO_T[inst] * YR)
    else:
        t = at(t)
    L = o['L']
    if isinstance(L, str) or L is None:
        lt, L = str(L), S(0)
    else:
        lt, L = 'L', at(L)
    cn = o['confusion_noise']
    if cn == 'auto' if isinstance(cn, str) else False:
        cn = AUTO_CN.get(inst, 'auto')
    cn = cn if isinstance(cn, str) else 'none' if cn is None else vname(cn)
    ar = o['approximate_R']
    if isinstance(ar, Sym) and ar.t in (TRUE, FALSE):
        ar = ar.t is TRUE
    ar = bool(ar) if isinstance(ar, (bool, int)) else 'sym'
    return unfun('cb_nz;%s;%s;%s;%s' % (inst, lt, ar, cn), F_, t, L)


# ---------------------------------------------------------------- constructor helpers
def _harmonics(a):
    s = a['self']
    tol = S(s._gw_lum_tol)
    s.harmonics_required = lambda e: emap(lambda v: unfun('cb_hreq', v, tol), e, kind='i')
    s.max_strain_harmonic = lambda e: emap(lambda v: unfun('cb_msh', v, tol), e, kind='i')


def _transition(a):
    s = a['self']
    s._ecc_tol = unfun('cb_ecc_tol', S(s._gw_lum_tol))


def _set_sc(a):
    s = a['self']
    if s.interpolate_sc and not (s.sc_params['instrument'] == 'custom' and s.sc_params['custom_psd'] is None):
        o = {k: s.sc_params[k] for k in DEFAULTS}
        noise(FS, o) if not isinstance(o['t_obs'], str) else None

        def sc(f):
            if not isinstance(f, SQuantity) or tuple(f.unit.dims) != tuple(dims('Hz').dims):
                raise Unsupported('sensitivity curve evaluated at %s' % type(f).__name__)
            return emap(lambda v: noise(v, dict(o, t_obs=o['t_obs'] if not isinstance(o['t_obs'], str) or o['instrument'] in AUTO_T
                                                else quantity(S(5 * YR), 's'))), f, unit='s')
        s.sc = sc
    else:
        s.sc = None
    E.events.append('set_sc')


FunContract('source.Source.create_harmonics_functions', _harmonics)
FunContract('source.Source.find_eccentric_transition', _transition)
FunContract('source.Source.set_sc', _set_sc)
CTOR = ('source.Source.create_harmonics_functions', 'source.Source.find_eccentric_transition')


def facts(world, most=10000):
    E.facts.fn('cb_hreq', lambda e, tol: [le(num(2), tfn('cb_hreq', e, tol)), le(tfn('cb_hreq', e, tol), num(most))])
    E.facts.fn('cb_ecc_tol', lambda tol: [lt(ZERO, tfn('cb_ecc_tol', tol)), le(tfn('cb_ecc_tol', tol), num(F(1, 5)))])


def few(world):
    """sources that need at most 100 harmonics (two of the groups of the code)"""
    facts(world, 100)


# ---------------------------------------------------------------- the four SNR methods, as opaque functions of one source
def g_sig(g):
    if g is None:
        return S(0)
    v = g(NS, ES)
    return S(at(v) if not isinstance(v, Sym) else v)


def noise_sig(a):
    sc = a.get('interpolated_sc')
    kw = dict(a.get('kwargs') or {})
    kw.update({k: a[k] for k in DEFAULTS if k in a})
    extra = set(kw) - set(DEFAULTS)
    if extra:
        raise Unsupported('options %s' % sorted(extra))
    if sc is not None:
        v = sc(quantity(FS, 'Hz'))
        return S(at(v))
    o = dict(DEFAULTS, L=None)          # the defaults of psd.power_spectral_density
    o.update(kw)
    if not isinstance(o['L'], str) and o['L'] is None:
        o['L'] = 'auto'
    return noise(FS, o)


def opt(x):
    return [] if x is None else [x]


def t_(x):
    return S(at(x)) if not isinstance(x, (int, float)) else S(F(x))


def sig(a):
    if a['t_obs'] is None or isinstance(a['t_obs'], str):
        raise Unsupported('observation time not resolved')
    return t_(a['t_obs']), noise_sig(a), g_sig(a.get('interpolated_g'))


def circ_stat(mc, f, D, t, nz, gs, am):
    ams = [] if am is None else [am]
    return emap(lambda m, f, D, *am: unfun('cb_sn_cs%d' % len(am), m, f, D, t, nz, gs, *am), mc, f, D, *ams)


def ecc_stat(mc, f, D, e, t, nz, gs, what=''):
    return emap(lambda m, f, D, e: unfun('cb_sn_es' + what, m, f, D, e, t, nz, gs), mc, f, D, e, kind='i' if what else 'f')


def circ_evol(m1, m2, f, D, t, n, nz, gs, tm):
    tms = [] if tm is None else [tm]
    return emap(lambda a, b, f, D, *tm: unfun('cb_sn_ce%d' % len(tm), a, b, f, D, t, n, nz, gs, *tm), m1, m2, f, D, *tms)


def ecc_evol(m1, m2, f, D, e, t, n, nz, gs, what=''):
    return emap(lambda a, b, f, D, e: unfun('cb_sn_ee' + what, a, b, f, D, e, t, n, nz, gs), m1, m2, f, D, e,
                kind='i' if what else 'f')


def modulation(pos, pol, inc):
    if pos is None:
        return None
    return emap(lambda a, b, c, q: unfun('cb_am', a, b, c, q), pos.lon, pos.lat, pol, inc)


def enough(e, H, tol):
    """obligation: this many harmonics are enough for every one of these eccentricities"""
    E.asserts.append(elementwise_goal(lambda v: le(tfn('cb_hreq', v, S(tol).t), S(H if isinstance(H, int) else at(H)).t), e))


TOL = {}


def _cs(a):
    t, nz, gs = sig(a)
    return circ_stat(a['m_c'], a['f_orb'], a['dist'], t, nz, gs, modulation(a['position'], a['polarisation'], a['inclination']))


def _es(a):
    t, nz, gs = sig(a)
    if a.get('ret_snr2_by_harmonic'):
        raise Unsupported('snr by harmonic')
    enough(a['ecc'], a['harmonics_required'], TOL['tol'])
    v = ecc_stat(a['m_c'], a['f_orb'], a['dist'], a['ecc'], t, nz, gs)
    if a.get('ret_max_snr_harmonic'):
        return v, ecc_stat(a['m_c'], a['f_orb'], a['dist'], a['ecc'], t, nz, gs, '_dom')
    return v


def _ce(a):
    t, nz, gs = sig(a)
    return circ_evol(a['m_1'], a['m_2'], a['f_orb_i'], a['dist'], t, t_(a['n_step']), nz, gs, a.get('t_merge'))


def _ee(a):
    t, nz, gs = sig(a)
    if a.get('ret_snr2_by_harmonic'):
        raise Unsupported('snr by harmonic')
    enough(a['ecc'], a['harmonics_required'], TOL['tol'])
    v = [a['m_1'], a['m_2'], a['f_orb_i'], a['dist'], a['ecc'], t, t_(a['n_step']), nz, gs]
    if a.get('ret_max_snr_harmonic'):
        return ecc_evol(*v), ecc_evol(*v, '_dom')
    return ecc_evol(*v)


FunContract('snr.snr_circ_stationary', _cs)
FunContract('snr.snr_ecc_stationary', _es)
FunContract('snr.snr_circ_evolving', _ce)
FunContract('snr.snr_ecc_evolving', _ee)


def stationary_(mc, f, e, t, tol):
    return emap(lambda m, f, e: Sym(tbfn('cb_stat', m.t, f.t, e.t, S(t).t, S(tol).t), 'b'), mc, f, e, kind='b')


def _stat(a):
    mc = a['m_c']
    if mc is None:
        mc = emap(d.op_mc, a['m_1'], a['m_2'])
    if a['t_evol'] is None or isinstance(a['t_evol'], str):
        raise Unsupported('observation time not resolved')
    return stationary_(mc, a['f_orb_i'], a['ecc_i'], t_(a['t_evol']), t_num(a['stat_tol']))


def t_num(x):
    return S(x) if isinstance(x, Sym) else S(F(str(x)) if isinstance(x, float) else F(x))


FunContract('evol.determine_stationarity', _stat)
SNRS = ('snr.snr_circ_stationary', 'snr.snr_ecc_stationary', 'snr.snr_circ_evolving', 'snr.snr_ecc_evolving',
        'evol.determine_stationarity', 'utils.chirp_mass')
