"""The mathematics of the contracts: definitions over SI magnitudes, one binary at a time."""
from pyvc.spec import *
from pyvc.stubs import Opaque, ElemContract, FunContract
from pyvc.sym import NODIM, same_axis as sym_same, Unit, SQuantity, as_array, phys, Axis, Sym
from pyvc.engine import E


# --- Kepler, masses
def kepler_a(f, m1, m2):
    return (G * (m1 + m2) / (2 * PI_ * f) ** 2) ** F(1, 3)


def kepler_f(a, m1, m2):
    return (G * (m1 + m2) / a ** 3) ** F(1, 2) / (2 * PI_)


def chirp(m1, m2):
    return (m1 * m2) ** F(3, 5) / (m1 + m2) ** F(1, 5)


def beta(m1, m2):
    return k('64/5') * G ** 3 * m1 * m2 * (m1 + m2) / C ** 5


# --- Peters (1964)
def g_ae(e):
    return e ** F(12, 19) / (1 - e ** 2) * (1 + F(121, 304) * e ** 2) ** F(870, 2299)


def a_of_e(e, c0):
    return c0 * g_ae(e)


def c0(a, e):
    return a / g_ae(e)


def F_e(e):
    return (1 + F(73, 24) * e ** 2 + F(37, 96) * e ** 4) / (1 - e ** 2) ** F(7, 2)


def de_dt(e, b, c0):
    return -F(19, 12) * (b / c0 ** 4) * e ** F(-29, 19) * (1 - e ** 2) ** F(3, 2) \
        / (1 + F(121, 304) * e ** 2) ** F(1181, 2299)


def fn_dot(mc, f, e, n):
    return n * F(48, 5) / PI_ * (G * mc) ** F(5, 3) / C ** 5 * (2 * PI_ * f) ** F(11, 3) * F_e(e)


# --- strains
def jv(n, x):
    return unfun('jv', n, x)


def g_ne(n, e):
    """Peters and Mathews (1963) Eq. 20"""
    x = n * e
    b1 = jv(n - 2, x) - 2 * e * jv(n - 1, x) + 2 / n * jv(n, x) + 2 * e * jv(n + 1, x) - jv(n + 2, x)
    b2 = jv(n - 2, x) - 2 * jv(n, x) + jv(n + 2, x)
    return n ** 4 / 32 * (b1 ** 2 + (1 - e ** 2) * b2 ** 2 + F(4, 3) / n ** 2 * jv(n, x) ** 2)


op_F = Opaque('F', F_e, lambda v, e: [S(1) <= v])
op_g = Opaque('g', g_ne, lambda v, n, e: [S(0) <= v])
PRE_E = lambda e: [S(0) <= e, e < 1]
ElemContract('utils.peters_f', op_F, ('e',), pre=PRE_E)
ElemContract('utils.peters_g', op_g, ('n', 'e'), pre=lambda n, e: [S(1) <= n] + PRE_E(e))


def h0(mc, f, D, g, n):
    """strain from the relative power g of harmonic n"""
    return (S(2) ** F(28, 3) / 5) ** F(1, 2) * (G * mc) ** F(5, 3) / (C ** 4 * D) * (PI_ * f) ** F(2, 3) \
        * g ** F(1, 2) / n


def hc(mc, f, e, D, g, n):
    return (S(2) ** F(5, 3) / (3 * PI_ ** F(4, 3))) ** F(1, 2) * (G * mc) ** F(5, 6) / (C ** F(3, 2) * D) \
        * f ** F(-1, 6) * (g / (n * op_F(e))) ** F(1, 2)


# --- detector response, Cornish & Larson (2003)
def D_plus2(th, ph_):
    return F(3, 2048) * (487 + 158 * cos(th) ** 2 + 7 * cos(th) ** 4
                         - 162 * sin(2 * ph_) ** 2 * (1 + cos(th) ** 2) ** 2)


def D_cross2(th, ph_):
    return F(3, 512) * (120 * sin(th) ** 2 + cos(th) ** 2 + 162 * sin(2 * ph_) ** 2 * cos(th) ** 2)


def D_pc(th, ph_):
    return F(243, 512) * cos(th) * sin(2 * ph_) * (2 * cos(ph_) ** 2 - 1) * (1 + cos(th) ** 2)


def F_plus2(th, ph_, ps):
    return F(1, 4) * (cos(2 * ps) ** 2 * D_plus2(th, ph_) - sin(4 * ps) * D_pc(th, ph_)
                      + sin(2 * ps) ** 2 * D_cross2(th, ph_))


def F_cross2(th, ph_, ps):
    return F(1, 4) * (cos(2 * ps) ** 2 * D_cross2(th, ph_) + sin(4 * ps) * D_pc(th, ph_)
                      + sin(2 * ps) ** 2 * D_plus2(th, ph_))


def amp_mod(lon, lat, pol, inc):
    th = PI_ / 2 - lat
    return F(5, 4) * (((1 + cos(inc) ** 2) / 2) ** 2 * F_plus2(th, lon, pol) + cos(inc) ** 2 * F_cross2(th, lon, pol))


# --- merger times, Peters (1964) Eqs. 5.10, 5.14 and the two limits after it
def t_circ(a, b):
    return a ** 4 / (4 * b)


def t_integrand(x):
    return x ** F(29, 19) * (1 + F(121, 304) * x ** 2) ** F(1181, 2299) / (1 - x ** 2) ** F(3, 2)


FIT = ['-1203.17749', '5672.11219', '-11393.5479', '12730.6422', '-8662.81737', '3694.47796', '-979.864734', '154.873214',
       '-13.2267683', '0.532494018', '0.993382093']


def fit_factor(e):
    """Mandel (2021) fit with the package's polynomial correction"""
    corr = S(0)
    for j, c in enumerate(FIT):
        corr = corr + k(c) * e ** (len(FIT) - 1 - j)
    return (1 + k('0.27') * e ** 10 + k('0.33') * e ** 20 + k('0.2') * e ** 1000) * (1 - e ** 2) ** F(7, 2) / corr


def integral(f, a, b):
    a, b = S(a).t, S(b).t
    return Sym(bind('int', 'R', lambda w: (TRUE, S(f(Sym(w, 'f'))).t, a, b), flags='u'), 'f')


def ode(rhs, y0, t0, t1):
    """y(t1) of dy/dt = rhs(y), y(t0) = y0"""
    y0, t0, t1 = S(y0).t, S(t0).t, S(t1).t
    return Sym(bind('ode', 'R', lambda w: (TRUE, S(rhs(Sym(w, 'f'))).t, y0, t0, t1), flags='u'), 'f')


def largest(n, f, cond):
    """largest f(i) over i = 0..n-1 with cond(i)"""
    n = S(n).t
    return Sym(bind('max', n, lambda v: (bt(cond(Sym(v, 'i'))), S(f(Sym(v, 'i'))).t)), 'f')


def t_merge(e, a, b, exact=True, s=F(3, 20), l=1 - F(1, 10000)):
    c = c0(a, e)
    small = c ** 4 / (4 * b) * e ** F(48, 19)
    large = small * F(768, 425) * (1 - e ** 2) ** F(-1, 2) * (1 + F(121, 304) * e ** 2) ** F(3480, 2299)
    mid = F(12, 19) * c ** 4 / b * integral(t_integrand, 0, e) if exact else t_circ(a, b) * fit_factor(e)
    return where(ceq(e, 0), t_circ(a, b), where(e < s, small, where(e > l, large, mid)))


# --- callee contracts of the Kepler and inspiral functions (proved under C01-C04)
_pos = lambda v, *a: [S(0) < v]
_dom = lambda *a: [S(0) < x for x in a]
_ecc = lambda e: [S(0) < e, e < 1]
op_beta = Opaque('beta', beta, _pos)
op_c0 = Opaque('c0', c0, _pos)
op_ka = Opaque('kepler_a', kepler_a, _pos)
op_kf = Opaque('kepler_f', kepler_f, _pos)
op_mc = Opaque('chirp', chirp, _pos)
op_dedt = Opaque('dedt', de_dt)
ElemContract('utils.beta', op_beta, ('m_1', 'm_2'), pre=_dom, dims=dict(m_1='kg', m_2='kg'), out='m4/s')
ElemContract('utils.chirp_mass', op_mc, ('m_1', 'm_2'), pre=_dom, dims=dict(m_1='kg', m_2='kg'), out='Msun')
ElemContract('utils.c_0', op_c0, ('a_i', 'ecc_i'), pre=lambda a, e: [S(0) < a] + _ecc(e), dims=dict(a_i='m'), out='?m')
ElemContract('utils.get_a_from_f_orb', op_ka, ('f_orb', 'm_1', 'm_2'), pre=_dom, dims=dict(f_orb='Hz', m_1='kg', m_2='kg'), out='AU')
ElemContract('utils.get_f_orb_from_a', op_kf, ('a', 'm_1', 'm_2'), pre=_dom, dims=dict(a='m', m_1='kg', m_2='kg'), out='Hz')
op_ae = Opaque('a_of_e', a_of_e, lambda v, *a: [S(0) <= v])
# the equation is used for every value of the integrated eccentricity (C03 proves it for 0 <= e < 1, and the exact
# solution of the equation stays there)
ElemContract('utils.get_a_from_ecc', op_ae, ('ecc', 'c_0'), dims=dict(c_0='m'), out='AU')
ElemContract('evol.de_dt', op_dedt, ('e', 'beta', 'c_0'), pre=lambda e, b, c: _ecc(e) + _dom(b, c), ignore=('times',))


# --- callee contract of get_t_merge_ecc (proved under C05): used by the callers that only need "the merger time"
op_tm = Opaque('t_merge', lambda e, a, b: t_merge(e, a, b, True), lambda v, e, a, b: [S(0) <= v])
op_tf = Opaque('t_merge_fit', lambda e, a, b: t_merge(e, a, b, False), lambda v, e, a, b: [S(0) <= v])


def _t_merge_contract(a):
    from pyvc.sym import SQuantity, SArray, Sym as Sy, phys as ph_, coerce
    from pyvc.engine import E
    if a['small_e_tol'] != 0.15 or a['large_e_tol'] != 1 - 1e-4 or a['exact'] not in (True, False):
        return NotImplemented

    def get(name, dim):
        x = a[name]
        x = coerce(x) if x is not None and not isinstance(x, (list, tuple)) else None
        if x is None:
            return None
        if tuple(x.unit.dims if isinstance(x, SQuantity) else NODIM) != tuple(dims(dim).dims if dim else NODIM):
            return None
        return x
    e, b, s, f = get('ecc_i', None), get('beta', 'm4/s'), get('a_i', 'm'), get('f_orb_i', 'Hz')
    m1, m2 = get('m_1', 'kg'), get('m_2', 'kg')
    if e is None or isinstance(e, SQuantity):
        return NotImplemented
    for x, given in ((b, a['beta']), (s, a['a_i']), (f, a['f_orb_i']), (m1, a['m_1']), (m2, a['m_2'])):
        if x is None and given is not None:
            return NotImplemented
    if b is None:
        if m1 is None or m2 is None:
            return NotImplemented
        b = emap(op_beta, m1, m2, unit='m4/s')
    if s is None:
        if f is None or m1 is None or m2 is None:
            return NotImplemented
        s = emap(op_ka, f, m1, m2, unit='m')
    x = [ph_(e), ph_(s), ph_(b)]
    nd = [0 if isinstance(y, Sy) else len(y.axes) for y in x]
    if not (nd == [0, 0, 0] or nd == [1, 1, 1] and all(sym_same(x[0].axes[0], y.axes[0]) for y in x[1:])):
        return NotImplemented
    ok = elementwise_goal(lambda p, q, r: band(*[c.t for c in PRE_E(Sym(p, 'f')) + [S(0) < Sym(q, 'f'), S(0) < Sym(r, 'f')]]), *x)
    if not E.entails(ok):
        return NotImplemented
    op = op_tm if a['exact'] is True else op_tf
    r = emap(lambda *y: op(*y), *x, unit='s')
    return r.to(UNITS['Gyr'])


FunContract('evol.get_t_merge_ecc', _t_merge_contract)


# --- Galactic confusion noise
def nearest_length(T, lengths, f):
    """f(j) for the tabulated mission length j (years) nearest to T; halfway lengths are left open"""
    mids = [F(str((a + b) / 2)) * YR for a, b in zip(lengths, lengths[1:])]
    r = f(len(lengths) - 1)
    for j in reversed(range(len(mids))):
        r = where(T < mids[j], f(j), r)
    return unless(lor(*[ceq(T, q) for q in mids]), r)


ROBSON = dict(alpha=['0.133', '0.171', '0.165', '0.138'], beta=['243', '292', '299', '-221'], kappa=['482', '1020', '611', '521'],
              gamma=['917', '1680', '1340', '1680'], fk=['2.58e-3', '2.15e-3', '1.73e-3', '1.13e-3'])


def cn_robson(f, T):
    """Robson et al. (2019) Eq. 14 and Table 1"""
    def fit(j):
        a, b, kp, g, fk = [k(ROBSON[n][j]) for n in ('alpha', 'beta', 'kappa', 'gamma', 'fk')]
        x = g * (fk - f)   # 1 + tanh(x) = 2 e^2x / (1 + e^2x): one exponential, so that no double overflows
        return k('9e-45') * f ** F(-7, 3) * 2 * exp(-f ** a + b * f * sin(kp * f) + 2 * x) / (1 + exp(2 * x))
    return nearest_length(T, [0.5, 1, 2, 4], fit)


HUANG = [['-18.6', '-18.6', '-18.6', '-18.6', '-18.6'], ['-1.22', '-1.13', '-1.45', '-1.43', '-1.51'],
         ['0.009', '-0.945', '0.315', '-0.687', '-0.71'], ['-1.87', '-1.02', '-1.19', '0.24', '-1.13'],
         ['0.65', '4.05', '-4.48', '-0.15', '-0.83'], ['3.6', '-4.5', '10.8', '-1.8', '13.2'],
         ['-4.6', '-0.5', '-9.4', '-3.2', '-19.1']]


def log10(x):
    return log(x) / log(S(10))


def cn_huang(f, T):
    """Huang et al. (2020) Table II, zero outside [1e-4, 1] Hz"""
    x = log10(f / k('1e-3'))

    def fit(j):
        p = S(0)
        for i, row in enumerate(HUANG):
            p = p + k(row[j]) * x ** i
        return exp(2 * p * log(S(10)))
    return nearest_length(T, [0.5, 1, 2, 4, 5], lambda j: where(lor(f < k('1e-4'), S(1) < f), 0, fit(j)))


THIELE = ['-540.315450', '-554.061115', '-233.748834', '-44.021504', '-3.112634']


def cn_thiele(f):
    """Thiele et al. (2021) Eq. 16 and Table 1, four years"""
    x = log10(f)
    p = S(0)
    for i, c in enumerate(THIELE):
        p = p + k(c) * x ** i
    return exp(p * log(S(10))) * 4 * YR


def cn_karnesis(f, T):
    """Karnesis et al. (2021) Eqs. 6 and 7, Table II column 4"""
    t = T / YR
    f1 = t ** F(-15, 100) * S(10) ** F(-272, 100)
    fk = t ** F(-37, 100) * S(10) ** F(-249, 100)
    return k('1.15e-44') / 2 * f ** F(-7, 3) * exp(-(f / f1) ** F(156, 100)) * (1 + tanh((fk - f) / k('0.00067')))


# --- callee contracts of the confusion noise models (proved under C14)
op_cnr = Opaque('cn_robson', cn_robson, lambda v, *a: [S(0) <= v])
op_cnh = Opaque('cn_huang', cn_huang, lambda v, *a: [S(0) <= v])
op_cnk = Opaque('cn_karnesis', cn_karnesis, lambda v, *a: [S(0) <= v])
op_cnt = Opaque('cn_thiele', cn_thiele, _pos)
for _n, _o in (('robson19', op_cnr), ('huang20', op_cnh), ('karnesis21', op_cnk)):
    ElemContract('psd.get_confusion_noise_' + _n, _o, ('f', 't_obs'), pre=_dom, dims=dict(f='Hz', t_obs='s'), out='/Hz')
ElemContract('psd.get_confusion_noise_thiele21', op_cnt, ('f',), pre=_dom, dims=dict(f='Hz'), out='/Hz')


# --- LISA response function: cubic spline through the table of Robson et al. (2019), their Eq. 9 above its end
def r_table():
    n = var('\u00a7nR', 'ip')
    return n, bind('table', n, lambda v: (TRUE, tfn('\u00a7R', ZERO, v), tfn('\u00a7R', ONE, v)))


def r_last():
    n, _ = r_table()
    return Sym(tfn('\u00a7R', ZERO, sub(n, ONE)), 'f')


def R_approx(x):
    return k('3/10') / (1 + k('0.6') * x ** 2)


def R_spline(x):
    return Sym(tfn('splev:0:0:3', S(x).t, r_table()[1], ZERO), 'f')


def R_response(x):
    """response at x = f / f*"""
    return where(x <= r_last(), R_spline(x), R_approx(x))


def data_facts(E):
    """facts about the tabulated response, checked on the file itself by C13/response_table"""
    E.facts.fn('\u00a7R', lambda i, j: [lt(ZERO, tfn('\u00a7R', i, j))])

    def spl(x, tab, s):
        n, t = r_table()
        if tab is t and s is ZERO:
            return [implies(band(lt(ZERO, x), le(x, r_last().t)), lt(ZERO, tfn('splev:0:0:3', x, tab, s)))]
        return []
    E.facts.fn('splev:0:0:3', spl)


def lisa(f, L, cn, approx=False):
    """Robson et al. (2019) Eq. 12 with 2 (1 + cos^2(f/f*)) P_acc"""
    x = f * 2 * PI_ * L / C
    poms = k('1.5e-11') ** 2 * (1 + (k('2e-3') / f) ** 4)
    pacc = k('3e-15') ** 2 * (1 + (k('0.4e-3') / f) ** 2) * (1 + (f / k('8e-3')) ** 4)
    R = R_approx(x) if approx else R_response(x)
    v = (poms + 2 * (1 + cos(x) ** 2) * pacc / (2 * PI_ * f) ** 4) / (L ** 2 * R) + cn
    return where(land(k('1e-7') <= f, f <= 2), v, INF_)


def tianqin(f, L, cn):
    """Huang et al. (2020) Eq. 13 times 10/3"""
    Sa, Sx = k('1e-30'), k('1e-24')
    x = f * 2 * PI_ * L / C
    return F(10, 3) / L ** 2 * (4 * Sa / (2 * PI_ * f) ** 4 * (1 + k('1e-4') / f) + Sx) * (1 + k('0.6') * x ** 2) + cn


def decigo(f, cn, lo=k('1e-3'), hi=S(100)):
    """Yagi and Seto (2011), erratum (2017)"""
    y = 1 + (f / k('7.36')) ** 2
    v = k('6.53e-48') * y + k('4.8e-51') / f ** 4 / y + k('5.33e-52') / f ** 4 + cn
    return where(land(S(lo) <= f, f <= S(hi)), v, INF_)


# --- callee contract of the strain functions (proved under C10, C11)
op_h0 = Opaque('h0', h0, lambda v, *a: [S(0) <= v])
op_hc = Opaque('hc', hc, lambda v, *a: [S(0) <= v])
op_am = Opaque('amp_mod', amp_mod, lambda v, *a: [S(0) <= v])


def exact(x, want):
    """shim value with exactly these dimensions, else None"""
    from pyvc.sym import coerce
    if x is None or isinstance(x, (list, tuple, str, bool)) or callable(x):
        return None
    try:
        x = coerce(x)
    except TypeError:
        return None
    if isinstance(x, Unit) or x is None:
        return None
    have = x.unit.dims if isinstance(x, SQuantity) else NODIM
    return x if tuple(have) == tuple(dims(want).dims if want else NODIM) else None


def holds_for_all(rel, *xs):
    return E.entails(elementwise_goal(rel, *xs))


def _strain_contract(kind):
    def f(a):
        mc, f_, D = exact(a['m_c'], 'kg'), exact(a['f_orb'], 'Hz'), exact(a['dist'], 'm')
        if isinstance(a['n'], list):
            from pyvc.npshim import np as NP_
            a = dict(a, n=NP_.array(a['n']))
        e, n = exact(a['ecc'], None), exact(a['n'], None)
        if any(x is None for x in (mc, f_, D, e, n)) or isinstance(e, SQuantity) or isinstance(n, SQuantity):
            return NotImplemented
        mc, f_, D, e, n = [as_array(phys(x)) for x in (mc, f_, D, e, n)]
        if any(len(x.axes) > 1 for x in (mc, D, n)) or len(mc.axes) != 1 or len(D.axes) != 1 \
                or any(len(x.axes) not in (1, 2) for x in (f_, e)):
            return NotImplemented
        X = mc.axes[0]
        if not all(sym_same(x.axes[0], X) for x in (f_, e, D)):
            return NotImplemented
        Ys = [x.axes[1] for x in (f_, e) if len(x.axes) == 2]
        Y = Ys[0] if Ys else Axis()
        if len(Ys) == 2 and not sym_same(*Ys):
            return NotImplemented
        if not (holds_for_all(lambda v: le(ONE, v), n) and holds_for_all(lambda v: band(le(ZERO, v), lt(v, ONE)), e)
                and all(holds_for_all(lambda v: lt(ZERO, v), x) for x in (mc, f_, D))):
            return NotImplemented
        if not n.axes:
            n0 = n
            n = as_array(phys(array([Axis()], lambda z: at(n0))))
            if len(n.axes) != 1:
                return NotImplemented
        gi = a['interpolated_g']
        pos, pol, inc = a['position'], a['polarisation'], a['inclination']
        Z = n.axes[0] if n.axes else Axis()

        def xy(v, x, y):
            return at(v, x, y) if len(v.axes) == 2 else at(v, x)

        if gi is None:
            g = lambda nn, ee, x, y, z: op_g(nn, ee)
        else:
            from pyvc.npshim import np as NP_
            e3 = NP_.asarray(e if len(e.axes) == 2 else e[:, None])[..., None]
            gv = gi(n[None, None, :] if n.axes else n, e3)
            g = lambda nn, ee, x, y, z: where(at(gv, x, y if len(e.axes) == 2 else (), z) < 0, 0,
                                              at(gv, x, y if len(e.axes) == 2 else (), z))

        def elem(x, y, z):
            nn = at(n, z) if n.axes else at(n)
            ee, ff = xy(e, x, y), xy(f_, x, y)
            gg = g(nn, ee, x, y, z)
            h = op_h0(at(mc, x), ff, at(D, x), gg, nn) if kind == 'h0' else op_hc(at(mc, x), ff, ee, at(D, x), gg, nn)
            if pos is not None:
                one = lambda v: at(v, x) if ndim(v) else at(v)
                h = h * op_am(one(pos.lon), one(pos.lat), one(pol), one(inc)) ** F(1, 2)
            return h
        if pos is not None and (exact(pol, 'rad') is None or exact(inc, 'rad') is None):
            return NotImplemented
        return array([X, Y, Z], elem)
    return f


FunContract('strain.h_0_n', _strain_contract('h0'))
FunContract('strain.h_c_n', _strain_contract('hc'))


# --- callee contract of power_spectral_density (proved under C15)
NOISE = {}
_OPS = dict(robson19=op_cnr, huang20=op_cnh, karnesis21=op_cnk)
AUTO = {'LISA': (4 * YR, 'karnesis21', S(F(5, 2) * 10 ** 9)), 'TianQin': (5 * YR, 'huang20', S(3) ** F(1, 2) * 10 ** 8),
        'DECIGO': (4 * YR, 'karnesis21', S(1))}


def _curve(inst, cn, ap):
    def v(f, T, L):
        c = _OPS[cn](f, T) if cn else S(0)
        return lisa(f, L, c, ap) if inst == 'LISA' else tianqin(f, L, c) if inst == 'TianQin' else decigo(f, c)
    return v


for _i in AUTO:
    for _c in list(_OPS) + [None]:
        for _a in (False, True):
            NOISE[_i, _c, _a] = Opaque('psd_%s_%s_%d' % (_i, _c, _a), _curve(_i, _c, _a), _pos)


def noise(f, T=None, inst='LISA', L=None, cn='auto', ap=False):
    """spectral density of an instrument at one frequency, for these options"""
    t0, c0_, l0 = AUTO[inst]
    return NOISE[inst, c0_ if cn == 'auto' else cn, ap](f, S(t0) if T is None else T,
                                                        l0 if L is None or inst == 'DECIGO' else L)


def _psd_contract(a):
    inst, cn, ap, L, T = a['instrument'], a['confusion_noise'], a['approximate_R'], a['L'], a['t_obs']
    if inst not in AUTO or not (cn is None or isinstance(cn, str)) or ap not in (False, True):
        return NotImplemented
    if cn != 'auto' and cn is not None and cn not in _OPS:
        return NotImplemented
    f = exact(a['f'], 'Hz')
    if f is None:
        return NotImplemented
    if isinstance(T, str) and T == 'auto':
        T = None
    else:
        T = exact(T, 's')
        if T is None or ndim(T):
            return NotImplemented
        T = at(T)
        if not E.entails(lt(ZERO, T.t)):
            return NotImplemented
    if isinstance(L, str) and L == 'auto':
        L = None
    elif inst == 'DECIGO':
        L = None
    else:
        L = exact(L, 'm')
        if L is None or ndim(L):
            return NotImplemented
        L = at(L)
        if not E.entails(lt(ZERO, L.t)):
            return NotImplemented
    if inst == 'TianQin' and not holds_for_all(lambda v: lt(ZERO, v), f):
        return NotImplemented
    return emap(lambda v: noise(v, T, inst, L, cn, ap), f, unit='s').to(UNITS['Hz'].pow(-1))


FunContract('psd.power_spectral_density', _psd_contract)


# --- callee contracts of the evolution (proved under C05, C07, C09), one binary and one time step at a time
def f_circ(f0, m1, m2, t):
    a4 = op_ka(f0, m1, m2) ** 4 - 4 * op_beta(m1, m2) * t
    return where(S(0) < a4, op_kf(a4 ** F(1, 4), m1, m2), 100)


op_tc = Opaque('t_circ', lambda f, m1, m2: t_circ(op_ka(f, m1, m2), op_beta(m1, m2)), _pos)
op_fcirc = Opaque('f_circ', f_circ, lambda v, f0, m1, m2, t: [S(0) < v] + ([ceq(v, f0)] if t.t is ZERO else []))


def e_evol(e0, f0, m1, m2, te, n, tb, tm, y):
    """eccentricity at step y of n, clamped to the last step that is at least tb before the merger"""
    times = lambda j: te * j / (n - 1)
    close = lambda j: land(lnot(ceq(j, 0)), tm - tb <= times(j))
    last = largest(n, times, lambda j: lnot(close(j)))
    t = where(close(y), last, times(y))
    b, c = op_beta(m1, m2), op_c0(op_ka(f0, m1, m2), e0)
    r = ode(lambda e: op_dedt(e, b, c), e0, 0, t)
    return where(isnan_(r), 0, r)


def f_evol(e0, f0, m1, m2, te, n, tb, tm, y):
    a = op_ae(op_ee(e0, f0, m1, m2, te, n, tb, tm, y), op_c0(op_ka(f0, m1, m2), e0))
    return where(ceq(a, 0), 100, op_kf(a, m1, m2))


# an eccentric binary starts eccentric; the exact solution stays between zero and its initial value
op_ee = Opaque('e_evol', e_evol, lambda v, *a: [S(0) <= v, v < 1] + ([S(0) < v] if a[-1].t is ZERO else []))
op_fe = Opaque('f_evol', f_evol, _pos)


def e_free(e0, f0, m1, m2, t):
    """eccentricity after the time t (no cut before the merger)"""
    b, c = op_beta(m1, m2), op_c0(op_ka(f0, m1, m2), e0)
    r = ode(lambda e: op_dedt(e, b, c), e0, 0, t)
    return where(isnan_(r), 0, r)


def f_free(e0, f0, m1, m2, t):
    a = op_ae(op_e0(e0, f0, m1, m2, t), op_c0(op_ka(f0, m1, m2), e0))
    return where(ceq(a, 0), 100, op_kf(a, m1, m2))


op_e0 = Opaque('e_free', e_free, lambda v, *a: [S(0) <= v, v < 1] + ([S(0) < v] if a[-1].t is ZERO else []))
op_f0 = Opaque('f_free', f_free, _pos)
ElemContract('evol.get_t_merge_circ', op_tc, ('f_orb_i', 'm_1', 'm_2'), pre=_dom, dims=dict(f_orb_i='Hz', m_1='kg', m_2='kg'),
             out='Gyr', ignore_none=('beta', 'a_i'))


def _rows(a, *names):
    """the per-binary arguments as one-dimensional arrays over one axis, or None"""
    out = []
    for nm, dm in names:
        x = exact(a[nm], dm)
        if x is None or isinstance(phys(x), Sym) or len(phys(x).axes) != 1:
            return None
        out.append(x)
    if not all(sym_same(phys(x).axes[0], phys(out[0]).axes[0]) for x in out[1:]):
        return None
    return out


def _steps(a, X):
    """(end time of each binary, number of steps) or None"""
    te = exact(a['t_evol'], 's')
    if te is None or a['timesteps'] is not None or ndim(te) > 1 or ndim(te) == 1 and not sym_same(axis(te), X):
        return None
    if not holds_for_all(lambda v: le(ZERO, v), te):
        return None
    n = Sym(num(a['n_step']), 'i') if type(a['n_step']) is int else S(a['n_step'])
    if n.kind != 'i' or not E.entails(le(num(2), n.t)):
        return None
    return (lambda x: at(te, x) if ndim(te) else at(te)), n


def _evol_circ_contract(a):
    if a['beta'] is not None or a['a_i'] is not None or a['output_vars'] not in ('f_orb', ['f_orb']):
        return NotImplemented
    r = _rows(a, ('f_orb_i', 'Hz'), ('m_1', 'kg'), ('m_2', 'kg'))
    if r is None or not holds_for_all(lambda *v: band(*[lt(ZERO, x) for x in v]), *r):
        return NotImplemented
    f, m1, m2 = r
    X = axis(f)
    s = _steps(a, X)
    if s is None:
        return NotImplemented
    te, n = s
    Y = Axis((n.t,))
    v = array([X, Y], lambda x, y: op_fcirc(at(f, x), at(m1, x), at(m2, x), te(x) * Sym(y[0], 'i') / (n - 1)))
    return quantity(v, 'Hz')


def _evol_ecc_contract(a):
    if a['beta'] is not None or a['a_i'] is not None or a['output_vars'] != ['ecc', 'f_orb'] or a['avoid_merger'] not in (True, False):
        return NotImplemented
    if a['avoid_merger'] is False:
        r = _rows(a, ('ecc_i', None), ('f_orb_i', 'Hz'), ('m_1', 'kg'), ('m_2', 'kg'))
        if r is None or isinstance(r[0], SQuantity):
            return NotImplemented
        if not holds_for_all(lambda *v: band(*[lt(ZERO, x) for x in v]), *r) or not holds_for_all(lambda e: lt(e, ONE), r[0]):
            return NotImplemented
        e, f, m1, m2 = r
        X = axis(f)
        s = _steps(a, X)
        if s is None:
            return NotImplemented
        te, n = s
        Y = Axis((n.t,))
        args = lambda x, y: (at(e, x), at(f, x), at(m1, x), at(m2, x), te(x) * Sym(y[0], 'i') / (n - 1))
        return [array([X, Y], lambda x, y: op_e0(*args(x, y))), quantity(array([X, Y], lambda x, y: op_f0(*args(x, y))), 'Hz')]
    r = _rows(a, ('ecc_i', None), ('f_orb_i', 'Hz'), ('m_1', 'kg'), ('m_2', 'kg'), ('t_merge', 's'))
    if r is None or isinstance(r[0], SQuantity):
        return NotImplemented
    if not holds_for_all(lambda *v: band(*[lt(ZERO, x) for x in v]), *r) or not holds_for_all(lambda e: lt(e, ONE), r[0]):
        return NotImplemented
    e, f, m1, m2, tm = r
    X = axis(f)
    s = _steps(a, X)
    tb = exact(a['t_before'], 's')
    if s is None or tb is None or ndim(tb):
        return NotImplemented
    te, n = s
    Y = Axis((n.t,))
    args = lambda x, y: (at(e, x), at(f, x), at(m1, x), at(m2, x), te(x), n, at(tb), at(tm, x), Sym(y[0], 'i'))
    return [array([X, Y], lambda x, y: op_ee(*args(x, y))), quantity(array([X, Y], lambda x, y: op_fe(*args(x, y))), 'Hz')]


FunContract('evol.evol_circ', _evol_circ_contract)
FunContract('evol.evol_ecc', _evol_ecc_contract)
