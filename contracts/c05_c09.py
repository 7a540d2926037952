"""C05-C09: merger times, circular and eccentric evolution, stationarity."""
from pyvc.runner import Case
from pyvc.inputs import In, Lit, U, Dom, Call
from pyvc.spec import *
from pyvc.inputs import unit_scale
from . import defs as d
import math

CASES = {}


def case(prop, *a, **k):
    CASES.setdefault(prop, []).append(Case(prop + '/' + a[0], *a[1:], **k))


def mass(*ax):
    return In('mass', ax, 'mass')


def freq(*ax):
    return In('frequency', ax, 'f')


def sep(*ax):
    return In('length', ax, 'a', units=['AU', 'km', 'm', 'Rsun'])


def bet(*ax):
    return In('beta', ax, 'beta')


def ecc(*ax, dm='ecc', **k):
    return In(None, ax, dm, **k)


TOL_S = Dom(lo=0, hi=1, rng=(0.05, 0.3), log=False, special=[0.15, 0])
TOL_L = Dom(lo=0, hi=1, rng=(0.4, 0.98), log=False, special=[0.9])
E_WIDE = Dom(lo=0, hi=1, hi_open=True, rng=(0.0, 0.99), log=False, special=[0, 0, 0.1, 0.15, 0.9, 0.9999, 0.99995, 0.001])


def tm_elem(exact=True, s=F(3, 20), l=1 - F(1, 10000)):
    def f(e, a, b, *tols):
        ss, ll = tols if tols else (s, l)
        return d.t_merge(e, a, b, exact, ss, ll)
    return f


def gyr(v):
    return Out(quantity(v, 's'), 'Gyr')


# the ways a binary may be described, giving its separation and beta
WAYS = {
    'beta_a': (lambda *ax: dict(b=bet(*ax), a=sep(*ax)), 'beta=b, a_i=a', lambda i: (i.a, i.b), lambda a, b: (a, b)),
    'm_f': (lambda *ax: dict(m1=mass(*ax), m2=mass(*ax), f=freq(*ax)), 'm_1=m1, m_2=m2, f_orb_i=f',
            lambda i: (i.f, i.m1, i.m2), lambda f, m1, m2: (d.kepler_a(f, m1, m2), d.beta(m1, m2))),
    'm_a': (lambda *ax: dict(m1=mass(*ax), m2=mass(*ax), a=sep(*ax)), 'm_1=m1, m_2=m2, a_i=a',
            lambda i: (i.a, i.m1, i.m2), lambda a, m1, m2: (a, d.beta(m1, m2))),
    'beta_m_f': (lambda *ax: dict(b=bet(*ax), m1=mass(*ax), m2=mass(*ax), f=freq(*ax)),
                 'beta=b, m_1=m1, m_2=m2, f_orb_i=f', lambda i: (i.f, i.m1, i.m2, i.b),
                 lambda f, m1, m2, b: (d.kepler_a(f, m1, m2), b)),
    'beta_m_a': (lambda *ax: dict(b=bet(*ax), m1=mass(*ax), m2=mass(*ax), a=sep(*ax)),
                 'beta=b, m_1=m1, m_2=m2, a_i=a', lambda i: (i.a, i.b), lambda a, b: (a, b)),
    'a_over_f': (lambda *ax: dict(m1=mass(*ax), m2=mass(*ax), a=sep(*ax), f=freq(*ax)),
                 'm_1=m1, m_2=m2, a_i=a, f_orb_i=f', lambda i: (i.a, i.m1, i.m2), lambda a, m1, m2: (a, d.beta(m1, m2))),
}

for w, (ins, args, pick, conv) in WAYS.items():
    for nm, ax in (('scalar', ()), ('array', ('N',))):
        def ab(x, conv=conv):
            return conv(*x)
        case('C05', 't_merge_circ.%s.%s' % (w, nm), ins(*ax), 'result = evol.get_t_merge_circ(%s)' % args,
             lambda i, pick=pick, ab=ab: gyr(emap(lambda *x: (lambda a, b: d.t_circ(a, b))(*ab(x)), *pick(i))))
        case('C05', 'check_input.%s.%s' % (w, nm), ins(*ax), 'result = evol.check_mass_freq_input(%s)' % args,
             lambda i, pick=pick, ab=ab: [emap(lambda *x: ab(x)[1], *pick(i), unit='m4/s'),
                                          emap(lambda *x: ab(x)[0], *pick(i), unit='m')])
        for exact in (True, False):
            for tol in ((False, True) if w == 'beta_a' else (False,)):
                def spec(i, pick=pick, ab=ab, exact=exact, tol=tol):
                    xs = list(pick(i))
                    ts = [i.ts, i.tl] if tol else []
                    return gyr(emap(lambda e, *x: tm_elem(exact)(e, *ab(x[:len(xs)]), *x[len(xs):]), i.e, *(xs + ts)))
                I = dict(ins(*ax), e=ecc(*ax, dm=E_WIDE), ex=Lit(exact))
                if tol:
                    I.update(ts=In(None, (), TOL_S, py=True), tl=In(None, (), TOL_L, py=True))
                case('C05', 't_merge_ecc.%s.%s.%s%s' % (w, nm, 'exact' if exact else 'fit', '.tolerances' if tol else ''),
                     I, 'result = evol.get_t_merge_ecc(ecc_i=e, %s, exact=ex%s)' % (
                         args, ', small_e_tol=ts, large_e_tol=tl' if tol else ''), spec,
                     requires=(lambda i: [i.ts <= i.tl]) if tol else None, rtol=1e-6)
case('C05', 't_merge_ecc.python_float', dict(b=bet(), a=sep(), e=ecc(dm=E_WIDE, py=True)),
     'result = evol.get_t_merge_ecc(ecc_i=e, beta=b, a_i=a)', lambda i: gyr(emap(tm_elem(), i.e, i.a, i.b)), rtol=1e-6)


def bad(i):
    raise ValueError


for k_, (I, args) in enumerate([
        (dict(m1=mass(), a=sep()), 'm_1=m1, a_i=a'), (dict(m2=mass(), a=sep()), 'm_2=m2, a_i=a'),
        (dict(a=sep()), 'a_i=a'), (dict(m1=mass(), m2=mass()), 'm_1=m1, m_2=m2'), (dict(b=bet()), 'beta=b'),
        (dict(b=bet(), f=freq()), 'beta=b, f_orb_i=f'), (dict(b=bet(), f=freq(), m1=mass()), 'beta=b, f_orb_i=f, m_1=m1'),
        (dict(b=bet(), f=freq(), m2=mass()), 'beta=b, f_orb_i=f, m_2=m2')]):
    case('C05', 'missing_input.%d' % k_, I, 'result = evol.get_t_merge_circ(%s)' % args, bad)
    case('C05', 'missing_input.ecc.%d' % k_, dict(I, e=ecc()), 'result = evol.get_t_merge_ecc(ecc_i=e, %s)' % args, bad)


# ---------------------------------------------------------------- C06: circular time is an upper bound, fit accuracy
def one_binary(t, keep):
    """the term with everything but the eccentricity set to one"""
    return subst(t, {v: ONE for v in fv(t) if v is not keep and v is not PI})


def bounds(pairs):
    """goals  lo * x <= y  for the named components, decided in the eccentricity alone"""
    from pyvc.ival import by_interval

    def f(got):
        out = []
        for lb, cx, x, cy, y in pairs:
            tx, ty = phys(got[x]), phys(got[y])
            if isinstance(tx, SArray):
                idx = tuple(a.generic() for a in tx.axes)
                tx, ty = tx.at(idx), ty.at(idx)
            else:
                tx, ty = tx.t, ty.t
            es = [v for v in fv(tx) | fv(ty) if v.args[0] == 'in_e']
            if not es:
                out.append((lb, le(mul(num(F(cx)), tx), mul(num(F(cy)), ty))))
                continue
            e = es[0]
            x1, y1 = one_binary(tx, e), one_binary(ty, e)
            out.append((lb + ' (scaling with separation and masses)', eq(mul(tx, y1), mul(ty, x1))))
            g1 = le(mul(num(F(cx)), x1), mul(num(F(cy)), y1))
            out.append((lb, le(mul(num(F(cx)), tx), mul(num(F(cy)), ty)), by_interval(g1, e)))
        return out

    def n(g):
        from pyvc.runner import as_num
        for lb, cx, x, cy, y in pairs:
            a, b = as_num(g['v'][x]), as_num(g['v'][y])
            for p, q in zip(a[1], b[1]):
                if not (F(cx) * F(p) <= F(cy) * F(q) * (1 + F(1, 10 ** 9)) if p == p and q == q else False):
                    return '%s: %r against %r' % (lb, p, q)
    return Pred(f, n)


def nonneg_time(x, ref):
    """component x is nonnegative: it scales like the circular time ref, and is nonnegative at unit scale for every e"""
    from pyvc.ival import by_interval

    def f(got):
        tx, ty = phys(got[x]), phys(got[ref])
        if isinstance(tx, SArray):
            idx = tuple(a.generic() for a in tx.axes)
            tx, ty = tx.at(idx), ty.at(idx)
        else:
            tx, ty = tx.t, ty.t
        out = [(ref + ' >= 0', le(ZERO, ty))]
        ins = {t for z in (tx, ty) for t in walk(z) if t.op in ('fn', 'v') and str(t.args[0]).startswith('in_')}
        es = [t for t in ins if t.args[0] == 'in_e']
        if not es:
            out.append((x + ' >= 0', le(ZERO, tx)))
            return out
        e = var('e1', 'p')
        m = {t: ONE for t in ins}
        m[es[0]] = e
        x1, y1 = one_binary(subst(tx, m), e), one_binary(subst(ty, m), e)
        out.append((x + ' (scaling with separation and masses)', eq(mul(tx, subst(y1, {e: es[0]})), mul(ty, subst(x1, {e: es[0]})))))
        g1 = le(ZERO, x1)
        out.append((x + ' >= 0', le(ZERO, tx), by_interval(g1, e, es[0])))
        return out

    def n(g):
        from pyvc.runner import as_num
        for p in as_num(g['v'][x])[1] + as_num(g['v'][ref])[1]:
            if not p >= 0:
                return '%s is negative: %r' % (x, p)
    return Pred(f, n)


W_LO, W_HI = F(992, 1000), F(9994, 10000)


def e_range(lo, hi, sp=()):
    return Dom(lo=lo, hi=hi, rng=(float(lo), float(hi)), log=False, special=[float(lo), float(hi)] + list(sp))


for ex in (True, False):
    for nm, ax in (('scalar', ()), ('array', ('N',))):
        ins = dict(b=bet(*ax), a=sep(*ax), e=ecc(*ax, dm=E_WIDE), ex=Lit(ex))
        call = "result = {'t': evol.get_t_merge_ecc(ecc_i=e, beta=b, a_i=a, exact=ex), 'c': evol.get_t_merge_circ(beta=b, a_i=a)}"
        if nm == 'scalar':
            case('C06', 'not_longer.%s' % ('exact' if ex else 'fit'), ins, call,
                 lambda i: bounds([('eccentric merger time at most the circular one', 1, 't', 1, 'c')]), samples=40)
        case('C06', 'non_negative.%s.%s' % ('exact' if ex else 'fit', nm), ins, call, lambda i: nonneg_time('t', 'c'),
             samples=24)
for nm, dm, tol in (('general', e_range(F(3, 20), W_LO, [0.5, 0.9, 0.98]), F(1, 100)),
                    ('extreme', e_range(W_HI, F(9999, 10000)), F(1, 100)),
                    ('near_unity', e_range(W_LO, W_HI, [0.997]), F(1, 100)),
                    ('near_unity.3_percent', e_range(W_LO, W_HI), F(3, 100))):
    case('C06', 'fit_accuracy.' + nm, dict(b=bet(), a=sep(), e=ecc(dm=dm)),
         "result = {'fit': evol.get_t_merge_ecc(ecc_i=e, beta=b, a_i=a, exact=False),"
         " 'exact': evol.get_t_merge_ecc(ecc_i=e, beta=b, a_i=a, exact=True)}",
         lambda i, tol=tol: bounds([('fit at most %s above' % float(tol), 1, 'fit', 1 + tol, 'exact'),
                                    ('fit at most %s below' % float(tol), 1 - tol, 'exact', 1, 'fit')]), samples=60)


# ---------------------------------------------------------------- C07: circular evolution
def rescale_times(name, of, merge_frac=1.6):
    """sampling only: times of the order of the merger times of the sampled binaries, increasing from 0"""
    def drive(concs, sizes, rng):
        t = concs[name]
        tm = of(concs)
        m = max(min(tm), 1.0) if rng.random() < 0.5 else max(max(tm), 1.0)
        n = t.shape[-1] if t.shape else 1
        sc = unit_scale(t.unit)
        for r in range(len(t.raw) // n if n else 0):
            x = sorted([rng.uniform(0, merge_frac) for _ in range(n)])
            if n > 1 and rng.random() < 0.8:
                x[0] = 0.0
            for j in range(n):
                t.raw[r * n + j] = x[j] * m / sc
    return drive


def t_merge_num(c):
    """merger times of the sampled circular binaries (numbers)"""
    def one(x, k):
        return x.phys(k if len(x.raw) > 1 else 0)[0]
    n = max(len(x.raw) for k_, x in c.items() if k_ in ('a', 'f', 'b', 'm1'))
    GN, CN, MS = 6.6743e-11, 299792458.0, 1.0
    out = []
    for k_ in range(n):
        if 'm1' in c:
            m1, m2 = one(c['m1'], k_), one(c['m2'], k_)
            b = 64 / 5 * GN ** 3 * m1 * m2 * (m1 + m2) / CN ** 5
        else:
            b = one(c['b'], k_)
        a = one(c['a'], k_) if 'a' in c else (GN * (m1 + m2) / (2 * math.pi * one(c['f'], k_)) ** 2) ** (1 / 3)
        out.append(a ** 4 / 4 / b)
    return out


def inspiral(a, b, t):
    x = a ** 4 - 4 * b * t
    return where(S(0) < x, x ** F(1, 4), 0)


def el(v, x):
    """entry of binary x (scalars: the only one)"""
    return at(v, x) if ndim(v) else at(v)


def circ_a0(i, x):
    return el(i.a, x) if hasattr(i, 'a') else d.kepler_a(el(i.f, x), el(i.m1, x), el(i.m2, x))


def circ_b(i, x):
    return d.beta(el(i.m1, x), el(i.m2, x)) if hasattr(i, 'm1') else el(i.b, x)


def circ_spec(i, times, Y, names):
    """times(x, y): requested time in seconds; Y: axis of the times"""
    ref = i.a if hasattr(i, 'a') else i.f
    single = ndim(ref) == 0
    X = axis(ref)

    def fill(elem, unit, mark=None):
        if single:
            v = array([Y], lambda y: elem((), y))
        else:
            v = array([X, Y], elem)
        return Out(quantity(v, unit), unit)

    def a_t(x, y):
        return inspiral(circ_a0(i, x), circ_b(i, x), times(x, y))

    def f_t(x, y):
        a = a_t(x, y)
        # separations of exactly 1e-30 units (the code's own marker of merged binaries) are left unspecified
        u = S(i.a.unit.scale) if hasattr(i, 'a') else S(UNITS['AU'].scale)
        f = where(ceq(a, 0), 100, d.kepler_f(a, el(i.m1, x), el(i.m2, x)))
        return unless(ceq(a, k('1e-30') * u), f)

    def double(v):
        def g(x, y):
            r = f_t(x, y)
            return unless(Sym(r.t.args[0], 'b'), 2 * Sym(r.t.args[2], 'f'))
        return g
    out = []
    for nm in names:
        out.append({'timesteps': lambda: fill(times, 'yr'), 'a': lambda: fill(a_t, 'AU'), 'f_orb': lambda: fill(f_t, 'Hz'),
                    'f_GW': lambda: fill(double(f_t), 'Hz')}[nm]())
    return out if len(out) > 1 else out[0]


ALL4 = ['timesteps', 'a', 'f_orb', 'f_GW']
for nm, ax in (('single', ()), ('array', ('N',))):
    for nm2, phys_in, args in (('a', dict(a=sep(*ax), m1=mass(*ax), m2=mass(*ax)), 'm_1=m1, m_2=m2, a_i=a'),
                               ('f', dict(f=freq(*ax), m1=mass(*ax), m2=mass(*ax)), 'm_1=m1, m_2=m2, f_orb_i=f')):
        case('C07', 'times_1d.%s.%s' % (nm, nm2), dict(phys_in, t=In('time', ('T',), 'time0')),
             'result = evol.evol_circ(timesteps=t, %s, output_vars=%r)' % (args, ALL4),
             lambda i: circ_spec(i, lambda x, y: at(i.t, y), axis(i.t), ALL4), drive=rescale_times('t', t_merge_num))
    nn = ('N',) if ax else (1,)
    I = dict(a=sep(*ax), m1=mass(*ax), m2=mass(*ax))
    args = 'm_1=m1, m_2=m2, a_i=a'
    case('C07', 'times_2d.' + nm, dict(I, t=In('time', nn + ('T',), 'time0')),
         'result = evol.evol_circ(timesteps=t, %s, output_vars=%r)' % (args, ALL4[::-1]),
         lambda i: circ_spec(i, lambda x, y: at(i.t, x if not axis(i.t).isone else (), y), axis(i.t, 1), ALL4[::-1]),
         drive=rescale_times('t', t_merge_num))

N_STEP = Dom(lo=2, rng=(2, 7), integer=True, special=[2, 100])


def lin(i, end):
    """n_step equally spaced times from 0 to end(x)"""
    n = at(i.n) if hasattr(i, 'n') else S(100)
    return (lambda x, y: end(x) * Sym(y[0], 'i') / (n - 1)), Axis((n.t,))


def t_drive(names, of=t_merge_num):
    def drive(concs, sizes, rng):
        tm = of(concs)
        x = concs[names]
        sc = unit_scale(x.unit)
        for j in range(len(x.raw)):
            x.raw[j] = rng.choice([0.3, 0.9, 1.0, 1.5, 3.0]) * rng.uniform(0.8, 1.2) * tm[j if len(x.raw) == len(tm) else 0] / sc
    return drive


for nm, ax in (('single', ()), ('array', ('N',))):
    I = dict(a=sep(*ax), m1=mass(*ax), m2=mass(*ax), n=In(None, (), N_STEP, py=True))
    args = 'm_1=m1, m_2=m2, a_i=a, n_step=n'

    def end_scalar(i):
        return lin(i, lambda x: at(i.te))
    case('C07', 'one_duration.' + nm, dict(I, te=In('time', (), 'time0')),
         'result = evol.evol_circ(t_evol=te, %s, output_vars=%r)' % (args, ALL4),
         lambda i: circ_spec(i, *lin(i, lambda x: at(i.te)), ALL4), drive=t_drive('te'))
    if ax:
        case('C07', 'duration_per_binary.' + nm, dict(I, te=In('time', ax, 'time0')),
             'result = evol.evol_circ(t_evol=te, %s, output_vars=%r)' % (args, ['f_GW', 'a']),
             lambda i: circ_spec(i, *lin(i, lambda x: at(i.te, x)), ['f_GW', 'a']), drive=t_drive('te'))
        case('C07', 'default_steps', dict(f=freq(*ax), m1=mass(*ax), m2=mass(*ax), te=In('time', ax, 'time0')),
             'result = evol.evol_circ(t_evol=te, f_orb_i=f, m_1=m1, m_2=m2)',
             lambda i: circ_spec(i, *lin(i, lambda x: at(i.te, x)), ['f_orb']), drive=t_drive('te'), samples=6)
    case('C07', 'to_merger.' + nm, I, 'result = evol.evol_circ(%s, output_vars=%r)' % (args, ['a', 'timesteps', 'f_orb']),
         lambda i: circ_spec(i, *lin(i, lambda x: d.t_circ(circ_a0(i, x), circ_b(i, x))), ['a', 'timesteps', 'f_orb']))
    case('C07', 'beta_only.' + nm, dict(a=sep(*ax), b=bet(*ax), t=In('time', ('T',), 'time0')),
         'result = evol.evol_circ(beta=b, a_i=a, timesteps=t, output_vars=%r)' % (['a', 'timesteps'],),
         lambda i: circ_spec(i, lambda x, y: at(i.t, y), axis(i.t), ['a', 'timesteps']),
         drive=rescale_times('t', t_merge_num))
    for var_ in ALL4:
        case('C07', 'one_output.%s.%s' % (var_, nm), dict(a=sep(*ax), m1=mass(*ax), m2=mass(*ax), t=In('time', ('T',), 'time0')),
             'result = evol.evol_circ(m_1=m1, m_2=m2, a_i=a, timesteps=t, output_vars=%r)' % var_,
             lambda i, var_=var_: circ_spec(i, lambda x, y: at(i.t, y), axis(i.t), [var_]),
             drive=rescale_times('t', t_merge_num), samples=6)
    case('C07', 'missing_masses.' + nm, dict(a=sep(*ax), b=bet(*ax), t=In('time', ('T',), 'time0')),
         "result = evol.evol_circ(beta=b, a_i=a, timesteps=t, output_vars=['a', 'f_GW'])", bad, samples=4)
# the closed form composes: evolving for t1 and then for t2 is evolving for t1 + t2 (while not merged)
case('C07', 'composes', dict(b=bet('N'), a=sep('N'), t1=In('time', (), 'time0'), t2=In('time', (), 'time0')),
     "x = evol.evol_circ(t_evol=t1, n_step=2, beta=b, a_i=a, output_vars='a')[:, 1]\n"
     "y = evol.evol_circ(t_evol=t2, n_step=2, beta=b, a_i=x, output_vars='a')[:, 1]\n"
     "z = evol.evol_circ(t_evol=t1 + t2, n_step=2, beta=b, a_i=a, output_vars='a')[:, 1]\n"
     "result = {'lhs': y, 'rhs': z}", lambda i: pair_eq())


# ---------------------------------------------------------------- C08: one-shot frequency and stationarity
def one_shot(f, mc, t, e, merged=10 ** 9):
    x = f ** F(-8, 3) - S(2) ** F(32, 3) * PI_ ** F(8, 3) / 5 * (G * mc) ** F(5, 3) * d.op_F(e) * t / C ** 5
    return x, where(S(0) <= x, x ** F(-3, 8), merged)


def one_shot_spec(i, e=None, merged=None):
    def elem(x):
        y, v = one_shot(at(i.f, x), el(i.mc, x), el(i.t, x), S(0) if e is None else el(e(i), x),
                        at(i.fm) if hasattr(i, 'fm') else 10 ** 9)
        return unless(ceq(y, 0), v)
    return quantity(array([axis(i.f)], elem), 'Hz')


def drift_drive(masses=False):
    """sampling only: durations around the coalescence time"""
    def drive(c, sizes, rng):
        GN, CN = 6.6743e-11, 299792458.0
        t = c['t']
        for j in range(len(t.raw)):
            k_ = j if len(c['f'].raw) > j else 0
            if k_ >= len(c['f'].raw):
                return
            f = c['f'].phys(k_)[0]
            if masses:
                m1, m2 = c['m1'].phys(k_)[0], c['m2'].phys(k_)[0]
                mc = (m1 * m2) ** 0.6 / (m1 + m2) ** 0.2
            else:
                mc = c['mc'].phys(k_)[0]
            tc = f ** (-8 / 3) / (2 ** (32 / 3) * math.pi ** (8 / 3) / 5 * (GN * mc) ** (5 / 3) / CN ** 5)
            t.raw[j] = tc * rng.choice([1e-4, 0.02, 0.03, 0.3, 0.9, 1.3]) * rng.uniform(0.5, 1.2) / unit_scale(t.unit)
    return drive


T_ANY = In('time', (), 'time0')
for nm, ein, ekw, e_ in (('circular', {}, '', None), ('one_ecc', dict(e=ecc(py=True)), ', ecc_i=e', lambda i: i.e),
                         ('eccs', dict(e=ecc('N')), ', ecc_i=e', lambda i: i.e)):
    st = () if nm == 'circular' else ('utils.peters_f',)
    fe = (lambda i: one_shot_spec(i, e_)) if e_ is None else None
    I = dict(f=freq('N'), mc=mass('N'), t=In('time', (), 'time0'), **ein)

    def spec_(i, e_=e_, nm=nm):
        return one_shot_spec(i, e_)
    case('C08', 'one_shot.' + nm, I, 'result = evol.evolve_f_orb_circ(f_orb_i=f, m_c=mc, t_evol=t%s)' % ekw, spec_,
         stubs=('utils.peters_f',), drive=drift_drive())
    case('C08', 'one_shot.merged_value.' + nm, dict(I, fm=In('frequency', (), 'pos')),
         'result = evol.evolve_f_orb_circ(f_orb_i=f, m_c=mc, t_evol=t, merge_f=fm%s)' % ekw, spec_,
         stubs=('utils.peters_f',), drive=drift_drive())
case('C08', 'one_shot.time_per_binary', dict(f=freq('N'), mc=mass('N'), t=In('time', ('N',), 'time0'), e=ecc('N')),
     'result = evol.evolve_f_orb_circ(f_orb_i=f, m_c=mc, t_evol=t, ecc_i=e)', lambda i: one_shot_spec(i, lambda i: i.e),
     stubs=('utils.peters_f',), drive=drift_drive())
case('C08', 'one_shot.closed_form_F', dict(f=freq('N'), mc=mass('N'), t=T_ANY, e=ecc('N')),
     'result = evol.evolve_f_orb_circ(f_orb_i=f, m_c=mc, t_evol=t, ecc_i=e)',
     lambda i: quantity(array([axis(i.f)], lambda x: (lambda y, v: unless(ceq(y, 0), v))(
         *one_shot_F(at(i.f, x), at(i.mc, x), at(i.t), at(i.e, x)))), 'Hz'), drive=drift_drive())


def one_shot_F(f, mc, t, e):
    x = f ** F(-8, 3) - S(2) ** F(32, 3) * PI_ ** F(8, 3) / 5 * (G * mc) ** F(5, 3) * d.F_e(e) * t / C ** 5
    return x, where(S(0) <= x, x ** F(-3, 8), 10 ** 9)


def stat_spec(i):
    def elem(x):
        mc = el(i.mc, x) if hasattr(i, 'mc') else d.chirp(el(i.m1, x), el(i.m2, x))
        y, v = one_shot(at(i.f, x), mc, el(i.t, x), el(i.e, x))
        f = at(i.f, x)
        tol = at(i.tol) if hasattr(i, 'tol') else F(1, 100)
        r = (v - f) / f <= tol
        return unless(ceq(y, 0), r)
    return array([axis(i.f)], elem)


for nm, mi, kw in (('chirp', dict(mc=mass('N')), 'm_c=mc'), ('masses', dict(m1=mass('N'), m2=mass('N')), 'm_1=m1, m_2=m2'),
                   ('both', dict(m1=mass('N'), m2=mass('N'), mc=mass('N')), 'm_1=m1, m_2=m2, m_c=mc')):
    I = dict(f=freq('N'), t=In('time', (), 'time0'), e=ecc('N'), **mi)
    dr = drift_drive(nm == 'masses')
    case('C08', 'stationary.' + nm, I, 'result = evol.determine_stationarity(f_orb_i=f, t_evol=t, ecc_i=e, %s)' % kw,
         stat_spec, stubs=('utils.peters_f',), drive=dr, samples=24)
    case('C08', 'stationary.tolerance.' + nm, dict(I, tol=In(None, (), Dom(lo=0, rng=(1e-3, 1.0)), py=True)),
         'result = evol.determine_stationarity(f_orb_i=f, t_evol=t, ecc_i=e, stat_tol=tol, %s)' % kw,
         stat_spec, stubs=('utils.peters_f',), drive=dr)
for nm, mi, kw in (('none', {}, ''), ('m1', dict(m1=mass('N')), ', m_1=m1'), ('m2', dict(m2=mass('N')), ', m_2=m2')):
    case('C08', 'stationary.missing.' + nm, dict(f=freq('N'), t=T_ANY, e=ecc('N'), **mi),
         'result = evol.determine_stationarity(f_orb_i=f, t_evol=t, ecc_i=e%s)' % kw, bad, samples=4)


def agree_spec(i):
    def f_t(x):
        m1, m2 = at(i.m1, x), at(i.m2, x)
        y = d.kepler_a(at(i.f, x), m1, m2) ** 4 - 4 * d.beta(m1, m2) * at(i.t)
        return unless(y <= 0, d.kepler_f(y ** F(1, 4), m1, m2))

    def g_t(x):
        m1, m2 = at(i.m1, x), at(i.m2, x)
        y = d.kepler_a(at(i.f, x), m1, m2) ** 4 - 4 * d.beta(m1, m2) * at(i.t)
        return unless(lor(y <= 0, ceq(y ** F(1, 4), k('1e-30') * Sym(UNITS['AU'].scale, 'f'))),
                      d.kepler_f(y ** F(1, 4), m1, m2))
    X = [axis(i.f)]
    return {'shot': quantity(array(X, f_t), 'Hz'), 'steps': quantity(array(X, g_t), 'Hz')}


case('C08', 'agrees_with_steps', dict(f=freq('N'), m1=mass('N'), m2=mass('N'), t=In('time', (), 'time0')),
     "result = {'shot': evol.evolve_f_orb_circ(f_orb_i=f, m_c=utils.chirp_mass(m1, m2), t_evol=t),"
     " 'steps': evol.evol_circ(t_evol=t, n_step=2, f_orb_i=f, m_1=m1, m_2=m2, output_vars='f_orb')[:, 1]}",
     agree_spec, drive=drift_drive(True), samples=24)


# ---------------------------------------------------------------- C09: eccentric evolution
E_EVOL = Dom(lo=0, hi=1, lo_open=True, hi_open=True, rng=(0.02, 0.95), log=False, special=[0.15, 0.1, 0.5, 0.9])
TM_STUB = ('evol.get_t_merge_ecc', 'evol.de_dt', 'utils.beta', 'utils.c_0', 'utils.get_a_from_f_orb',
           'utils.get_f_orb_from_a', 'utils.get_a_from_ecc')


def ecc_a0(i, x):
    return el(i.a, x) if hasattr(i, 'a') else d.op_ka(el(i.f, x), el(i.m1, x), el(i.m2, x))


def ecc_b(i, x):
    return d.op_beta(el(i.m1, x), el(i.m2, x)) if hasattr(i, 'm1') else el(i.b, x)


def clamp(times, close, Y):
    """times with the ones too close to the merger (never the first) replaced by the last allowed one"""
    n = Y.length()

    def c(x, y):
        return land(lnot(ceq(Sym(y[0] if y else ZERO, 'i'), 0)), close(times(x, y), x))

    def f(x, y):
        last = d.largest(Sym(n, 'i'), lambda j: times(x, (j.t,)), lambda j: lnot(c(x, (j.t,))))
        return where(c(x, y), last, times(x, y))
    return f


def ecc_spec(i, times, Y, names, close=None):
    single = not ndim(i.e)
    X = axis(i.e)
    t = clamp(times, close, Y) if close else times
    zero = (ZERO,) if Y.lens else ()

    def fill(elem, unit):
        v = array([Y], lambda y: elem((), y)) if single else array([X, Y], elem)
        return v if unit is None else Out(quantity(v, unit), unit)

    def e_t(x, y):
        a, b = ecc_a0(i, x), ecc_b(i, x)
        c0 = d.op_c0(a, el(i.e, x))
        r = d.ode(lambda e: d.op_dedt(e, b, c0), el(i.e, x), t(x, zero), t(x, y))
        return where(isnan_(r), 0, r)          # no value: the integration went beyond the merger

    def a_t(x, y):
        return d.op_ae(e_t(x, y), d.op_c0(ecc_a0(i, x), el(i.e, x)))

    def f_t(x, y):
        a = a_t(x, y)
        f = where(ceq(a, 0), 100, d.op_kf(a, el(i.m1, x), el(i.m2, x)))
        return unless(land(F(0) < a, a < k('1e-15')), f)         # the marker of merged binaries in some unit

    def f_gw(x, y):
        r = f_t(x, y)
        return unless(Sym(r.t.args[0], 'b'), 2 * Sym(r.t.args[2], 'f'))
    out = []
    for nm in names:
        out.append({'timesteps': lambda: fill(t, 'yr'), 'ecc': lambda: fill(e_t, None), 'a': lambda: fill(a_t, 'AU'),
                    'f_orb': lambda: fill(f_t, 'Hz'), 'f_GW': lambda: fill(f_gw, 'Hz')}[nm]())
    return out if len(out) > 1 else out[0]


def near(i, exact=False, before=None, tm=None):
    """within t_before of the merger of binary x"""
    def f(t, x):
        m = tm(x) if tm else (d.op_tm if exact else d.op_tf)(el(i.e, x), ecc_a0(i, x), ecc_b(i, x))
        return m - (before if before is not None else F(10) ** 6 * YR) <= t
    return f


def t_merge_ecc_num(c):
    """rough merger times of the sampled eccentric binaries (numbers)"""
    tc = t_merge_num(c)
    return [t * (1 - c['e'].raw[j] ** 2) ** 3.5 for j, t in enumerate(tc)]


def ecc_drive(names='t', frac=0.8, before=False):
    """sampling only: wide enough binaries (merger after 10 Myr to 100 Gyr), times of the order of the merger times"""
    def drive(c, sizes, rng):
        for _ in range(200):
            tm = t_merge_ecc_num(c)
            bad_ = [j for j, t in enumerate(tm) if not 3e13 < t < 1e20]
            if not bad_:
                break
            for j in bad_:
                key = 'a' if 'a' in c else 'f'
                c[key].raw[j if len(c[key].raw) > 1 else 0] *= (2.0 if tm[j] <= 3e13 else 0.5) if key == 'a' else \
                    (0.6 if tm[j] <= 3e13 else 1.6)
        tm = t_merge_ecc_num(c)
        if names in c:
            x = c[names]
            n = x.shape[-1] if x.shape else 1
            sc = unit_scale(x.unit)
            if names == 't':
                rows = len(x.raw) // n
                for r in range(rows):
                    m = tm[r] if rows > 1 else min(tm)
                    ts = sorted(rng.uniform(0, frac) * m for _ in range(n))
                    if rng.random() < 0.8:
                        ts[0] = 0.0
                    x.raw[r * n:(r + 1) * n] = [v / sc for v in ts]
            else:
                for j in range(len(x.raw)):
                    m = tm[j] if len(x.raw) > 1 else min(tm)
                    x.raw[j] = rng.uniform(0.1, frac) * m / sc
        if 'tb' in c:
            c['tb'].raw[0] = rng.choice([0.0, 0.1, 0.5]) * min(tm) * rng.uniform(0.5, 1) / unit_scale(c['tb'].unit)
        if 'tm' in c:
            for j in range(len(c['tm'].raw)):
                c['tm'].raw[j] = tm[j] * rng.uniform(0.5, 1.0) / unit_scale(c['tm'].unit)
    return drive


OUT5 = ['timesteps', 'ecc', 'a', 'f_orb', 'f_GW']
TOL = dict(rtol=2e-4, atol=0.0, samples=8)


def ebin(*ax, way='a'):
    I = dict(e=ecc(*ax, dm=E_EVOL), m1=mass(*ax), m2=mass(*ax))
    if way == 'a':
        I['a'] = sep(*ax)
        return I, 'ecc_i=e, m_1=m1, m_2=m2, a_i=a'
    I['f'] = freq(*ax)
    return I, 'ecc_i=e, m_1=m1, m_2=m2, f_orb_i=f'


T1 = In('time', ('T',), 'time0')
for nm, ax in (('single', ()), ('array', ('N',))):
    for way in ('a', 'f'):
        I, args = ebin(*ax, way=way)
        case('C09', 'times_1d.%s.%s' % (nm, way), dict(I, t=T1),
             'result = evol.evol_ecc(timesteps=t, %s, output_vars=%r)' % (args, OUT5),
             lambda i: ecc_spec(i, lambda x, y: at(i.t, y), axis(i.t), OUT5, near(i)), drive=ecc_drive(frac=1.05),
             stubs=TM_STUB, **TOL)
        case('C09', 'to_the_end.%s.%s' % (nm, way), dict(I, t=T1),
             'result = evol.evol_ecc(timesteps=t, %s, avoid_merger=False, output_vars=%r)' % (args, OUT5[::-1]),
             lambda i: ecc_spec(i, lambda x, y: at(i.t, y), axis(i.t), OUT5[::-1]), drive=ecc_drive(),
             stubs=TM_STUB, **TOL)
    I, args = ebin(*ax)
    case('C09', 'exact_merger.' + nm, dict(I, t=T1, tb=In('time', (), 'time0')),
         'result = evol.evol_ecc(timesteps=t, %s, exact_t_merge=True, t_before=tb, output_vars=%r)' % (args, ['ecc', 'timesteps']),
         lambda i: ecc_spec(i, lambda x, y: at(i.t, y), axis(i.t), ['ecc', 'timesteps'], near(i, True, at(i.tb))),
         drive=ecc_drive(frac=1.05), stubs=TM_STUB, **TOL)
    if ax:
        case('C09', 'times_2d', dict(I, t=In('time', ('N', 'T'), 'time0')),
             'result = evol.evol_ecc(timesteps=t, %s, output_vars=%r)' % (args, OUT5),
             lambda i: ecc_spec(i, lambda x, y: at(i.t, x, y), axis(i.t, 1), OUT5, near(i)), drive=ecc_drive(frac=1.05),
             stubs=TM_STUB, **TOL)
        case('C09', 'merger_given', dict(I, t=In('time', ('N', 'T'), 'time0'), tm=In('time', ax, 'time'), tb=In('time', (), 'time0')),
             'result = evol.evol_ecc(timesteps=t, %s, t_merge=tm, t_before=tb, output_vars=%r)' % (args, ['ecc', 'f_orb', 'timesteps']),
             lambda i: ecc_spec(i, lambda x, y: at(i.t, x, y), axis(i.t, 1), ['ecc', 'f_orb', 'timesteps'],
                                near(i, before=at(i.tb), tm=lambda x: at(i.tm, x))),
             drive=ecc_drive(frac=0.9), stubs=TM_STUB, **TOL)
        case('C09', 'duration_per_binary', dict(I, n=In(None, (), N_STEP, py=True), te=In('time', ax, 'time')),
             'result = evol.evol_ecc(t_evol=te, n_step=n, %s, output_vars=%r)' % (args, ['f_GW', 'timesteps']),
             lambda i: ecc_spec(i, *lin(i, lambda x: at(i.te, x)), ['f_GW', 'timesteps'], near(i)), drive=ecc_drive('te'),
             stubs=TM_STUB, **TOL)
    case('C09', 'one_duration.' + nm, dict(I, n=In(None, (), N_STEP, py=True), te=In('time', (), 'time')),
         'result = evol.evol_ecc(t_evol=te, n_step=n, %s, output_vars=%r)' % (args, ['ecc', 'a', 'timesteps']),
         lambda i: ecc_spec(i, *lin(i, lambda x: at(i.te)), ['ecc', 'a', 'timesteps'], near(i)), drive=ecc_drive('te'),
         stubs=TM_STUB, **TOL)
    If, argsf = ebin(*ax, way='f')
    for tn, tax in (('one', ()), ('each', ax)):
        if tn == 'each' and not ax:
            continue
        case('C09', 'whole_way.%s.%s' % (tn, nm), dict(If, n=In(None, (), N_STEP, py=True), te=In('time', tax, 'time0')),
             'result = evol.evol_ecc(t_evol=te, n_step=n, %s, avoid_merger=False, output_vars=%r)' % (argsf, ['ecc', 'f_orb']),
             lambda i: ecc_spec(i, *lin(i, lambda x: el(i.te, x)), ['ecc', 'f_orb']), drive=ecc_drive('te'), stubs=TM_STUB, **TOL)
    case('C09', 'to_merger.' + nm, dict(I, n=In(None, (), N_STEP, py=True)),
         'result = evol.evol_ecc(n_step=n, %s, output_vars=%r)' % (args, ['ecc', 'timesteps']),
         lambda i: ecc_spec(i, *lin(i, lambda x: d.op_tm(el(i.e, x), ecc_a0(i, x), ecc_b(i, x))), ['ecc', 'timesteps'], near(i)),
         drive=ecc_drive(), stubs=TM_STUB, **TOL)
    case('C09', 'beta_only.' + nm, dict(e=ecc(*ax, dm=E_EVOL), a=sep(*ax), b=bet(*ax), t=T1),
         'result = evol.evol_ecc(ecc_i=e, beta=b, a_i=a, timesteps=t, output_vars=%r)' % (['a', 'ecc'],),
         lambda i: ecc_spec(i, lambda x, y: at(i.t, y), axis(i.t), ['a', 'ecc'], near(i)), drive=ecc_drive(),
         stubs=TM_STUB, **TOL)
    case('C09', 'missing_masses.' + nm, dict(e=ecc(*ax, dm=E_EVOL), a=sep(*ax), b=bet(*ax), t=T1),
         "result = evol.evol_ecc(ecc_i=e, beta=b, a_i=a, timesteps=t, output_vars=['a', 'f_orb'])", bad, samples=4)
    for var_ in OUT5:
        case('C09', 'one_output.%s.%s' % (var_, nm), dict(I, t=T1),
             'result = evol.evol_ecc(timesteps=t, %s, output_vars=%r)' % (args, var_),
             lambda i, var_=var_: ecc_spec(i, lambda x, y: at(i.t, y), axis(i.t), [var_], near(i)),
             drive=ecc_drive(), stubs=TM_STUB, rtol=2e-4, samples=4)
I, args = ebin('N')
case('C09', 'two_processes', dict(I, t=In('time', ('N', 'T'), 'time0')),
     'result = evol.evol_ecc(timesteps=t, %s, n_proc=2, output_vars=%r)' % (args, OUT5),
     lambda i: ecc_spec(i, lambda x, y: at(i.t, x, y), axis(i.t, 1), OUT5, near(i)), drive=ecc_drive(), stubs=TM_STUB,
     rtol=2e-4, samples=3)
case('C09', 'default_outputs', dict(I, te=In('time', (), 'time')),
     'result = evol.evol_ecc(t_evol=te, %s)' % args,
     lambda i: ecc_spec(i, *lin(i, lambda x: at(i.te)), ['ecc', 'f_orb'], near(i)), drive=ecc_drive('te'), stubs=TM_STUB,
     rtol=2e-4, samples=4)
