"""Numeric meaning of library functions used in contracts and terms (for replay and search only, never for proof)."""
import math
import os
import numpy as _np
from .terms import *
from .ev import ev, Ambiguous, NoValue
from . import concrete

REPO = os.environ.get('VERIF_REPO', '/repo')


def declare_facts(E):
    E.facts.fn('rank', lambda n, g: [le(ZERO, fn('rank', n, g)), lt(fn('rank', n, g), n)])


def script_env(world):
    from .engine import E
    from . import libs
    return {'curves': lambda: sum(e == 'curve' for e in E.events), 'canvas': libs.canvas, 'files': libs.files, 'simple_g': lambda: None, **world.extra_script}


def _jv(n, x):
    from scipy.special import jv
    v = float(jv(n, x))
    return v, abs(v) * 1e-12 + 1e-16


_jv.smooth = True


# ------------------------------------------------------------------ fast numeric functions of one variable
_UN = {'exp': 'exp', 'log': 'log', 'sin': 'sin', 'cos': 'cos', 'tanh': 'tanh', 'abs': 'fabs'}


def pyfun(t, v, env):
    """t as a fast function of v (other variables fixed); None when it is not arithmetic"""
    names = {}

    def g(t):
        if t is v:
            return 'x'
        if v not in fv(t):
            r = ev(t, env)
            if isinstance(r, bool):
                return repr(r)
            k = 'c%d' % len(names)
            names[k] = r[0]
            return k
        if t.op == '+':
            return '(' + '+'.join(g(a) for a in t.args) + ')'
        if t.op == '*':
            return '(' + '*'.join(g(a) for a in t.args) + ')'
        if t.op == '^':
            return '_p(%s,%s)' % (g(t.args[0]), g(t.args[1]))
        if t.op == 'fn' and t.args[0] in _UN:
            return '%s(%s)' % (_UN[t.args[0]], g(t.args[1]))
        raise NoValue(t.op)
    try:
        src = g(t)
    except NoValue:
        return lambda x: ev(t, env.child(v, x))[0]

    def _p(a, b):
        try:
            r = a ** b
            return math.nan if isinstance(r, complex) else r
        except ZeroDivisionError:
            return math.inf
        except OverflowError:
            return math.inf
    names.update({f: getattr(math, f) for f in _UN.values()})
    names['_p'] = _p
    return eval('lambda x: ' + src, names)


def _int(env, t):
    kind, n, v, cond, body, a, b = t.args
    from scipy.integrate import quad
    a, b = ev(a, env)[0], ev(b, env)[0]
    if math.isnan(a) or math.isnan(b):
        return math.nan, 0.0
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        r = quad(pyfun(body, v, env), a, b)[0]
    return r, abs(r) * 3e-8 + 1e-14


def _ode(env, t):
    kind, n, v, cond, rhs, y0, t0, t1 = t.args
    y, a, b = ev(y0, env)[0], ev(t0, env)[0], ev(t1, env)[0]
    if a == b:
        return y, 0.0
    if not (math.isfinite(a) and math.isfinite(b) and math.isfinite(y)):
        raise NoValue('ode')
    from scipy.integrate import odeint
    f = pyfun(rhs, v, env)
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        r = odeint(lambda y_, t_: f(float(y_[0])), y, [a, b], rtol=1e-9, atol=1e-12, full_output=1)
    if 'successful' not in r[1]['message']:
        raise NoValue('ode did not converge')
    r = float(r[0][-1][0])
    if not math.isfinite(r):
        raise NoValue('ode')
    return r, abs(r) * 1e-6 + 3e-7


# ------------------------------------------------------------------ tables
def rows(t, env):
    """rows of a table term, as tuples of numbers (nested tables as numpy arrays)"""
    kind, n, v, cond = t.args[:4]
    n = int(round(ev(n, env)[0]))
    out = []
    for i in range(n):
        e = env.child(v, i)
        if cond is not TRUE and not ev(cond, e):
            continue
        out.append(tuple(rows(p, e) if p.op == 'bind' and p.args[0] == 'table' else ev(p, e)[0] for p in t.args[4:]))
    return out


_cache = {}


def cols(t, env):
    r = env.cache.get(('cols', t))
    if r is None:
        r = env.cache[('cols', t)] = tuple(_np.array(c, dtype=float) for c in zip(*rows(t, env)))
    return r


def _spl(der, ext, k):
    def f(env, x, tab, s):
        from scipy.interpolate import splrep, splev
        x = ev(x, env)[0]
        a, b = cols(tab, env)
        s = ev(s, env)[0]
        key = ('spl', a.tobytes(), b.tobytes(), s, k)
        if key not in _cache:
            if len(_cache) > 200:
                _cache.clear()
            _cache[key] = splrep(a, b, s=s, k=k)
        v = float(splev(x, _cache[key], der=der, ext=ext))
        return v, abs(v) * 1e-9
    f.raw = True
    return f


def _i1d(kind, err, fill):
    def f(env, x, tab, *lohi):
        from scipy.interpolate import interp1d
        x = ev(x, env)[0]
        a, b = cols(tab, env)
        fv_ = tuple(ev(q, env)[0] for q in lohi) if lohi else fill
        v = float(interp1d(a, b, kind=kind, bounds_error=err == 'err', fill_value=fv_)(x))
        return v, (abs(v) + float(_np.max(_np.abs(b[_np.isfinite(b)]))) * 1e-9 if math.isfinite(v) and _np.isfinite(b).any() else 0) * 1e-9
    f.raw = True
    return f


def _rbs(kx, ky):
    def f(env, x, y, tab):
        from scipy.interpolate import RectBivariateSpline
        rs = rows(tab, env)
        xs = _np.array([r[0] for r in rs])
        ys = _np.array([q[0] for q in rs[0][1]])
        z = _np.array([[q[1] for q in r[1]] for r in rs])
        v = float(RectBivariateSpline(xs, ys, z, kx=kx, ky=ky).ev(ev(x, env)[0], ev(y, env)[0]))
        return v, abs(v) * 1e-9 + 1e-14
    f.raw = True
    return f


_R = None


def R_table():
    global _R
    if _R is None:
        _R = _np.load(os.path.join(REPO, 'src', 'legwork', 'R.npy'))
    return _R


def _Rfn(i, j):
    return float(R_table()[int(i)][int(j)])


def _rank(env, n, g):
    if n.op != 'bind':
        raise NoValue('rank')
    kind, l, v, cond = n.args[:4]
    j = int(round(ev(g, env)[0]))
    return float(sum(1 for i in range(j) if ev(cond, env.child(v, i)))), 0.0


_rank.raw = True


class Fns(dict):
    """interpolation functions are parametrised by their name"""

    def get(self, name, default=None):
        r = dict.get(self, name)
        if r is None and ':' in name:
            p = name.split(':')
            if p[0] == 'splev':
                r = _spl(int(p[1]), int(p[2]), int(p[3]))
            elif p[0] == 'interp1d':
                r = _i1d(p[1], p[2], p[3])
            elif p[0] == 'rbs':
                r = _rbs(int(p[1]), int(p[2]))
            if r is not None:
                self[name] = r
        return default if r is None else r


FNS = {'jv': _jv, 'bind:int': _int, 'bind:ode': _ode, '§R': _Rfn, 'rank': _rank}


def bind(env):
    f = Fns(env.fns)
    f.update(FNS)
    env.fns = f
    for v in list(TABLE_LENS):
        env.vars[v] = TABLE_LENS[v]()
    for k, g in concrete.SCALARS.items():
        env.fns['cb_' + k] = g
    from . import stubs
    stubs.bind(env)


TABLE_LENS = {var('§nR', 'ip'): lambda: R_table().shape[1]}
