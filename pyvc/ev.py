"""Numeric evaluation of terms with running error estimates (value, absolute error)."""
import math
from fractions import Fraction
from .terms import *

EPS = 4e-16


class Ambiguous(Exception):
    """a condition is too close to call in floating point"""


class NoValue(Exception):
    pass


class Env:
    def __init__(self, vars=None, fns=None, axes=None):
        self.vars = dict(vars or {})      # T var -> float
        self.fns = dict(fns or {})        # name -> callable(*args) -> float | (float, err) | bool
        self.cache = {}
        self.ties = None          # choices for comparisons too close to call: {key: bool}, shared by the children

    def with_ties(self, ties):
        e = Env.__new__(Env)
        e.vars, e.fns, e.cache, e.ties = self.vars, self.fns, {}, ties
        return e

    def child(self, v, val):
        e = Env.__new__(Env)
        e.vars = dict(self.vars)
        e.vars[v] = val
        e.fns = self.fns
        e.cache = {}
        e.ties = self.ties
        return e


def alternatives(t, env, limit=16):
    """the values t can have when each comparison too close to call may go either way (Ambiguous when there are too many)"""
    out, todo = [], [{}]
    while todo:
        ties = todo.pop()
        try:
            out.append(ev(t, env.with_ties(ties)))
        except Ambiguous as a:
            key = a.args[1] if len(a.args) > 1 else None
            if key is None or key in ties or len(out) + len(todo) >= limit:
                raise
            todo.append({**ties, key: False})
            todo.append({**ties, key: True})
    return out


def ev(t, env):
    """-> (value, err) for numeric, bool for boolean terms"""
    c = env.cache
    r = c.get(t)
    if r is None:
        r = _ev(t, env)
        c[t] = r
    return r


def _fl(x):
    try:
        return float(x)
    except OverflowError:
        return math.inf if x > 0 else -math.inf


def _ev(t, env):
    op = t.op
    if op == 'num':
        v = t.args[0]
        return _fl(v), 0.0 if v.denominator == 1 else abs(_fl(v)) * EPS
    if op == 'v':
        if t in env.vars:
            v = env.vars[t]
            return v if isinstance(v, tuple) else (float(v), 0.0)
        if t is PI:
            return math.pi, 0.0
        raise NoValue(t.args[0])
    if op == 'inf':
        return math.inf, 0.0
    if op == 'nan':
        return math.nan, 0.0
    if op == '+':
        s, e = 0.0, 0.0
        mx = 0.0
        for a in t.args:
            v, d = ev(a, env)
            s += v
            e += d
            mx += abs(v)
        if e == 0 and mx < 2 ** 52 and all(float(ev(a, env)[0]).is_integer() for a in t.args):
            return s, 0.0
        return s, e + mx * EPS
    if op == '*':
        s, e = 1.0, 0.0
        for a in t.args:
            v, d = ev(a, env)
            e = abs(s) * d + abs(v) * e + e * d if not (math.isinf(v) or math.isinf(s)) else 0.0
            s = s * v
        return s, e + (abs(s) * EPS * len(t.args) if math.isfinite(s) else 0.0)
    if op == '^':
        b, db = ev(t.args[0], env)
        x, dx = ev(t.args[1], env)
        return fpow(b, db, x, dx)
    if op == 'ite':
        c = ev(t.args[0], env)
        return ev(t.args[1] if c else t.args[2], env)
    if op == 'fn':
        return ev_fn(t, env)
    if op == 'bind':
        return ev_bind(t, env)
    # booleans
    if op == 'true':
        return True
    if op == 'false':
        return False
    if op == 'not':
        return not ev(t.args[0], env)
    if op == 'and':
        amb = None
        for a in t.args:
            try:
                if not ev(a, env):
                    return False
            except Ambiguous as e:
                amb = e
        if amb:
            raise amb
        return True
    if op == 'or':
        amb = None
        for a in t.args:
            try:
                if ev(a, env):
                    return True
            except Ambiguous as e:
                amb = e
        if amb:
            raise amb
        return False
    if op in ('<', '<=', '=='):
        a, da = ev(t.args[0], env)
        b, db = ev(t.args[1], env)
        if math.isnan(a) or math.isnan(b):
            return False
        tol = (da + db) * 4 if math.isfinite(da + db) else 0
        if tol > 0 and abs(a - b) <= tol:
            ex = exact_cmp(t, env)
            if ex is not None:
                return ex
        if tol > 0 and abs(a - b) <= tol and math.isfinite(a) and math.isfinite(b):
            if env.ties is None:
                raise Ambiguous(t)
            key = (op, a, b)
            if key not in env.ties:
                raise Ambiguous(t, key)
            return env.ties[key]
        return {'<': a < b, '<=': a <= b, '==': a == b}[op]
    if op == 'bfn' and t.args[0] == 'isnan':
        return math.isnan(ev(t.args[1], env)[0])
    if op == 'bfn':
        f = env.fns.get(t.args[0])
        if f is None:
            raise NoValue(t.args[0])
        args = [ev(a, env) if isinstance(a, T) else a for a in t.args[1:]]
        return bool(f(*[a[0] if isinstance(a, tuple) else a for a in args]))
    if op == 'any':
        n = int(ev(t.args[0], env)[0])
        amb = None
        for i in range(n):
            try:
                if ev(t.args[2], env.child(t.args[1], i)):
                    return True
            except Ambiguous as e:
                amb = e
        if amb:
            raise amb
        return False
    raise NoValue(op)


def linear1(t):
    """t = k*x + c with one atom x -> (x, k, c)"""
    x, k, c = None, Fraction(0), Fraction(0)
    for a in (t.args if t.op == '+' else (t,)):
        if a.op == 'num':
            c += a.args[0]
            continue
        q, at = Fraction(1), None
        for f in (a.args if a.op == '*' else (a,)):
            if f.op == 'num':
                q *= f.args[0]
            elif at is None and f.op in ('v', 'fn'):
                at = f
            else:
                return None
        if at is None or (x is not None and at is not x):
            return None
        x = at
        k += q
    return (x, k, c) if x is not None and k else None


def exact_cmp(t, env):
    """compare one exactly known input with a literal, as the code's doubles do"""
    l, r = linear1(t.args[0]), linear1(t.args[1])
    if l is None and r is None:
        return None
    if t.args[0].op == 'num':
        l = (r[0], Fraction(0), t.args[0].args[0])
    if t.args[1].op == 'num':
        r = (l[0], Fraction(0), t.args[1].args[0])
    if l is None or r is None or l[0] is not r[0]:
        return None
    k, c = l[1] - r[1], l[2] - r[2]
    if not k:
        return None
    v, d = ev(l[0], env)
    if d or not math.isfinite(v):
        return None
    y = Fraction(float(-c / k))
    x = Fraction(v)
    if k < 0:
        x, y = -x, -y
    return {'<': x < y, '<=': x <= y, '==': x == y}[t.op]


def fpow(b, db, x, dx):
    if db and abs(b) <= 8 * db and x != int(x):
        # the base may be zero or have either sign
        if x < 0:
            raise Ambiguous('power of a base that may be zero')
        if b < 0:
            return 0.0, (abs(b) + 8 * db) ** x
    try:
        v = b ** x
        if isinstance(v, complex):
            v = math.nan
    except ZeroDivisionError:
        v = math.inf
    except OverflowError:
        v = math.inf
    if not math.isfinite(v):
        return v, 0.0
    e = abs(v) * EPS * 2
    if b != 0:
        if abs(b) <= 8 * db and x > 0:
            e += (abs(b) + 8 * db) ** x
        else:
            e += abs(v * x / b) * db
        if dx and b > 0:
            e += abs(v * math.log(b)) * dx
    elif db:
        e += db ** x if x > 0 else 0.0
    return v, e


def ev_fn(t, env):
    name = t.args[0]
    f = env.fns.get(name)
    raw = t.args[1:]
    if f is not None:
        if getattr(f, 'raw', False):
            return f(env, *raw)
        args = [ev(a, env) if isinstance(a, T) else a for a in raw]
        vals = [a[0] if isinstance(a, tuple) else a for a in args]
        r = f(*vals)
        if isinstance(r, tuple):
            v, e = r
        else:
            v, e = float(r), 0.0
        # propagate argument error by finite differences for smooth library functions
        if getattr(f, 'smooth', False):
            for k, a in enumerate(args):
                if isinstance(a, tuple) and a[1] > 0:
                    h = max(a[1], abs(a[0]) * 1e-9, 1e-300)
                    vv = list(vals)
                    vv[k] = a[0] + h
                    try:
                        r2 = f(*vv)
                        r2 = r2[0] if isinstance(r2, tuple) else r2
                        e += abs(r2 - v) * (a[1] / h)
                    except Exception:
                        pass
        return v, e
    x, dx = ev(raw[0], env)
    try:
        if name == 'exp':
            v = math.exp(x) if x < 709 else math.inf
            return v, abs(v) * (dx + EPS) if math.isfinite(v) else 0.0
        if name == 'log':
            v = math.log(x) if x > 0 else (-math.inf if x == 0 else math.nan)
            return v, (dx / abs(x) if x else 0) + abs(v) * EPS if math.isfinite(v) else 0.0
        if name == 'sin':
            return math.sin(x), dx + EPS
        if name == 'cos':
            return math.cos(x), dx + EPS
        if name == 'tan':
            v = math.tan(x)
            return v, (1 + v * v) * (dx + EPS)
        if name == 'tanh':
            return math.tanh(x), dx + EPS
        if name == 'sinh':
            return math.sinh(x), math.cosh(x) * (dx + EPS)
        if name == 'cosh':
            return math.cosh(x), math.cosh(x) * (dx + EPS)
        if name == 'arcsin':
            return math.asin(x), 10 * dx + EPS
        if name == 'arccos':
            return math.acos(x), 10 * dx + EPS
        if name == 'arctan':
            return math.atan(x), dx + EPS
        if name == 'abs':
            return abs(x), dx
        if name == 'ceil':
            if dx > 0 and abs(x - round(x)) < 4 * dx:
                raise Ambiguous(t)
            return float(math.ceil(x)), 0.0
        if name == 'floor':
            if dx > 0 and abs(x - round(x)) < 4 * dx:
                raise Ambiguous(t)
            return float(math.floor(x)), 0.0
        if name == 'round':
            if dx > 0 and abs(x * 2 - round(x * 2)) < 8 * dx:
                raise Ambiguous(t)
            return float(round(x)), 0.0
    except ValueError:
        return math.nan, 0.0
    raise NoValue(name)


def ev_bind(t, env):
    kind = t.args[0]
    h = env.fns.get('bind:' + kind)
    if h is not None:
        return h(env, t)
    v = t.args[2]
    n = int(round(ev(t.args[1], env)[0]))
    cond = t.args[3]
    if kind == 'count':
        return float(sum(1 for i in range(n) if ev(cond, env.child(v, i)))), 0.0
    if kind == 'sum':
        s = e = mx = 0.0
        for i in range(n):
            ch = env.child(v, i)
            if cond is TRUE or ev(cond, ch):
                a, d = ev(t.args[4], ch)
                s += a
                e += d
                mx += abs(a)
        return s, e + mx * EPS * 4
    if kind in ('max', 'min', 'argmax', 'argmin'):
        best = None
        bi = None
        amb = False
        for i in range(n):
            ch = env.child(v, i)
            if cond is TRUE or ev(cond, ch):
                a, d = ev(t.args[4], ch)
                if best is None:
                    best, bi = (a, d), i
                else:
                    better = a > best[0] if kind.endswith('max') else a < best[0]
                    if abs(a - best[0]) <= 4 * (d + best[1]) and a != best[0]:
                        amb = True
                    elif better:
                        amb = False
                    if better:
                        best, bi = (a, d), i
        if best is None:
            raise NoValue('empty ' + kind)
        if kind.startswith('arg'):
            if amb:
                raise Ambiguous(t)
            return float(bi), 0.0
        return best
    if kind == 'first':
        for i in range(n):
            if ev(cond, env.child(v, i)):
                return float(i), 0.0
        raise NoValue('first of none')
    raise NoValue('bind ' + kind)
