"""Hash-consed first-order terms over mathematical reals (and booleans) with binders."""
from fractions import Fraction
import itertools

BOOL_OPS = {'true', 'false', 'not', 'and', 'or', '<', '<=', '==', 'bfn', 'any'}


class T:
    __slots__ = ('op', 'args', 'id', '_fv', '_depth', '_atoms', '__weakref__')
    _table = {}
    _ctr = itertools.count()

    def __repr__(self):
        return show(self)

    @property
    def isbool(self):
        if self.op == 'ite':
            return self.args[1].isbool
        return self.op in BOOL_OPS

    def __lt__(self, o):
        return self.id < o.id


def mk(op, *args):
    key = (op, args)
    t = T._table.get(key)
    if t is None:
        t = T.__new__(T)
        t.op = op
        t.args = args
        t.id = next(T._ctr)
        t._fv = None
        t._depth = None
        t._atoms = None
        T._table[key] = t
    return t


TRUE = mk('true')
FALSE = mk('false')
INF = mk('inf')
NAN = mk('nan')
_numcache = {}


def num(x):
    if type(x) is not Fraction:
        x = Fraction(x)
    t = _numcache.get(x)
    if t is None:
        t = _numcache[x] = mk('num', x)
    return t


ZERO = num(0)
ONE = num(1)


def var(name, flags=''):
    """flags: 'i' integer valued, 'p' positive"""
    return mk('v', name, flags)


PI = var('pi', 'p')


def isnum(t):
    return t.op == 'num'


def nval(t):
    return t.args[0]


def add(*ts):
    c = Fraction(0)
    out = []
    for t in ts:
        if t.op == 'num':
            c += t.args[0]
        elif t.op == '+':
            for s in t.args:
                if s.op == 'num':
                    c += s.args[0]
                else:
                    out.append(s)
        else:
            out.append(t)
    if c != 0:
        out.append(num(c))
    if not out:
        return ZERO
    if len(out) == 1:
        return out[0]
    return mk('+', *out)


def mul(*ts):
    c = Fraction(1)
    out = []
    for t in ts:
        if t.op == 'num':
            c *= t.args[0]
        elif t.op == '*':
            for s in t.args:
                if s.op == 'num':
                    c *= s.args[0]
                else:
                    out.append(s)
        else:
            out.append(t)
    if c == 0:
        if any(has_special(o) for o in out):
            return mk('*', ZERO, *out)
        return ZERO
    if c != 1:
        out.insert(0, num(c))
    if not out:
        return ONE
    if len(out) == 1:
        return out[0]
    return mk('*', *out)


_spec = {}


def has_special(t):
    """does the term contain inf/nan?"""
    r = _spec.get(t)
    if r is None:
        if t.op in ('inf', 'nan'):
            r = True
        elif t.op == 'ite':
            r = has_special(t.args[1]) or has_special(t.args[2])
        elif t.op in ('+', '*', '^'):
            r = any(has_special(a) for a in t.args if isinstance(a, T))
        else:
            r = False
        _spec[t] = r
    return r


def neg(t):
    return mul(num(-1), t)


def sub(a, b):
    return add(a, neg(b))


def _iroot_exact(n, d):
    """exact integer d-th root of n >= 0 or None"""
    if n < 2:
        return n
    lo, hi = 0, 1 << (n.bit_length() // d + 1)
    while lo < hi:
        m = (lo + hi) // 2
        if m ** d < n:
            lo = m + 1
        else:
            hi = m
    return lo if lo ** d == n else None


def power(b, e):
    if not isinstance(e, T):
        e = num(e)
    if e.op == 'num':
        q = e.args[0]
        if q == 1:
            return b
        if q == 0:
            return ONE
        if b.op == 'num':
            v = b.args[0]
            if q.denominator == 1 and (v != 0 or q > 0):
                if abs(q) <= 4000:
                    return num(v ** int(q))
            if v == 1:
                return ONE
            if v == 0 and q > 0:
                return ZERO
            if v > 0 and q.denominator <= 64:
                n = _iroot_exact(v.numerator, q.denominator)
                d = _iroot_exact(v.denominator, q.denominator)
                if n is not None and d is not None:
                    return num(Fraction(n, d) ** q.numerator)
        if b.op == '^' and b.args[1].op == 'num':
            p = b.args[1].args[0]
            if q.denominator == 1 and p.denominator == 1 and (p > 0) == (q > 0):
                return power(b.args[0], num(p * q))
    return mk('^', b, e)


def div(a, b):
    if b.op == 'num' and b.args[0] != 0:
        return mul(a, num(1 / b.args[0]))
    return mul(a, mk('^', b, num(-1)))


def fn(name, *args):
    return mk('fn', name, *args)


def bfn(name, *args):
    return mk('bfn', name, *args)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.isbool or b.isbool:
        return bor(band(c, a), band(bnot(c), b))
    if c.op == 'not':
        return ite(c.args[0], b, a)
    # collapse nested same condition
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    return mk('ite', c, a, b)


def bnot(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    if a.op == '<':
        return le(a.args[1], a.args[0])
    if a.op == '<=':
        return lt(a.args[1], a.args[0])
    return mk('not', a)


def band(*ts):
    out = []
    for t in ts:
        if t is FALSE:
            return FALSE
        if t is TRUE:
            continue
        for s in (t.args if t.op == 'and' else (t,)):
            if s not in out:
                out.append(s)
    for s in out:
        if bnot(s) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    if any(s.op == 'or' for s in out):          # unit propagation
        new = [_prop(s, out, 'or', bor, TRUE) for s in out]
        if any(x is not y for x, y in zip(new, out)):
            return band(*new)
    return mk('and', *sorted(out))


def _prop(s, out, op, join, absorbed):
    if s.op != op:
        return s
    keep = []
    for a in s.args:
        if a in out:
            return absorbed
        if bnot(a) not in out:
            keep.append(a)
    return s if len(keep) == len(s.args) else join(*keep)


def bor(*ts):
    out = []
    for t in ts:
        if t is TRUE:
            return TRUE
        if t is FALSE:
            continue
        for s in (t.args if t.op == 'or' else (t,)):
            if s not in out:
                out.append(s)
    for s in out:
        if bnot(s) in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    if any(s.op == 'and' for s in out):
        new = [_prop(s, out, 'and', band, FALSE) for s in out]
        if any(x is not y for x, y in zip(new, out)):
            return bor(*new)
    return mk('or', *sorted(out))


def implies(a, b):
    return bor(bnot(a), b)


def _cmp_special(a, b):
    return a.op in ('inf', 'nan') or b.op in ('inf', 'nan')


def lt(a, b):
    if a.op == 'num' and b.op == 'num':
        return TRUE if a.args[0] < b.args[0] else FALSE
    if a is b:
        return FALSE
    if b.op == 'inf':
        return TRUE if a.op == 'num' else mk('<', a, b)
    if a.op == 'inf':
        return FALSE
    return mk('<', a, b)


def le(a, b):
    if a.op == 'num' and b.op == 'num':
        return TRUE if a.args[0] <= b.args[0] else FALSE
    if a is b:
        return TRUE
    if b.op == 'inf':
        return TRUE
    if a.op == 'inf' and b.op == 'num':
        return FALSE
    return mk('<=', a, b)


def eq(a, b):
    if a is b:
        return TRUE
    if a.isbool or b.isbool:
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return bnot(b)
        if b is FALSE:
            return bnot(a)
        return bor(band(a, b), band(bnot(a), bnot(b)))
    if a.op == 'num' and b.op == 'num':
        return TRUE if a.args[0] == b.args[0] else FALSE
    if b.id < a.id:
        a, b = b, a
    return mk('==', a, b)


def tmin(a, b):
    return ite(le(a, b), a, b)


def tmax(a, b):
    return ite(le(b, a), a, b)


# ---------------------------------------------------------------- binders
# ('bind', kind, axis, var, cond, body...)   numeric: sum prod max min count argmax argmin first int ode ...
# ('any', axis, var, cond)                    boolean
# bound variables are canonical: named '#k' with k the nesting depth

def depth(t):
    if t._depth is None:
        d = 0
        for a in t.args:
            if isinstance(a, T):
                d = max(d, depth(a))
        if t.op in ('bind', 'any'):
            d += 1
        t._depth = d
    return t._depth


def bind(kind, axis, mkbodies, flags='i'):
    """mkbodies(v) -> tuple of T (cond, body, ...); the bound variable is canonicalised"""
    tmp = var('#tmp%d' % bind.ctr, flags)
    bind.ctr += 1
    bodies = mkbodies(tmp)
    d = 0
    for b in bodies:
        d = max(d, depth(b))
    v = var('#%d' % d, flags)
    bodies = tuple(subst(b, {tmp: v}) for b in bodies)
    return mk('bind', kind, axis, v, *bodies)


bind.ctr = 0


def anyof(axis, mkcond):
    tmp = var('#tmp%d' % bind.ctr, 'i')
    bind.ctr += 1
    c = mkcond(tmp)
    if c is FALSE:
        return FALSE
    d = depth(c)
    v = var('#%d' % d, 'i')
    c = subst(c, {tmp: v})
    return mk('any', axis, v, c)


def fv(t):
    """free variables and function symbols"""
    if t._fv is None:
        s = set()
        if t.op == 'v':
            s.add(t)
        for a in t.args:
            if isinstance(a, T):
                s |= fv(a)
        if t.op == 'bind':
            s.discard(t.args[2])
        elif t.op == 'any':
            s.discard(t.args[1])
        t._fv = frozenset(s)
    return t._fv


def rebuild(t, args):
    op = t.op
    if op == '+':
        return add(*args)
    if op == '*':
        return mul(*args)
    if op == '^':
        return power(*args)
    if op == 'ite':
        return ite(*args)
    if op == 'not':
        return bnot(*args)
    if op == 'and':
        return band(*args)
    if op == 'or':
        return bor(*args)
    if op == '<':
        return lt(*args)
    if op == '<=':
        return le(*args)
    if op == '==':
        return eq(*args)
    return mk(op, *args)


def subst(t, m, cache=None):
    if cache is None:
        cache = {}
    return _subst(t, m, cache, tuple({fv(k) for k in m}))


def _subst(t, m, cache, need=(frozenset(),)):
    r = m.get(t)
    if r is not None:
        return r
    if not t.args or t.op in ('num', 'v'):
        return t
    r = cache.get(t)
    if r is not None:
        return r
    f = fv(t)
    for n in need:
        if n <= f:
            break
    else:
        return t            # none of the keys can occur
    changed = False
    new = []
    for a in t.args:
        if isinstance(a, T):
            b = _subst(a, m, cache, need)
            if b is not a:
                changed = True
            new.append(b)
        else:
            new.append(a)
    r = t
    if changed:
        if t.op in ('bind', 'any'):
            # avoid capture / keep canonical naming
            pos = 2 if t.op == 'bind' else 1
            v = t.args[pos]
            bodies = new[pos + 1:]
            d = max([depth(b) for b in bodies] + [0])
            v2 = var('#%d' % d, v.args[1])
            if new[pos] is not v2 or v2 is not v:
                # re-substitute with fresh var
                tmp = var('#tmp%d' % bind.ctr, v.args[1])
                bind.ctr += 1
                orig = t.args[pos + 1:]
                bodies = [_subst(_subst(b, {v: tmp}, {}), m, {}) for b in orig]
                d = max([depth(b) for b in bodies] + [0])
                v2 = var('#%d' % d, v.args[1])
                bodies = [_subst(b, {tmp: v2}, {}) for b in bodies]
            r = mk(t.op, *new[:pos], v2, *bodies)
            if r.op == 'any' and r.args[2] is FALSE:
                r = FALSE
        else:
            r = rebuild(t, new)
    cache[t] = r
    return r


def instantiate(t, idx):
    """body terms of a binder at a given index term"""
    pos = 2 if t.op == 'bind' else 1
    v = t.args[pos]
    return [subst(b, {v: idx}) for b in t.args[pos + 1:]]


def walk(t, seen=None):
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        for a in x.args:
            if isinstance(a, T):
                stack.append(a)


def show(t, lim=400):
    s = _show(t)
    return s if len(s) <= lim else s[:lim] + '...'


def _show(t):
    op = t.op
    if op == 'num':
        return str(t.args[0])
    if op == 'v':
        return t.args[0]
    if op in ('true', 'false', 'inf', 'nan'):
        return op
    if op in ('fn', 'bfn'):
        return '%s(%s)' % (t.args[0], ','.join(_show(a) if isinstance(a, T) else str(a) for a in t.args[1:]))
    if op == '+':
        return '(' + ' + '.join(map(_show, t.args)) + ')'
    if op == '*':
        return '*'.join(_show(a) for a in t.args)
    if op == '^':
        return '(%s)^(%s)' % (_show(t.args[0]), _show(t.args[1]))
    if op == 'ite':
        return 'ite(%s, %s, %s)' % tuple(map(_show, t.args))
    if op == 'not':
        return '!' + _show(t.args[0])
    if op in ('and', 'or'):
        return '(' + (' & ' if op == 'and' else ' | ').join(map(_show, t.args)) + ')'
    if op in ('<', '<=', '=='):
        return '(%s %s %s)' % (_show(t.args[0]), op, _show(t.args[1]))
    if op == 'bind':
        return '%s[%s:%s](%s)' % (t.args[0], _show(t.args[2]), t.args[1],
                                  '; '.join(_show(a) for a in t.args[3:]))
    if op == 'any':
        return 'any[%s:%s](%s)' % (_show(t.args[1]), t.args[0], _show(t.args[2]))
    return '%s(%s)' % (op, ','.join(map(str, t.args)))
