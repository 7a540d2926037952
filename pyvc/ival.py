"""Back end for inequalities in one bounded real variable: interval arithmetic with outward rounding on a refined grid.

Every enclosure is widened by PAD relative (far above the rounding error of the double operations and of numpy's pow),
integrals from 0 of non-negative integrands are enclosed by lower and upper Riemann sums of interval enclosures."""
import math
from fractions import Fraction
import numpy as np
from .terms import *
from .diff import derivative
from .engine import Unsupported

PAD = 1e-13
TINY = 1e-300


class Iv:
    __slots__ = ('lo', 'hi')

    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi


def out(lo, hi):
    return Iv(lo - np.abs(lo) * PAD - TINY, hi + np.abs(hi) * PAD + TINY)


def i_add(a, b):
    return Iv(a.lo + b.lo, a.hi + b.hi)


def i_mul(a, b):
    with np.errstate(all='ignore'):
        c = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi]
        c = [np.where(np.isnan(x), 0.0, x) for x in c]          # 0 * inf
    r = out(np.minimum(np.minimum(c[0], c[1]), np.minimum(c[2], c[3])),
            np.maximum(np.maximum(c[0], c[1]), np.maximum(c[2], c[3])))
    r.lo = np.where((a.lo >= 0) & (b.lo >= 0), np.maximum(r.lo, 0.0), r.lo)
    return r


def i_pow(a, q):
    """a ** q for rational q (base >= 0 unless q is an integer)"""
    with np.errstate(all='ignore'):
        if q.denominator == 1 and q.numerator >= 0:
            n = int(q)
            x, y = a.lo ** n, a.hi ** n
            if n % 2:
                r = out(x, y)
                return Iv(np.where(a.lo >= 0, np.maximum(r.lo, 0.0), r.lo), r.hi)
            r = out(np.where((a.lo <= 0) & (a.hi >= 0), 0.0, np.minimum(x, y)), np.maximum(x, y))
            return Iv(np.maximum(r.lo, 0.0), r.hi)
        e = float(q)
        if q.denominator == 1:
            pos = i_pow(a, -q)
            bad = (pos.lo <= 0) & (pos.hi >= 0)
            sure = (a.lo >= 0) | (q.numerator % 2 == 0)     # non-negative whatever the cell
            lo, hi = 1.0 / pos.hi, 1.0 / pos.lo
            r = out(np.where(bad, np.where(sure, lo, -np.inf), lo), np.where(bad, np.inf, hi))
            return Iv(np.where(sure, np.maximum(r.lo, 0.0), r.lo), r.hi)
        lo, hi = np.maximum(a.lo, 0.0), np.maximum(a.hi, 0.0)
        x, y = lo ** e, hi ** e
        # the exponent itself is rounded: relative error |log base| * eps * |q|
        w = np.abs(e) * 1e-15 * np.maximum(np.abs(np.log(np.maximum(lo, 1e-320))), np.abs(np.log(np.maximum(hi, 1e-320))))
        a_, b_ = np.minimum(x, y), np.maximum(x, y)
        r = out(a_ * (1 - w), b_ * (1 + w))
        return Iv(np.maximum(r.lo, 0.0), r.hi)


def isect(a, b):
    return Iv(np.maximum(a.lo, b.lo), np.minimum(a.hi, b.hi))


class Grid:
    def __init__(self, var_, nodes, first):
        self.v = var_
        self.full = nodes                  # from 0 on (for integrals)
        self.k0 = first                    # first cell of the domain
        self.cache = {}
        self.dcache = {}

    def cells(self, full=False):
        n = self.full if full else self.full[self.k0:]
        return Iv(n[:-1], n[1:])

    def eval(self, t, v, full):
        key = (t, v, full)
        r = self.cache.get(key)
        if r is None:
            r = self.cache[key] = self._eval(t, v, full)
        return r

    def const(self, q):
        f = float(q)
        if Fraction(f) == q:
            return Iv(np.float64(f), np.float64(f))
        return out(np.float64(f), np.float64(f))

    def _eval(self, t, v, full):
        if t is v:
            return self.cells(full)
        op = t.op
        if op == 'num':
            return self.const(t.args[0])
        if t is PI:
            return out(np.float64(math.pi), np.float64(math.pi))
        if op == '+':
            if nested(t) and self.poly(t, v):
                x = expand(t)
                if x is not t and not nested(x):
                    return self.eval(x, v, full)
            r = None
            for a in t.args:
                x = self.eval(a, v, full)
                r = x if r is None else i_add(r, x)
            mag = sum(np.maximum(np.abs(self.eval(a, v, full).lo), np.abs(self.eval(a, v, full).hi)) for a in t.args)
            r = Iv(r.lo - mag * PAD, r.hi + mag * PAD)
            if all(np.all(self.eval(a, v, full).lo >= 0) for a in t.args):
                r.lo = np.maximum(r.lo, 0.0)
            if len(t.args) > 3 and self.poly(t, v):
                r = isect(r, self.mean_value(t, v, full))
            return r
        if op == '*':
            r = None
            for a in t.args:
                x = self.eval(a, v, full)
                r = x if r is None else i_mul(r, x)
            return r
        if op == '^' and t.args[1].op == 'num':
            return i_pow(self.eval(t.args[0], v, full), t.args[1].args[0])
        if op == 'ite':
            a, b = self.eval(t.args[1], v, full), self.eval(t.args[2], v, full)
            lo, hi = np.minimum(a.lo, b.lo), np.maximum(a.hi, b.hi)
            yes, no = self.cond(t.args[0], v, full)
            return Iv(np.where(yes, a.lo, np.where(no, b.lo, lo)), np.where(yes, a.hi, np.where(no, b.hi, hi)))
        if op == 'bind' and t.args[0] == 'int' and t.args[5] is ZERO and t.args[6] is v:
            f = self.eval(t.args[4], t.args[2], True)
            c = self.cells(True)
            w = c.hi - c.lo
            n = len(w)
            flo = np.broadcast_to(f.lo, (n,))
            fhi = np.broadcast_to(f.hi, (n,))
            # an integrand such as x^p * ... is evaluated as a product of enclosures: a lower end below 0 by rounding
            bad = np.cumsum(~(flo >= -1e-250)) > 0      # from the first such cell on nothing is known
            flo = np.where(bad, 0.0, np.maximum(flo, 0.0))
            fhi = np.where(bad, 0.0, fhi)
            with np.errstate(all='ignore'):
                lo = np.concatenate([[0.0], np.cumsum(flo * w)])
                hi = np.concatenate([[0.0], np.cumsum(fhi * w)])
            pad = n * 1e-15
            lo, hi = lo * (1 - pad), hi * (1 + pad) + TINY
            after = np.concatenate([[False], bad])
            lo, hi = np.where(after, -np.inf, lo), np.where(after, np.inf, hi)
            k = 0 if full else self.k0
            return Iv(lo[k:-1], hi[k + 1:])
        raise Unsupported('interval evaluation of ' + op)

    def cond(self, c, v, full):
        """cells on which the condition certainly holds / certainly fails"""
        if c is TRUE:
            return np.True_, np.False_
        if c is FALSE:
            return np.False_, np.True_
        if c.op == 'not':
            y, n = self.cond(c.args[0], v, full)
            return n, y
        if c.op in ('and', 'or'):
            ps = [self.cond(a, v, full) for a in c.args]
            y, n = ps[0]
            for p, q in ps[1:]:
                y, n = (y & p, n | q) if c.op == 'and' else (y | p, n & q)
            return y, n
        if c.op in ('<', '<='):
            a, b = self.eval(c.args[0], v, full), self.eval(c.args[1], v, full)
            return (a.hi < b.lo), (a.lo > b.hi)
        return np.False_, np.False_

    def poly(self, t, v):
        """polynomial in v"""
        if t is v or v not in fv(t):
            return t is v or t.op == 'num'
        if t.op in ('+', '*'):
            return all(self.poly(a, v) for a in t.args)
        if t.op == '^':
            e = t.args[1]
            return self.poly(t.args[0], v) and e.op == 'num' and e.args[0].denominator == 1 and e.args[0] >= 0
        return False

    def mean_value(self, t, v, full):
        d = self.dcache.get(t)
        if d is None:
            d = self.dcache[t] = derivative(t, v)
        c = self.cells(full)
        m = 0.5 * (c.lo + c.hi)
        g = Grid(v, np.append(m, m[-1]), 0)
        # point evaluation
        g2 = PointGrid(v, m)
        p = g2.eval(t, v, False)
        dv = self.eval(d, v, full)
        h = Iv(c.lo - m, c.hi - m)
        r = i_add(p, i_mul(dv, h))
        return Iv(r.lo - np.abs(r.lo) * PAD, r.hi + np.abs(r.hi) * PAD)


class PointGrid(Grid):
    def __init__(self, v, m):
        self.v, self.m = v, m
        self.cache, self.dcache = {}, {}

    def cells(self, full=False):
        return Iv(self.m, self.m)

    def poly(self, t, v):
        return False


def nested(t):
    """a sum with products of sums (Horner's form, say)"""
    return any(x.op == '*' and any(y.op == '+' for y in x.args) for x in t.args)


def expand(t):
    from .engine import E
    from .solve import HypCtx
    from .norm import TooBig
    try:
        ctx = HypCtx(E.facts, [])
        return ctx.to_term(ctx.nf(t))
    except TooBig:
        return t


def nodes(lo, hi, n):
    """nodes from 0 to hi, graded towards 0 and 1, with lo among them"""
    g = 1 / (1 + np.exp(-np.linspace(-18.0, 14.0, n)))
    if hi > 1 or lo < 0:
        raise Unsupported('interval domain outside [0, 1]')
    x = np.concatenate([[0.0], g[(g > 0) & (g < hi)], [lo, hi]])
    return np.unique(x)


def prove(goal, v, lo, hi, nmax=1 << 19, start=1 << 12):
    """goal (a comparison in the single variable v) for all v in [lo, hi]; -> (proved, cells, failing cell)"""
    if goal.op not in ('<', '<='):
        raise Unsupported('interval goal ' + goal.op)
    if fv(goal) - {v, PI}:
        raise Unsupported('interval goal in several variables')
    n = start
    bad = None
    lo = max(math.nextafter(float(lo), -1.0), 0.0) if Fraction(float(lo)) != lo else float(lo)
    hi = min(math.nextafter(float(hi), 2.0), 1.0) if Fraction(float(hi)) != hi else float(hi)
    while n <= nmax:
        x = nodes(lo, hi, n)
        k = int(np.searchsorted(x, lo))
        g = Grid(v, x, k)
        a, b = g.eval(goal.args[0], v, False), g.eval(goal.args[1], v, False)
        m = len(x) - 1 - k
        h = np.broadcast_to(a.hi, (m,))
        l = np.broadcast_to(b.lo, (m,))
        ok = (h < l) if goal.op == '<' else (h <= l)
        if np.all(ok):
            return True, m, None
        j = int(np.argmin(ok))
        bad = (x[k + j], x[k + j + 1])
        # certainly false somewhere: no point refining
        al, bh = np.broadcast_to(a.lo, (m,)), np.broadcast_to(b.hi, (m,))
        if np.any(al > bh):
            return False, m, bad
        n *= 4
    return False, n, bad


def by_interval(goal, v, src=None):
    """prover for obligations: goal for the values of v (of the term src, if given) the path allows"""
    def go(hyps):
        from .engine import E
        from .solve import HypCtx, STATS
        ctx = HypCtx(E.facts, hyps)
        lo, lo_o, hi, hi_o = ctx.bound(src or v)
        if not (math.isfinite(lo) and math.isfinite(hi)):
            return False
        if lo > hi:
            return True
        if lo == 0 and monotone(goal, v, hyps, Fraction(hi)):
            STATS['interval_1d'] = STATS.get('interval_1d', 0) + 1
            return True
        ok, n, bad = prove(goal, v, Fraction(lo), Fraction(hi))
        STATS['interval_1d'] = STATS.get('interval_1d', 0) + (1 if ok else 0)
        return ok
    return go


def monotone(goal, v, hyps, hi):
    """x <= y on [0, hi] from x/y <= 1 at 0 and a non-positive derivative of x/y with respect to v^2"""
    from .engine import E
    from .solve import HypCtx
    from .norm import TooBig
    try:
        ctx = HypCtx(E.facts, list(hyps) + [lt(ZERO, goal.args[1])])
        r = ctx.to_term(ctx.nf(div(goal.args[0], goal.args[1])))
        w = var('\u00a7w', 'u')
        ctx = HypCtx(E.facts, [])
        r = ctx.to_term(ctx.nf(subst(r, {v: power(w, num(Fraction(1, 2)))})))
        if fv(r) - {w, PI}:
            return False
        at0 = ctx.nf(subst(r, {w: ZERO}))
        if set(at0) - {()} or at0.get((), 0) > 1:
            return False
        d = derivative(r, w)
        return prove(le(d, ZERO), w, Fraction(0), hi * hi, nmax=1 << 14)[0]
    except (TooBig, Unsupported):
        return False
