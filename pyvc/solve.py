"""Prover: case splitting + normaliser + interval reasoning + z3."""
import time
import math
import sys

sys.set_int_max_str_digits(0)
from fractions import Fraction
import z3
from .terms import *
from . import terms as tm
from .norm import Ctx, TooBig, p_add, mono_mul

STATS = {'normaliser': 0, 'interval': 0, 'z3': 0, 'cvc5': 0, 'trivial': 0, 'z3_time': 0.0, 'leaves': 0, 'queries': 0}

INFP = math.inf


class Facts:
    """universally valid facts about symbols: name -> f(*args) -> list of boolean terms"""

    def __init__(self):
        self.by_fn = {}
        self.by_var = {}
        self.idx_axis = {}       # index variable -> length term
        self.globals = []

    def fn(self, name, f):
        self.by_fn.setdefault(name, []).append(f)

    def var(self, v, *facts):
        self.by_var.setdefault(v, []).extend(facts)

    def of(self, t):
        out = []
        if t.op == 'v':
            out += self.by_var.get(t, [])
            if 'u' in t.args[1]:
                out += [lt(ZERO, t), lt(t, ONE)]
            if t is PI:
                out += [lt(num(Fraction(314159, 100000)), t), lt(t, num(Fraction(31416, 10000)))]
        elif t.op == 'fn':
            for f in self.by_fn.get(t.args[0], []):
                out += f(*t.args[1:])
            n = t.args[0]
            if n in ('sin', 'cos'):
                out += [le(num(-1), t), le(t, ONE)]
            elif n == 'tanh':
                out += [lt(num(-1), t), lt(t, ONE)]
            elif n == 'exp':
                out += [lt(ZERO, t)]
            elif n == 'log' and t.args[1].op == 'num' and t.args[1].args[0] > 1:
                out += [lt(ZERO, t)]
        return out


def lits(t):
    """flatten a conjunction"""
    if t.op == 'and':
        for a in t.args:
            yield from lits(a)
    else:
        yield t


# interval arithmetic over (lo, lo_open, hi, hi_open) with float/Fraction endpoints
def disjuncts(h):
    if h.op == 'or':
        return h.args
    if h.op == 'not' and h.args[0].op == 'and':
        return [bnot(a) for a in h.args[0].args]
    return None


def iv_add(a, b):
    return (a[0] + b[0], a[1] or b[1], a[2] + b[2], a[3] or b[3])


def iv_scale(a, k):
    k = Fraction(k)
    if k == 0:
        return (Fraction(0), False, Fraction(0), False)
    f = lambda x: x * k if not (isinstance(x, float) and math.isinf(x)) else (x if k > 0 else -x)
    if k > 0:
        return (f(a[0]), a[1], f(a[2]), a[3])
    return (f(a[2]), a[3], f(a[0]), a[1])


def _m(x, y):
    if (x == 0) or (y == 0):
        return Fraction(0)
    return x * y


def iv_mul(a, b):
    c = []
    for x, xo in ((a[0], a[1]), (a[2], a[3])):
        for y, yo in ((b[0], b[1]), (b[2], b[3])):
            v = _m(x, y)
            # a product endpoint at 0 is open only if every zero factor endpoint is open
            if v == 0:
                o = (xo if x == 0 else True) and (yo if y == 0 else True)
                if x == 0 and not xo or y == 0 and not yo:
                    o = False
            else:
                o = xo or yo
            c.append((v, o))
    lo = min(c, key=lambda z: (z[0], z[1]))
    hi = max(c, key=lambda z: (z[0], not z[1]))
    return (lo[0], lo[1], hi[0], hi[1])


def iv_pow(a, q):
    q = Fraction(q)
    if q.denominator == 1 and q > 0:
        n = int(q)
        if n > 60 and not (a[0] >= 0):
            return (-INFP, True, INFP, True)
        if a[0] >= 0:
            return (_ipow(a[0], n), a[1], _ipow(a[2], n), a[3])
        if n % 2 == 0:
            if a[2] <= 0:
                return (_ipow(-a[2], n), a[3], _ipow(-a[0], n), a[1])
            x, y = -a[0], a[2]
            return (Fraction(0), False, max(_ipow(x, n), _ipow(y, n)), False)
        return (-_ipow(-a[0], n) if a[0] < 0 else _ipow(a[0], n), a[1],
                _ipow(a[2], n) if a[2] >= 0 else -_ipow(-a[2], n), a[3])
    if a[0] < 0:
        if q.denominator == 1 and a[2] < 0 or (a[2] == 0 and a[3] and q.denominator == 1):
            return (-INFP, True, INFP, True) if q.numerator % 2 == 0 else (-INFP, True, Fraction(0), True)
        return (-INFP, True, INFP, True) if q.denominator == 1 else (Fraction(0), False, INFP, True)
    # non-negative base, outward rounding
    def fp(x, up):
        if isinstance(x, float) and math.isinf(x):
            return INFP if q > 0 else Fraction(0)
        if x == 0:
            return Fraction(0) if q > 0 else INFP
        if x == 1:
            return Fraction(1)
        try:
            v = float(x) ** float(q)
        except OverflowError:
            v = INFP
        if math.isinf(v) or v == 0:
            return Fraction(0) if not up else INFP
        return Fraction(v) * (1 + Fraction(1, 10**12)) if up else Fraction(v) * (1 - Fraction(1, 10**12))
    if q > 0:
        return (fp(a[0], False), a[1], fp(a[2], True), a[3])
    hi = fp(a[0], True)
    lo = fp(a[2], False)
    return (lo, a[3] or lo == 0, hi, a[1])


def _ipow(x, n):
    if isinstance(x, float):
        return x ** n if x else x
    if x > 10**30 and n > 4:
        return INFP
    if n > 60 and x not in (0, 1):
        return INFP if x > 1 else Fraction(0)
    return x ** n


FULL = (-INFP, True, INFP, True)


class Plain:
    """the same sum with its products multiplied out (sign information is looked up under either form)"""

    def __init__(self):
        self.cache = {}

    def forms(self, t):
        if t.op != '+':
            return ()
        r = self.cache.get(t)
        if r is None:
            c = Ctx(None)
            try:
                t2 = c.to_term(c.nf(t))
                r = () if t2 is t else (t2,)
            except TooBig:
                r = ()
            self.cache[t] = r
        return r


PLAIN = Plain()
FLIP = {'+': '-', '-': '+', '0+': '0-', '0-': '0+'}


class HypCtx(Ctx):
    """normalisation context knowing facts and hypotheses"""

    def __init__(self, facts, hyps=()):
        super().__init__(sign=HypCtx._oracle)
        self.facts = facts
        self.bounds = {}
        self.hset = set()
        self.hsign = {}
        self._fb = {}
        for h in hyps:
            for l in lits(h):
                self.learn(l)

    def learn(self, l):
        self.hset.add(l)
        neg_ = False
        if l.op in ('<', '<=', '=='):
            a, b = l.args
            if b is ZERO:
                t, op = a, l.op
            elif a is ZERO:
                t, op = b, {'<': '>', '<=': '>=', '==': '=='}[l.op]
            else:
                return
            sg = {'<': '-', '<=': '0-', '>': '+', '>=': '0+', '==': '0'}[op]
            self._setsign(t, sg)
            for t2 in PLAIN.forms(t):
                self._setsign(t2, sg)
            self._bound_of(t, op, self.bounds)
        elif l.op == 'not' and l.args[0].op == '==':
            a, b = l.args[0].args
            t = a if b is ZERO else b
            if (b is ZERO or a is ZERO):
                self._setsign(t, '!0')
                for t2 in PLAIN.forms(t):
                    self._setsign(t2, '!0')

    def _setsign(self, t, s):
        old = self.hsign.get(t)
        if old is None or s in ('+', '-', '0'):
            self.hsign[t] = s
        elif old == '0+' and s == '!0' or old == '!0' and s == '0+':
            self.hsign[t] = '+'
        elif old == '0-' and s == '!0' or old == '!0' and s == '0-':
            self.hsign[t] = '-'

    def _bound_of(self, t, op, store):
        """t op 0 with t = c1*atom + c0"""
        p = Ctx(None).nf(t) if True else None
        ms = [m for m in p if m != ()]
        if len(ms) != 1 or len(ms[0]) != 1 or ms[0][0][1] != 1:
            return
        a = ms[0][0][0]
        c1, c0 = p[ms[0]], p.get((), Fraction(0))
        v = -c0 / c1
        if op == '==':
            self._tight(store, a, v, False, v, False)
            return
        if c1 < 0:
            op = {'<': '>', '<=': '>=', '>': '<', '>=': '<='}[op]
        if op in ('<', '<='):
            self._tight(store, a, -INFP, True, v, op == '<')
        else:
            self._tight(store, a, v, op == '>', INFP, True)

    @staticmethod
    def _tight(store, a, lo, lo_o, hi, hi_o):
        o = store.get(a, FULL)
        nlo, nlo_o, nhi, nhi_o = o
        if lo > nlo or (lo == nlo and lo_o):
            nlo, nlo_o = lo, lo_o
        if hi < nhi or (hi == nhi and hi_o):
            nhi, nhi_o = hi, hi_o
        store[a] = (nlo, nlo_o, nhi, nhi_o)

    def bound(self, a):
        if a.op == 'num':
            v = a.args[0]
            return (v, False, v, False)
        r = self._fb.get(a)
        if r is None:
            self._fb[a] = FULL
            st = {}
            for f in self.facts.of(a):
                for l in lits(f):
                    if l.op in ('<', '<='):
                        d = sub(l.args[0], l.args[1])
                        self._bound_of(d, l.op, st)
            r = st.get(a, FULL)
            if a.op == 'v' and 'p' in a.args[1]:
                st2 = {a: r}
                self._tight(st2, a, Fraction(0), True, INFP, True)
                r = st2[a]
            if r[0] < 0:
                s = Ctx._sign(self, a)
                st2 = {a: r}
                if s == '+':
                    self._tight(st2, a, Fraction(0), True, INFP, True)
                elif s == '0+':
                    self._tight(st2, a, Fraction(0), False, INFP, True)
                r = st2[a]
            self._fb[a] = r
        b = self.bounds.get(a)
        if b is not None:
            st = {a: r}
            self._tight(st, a, *b)
            r = st[a]
        h = self.hsign.get(a)
        if h:
            st = {a: r}
            if h == '+':
                self._tight(st, a, Fraction(0), True, INFP, True)
            elif h == '-':
                self._tight(st, a, -INFP, True, Fraction(0), True)
            elif h == '0+':
                self._tight(st, a, Fraction(0), False, INFP, True)
            elif h == '0-':
                self._tight(st, a, -INFP, True, Fraction(0), False)
            elif h == '!0':
                if r[0] == 0 and not r[1]:
                    self._tight(st, a, Fraction(0), True, INFP, True)
            r = st[a]
        return r

    def interval(self, p):
        tot = (Fraction(0), False, Fraction(0), False)
        for m, c in p.items():
            v = (Fraction(1), False, Fraction(1), False)
            for a, e in m:
                b = self.bound(a) if a.op != '+' else self.sum_bound(a)
                v = iv_mul(v, iv_pow(b, e))
            tot = iv_add(tot, iv_scale(v, c))
        return tot

    def sum_bound(self, a):
        r = self._fb.get(('s', a))
        if r is None:
            self._fb[('s', a)] = FULL
            r = self.interval(self.nf_sumatom(a))
            s = self.sign(a)
            st = {a: r}
            if s == '+':
                self._tight(st, a, Fraction(0), True, INFP, True)
            elif s == '0+':
                self._tight(st, a, Fraction(0), False, INFP, True)
            r = st[a]
            self._fb[('s', a)] = r
        return r

    def _known(self, P):
        """sign of the polynomial as a whole in the hypotheses"""
        h = self.hsign.get(self.to_term(P))
        if h is None:
            h = FLIP.get(self.hsign.get(self.to_term({m: -c for m, c in P.items()})))
        return h if h in FLIP else None

    @staticmethod
    def _oracle(self, t):
        h = self.hsign.get(t)
        if h in ('+', '-'):
            return h
        if t.op in ('inf', 'nan'):
            return None
        try:
            if t.op in ('v', 'fn', 'bind'):
                iv = self.bound(t)
            elif t.op == 'ite':
                return h if h in ('0+', '0-') else None
            else:
                iv = self.interval(self.nf(t))
        except TooBig:
            return None
        if iv[0] > 0 or (iv[0] == 0 and iv[1]):
            return '+'
        if iv[2] < 0 or (iv[2] == 0 and iv[3]):
            return '-'
        if iv[0] >= 0:
            return '+' if h == '!0' else '0+'
        if iv[2] <= 0:
            return '-' if h == '!0' else '0-'
        # sign through the canonical hypothesis literals: t = k*mono*P
        try:
            p = self.nf(t)
            if len(p) > 1:
                k, mono, P = self.content(p)
                if all(self.sign(a) == '+' for a, e in mono):
                    h2 = self._known(P)
                    if h2 is None and any(e < 0 and a.op == '+' for m in P for a, e in m):
                        h2 = self._known(self.clear_den(P))
                    if h2 is None and len(P) == 2 and any(e.denominator != 1 for m in P for a, e in m):
                        h2 = self._known(self.drop_roots(P))
                    if h2:
                        return FLIP[h2] if k < 0 else h2
        except TooBig:
            pass
        return h if h in ('0+', '0-') else None


# ----------------------------------------------------------------------------- z3 encoding
_RAT = {}


def ratval(c):
    r = _RAT.get(c)
    if r is None:
        r = _RAT[c] = z3.RatVal(c.numerator, c.denominator)
    return r


class Z3Enc:
    def __init__(self, ctx, facts):
        self.ctx = ctx
        self.facts = facts
        self.polys = []
        self.atoms = {}
        self.vars = {}
        self.bools = {}
        self.encs = {}
        self.extra = []

    def collect(self, b, depth_=0):
        """gather atoms and exponents from a boolean (canonical) term"""
        for x in tm.walk(b):
            pass

    def enc_all(self, bools, fact_rounds=2):
        # atoms with exponent denominators
        self.den = {}
        todo = list(bools)
        seen = set()
        facts_terms = []
        for _ in range(fact_rounds + 1):
            new_atoms = set()
            for b in todo:
                self._scan(b, new_atoms)
            todo = []
            for a in new_atoms:
                if a in seen:
                    continue
                seen.add(a)
                for f in self.facts.of(a):
                    todo.append(f)
                    facts_terms.append(f)
                s = Ctx._sign(self.ctx, a)
                if s in ('+', '0+'):
                    facts_terms.append(mk('<' if s == '+' else '<=', ZERO, a))
        out = [self.enc(b) for b in bools]
        fx = []
        for f in facts_terms:
            try:
                fx.append(self.enc(f))
            except TooBig:
                pass
        return out, fx + self.extra

    def _scan(self, b, acc):
        if b.op in ('and', 'or', 'not'):
            for a in b.args:
                self._scan(a, acc)
        elif b.op in ('<', '<=', '=='):
            for a in b.args:
                if tm.has_special(a):
                    continue
                p = self.ctx.nf(a)
                self._scanp(p, acc)

    def _scanp(self, p, acc):
        for m in p:
            for a, e in m:
                if a.op == '+':
                    d = e.denominator
                    self.den[a] = self._lcm(self.den.get(a, 1), d)
                    self._scanp(self.ctx.nf_sumatom(a), acc)
                    acc.add(a)
                elif a.op == '^':
                    self._scanp(self.ctx.nf(a.args[0]), acc)
                    acc.add(a)
                else:
                    self.den[a] = self._lcm(self.den.get(a, 1), e.denominator)
                    acc.add(a)

    @staticmethod
    def _lcm(a, b):
        return a * b // math.gcd(a, b)

    def atomvar(self, a):
        """returns (root var, d)"""
        r = self.vars.get(a)
        if r is None:
            d = self.den.get(a, 1)
            if d > 24:
                d = 1
            isint = a.op == 'v' and 'i' in a.args[1]
            v = z3.Real('a%d' % len(self.vars)) if not isint else z3.ToReal(z3.Int('a%d' % len(self.vars)))
            r = (v, d)
            self.vars[a] = r
            if a.op == 'num':
                self.extra.append(v > 0)
                self.extra.append(v ** d == z3.Q(a.args[0].numerator, a.args[0].denominator))
            elif a.op == '+':
                if d > 1:
                    self.extra.append(v >= 0)
                self.extra.append(self.vpow(v, d) == self.encp(self.ctx.nf_sumatom(a)))
            elif d > 1:
                self.extra.append(v >= 0)
            if a.op == '^':
                q = a.args[1].args[0] if a.args[1].op == 'num' else None
                if q is not None and 0 < q.denominator <= 8 and q > 0:
                    self.extra.append(v >= 0)
                    self.extra.append(self.vpow(v, q.denominator) ==
                                      self.vpow(self.encp(self.ctx.nf(a.args[0])), q.numerator))
        return r

    @staticmethod
    def vpow(v, n):
        if n == 1:
            return v
        r = v
        for _ in range(n - 1):
            r = r * v
        return r

    def encp(self, p):
        tot = None
        for m, c in p.items():
            t = ratval(c) if c != 1 or not m else None
            for a, e in m:
                v, d = self.atomvar(a)
                k = e * d
                if k.denominator != 1 or abs(k) > 40:
                    # opaque power
                    key = ('pw', a, e)
                    if key not in self.vars:
                        w = z3.Real('a%d' % len(self.vars))
                        self.vars[key] = (w, 1)
                        self.extra.append(w >= 0)
                    t = self.vars[key][0] if t is None else t * self.vars[key][0]
                    continue
                k = int(k)
                if k > 0:
                    t = self.vpow(v, k) if t is None else t * self.vpow(v, k)
                else:
                    t = (ratval(Fraction(1)) if t is None else t) / self.vpow(v, -k)
            tot = t if tot is None else tot + t
        return tot if tot is not None else z3.RealVal(0)

    def integral(self, p):
        """linear in integer variables"""
        return all(len(m) == 0 or len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'v' and 'i' in m[0][0].args[1]
                   and self.den.get(m[0][0], 1) == 1 for m in p)

    def intp(self, p, q):
        """both sides over the integers: z3 loses strict bounds of integers behind to_real"""
        k = 1
        for c in list(p.values()) + list(q.values()):
            k = self._lcm(k, Fraction(c).denominator)
        out = []
        for x in (p, q):
            tot = z3.IntVal(0)
            for m, c in x.items():
                n = z3.IntVal(int(c * k))
                tot = tot + (n * self.atomvar(m[0][0])[0].arg(0) if m else n)
            out.append(tot)
        return out

    def enc(self, b):
        r = self.encs.get(b)
        if r is None:
            r = self.encs[b] = self.enc1(b)
        return r

    def enc1(self, b):
        op = b.op
        if op == 'true':
            return z3.BoolVal(True)
        if op == 'false':
            return z3.BoolVal(False)
        if op == 'not':
            return z3.Not(self.enc(b.args[0]))
        if op == 'and':
            return z3.And(*[self.enc(a) for a in b.args])
        if op == 'or':
            return z3.Or(*[self.enc(a) for a in b.args])
        if op in ('<', '<=', '=='):
            a, c = b.args
            if not (tm.has_special(a) or tm.has_special(c)):
                x, y = self.ctx.nf(a), self.ctx.nf(c)
                if self.integral(x) and self.integral(y):
                    x, y = self.intp(x, y)
                else:
                    x, y = self.encp(x), self.encp(y)
                return {'<': x < y, '<=': x <= y, '==': x == y}[op]
        key = b
        if key not in self.bools:
            self.bools[key] = z3.Bool('b%d' % len(self.bools))
        return self.bools[key]


def z3_check(ctx, facts, bools, timeout=2000, want_model=False):
    """satisfiability of a conjunction: 'unsat' | 'sat' | 'unknown' (+ model as {atom: float})"""
    t0 = time.time()
    STATS['queries'] += 1
    try:
        e = Z3Enc(ctx, facts)
        bs, fx = e.enc_all(bools)
    except TooBig:
        return ('unknown', None) if want_model else 'unknown'
    s = z3.Solver()
    s.set('timeout', timeout)
    for b in bs + fx:
        s.add(b)
    r = str(s.check())
    STATS['z3_time'] += time.time() - t0
    if not want_model:
        return r
    model = None
    if r == 'sat':
        m = s.model()
        model = {}
        for a, (v, d) in e.vars.items():
            if isinstance(a, tuple) or a.op in ('num', '+', '^'):
                continue
            val = m.eval(v, model_completion=False)
            x = _z3num(val)
            if x is not None:
                model[a] = x ** d
        for a, v in e.bools.items():
            val = m.eval(v)
            if z3.is_true(val):
                model[a] = True
            elif z3.is_false(val):
                model[a] = False
    return r, model


def _z3num(v):
    try:
        if z3.is_rational_value(v):
            return Fraction(v.numerator_as_long(), v.denominator_as_long())
        if z3.is_algebraic_value(v):
            a = v.approx(20)
            return Fraction(a.numerator_as_long(), a.denominator_as_long())
    except Exception:
        return None
    return None


# ----------------------------------------------------------------------------- the prover
class Leaf:
    def __init__(self, hyps, goal, why):
        self.hyps, self.goal, self.why = hyps, goal, why


class Budget(Exception):
    pass


def solved_eq(h):
    """x - y = 0 or x - c = 0 with a variable x -> {x: y}"""
    if h.op != '==' or h.args[0].isbool:
        return None
    pos, rest = [], []
    c = 0
    for side, sg in ((h.args[0], 1), (h.args[1], -1)):
        for a in (side.args if side.op == '+' else (side,)):
            k, x = sg, a
            if a.op == 'num':
                c += sg * a.args[0]
                continue
            if a.op == '*' and len(a.args) == 2 and a.args[0].op == 'num' and abs(a.args[0].args[0]) == 1:
                k, x = sg * a.args[0].args[0], a.args[1]
            if x.op != 'v':
                return None
            (pos if k > 0 else rest).append(x)
    if len(pos) == 1 and len(rest) == 1 and c == 0 and pos[0] is not rest[0]:
        x, y = sorted((pos[0], rest[0]), key=lambda t: str(t.args[0]))
        return {y: x} if y.args[1:] == x.args[1:] else None
    if len(pos) + len(rest) == 1 and 'i' not in (pos + rest)[0].args[1]:
        return {pos[0]: num(-c)} if pos else {rest[0]: num(c)}
    return None


class Prover:
    def __init__(self, facts, budget=20.0):
        self.facts = facts
        self.budget = budget
        self.base = HypCtx(facts)
        self._feas = {}

    # canonicalise every condition in a term
    def canon(self, t):
        c = self.base.cache.get(('canon', t))
        if c is None:
            c = self._canon(t)
            self.base.cache[('canon', t)] = c
        return c

    def _canon(self, t):
        if t.op in ('num', 'v', 'true', 'false', 'inf', 'nan'):
            return t
        if t.isbool and t.op != 'ite':
            try:
                # canonicalise inside first
                return self.base.nbool(self._canon_args(t))
            except TooBig:
                return self._canon_args(t)
        return self._canon_args(t)

    def _canon_args(self, t):
        if t.op in ('bind', 'any'):
            pos = 2 if t.op == 'bind' else 1
            bodies = [self.canon(b) for b in t.args[pos + 1:]]
            if all(x is y for x, y in zip(bodies, t.args[pos + 1:])):
                return t
            v = t.args[pos]
            d = max([depth(b) for b in bodies] + [0])
            v2 = var('#%d' % d, v.args[1])
            if v2 is not v:
                bodies = [subst(b, {v: v2}) for b in bodies]
            if t.op == 'any' and bodies[0] is FALSE:
                return FALSE
            return mk(t.op, *t.args[:pos], v2, *bodies)
        new = [self.canon(a) if isinstance(a, T) else a for a in t.args]
        if all(x is y for x, y in zip(new, t.args)):
            return t
        return tm.rebuild(t, new)

    # ---- entry points
    def prove(self, hyps, goal, budget=None):
        """-> (ok, [failing leaves])"""
        self.deadline = time.time() + (budget or self.budget)
        self.fail = []
        self.nleaf = 0
        try:
            hy = []
            for h in hyps:
                hy.extend(lits(self.canon(h)))
            if FALSE in hy:
                STATS['trivial'] += 1
                return True, []
            g = self.canon(goal)
            for _ in range(3):          # variables known to equal another variable or a number
                m = next((m for m in map(solved_eq, hy) if m), None)
                if m is None:
                    break
                old, hy = hy, []
                for h in old:
                    hy.extend(lits(self.canon(subst(h, m))))
                hy = [h for h in hy if h is not TRUE]
                if FALSE in hy:
                    STATS['trivial'] += 1
                    return True, []
                g = self.canon(subst(g, m))
            self.go(hy, g)
        except Budget:
            self.fail.append(Leaf(hyps, goal, 'budget'))
        except TooBig:
            self.fail.append(Leaf(hyps, goal, 'toobig'))
        except RecursionError:
            self.fail.append(Leaf(hyps, goal, 'recursion'))
        return not self.fail, self.fail

    def tick(self):
        if time.time() > self.deadline or len(self.fail) > 6:
            raise Budget()

    def idx_vars(self, *ts):
        out = set()
        for t in ts:
            for v in fv(t):
                if v in self.facts.idx_axis:
                    out.add(v)
        return out

    def instances(self, hyps, goal):
        """instantiate universal hypotheses (negated any) at the index terms in sight"""
        out = list(hyps)
        seen = set(hyps)
        for _ in range(2):
            idx = self.idx_vars(goal, *out)
            new = []
            for h in out:
                if h.op == 'not' and h.args[0].op == 'any':
                    a = h.args[0]
                    for v in idx:
                        if self.facts.idx_axis[v] is a.args[0]:
                            inst = bnot(subst(a.args[2], {a.args[1]: v}))
                            inst = self.canon(inst)
                            for l in lits(inst):
                                if l not in seen and l is not TRUE:
                                    new.append(l)
                                    seen.add(l)
            if not new:
                break
            out = out + new
        return out

    def assume(self, hyps, lit):
        """substitution implied by a literal; returns mapping"""
        m = {lit: TRUE}
        n = bnot(lit)
        if n.op != 'not' or n.args[0] is not lit:
            m[n] = FALSE
        if lit.op == 'not':
            m = {lit.args[0]: FALSE}
        if lit.op in ('<', '<=', '=='):
            a, b = lit.args
            t = a if b is ZERO else (b if a is ZERO else None)
            if t is not None:
                L, LE, G, GE, E = (mk('<', t, ZERO), mk('<=', t, ZERO), mk('<', ZERO, t), mk('<=', ZERO, t),
                                   eq(t, ZERO))
                if lit is L:
                    m.update({L: TRUE, LE: TRUE, G: FALSE, GE: FALSE, E: FALSE})
                elif lit is LE:
                    m.update({LE: TRUE, G: FALSE})
                elif lit is G:
                    m.update({G: TRUE, GE: TRUE, L: FALSE, LE: FALSE, E: FALSE})
                elif lit is GE:
                    m.update({GE: TRUE, L: FALSE})
                elif lit is E:
                    m.update({L: FALSE, G: FALSE, LE: TRUE, GE: TRUE, E: TRUE})
        return m

    def find_split(self, t, bound=frozenset(), seen=None):
        """an atomic condition (not depending on bound variables) of some ite/bool structure in t"""
        if seen is None:
            seen = set()
        key = t
        if key in seen:
            return None
        seen.add(key)
        if t.op == 'ite':
            r = self.atom_of(t.args[0])
            if r is not None:
                return r
        if t.op in ('bind', 'any'):
            pos = 2 if t.op == 'bind' else 1
            for b in t.args[pos + 1:]:
                r = self.find_split(b, bound, seen)
                if r is not None:
                    return r
                if b.isbool and b.op in ('and', 'or'):
                    r = self.atom_of(b, only_free=True)
                    if r is not None:
                        return r
            return None
        for a in t.args:
            if isinstance(a, T):
                r = self.find_split(a, bound, seen)
                if r is not None:
                    return r
        return None

    def atom_of(self, c, only_free=False):
        if c.op in ('and', 'or', 'not'):
            for a in c.args:
                r = self.atom_of(a)
                if r is not None:
                    return r
            return None
        if c.op in ('true', 'false'):
            return None
        if any(v.args[0].startswith('#') for v in fv(c)):
            return None
        # prefer atoms whose own arguments are ite-free
        for a in c.args:
            if isinstance(a, T):
                r = self.find_split(a)
                if r is not None:
                    return r
        return c

    def go(self, hyps, goal, depth_=0):
        self.tick()
        if goal is TRUE:
            STATS['trivial'] += 1
            return
        if goal.op == 'and':
            for a in goal.args:
                self.go(hyps, a, depth_ + 1)
            return
        if goal.op == 'not' and goal.args[0].op == 'any':
            a = goal.args[0]
            sk = self.fresh_idx(a.args[0])
            self.go(hyps, self.canon(bnot(subst(a.args[2], {a.args[1]: sk}))), depth_ + 1)
            return
        if goal.op == 'any':
            if goal in hyps:
                STATS['trivial'] += 1
                return
        sp = self.find_split(goal)
        if sp is None and goal.op == 'or':
            # assume the negations of all but the last
            parts = list(goal.args)
            # keep equalities / any for last
            parts.sort(key=lambda x: (x.op == 'any', x.op == '=='))
            for x in parts[:-1]:
                hyps = hyps + list(lits(bnot(x)))
            self.go(hyps, parts[-1], depth_ + 1)
            return
        if sp is not None:
            c = sp
            known = self.decide(hyps, c)
            if known is not False:
                self.branch(hyps, goal, c, depth_)
            if known is not True:
                self.branch(hyps, goal, bnot(c), depth_)
            return
        # hypotheses may contain disjunctions
        for h in hyps:
            alts = disjuncts(h)
            if alts:
                rest = [x for x in hyps if x is not h]
                for a in alts:
                    self.branch(rest, goal, a, depth_)
                return
        if depth_:
            g = self.canon(goal)
            hy = []
            for h in hyps:
                hy.extend(lits(self.canon(h)))
            if FALSE in hy:
                STATS['trivial'] += 1
                return
            hy = [h for h in hy if h is not TRUE]
            if g is not goal or hy != hyps:
                self.go(hy, g, 0)
                return
        self.leaf(hyps, goal)

    def branch(self, hyps, goal, c, depth_):
        m = self.assume(hyps, c)
        hy = []
        for h in hyps:
            h2 = subst(h, m)
            if h2 is FALSE:
                return
            if h2 is not TRUE:
                hy.extend(lits(h2))
        hy.extend(lits(c))
        self.go(hy, subst(goal, m), depth_ + 1)

    def decide(self, hyps, c):
        """True/False/None: is condition c decided by the hypotheses (cheap reasoning)"""
        inst = self.instances(hyps, c)
        if c in inst:
            return True
        n = bnot(c)
        if n in inst or any(x in inst for x in ([n] if n.op != 'or' else [])):
            return False
        ctx = HypCtx(self.facts, inst)
        try:
            r = ctx.nbool(c)
        except TooBig:
            return None
        if r is TRUE:
            return True
        if r is FALSE:
            return False
        return None

    def fresh_idx(self, length):
        self._sk = getattr(self, '_sk', 0) + 1
        v = var('sk%d' % self._sk, 'i')
        self.facts.idx_axis[v] = length
        self.facts.var(v, le(ZERO, v), lt(v, length))
        return v

    def skolemise(self, hyps):
        out = []
        for h in hyps:
            if h.op == 'any':
                cache = self.base.cache.setdefault('sk', {})
                if h not in cache:
                    cache[h] = self.fresh_idx(h.args[0])
                out.extend(lits(self.canon(subst(h.args[2], {h.args[1]: cache[h]}))))
        return hyps + [o for o in out if o not in hyps]

    def leaf(self, hyps, goal):
        STATS['leaves'] += 1
        self.nleaf += 1
        if goal in hyps:
            STATS['trivial'] += 1
            return
        hy = self.instances(hyps, goal)
        # new disjunctive instances: split
        for h in hy:
            alts = disjuncts(h)
            if alts and h not in hyps and not any(a in hy for a in alts):
                for a in alts:
                    self.branch([x for x in hy if x is not h], goal, a, 0)
                return
        for h in hy:
            if bnot(h) in hy:
                STATS['trivial'] += 1
                return
        # substitute equalities  atom == const / atom == term
        m = self.eq_subst(hy)
        g2, hy2 = goal, hy
        if m:
            g2 = self.canon(subst(goal, m))
            hy2 = []
            for h in hy:
                x = self.canon(subst(h, m))
                if x is FALSE:
                    STATS['trivial'] += 1
                    return
                if x is not TRUE:
                    hy2.append(x)
            for k, v in m.items():
                hy2.append(eq(k, v) if v is not ZERO else mk('==', k, ZERO))
        ctx = HypCtx(self.facts, hy2)
        # contradictory hypotheses by interval reasoning
        for h in hy2:
            if h.op in ('<', '<=', '==') or (h.op == 'not' and h.args[0].op == '=='):
                if self._contradicts(ctx, h, hy2):
                    STATS['interval'] += 1
                    return
        if g2.op == '==' and not g2.args[0].isbool:
            a, b = g2.args
            try:
                if self.num_equal(ctx, hy2, a, b):
                    return
            except TooBig:
                pass
        elif g2 is TRUE:
            STATS['trivial'] += 1
            return
        else:
            r = ctx.nbool(g2)
            if r is TRUE:
                STATS['interval'] += 1
                return
        if self.resigned(hy2, g2):
            STATS['interval'] += 1
            return
        # z3: hyps & not goal unsat?
        sk = self.skolemise(hy2)
        sk = self.instances(sk, g2)
        ng = bnot(g2)
        r = z3_check(ctx, self.facts, [h for h in sk if h.op not in ('any',)] + list(lits(ng)), timeout=3000)
        if r == 'unsat':
            STATS['z3'] += 1
            return
        if g2.op == 'any':
            for v in self.idx_vars(g2, *sk):
                if self.facts.idx_axis[v] is g2.args[0]:
                    sub_ = Prover(self.facts, budget=3)
                    sub_.base = self.base
                    ok, _ = sub_.prove(sk, subst(g2.args[2], {g2.args[1]: v}))
                    if ok:
                        return
        # last resort: cases of the conditional values in the hypotheses
        for h in hy2:
            if h.op in ('<', '<=', '==') or h.op == 'not' and h.args[0].op in ('<', '<=', '=='):
                c = self.find_split(h)
                if c is not None:
                    for a in (c, bnot(c)):
                        if bnot(a) not in hy2:
                            self.branch(hy2, g2, a, 1)
                    return
        self.fail.append(Leaf(hyps, goal, r))

    def resigned(self, hy, goal):
        """comparisons normalised once more with the signs the other hypotheses give (roots of what is known positive)"""
        def roots(t):
            return any(x.op == '^' and x.args[1].op == 'num' and x.args[1].args[0].denominator != 1 for x in tm.walk(t))
        cmps = [h for h in hy if (h.op in ('<', '<=', '==') or h.op == 'not' and h.args[0].op in ('==', '<', '<='))]
        if len(cmps) > 40 or not (roots(goal) or any(roots(h) for h in cmps)):
            return False
        seen = set()
        try:
            for h in cmps:
                if not roots(h):
                    r = h
                else:
                    r = HypCtx(self.facts, [x for x in hy if x is not h]).nbool(h)
                if r is FALSE or bnot(r) in seen:
                    return True
                seen.add(r)
            g = HypCtx(self.facts, hy).nbool(goal)
            return g is TRUE or g in seen
        except TooBig:
            return False

    def _contradicts(self, ctx, h, hy):
        c2 = HypCtx(self.facts, [x for x in hy if x is not h])
        try:
            return c2.nbool(h) is FALSE
        except TooBig:
            return False

    def eq_subst(self, hy):
        m = {}
        for h in hy:
            if h.op != '==':
                continue
            a, b = h.args
            if a.isbool or tm.has_special(a) or tm.has_special(b):
                continue
            try:
                p = p_add(self.base.nf(a), self.base.nf(b), Fraction(-1))
            except TooBig:
                continue
            best = None
            for mo, c in p.items():
                if len(mo) == 1 and mo[0][1] == 1 and mo[0][0].op in ('v', 'fn'):
                    x = mo[0][0]
                    if x in m or any(x in set(tm.walk(at)) for mm in p if mm != mo for at, _ in mm):
                        continue
                    if 'p' in (x.args[1] if x.op == 'v' else ''):
                        continue
                    if best is None or (x.op == 'fn' and best[0].op != 'fn'):
                        best = (x, c, mo)
            if best:
                x, c, mo = best
                rest = {mm: -cc / c for mm, cc in p.items() if mm != mo}
                rt = self.base.to_term(rest)
                rt = subst(rt, m)
                if x in set(tm.walk(rt)):
                    continue
                m = {k: subst(v, {x: rt}) for k, v in m.items()}
                m[x] = rt
        return m

    # numeric equality with congruence on atoms
    def num_equal(self, ctx, hyps, a, b, depth_=0):
        self.tick()
        if a is b:
            STATS['normaliser'] += 1
            return True
        sp = [x for x in (a, b) if tm.has_special(x)]
        if sp:
            return False
        if ctx.equal(a, b):
            if self.side_ok(ctx, hyps, a, b):
                STATS['normaliser'] += 1
                return True
            return False
        if depth_ > 4:
            return False
        # unify atoms of the same head whose arguments are provably equal
        p = p_add(ctx.nf(a), ctx.nf(b), Fraction(-1))
        atoms = set()
        for m in p:
            for at, e in m:
                self._sub_atoms(ctx, at, atoms)
        atoms = sorted(atoms, key=lambda x: x.id)
        groups = {}
        for at in atoms:
            if at.op == 'fn':
                groups.setdefault(('fn', at.args[0], len(at.args)), []).append(at)
            elif at.op == 'bind':
                groups.setdefault(('bind', at.args[0], len(at.args)), []).append(at)
            elif at.op == 'ite':
                return False
        mp = {}
        for k, g in groups.items():
            reps = []
            for at in g:
                for r in reps:
                    if self.atoms_equal(hyps, r, at):
                        mp[at] = r
                        break
                else:
                    reps.append(at)
                if len(reps) > 12:
                    break
        if not mp:
            return False
        a2 = subst(ctx.to_term(ctx.nf(a)), mp)
        b2 = subst(ctx.to_term(ctx.nf(b)), mp)
        return self.num_equal(ctx, hyps, a2, b2, depth_ + 1)

    def _sub_atoms(self, ctx, at, acc):
        if at.op == '+':
            for m in ctx.nf_sumatom(at):
                for x, e in m:
                    self._sub_atoms(ctx, x, acc)
        elif at.op == '^':
            for m in ctx.nf(at.args[0]):
                for x, e in m:
                    self._sub_atoms(ctx, x, acc)
        else:
            acc.add(at)

    def atoms_equal(self, hyps, x, y):
        """prove all arguments pairwise equal"""
        if x.op == 'fn':
            for a, b in zip(x.args[1:], y.args[1:]):
                if a is b:
                    continue
                if not isinstance(a, T) or not isinstance(b, T):
                    return False
                if a.op == 'v' and b.op == 'v' and (a in self.facts.idx_axis or b in self.facts.idx_axis):
                    return False
                if a.op == 'bind' and b.op == 'bind':
                    if not self.atoms_equal(hyps, a, b):
                        return False
                    continue
                if not self.sub_prove(hyps, eq(a, b)):
                    return False
            return True
        # binder
        if x.args[0] != y.args[0]:
            return False
        ax, ay = x.args[1], y.args[1]
        if ax is not ay:
            if not (isinstance(ax, T) and isinstance(ay, T) and self.sub_prove(hyps, eq(ax, ay))):
                return False
        if isinstance(ax, T):
            v = self.fresh_idx(ax)
        else:
            self._sk = getattr(self, '_sk', 0) + 1
            v = var('cv%d' % self._sk, x.args[2].args[1])
        bx, by = instantiate(x, v), instantiate(y, v)
        h2 = list(hyps)
        for i, (p, q) in enumerate(zip(bx, by)):
            if p is q:
                continue
            if not self.sub_prove(h2, eq(p, q)):
                return False
            if i == 0 and p.isbool:
                h2 = h2 + [p]
        return True

    def sub_prove(self, hyps, goal):
        saved = self.fail, self.nleaf
        self.fail = []
        try:
            hy = []
            for h in hyps:
                hy.extend(lits(self.canon(h)))
            self.go(hy, self.canon(goal))
            return not self.fail
        finally:
            self.fail, self.nleaf = saved[0], saved[1]

    def side_ok(self, ctx, hyps, a, b):
        """definedness side conditions of the rewriting (only those not shared verbatim by both sides)"""
        # conditions raised while normalising a and b
        side = ctx.side
        for kind, t in list(side):
            s = ctx.sign(t) if t.op != 'num' else ('+' if t.args[0] > 0 else ('-' if t.args[0] < 0 else '0'))
            ok = False
            if kind == 'nonneg':
                ok = s in ('+', '0+') or t.args and t.op == 'num' and t.args[0] >= 0
            elif kind == 'pos':
                ok = s == '+'
            elif kind == 'nonzero':
                ok = s in ('+', '-')
            if ok:
                continue
            g = {'nonneg': le(ZERO, t), 'pos': lt(ZERO, t), 'nonzero': bnot(eq(t, ZERO))}[kind]
            key = (kind, t, tuple(hyps))
            if key in self._feas:
                if self._feas[key]:
                    continue
                return False
            r = z3_check(ctx, self.facts, [h for h in hyps if h.op != 'any'] + [self.base.nbool(bnot(g))],
                         timeout=1500)
            self._feas[key] = (r == 'unsat')
            if r != 'unsat':
                self.side_fail = (kind, t)
                return False
        return True

    # ---- feasibility of a path condition
    def feasible(self, hyps, timeout=400):
        hy = []
        for h in hyps:
            c = self.canon(h)
            if c is FALSE:
                return False
            hy.extend(lits(c))
        s = set(hy)
        for h in hy:
            if bnot(h) in s:
                return False
        hy = self.skolemise(hy)
        hy = self.instances(hy, TRUE)
        s = set(hy)
        for h in hy:
            if h is FALSE or bnot(h) in s:
                return False
        ctx = HypCtx(self.facts, hy)
        for h in hy:
            if h.op in ('<', '<=', '==') and self._contradicts(ctx, h, hy):
                return False
        r = z3_check(ctx, self.facts, [h for h in hy if h.op != 'any'], timeout=timeout)
        return r != 'unsat'

    def model(self, hyps, timeout=3000):
        hy = []
        for h in hyps:
            hy.extend(lits(self.canon(h)))
        hy = self.skolemise(hy)
        hy = self.instances(hy, TRUE)
        ctx = HypCtx(self.facts, [])
        r, m = z3_check(ctx, self.facts, [h for h in hy if h.op != 'any'], timeout=timeout, want_model=True)
        return m if r == 'sat' else None
