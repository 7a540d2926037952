"""Canonical form of numeric terms: sums of generalised monomials with rational exponents.

A polynomial is a dict {monomial: Fraction}; a monomial is a tuple of (atom, Fraction exponent) sorted by
atom id.  Atoms are terms: variables, uninterpreted applications, binders, primes (for fractional powers of
rationals), canonical sums (only with exponents that are negative or fractional), exp/log/sin/cos/... with
canonical arguments.  All rewriting is exact over the reals given the definedness side conditions, which are
collected in Ctx.side (bases of fractional powers >= 0, denominators != 0).
"""
from fractions import Fraction
from math import gcd
from .terms import *
from . import terms as tm

F1 = Fraction(1)
F0 = Fraction(0)


class TooBig(Exception):
    pass


_small_primes = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97]


def factor_int(n):
    out = {}
    for p in _small_primes:
        while n % p == 0:
            out[p] = out.get(p, 0) + 1
            n //= p
    if n > 1:
        p = 101
        while p * p <= n and p < 20000:
            while n % p == 0:
                out[p] = out.get(p, 0) + 1
                n //= p
            p += 2
        if n > 1:
            out[n] = out.get(n, 0) + 1
    return out


def p_const(c):
    return {(): c} if c != 0 else {}


def p_add(a, b, k=F1):
    if len(a) < len(b) and k == 1:
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, F0) + c * k
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def p_scale(a, k):
    if k == 0:
        return {}
    return {m: c * k for m, c in a.items()}


def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        v = d.get(a, F0) + e
        if v == 0:
            d.pop(a, None)
        else:
            d[a] = v
    return tuple(sorted(d.items(), key=lambda x: x[0].id))


class Ctx:
    """normalisation context: sign oracle + rewriting options"""

    LIMIT = 6000

    def __init__(self, sign=None, order=None):
        self.sign_oracle = sign      # callable(term)-> '+', '0+', '-', '0-', None
        self.cache = {}
        self.side = set()            # ('nonneg'|'nonzero', term)
        self.scache = {}
        self._busy = set()

    # -- sign knowledge ------------------------------------------------------
    def sign(self, t):
        if t.op == 'num':
            v = t.args[0]
            return '+' if v > 0 else ('-' if v < 0 else '0+')
        if t.op == 'v' and 'p' in t.args[1]:
            return '+'
        if t.op == 'fn' and t.args[0] == 'exp':
            return '+'
        r = self.scache.get(t, 0)
        if r != 0:
            return r
        if t in self._busy:
            return None
        self._busy.add(t)
        try:
            r = self._sign(t)
            if r is None and self.sign_oracle is not None:
                r = self.sign_oracle(self, t)
        finally:
            self._busy.discard(t)
        self.scache[t] = r
        return r

    def _sign(self, t):
        if t.op == '+':
            ss = [self.sign(a) for a in t.args]
            if all(x in ('+', '0+') for x in ss):
                return '+' if '+' in ss else '0+'
            if all(x in ('-', '0-') for x in ss):
                return '-' if '-' in ss else '0-'
            return None
        if t.op == '*':
            s, z = 1, False
            for a in t.args:
                x = self.sign(a)
                if x is None:
                    return None
                if x[0] == '0':
                    z = True
                if x[-1] == '-':
                    s = -s
            return ('0' if z else '') + ('+' if s > 0 else '-')
        if t.op == '^' and t.args[1].op == 'num':
            q = t.args[1].args[0]
            x = self.sign(t.args[0])
            if x == '+':
                return '+'
            if q.denominator == 1 and q.numerator % 2 == 0:
                return '+' if x in ('+', '-') else ('0+' if q > 0 else '+')
            if x == '0+':
                return '0+'
            if q.denominator != 1:
                return '0+'          # defined only for a non-negative base
            if q.denominator == 1 and x is not None:
                return x
            return None
        if t.op == 'fn' and t.args[0] == 'abs':
            return '+' if self.sign(t.args[1]) in ('+', '-') else '0+'
        if t.op == 'bind' and t.args[0] == 'count':
            return '0+'
        if t.op == 'bind' and t.args[0] in ('sum', 'max', 'min'):
            x = self.sign(t.args[4])
            if x == '+' and self.inhabited(t):
                return '+'
            if x in ('+', '0+'):
                return '0+'
            if t.args[0] == 'max' and self.inhabited(t):
                x = self.sign(self.to_term(self.nf(subst(t.args[4], {t.args[2]: ZERO}))))
                if x in ('+', '0+'):
                    return x
        if t.op == 'bind' and t.args[0] == 'int':
            if self.sign(t.args[4]) in ('+', '0+') and t.args[5] is ZERO and self.sign(t.args[6]) in ('+', '0+'):
                return '0+'
        if t.op == 'ite':
            a, b = self.sign(t.args[1]), self.sign(t.args[2])
            if a == b:
                return a
            if a and b and a[-1] == b[-1]:
                return '0' + a[-1]
        return None

    # -- main -----------------------------------------------------------------
    def nf(self, t):
        r = self.cache.get(t)
        if r is None:
            r = self._nf(t)
            self.cache[t] = r
        return r

    def _nf(self, t):
        op = t.op
        if op == 'num':
            return p_const(t.args[0])
        if op == 'v':
            return {((t, F1),): F1}
        if op in ('inf', 'nan'):
            return {((t, F1),): F1}
        if op == '+':
            r = {}
            for a in t.args:
                r = p_add(r, self.nf(a))
            return r
        if op == '*':
            r = {(): F1}
            for a in sorted(t.args, key=lambda x: len(self.nf(x))):
                r = self.mulp(r, self.nf(a))
            return r
        if op == '^':
            b, e = t.args
            if e.op == 'num':
                return self.powp(self.nf(b), e.args[0], b)
            en = self.nf(e)
            if not en or (len(en) == 1 and () in en):
                return self.powp(self.nf(b), en.get((), F0), b)
            # b^e = exp(e*log b), requires b > 0
            self.side.add(('pos', b))
            lg = self.nf_fn(fn('log', b))
            return self.nf_exp(self.mulp(lg, en))
        if op == 'fn':
            return self.nf_fn(t)
        if op == 'bind':
            return self.nf_bind(t)
        if op == 'ite':
            c, a, b = t.args
            na, nb = self.nf(a), self.nf(b)
            if na == nb:
                return na
            t2 = mk('ite', self.nbool(c), self.to_term(na), self.to_term(nb))
            return {((t2, F1),): F1}
        raise TooBig('nf of ' + op)

    def atom(self, t, e=F1):
        return {((t, e),): F1}

    # multiplication with expansion of canonical sums at integer exponents >= 1
    def mulp(self, a, b):
        if len(a) * len(b) > self.LIMIT:
            raise TooBig()
        r = {}
        again = False
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = mono_mul(m1, m2)
                v = r.get(m, F0) + c1 * c2
                if v == 0:
                    r.pop(m, None)
                else:
                    r[m] = v
        return self.fix(r)

    def fix(self, r):
        """re-canonicalise monomials: expand sums^k (k>=1), primes with exponents outside [0,1), sin^2"""
        bad = [m for m in r if self._needs_fix(m)]
        if not bad:
            return r
        out = {m: c for m, c in r.items() if m not in set(bad)}
        for m in bad:
            out = p_add(out, self._fix_mono(m, r[m]))
        return out

    def _needs_fix(self, m):
        for a, e in m:
            if a.op == 'num' and not (0 < e < 1):
                return True
            if a.op == '+' and e >= 1:
                return True
            if a.op == 'fn' and a.args[0] == 'sin' and e >= 2 and e.denominator == 1:
                return True
            if a.op == 'fn' and a.args[0] == 'abs' and e >= 2 and e.denominator == 1:
                return True
        return False

    def _fix_mono(self, m, c):
        keep = []
        expand = []
        for a, e in m:
            if a.op == 'num':
                k = e.numerator // e.denominator
                c *= a.args[0] ** k
                if e - k != 0:
                    keep.append((a, e - k))
            elif a.op == '+' and e >= 1:
                k = e.numerator // e.denominator
                expand.append((self.nf_sumatom(a), k))
                if e - k != 0:
                    keep.append((a, e - k))
            elif a.op == 'fn' and a.args[0] == 'sin' and e >= 2 and e.denominator == 1:
                k = e.numerator // 2
                ca = fn('cos', a.args[1])
                expand.append(({(): F1, ((ca, Fraction(2)),): -F1}, k))
                if e - 2 * k != 0:
                    keep.append((a, e - 2 * k))
            elif a.op == 'fn' and a.args[0] == 'abs' and e >= 2 and e.denominator == 1:
                k = e.numerator // 2
                expand.append((self.powp(self.nf(a.args[1]), Fraction(2), a.args[1]), k))
                if e - 2 * k != 0:
                    keep.append((a, e - 2 * k))
            else:
                keep.append((a, e))
        r = {tuple(sorted(keep, key=lambda x: x[0].id)): c}
        for p, k in expand:
            for _ in range(k):
                r = self.mulp(r, p)
        return r

    def nf_sumatom(self, a):
        r = self.cache.get(('sum', a))
        if r is None:
            r = {}
            for s in a.args:
                r = p_add(r, self.nf(s))
            self.cache[('sum', a)] = r
        return r

    # canonical term of a polynomial
    def to_term(self, p):
        key = tuple(sorted(((tuple((a.id, e) for a, e in m), c) for m, c in p.items())))
        r = self.cache.get(('tt', key))
        if r is None:
            ts = []
            for m, c in sorted(p.items(), key=lambda x: tuple((a.id, e) for a, e in x[0])):
                fs = [tm.mk('^', a, num(e)) if e != 1 else a for a, e in m]
                ts.append(mul(num(c), *fs) if c != 1 or not fs else mul(*fs))
            r = add(*ts)
            self.cache[('tt', key)] = r
            self.cache.setdefault(r, p)
        return r

    def content(self, p):
        """p = c * mono * P with P primitive: integer coprime coefficients, zero min exponents"""
        items = sorted(p.items(), key=lambda x: tuple((a.id, e) for a, e in x[0]))
        atoms = {}
        first = True
        for m, c in items:
            d = dict(m)
            if first:
                atoms = dict(d)
                first = False
            else:
                for a in list(atoms):
                    if a not in d:
                        atoms[a] = min(atoms[a], F0)
                    else:
                        atoms[a] = min(atoms[a], d[a])
                for a in d:
                    if a not in atoms:
                        atoms[a] = min(F0, d[a])
        mono = tuple(sorted(((a, e) for a, e in atoms.items() if e != 0), key=lambda x: x[0].id))
        inv = tuple((a, -e) for a, e in mono)
        g = 0
        l = 1
        for m, c in items:
            g = gcd(g, c.numerator)
            l = l * c.denominator // gcd(l, c.denominator)
        k = Fraction(g, l)
        P = {}
        for m, c in items:
            P[mono_mul(m, inv)] = c / k
        for a in {a for m in P for a, e in m if a.op == 'num'}:
            # roots of primes: least total exponent (coefficients included) zero
            pr = a.args[0]
            if pr.denominator != 1:
                continue
            vmin = min(dict(m).get(a, F0) + _ord(c, int(pr)) for m, c in P.items())
            if vmin != 0:
                P2 = {}
                for m, c in P.items():
                    e = dict(m).get(a, F0) - vmin
                    fl = e.numerator // e.denominator
                    m2 = mono_mul(tuple((x, y) for x, y in m if x is not a), ((a, e - fl),) if e != fl else ())
                    P2[m2] = c * pr ** fl
                P = P2
                fl = vmin.numerator // vmin.denominator
                k *= pr ** fl
                if vmin != fl:
                    mono = mono_mul(mono, ((a, vmin - fl),))
        lead = min(P.items(), key=lambda x: tuple((-e, a.id) for a, e in x[0]))
        # orientation: prefer positive constant/lead coefficient
        lead = P.get((), None)
        if lead is None:
            lead = P[min(P, key=lambda m: tuple((a.id, e) for a, e in m))]
        if lead < 0:
            k = -k
            P = p_scale(P, -F1)
        return k, mono, P

    def const_pow(self, c, q):
        """c>0 rational to rational q, as (Fraction, mono)"""
        if q.denominator == 1:
            return c ** int(q), ()
        out = {}
        for n, s in ((c.numerator, 1), (c.denominator, -1)):
            for pr, k in factor_int(n).items():
                out[pr] = out.get(pr, F0) + s * k * q
        coef = F1
        mono = []
        for pr, e in out.items():
            k = e.numerator // e.denominator
            coef *= Fraction(pr) ** k
            if e - k != 0:
                mono.append((num(pr), e - k))
        return coef, tuple(sorted(mono, key=lambda x: x[0].id))

    def squarefree(self, P):
        """P = prod f_i^n_i with some n_i > 1, or None"""
        if len(P) < 3 or len(P) > 80:
            return None
        key = frozenset(P.items())
        r = _SQF.get(key, 0)
        if r == 0:
            r = _SQF[key] = squarefree(P)
        return r

    def prim(self, p):
        """content, with the sums it brings to positive powers expanded again; P is {} when p is zero"""
        k, mono, P = self.content(p)
        for _ in range(4):
            P2 = self.fix(P)
            if P2 is P:
                break
            if not P2:
                return k, mono, {}
            k2, m2, P = self.content(P2)
            k, mono = k * k2, mono_mul(mono, m2)
        return k, mono, P

    def divide_out(self, P):
        if len(P) > 60:
            return None
        for A in sorted({a for m in P for a, e in m if a.op == '+' and e.denominator != 1 and e > 0}, key=lambda a: a.id):
            Q = exact_div(P, self.nf_sumatom(A))
            if Q is not None:
                return A, Q
        return None

    def powp(self, p, q, orig=None):
        if q == 0:
            return {(): F1}
        if q == 1:
            return p
        if not p:
            if q > 0:
                return {}
            self.side.add(('nonzero', ZERO))
            return self.atom(tm.mk('^', ZERO, num(q)))
        if q.denominator == 1 and q > 0:
            if len(p) == 1:
                (m, c), = p.items()
                return self.fix({tuple((a, e * q) for a, e in m): c ** int(q)})
            if q > 12 or len(p) ** int(q) > 50000:
                raise TooBig()
            r = {(): F1}
            base = p
            n = int(q)
            while n:
                if n & 1:
                    r = self.mulp(r, base)
                n >>= 1
                if n:
                    base = self.mulp(base, base)
            return r
        if len(p) == 1:
            (m, c), = p.items()
            return self.pow_mono(m, c, q)
        k, mono, P = self.prim(p)
        if not P:
            return self.powp({}, q)
        for _ in range(4):
            r = self.divide_out(P)        # P = A * P' for a sum A that also occurs to a fractional power
            if r is None:
                break
            k2, m2, P = self.content(r[1])
            k, mono = k * k2, mono_mul(mono_mul(mono, m2), ((r[0], F1),))
        if set(P) == {()}:
            return self.pow_mono(mono, k * P[()], q)
        sq = self.squarefree(P)
        if sq is not None:
            fs, cc, ok = [], F1, True
            for f, n in sq:
                if set(f) <= {()}:
                    cc *= f[()] ** n
                    continue
                sg = self.sign(self.to_term(f))
                if sg in ('-', '0-'):
                    f = p_scale(f, -F1)
                    cc *= (-1) ** n
                elif sg not in ('+', '0+'):
                    ok = False
                fs.append((f, n))
            if q.denominator == 1 or ok and k * cc > 0 and all(self.pos_ok(a, e) for a, e in mono):
                r = self.pow_mono(mono, k * cc, q)
                for f, n in fs:
                    r = self.mulp(r, self.powp(f, q * n))
                return r
        Pt = self.to_term(P)
        if q.denominator != 1:
            # need  k*mono*P >= 0
            if k < 0:
                k, P = -k, p_scale(P, -F1)
                Pt = self.to_term(P)
            # exact: sign of mono parts must be known to distribute
            unknown = [(a, e) for a, e in mono if not self.pos_ok(a, e)]
            if unknown:
                full = self.to_term({mono_mul(m, tuple(unknown)): c for m, c in P.items()})
                self.side.add(('nonneg', full))
                rest = tuple((a, e) for a, e in mono if (a, e) not in unknown)
                r = self.pow_mono(rest, k, q)
                return self.mulp(r, self.atom(tm.mk('^', full, num(q))))
            self.side.add(('nonneg' if q > 0 else 'pos', Pt))
        else:
            self.side.add(('nonzero', Pt))
            if self.sign(Pt) in ('-',):
                k, P = -k, p_scale(P, -F1)
                Pt = self.to_term(P)
        r = self.pow_mono(mono, k, q)
        if q > 0:
            return self.mulp(r, self.atom(Pt, q))
        return self.mulp(r, self.atom(Pt, q))

    def pos_ok(self, a, e):
        if a.op == 'num':
            return True
        s = self.sign(a)
        if s in ('+', '0+'):
            return True
        return False

    def pow_mono(self, m, c, q):
        if q.denominator == 1:
            for a, e in m:
                if e * q < 0 and a.op not in ('num', '+'):
                    self.side.add(('nonzero', a))
            return self.fix({tuple((a, e * q) for a, e in m): c ** int(q)})
        good = []
        bad = []
        for a, e in m:
            (good if self.pos_ok(a, e) else bad).append((a, e))
            if e * q < 0 and a.op != 'num':
                self.side.add(('nonzero', a))
        if bad:
            # (x^2k)^q = |x|^(2kq)
            ev = [(a, e) for a, e in bad if e.denominator == 1 and e.numerator % 2 == 0]
            od = [(a, e) for a, e in bad if (a, e) not in ev]
            for a, e in ev:
                good.append((fn('abs', a), e))
            if od:
                sg = F1
                if c < 0:
                    sg = -F1
                    c = -c
                t = self.to_term({tuple(sorted(od, key=lambda x: x[0].id)): sg})
                self.side.add(('nonneg', t))
                coef, pm = self.const_pow(c, q)
                r = {pm: coef}
                r = self.mulp(r, {tuple(sorted(((a, e * q) for a, e in good), key=lambda x: x[0].id)): F1})
                return self.mulp(r, self.atom(tm.mk('^', t, num(q))))
        if c < 0:
            self.side.add(('nonneg', num(-1)))
            t = self.to_term({m: c})
            return self.atom(tm.mk('^', t, num(q)))
        coef, pm = self.const_pow(c, q)
        d = {}
        for a, e in good:
            d[a] = d.get(a, F0) + e * q
        return self.mulp({pm: coef}, {tuple(sorted(d.items(), key=lambda x: x[0].id)): F1})

    # -- functions ---------------------------------------------------------------
    def nf_exp(self, p):
        r = {(): F1}
        for m, c in p.items():
            if m == ():
                r = self.mulp(r, self.atom(fn('exp', ONE), c))
                continue
            # exp(c*log(x)) = x^c
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'fn' and m[0][0].args[0] == 'log':
                x = m[0][0].args[1]
                r = self.mulp(r, self.powp(self.nf(x), c, x))
                continue
            t = self.to_term({m: F1})
            r = self.mulp(r, self.atom(fn('exp', t), c))
        return r

    def trig(self, p):
        """split p into (rational multiple of pi, rest)"""
        pim = ((PI, F1),)
        c = p.get(pim, F0)
        rest = {m: k for m, k in p.items() if m != pim}
        return c, rest

    def cos_sin(self, p):
        """polynomials (cos p, sin p) by angle addition; base angles are monomials with unit coefficient"""
        key = ('cs', tuple(sorted((tuple((a.id, e) for a, e in m), c) for m, c in p.items())))
        r = self.cache.get(key)
        if r is not None:
            return r
        c, rest = self.trig(p)
        # constant part: multiple of pi/2 exact
        h = c * 2
        if h.denominator == 1:
            k = int(h) % 4
            C = [F1, F0, -F1, F0][k]
            S = [F0, F1, F0, -F1][k]
            cc, ss = p_const(C), p_const(S)
        else:
            t = self.to_term({((PI, F1),): c})
            cc, ss = self.atom(fn('cos', t)), self.atom(fn('sin', t))
        for m, k in rest.items():
            n = k.numerator
            base = self.to_term({m: Fraction(1, k.denominator)}) if m != () else num(Fraction(1, k.denominator))
            c1, s1 = self.atom(fn('cos', base)), self.atom(fn('sin', base))
            sgn = 1
            if n < 0:
                sgn, n = -1, -n
            if n > 12:
                base = self.to_term({m: Fraction(n, k.denominator)})
                cn, sn = self.atom(fn('cos', base)), self.atom(fn('sin', base))
            else:
                cn, sn = {(): F1}, {}
                for _ in range(n):
                    cn, sn = (p_add(self.mulp(cn, c1), self.mulp(sn, s1), -F1),
                              p_add(self.mulp(sn, c1), self.mulp(cn, s1)))
            if sgn < 0:
                sn = p_scale(sn, -F1)
            cc, ss = (p_add(self.mulp(cc, cn), self.mulp(ss, sn), -F1),
                      p_add(self.mulp(ss, cn), self.mulp(cc, sn)))
        r = (cc, ss)
        self.cache[key] = r
        return r

    def nf_fn(self, t):
        name = t.args[0]
        args = t.args[1:]
        if name in ('cos', 'sin', 'tan'):
            p = self.nf(args[0])
            c, s = self.cos_sin(p)
            if name == 'cos':
                return c
            if name == 'sin':
                return s
            return self.mulp(s, self.powp(c, -F1))
        if name == 'exp':
            return self.nf_exp(self.nf(args[0]))
        if name == 'log':
            p = self.nf(args[0])
            if len(p) == 1:
                (m, c), = p.items()
                if all(self.pos_ok(a, e) for a, e in m) and c > 0:
                    r = {}
                    if c != 1:
                        for n, s in ((c.numerator, 1), (c.denominator, -1)):
                            if n != 1:
                                # powers of ten stay together
                                k = 0
                                nn = n
                                while nn % 10 == 0:
                                    nn //= 10
                                    k += 1
                                if k:
                                    r = p_add(r, self.atom(fn('log', num(10))), Fraction(s * k))
                                if nn != 1:
                                    for pr, kk in factor_int(nn).items():
                                        r = p_add(r, self.atom(fn('log', num(pr))), Fraction(s * kk))
                    for a, e in m:
                        if a.op == 'fn' and a.args[0] == 'exp':
                            r = p_add(r, self.nf(a.args[1]), e)
                        elif a.op == 'num':
                            r = p_add(r, self.nf(fn('log', a)), e)
                        else:
                            r = p_add(r, self.atom(fn('log', a)), e)
                    return r
            return self.atom(fn('log', self.to_term(p)))
        if name == 'abs':
            p = self.nf(args[0])
            tt = self.to_term(p)
            s = self.sign(tt) if tt.op != 'num' else ('+' if tt.args[0] >= 0 else '-')
            if s in ('+', '0+'):
                return p
            if s in ('-', '0-'):
                return p_scale(p, -F1)
            if len(p) == 1:
                (m, c), = p.items()
                r = {(): abs(c)}
                for a, e in m:
                    if self.pos_ok(a, e) or (e.denominator == 1 and e.numerator % 2 == 0):
                        r = self.mulp(r, self.atom(a, e))
                    else:
                        r = self.mulp(r, self.atom(fn('abs', a), e))
                return r
            k, mono, P = self.content(p)
            r = self.nf_fn(fn('abs', self.to_term({mono: F1}))) if mono else {(): F1}
            return p_scale(self.mulp(r, self.atom(fn('abs', self.to_term(P)))), abs(k))
        if name == 'tanh':          # 1 - 2 / (e^2x + 1)
            p = self.nf(args[0])
            if not p:
                return {}
            d = p_add(self.nf_exp(p_scale(p, Fraction(2))), {(): F1})
            return p_add({(): F1}, self.powp(d, -F1), Fraction(-2))
        if name in ('sinh', 'arcsin', 'arctan'):
            p = self.nf(args[0])
            if not p:
                return {}
            k, _, _ = self.content(p)
            if k < 0:
                return p_scale(self.atom(fn(name, self.to_term(p_scale(p, -F1)))), -F1)
            return self.atom(fn(name, self.to_term(p)))
        if name == 'cosh':
            p = self.nf(args[0])
            k, _, _ = self.content(p) if p else (F1, 0, 0)
            if k < 0:
                p = p_scale(p, -F1)
            return self.atom(fn(name, self.to_term(p)))
        new = []
        for a in args:
            if isinstance(a, T):
                if a.isbool:
                    new.append(self.nbool(a))
                elif a.op in ('bind',) and a.args[0] == 'lam':
                    new.append(self.nlam(a))
                else:
                    new.append(self.to_term(self.nf(a)))
            else:
                new.append(a)
        return self.atom(fn(name, *new))

    def nlam(self, t):
        bodies = [self.nbool(b) if b.isbool else self.to_term(self.nf(b)) for b in t.args[3:]]
        return self._rebind(t, bodies)

    def _rebind(self, t, bodies):
        v = t.args[2]
        d = max([depth(b) for b in bodies] + [0])
        v2 = var('#%d' % d, v.args[1])
        if v2 is not v:
            tmp = var('#tmp%d' % tm.bind.ctr, v.args[1])
            tm.bind.ctr += 1
            bodies = [subst(subst(b, {v: tmp}), {tmp: v2}) for b in bodies]
        ax = t.args[1]
        if isinstance(ax, T):
            ax = self.to_term(self.nf(ax))
        return mk('bind', t.args[0], ax, v2, *bodies)

    def nf_bind(self, t):
        kind = t.args[0]
        v = t.args[2]
        bodies = []
        for b in t.args[3:]:
            if b.isbool:
                bodies.append(self.nbool(b))
            else:
                bodies.append(b)
        if kind == 'sum':
            cond, body = bodies
            p = self.nf(body)
            out = {}
            groups = {}
            for m, c in p.items():
                inner = tuple((a, e) for a, e in m if v in fv(a))
                outer = tuple((a, e) for a, e in m if v not in fv(a))
                if not inner:
                    cnt = self.count_term(t, cond)
                    out = p_add(out, self.mulp({outer: c}, cnt))
                else:
                    g = groups.setdefault(inner, {})
                    groups[inner] = p_add(g, {outer: c})
            for inner, g in groups.items():
                bt = self._rebind(t, [cond, self.to_term({inner: F1})])
                out = p_add(out, self.mulp(g, self.atom(bt)))
            return out
        if kind == 'int':
            # integral of body over [lo, hi]: ('bind','int',axis,v,cond,body,lo,hi)
            cond, body, lo, hi = bodies
            p = self.nf(body)
            out = {}
            lo_t, hi_t = self.to_term(self.nf(lo)), self.to_term(self.nf(hi))
            for m, c in p.items():
                inner = tuple((a, e) for a, e in m if v in fv(a))
                outer = tuple((a, e) for a, e in m if v not in fv(a))
                bt = self._rebind(t, [TRUE, self.to_term({inner: F1}), lo_t, hi_t])
                out = p_add(out, self.mulp({outer: c}, self.atom(bt)))
            return out
        if kind in ('max', 'min'):
            cond, body = bodies
            cond, body = self.drop_sentinel(kind, t.args[1], v, cond, body)
            p = self.nf(body)
            if len(p) == 1:
                (m, c), = p.items()
                inner = tuple((a, e) for a, e in m if v in fv(a))
                outer = tuple((a, e) for a, e in m if v not in fv(a))
                if inner and c > 0 and all(self.sign(a) == '+' for a, e in outer):
                    bt = self._rebind(t, [cond, self.to_term({inner: F1})])
                    return self.mulp({outer: c}, self.atom(bt))
            # common positive outer factor of an ite body is pulled out by unit normalisation upstream
            return self.atom(self._rebind(t, [cond, self.scale_out(p, v)[1]]), F1) \
                if self.scale_out(p, v)[0] is None else \
                self.mulp(self.scale_out(p, v)[0], self.atom(self._rebind(t, [cond, self.scale_out(p, v)[1]])))
        if kind in ('argmax', 'argmin'):
            cond, body = bodies
            p = self.nf(body)
            if p:
                k, mono, P = self.content(p)
                outer = [(a, e) for a, e in mono if v not in fv(a) and self.sign(a) == '+']
                inv = tuple((a, -e) for a, e in outer)
                p = {mono_mul(m, inv): c / abs(k) for m, c in p.items()}
            return self.atom(self._rebind(t, [cond, self.to_term(p)]))
        bodies = [b if b.isbool else self.to_term(self.nf(b)) for b in bodies]
        return self.atom(self._rebind(t, bodies))

    def drop_sentinel(self, kind, ax, v, cond, body):
        """the maximum of ite(c, K, b) is the maximum of b where not c, when K is at most some b that counts"""
        while body.op == 'ite' and isinstance(ax, T):
            c = self.nbool(body.args[0])
            hit = False
            for c, k, b in ((c, body.args[1], body.args[2]), (bnot(c), body.args[2], body.args[1])):
                if v in fv(k):
                    continue
                if not (ax.op == 'num' and ax.args[0] >= 1 or self.sign(ax) == '+'):
                    continue
                if self.nbool(subst(c, {v: ZERO})) is not FALSE or self.nbool(subst(cond, {v: ZERO})) is not TRUE:
                    continue
                b0 = subst(b, {v: ZERO})
                sk, sb = self.sign(self.to_term(self.nf(k))), self.sign(self.to_term(self.nf(b0)))
                lo, hi = (sk, sb) if kind == 'max' else (sb, sk)
                if lo in ('-', '0-') and hi in ('+', '0+'):
                    cond, body = band(cond, bnot(c)), b
                    hit = True
                    break
            if not hit:
                break
        return cond, body

    def inhabited(self, t):
        """the first index of a sum, maximum or minimum counts"""
        ax, v, cond = t.args[1:4]
        if not isinstance(ax, T) or not (ax.op == 'num' and ax.args[0] >= 1 or self.sign(ax) == '+'):
            return False
        return cond is TRUE or self.nbool(subst(cond, {v: ZERO})) is TRUE

    def scale_out(self, p, v):
        """pull a positive factor that does not depend on v out of max/min bodies (also through ite)"""
        if len(p) == 1:
            (m, c), = p.items()
            outer = tuple((a, e) for a, e in m if v not in fv(a) and self.sign(a) == '+')
            inner = tuple((a, e) for a, e in m if (a, e) not in outer)
            if c > 0:
                return {outer: c}, self.to_term({inner: F1})
        return None, self.to_term(p)

    def count_term(self, t, cond):
        ax = t.args[1]
        if cond is TRUE and isinstance(ax, T):
            return self.nf(ax)
        return self.atom(self._rebind(mk('bind', 'count', ax, t.args[2], cond), [cond]))

    # -- booleans -------------------------------------------------------------------
    def canon_cmp(self, a, b, op):
        """canonical boolean for a op b, op in < <= =="""
        for x in (a, b):
            if tm.has_special(x):
                return mk(op, a, b) if op != '==' else eq(a, b)
        p = p_add(self.nf(a), self.nf(b), -F1)
        if not p:
            return TRUE if op != '<' else FALSE
        if len(p) == 1 and () in p:
            c = p[()]
            if op == '==':
                return FALSE
            return TRUE if c < 0 else FALSE
        if len(p) == 2:             # |x| against |y|: compare the squares
            (m1, c1), (m2, c2) = p.items()
            if c1 == -c2 and all(len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'fn' and m[0][0].args[0] == 'abs'
                                 for m in (m1, m2)):
                x, y = [self.nf(m[0][0].args[1]) for m in (m1, m2)]
                p = p_scale(p_add(self.mulp(x, x), self.mulp(y, y), -F1), c1)
                if not p or len(p) == 1 and () in p:
                    return self.canon_cmp(self.to_term(p), ZERO, op)
        k, mono, P = self.prim(p)
        if not P:
            return TRUE if op != '<' else FALSE
        for _ in range(4):
            r = self.divide_out(P)
            if r is None or self.sign(r[0]) != '+':
                break
            k2, m2, P = self.content(r[1])
            k, mono = k * k2, mono_mul(mono, m2)
        # drop positive monomial content
        rest = tuple((a_, e) for a_, e in mono if not self.strict_pos(a_))
        even = all(e.denominator == 1 and e.numerator % 2 == 0 for a_, e in rest)
        if op == '==':
            if rest and all(self.is_nonzero(a_) for a_, e in rest):
                rest = ()
            q = {mono_mul(m, rest): c for m, c in P.items()}
            q2 = self.clear_den(q, eqn=True)
            if not q2:
                return TRUE
            if len(q2) == 2 and any(e.denominator != 1 for m in q2 for a_, e in m):
                q2 = self.fix(self.clear_den(self.drop_roots(q2), eqn=True))
            if not q2:
                return TRUE
            if len(q2) == 1 and all(self.strict_pos(a_) for m in q2 for a_, e in m):
                return FALSE
            tq = self.to_term(self.orient(q2))
            if tq.op == 'bind' and tq.args[0] == 'count':
                return bnot(self.count_any(tq))
            if self.sign(tq) in ('+', '-'):
                return FALSE
            return mk('==', tq, ZERO)
        sgn = 1 if k > 0 else -1
        q = {mono_mul(m, rest): c for m, c in P.items()}
        q = self.clear_den(q)
        if not q:
            return FALSE if op == '<' else TRUE
        if len(q) == 1:
            (m, c), = q.items()
            if all(self.strict_pos(a_) for a_, e in m):
                return TRUE if c * sgn < 0 else FALSE
        if q and any(e.denominator != 1 for m in q for a_, e in m):
            q = self.fix(self.clear_den(self.drop_roots(q)))
            if not q:
                return FALSE if op == '<' else TRUE
        # orient
        o = self.orient(q)
        if o != q:
            sgn = -sgn
        t = self.to_term(o)
        if t.op == 'bind' and t.args[0] == 'count':
            if sgn > 0:
                return FALSE if op == '<' else bnot(self.count_any(t))
            return TRUE if op == '<=' else self.count_any(t)
        s = self.sign(t)
        if s is not None:
            if sgn < 0:
                s = {'+': '-', '-': '+', '0+': '0-', '0-': '0+'}[s]
            if s == '-':
                return TRUE
            if s == '+':
                return FALSE
            if s == '0-' and op == '<=':
                return TRUE
            if s == '0+' and op == '<':
                return FALSE
        if sgn > 0:
            return mk(op, t, ZERO)
        return bnot(mk('<=' if op == '<' else '<', t, ZERO))

    def count_any(self, t):
        """some element is counted"""
        return self.nbool(tm.anyof(t.args[1], lambda v: subst(t.args[3], {t.args[2]: v})))

    def drop_roots(self, q):
        """A x^p - B y^q (two terms, positive atoms): compare A^n .. instead of roots"""
        if len(q) != 2:
            return q
        (m1, c1), (m2, c2) = q.items()
        if c1 * c2 > 0:
            return q
        if not all(self.pos_ok(a, e) for m in (m1, m2) for a, e in m):
            return q
        l = 1
        for m in (m1, m2):
            for a, e in m:
                l = l * e.denominator // gcd(l, e.denominator)
        if l == 1 or l > 24:
            return q
        r1 = {tuple((a, e * l) for a, e in m1): abs(c1) ** l}
        r2 = {tuple((a, e * l) for a, e in m2): abs(c2) ** l}
        r = p_add(p_scale(self.fix(r1), F1 if c1 > 0 else -F1), p_scale(self.fix(r2), F1 if c2 > 0 else -F1))
        if not r:
            return q
        k, mono, P = self.content(r)
        rest = tuple((a_, e) for a_, e in mono if not self.strict_pos(a_))
        return self.fix(p_scale({mono_mul(m, rest): c for m, c in P.items()}, F1 if k > 0 else -F1))

    def orient(self, q):
        m0 = () if () in q else min(q, key=lambda m: tuple((a.id, e) for a, e in m))
        return q if q[m0] > 0 else p_scale(q, -F1)

    def clear_den(self, q, eqn=False):
        """multiply by canonical-sum denominators known to be positive (or nonzero for equations)"""
        for _ in range(6):
            dens = {}
            for m in q:
                for a, e in m:
                    if a.op == '+' and e < 0:
                        dens[a] = min(dens.get(a, F0), e)
            dens = {a: e for a, e in dens.items()
                    if self.strict_pos(a) or (eqn and self.is_nonzero(a))}
            if not dens:
                return q
            mono = tuple(sorted(((a, -e) for a, e in dens.items()), key=lambda x: x[0].id))
            q = self.fix({mono_mul(m, mono): c for m, c in q.items()})
            if not q:
                return q
            k, mm, P = self.prim(q)
            if not P:
                return {}
            rest = tuple((a_, e) for a_, e in mm if not self.strict_pos(a_))
            q = p_scale({mono_mul(m, rest): c for m, c in P.items()}, F1 if k > 0 else -F1)
        return q

    def strict_pos(self, a):
        return a.op == 'num' or self.sign(a) == '+'

    def is_nonzero(self, a):
        return a.op == 'num' or self.sign(a) in ('+', '-')

    def nbool(self, t):
        r = self.cache.get(('b', t))
        if r is None:
            r = self._nbool(t)
            self.cache[('b', t)] = r
        return r

    def _nbool(self, t):
        op = t.op
        if op in ('true', 'false'):
            return t
        if op == 'not':
            return bnot(self.nbool(t.args[0]))
        if op == 'and':
            return band(*[self.nbool(a) for a in t.args])
        if op == 'or':
            return bor(*[self.nbool(a) for a in t.args])
        if op in ('<', '<=', '=='):
            a, b = t.args
            # comparisons of ites are distributed
            for i, x in enumerate((a, b)):
                if x.op == 'ite':
                    o = b if i == 0 else a
                    f = (lambda y: tm.mk(op, y, o)) if i == 0 else (lambda y: tm.mk(op, o, y))
                    c = self.nbool(x.args[0])
                    return bor(band(c, self.nbool(rcmp(op, x.args[1], o, i))),
                               band(bnot(c), self.nbool(rcmp(op, x.args[2], o, i))))
            return self.canon_cmp(a, b, op)
        if op == 'bfn':
            return bfn(t.args[0], *[(self.nbool(a) if a.isbool else self.to_term(self.nf(a)))
                                    if isinstance(a, T) else a for a in t.args[1:]])
        if op == 'any':
            body = self.nbool(t.args[2])
            if body is FALSE:
                return FALSE
            v = t.args[1]
            v2 = var('#%d' % depth(body), v.args[1])
            if v2 is not v:
                body = subst(body, {v: v2})
            ax = t.args[0]
            if isinstance(ax, T):
                ax = self.to_term(self.nf(ax))
            return mk('any', ax, v2, body)
        if op == 'ite':
            return self.nbool(ite(*t.args))
        raise TooBig('nbool ' + op)

    # -- equality ---------------------------------------------------------------------
    def equal(self, a, b):
        """True if a == b is proved by normalisation"""
        p = p_add(self.nf(a), self.nf(b), -F1)
        if not p:
            return True
        for _ in range(6):
            dens = {}
            for m in p:
                for at, e in m:
                    if at.op == '+':
                        dens[at] = min(dens.get(at, F0), e) if at in dens else e
                    if at.op == '+':
                        pass
            # subtract min exponent of every sum atom
            for at in list(dens):
                mn = None
                for m in p:
                    e = dict(m).get(at, F0)
                    mn = e if mn is None else min(mn, e)
                dens[at] = mn
            mono = tuple(sorted(((at, -e) for at, e in dens.items() if e != 0), key=lambda x: x[0].id))
            if not mono:
                return False
            p = self.fix({mono_mul(m, mono): c for m, c in p.items()})
            if not p:
                return True
        return False


_SQF = {}


def _ord1(n, p):
    """exponent of the prime p in n > 0"""
    if p == 2:
        return (n & -n).bit_length() - 1
    k, pows = 0, [p]
    while n % pows[-1] == 0:
        pows.append(pows[-1] ** 2)
    for i in range(len(pows) - 1, -1, -1):
        if n % pows[i] == 0:
            n //= pows[i]
            k += 1 << i
    return k


def _ord(c, p):
    return Fraction(_ord1(abs(c.numerator), p) - _ord1(c.denominator, p)) if c else F0


def exact_div(P, D):
    """P / D as polynomials (exponents may be fractional), or None"""
    atoms = sorted({a for p in (P, D) for m in p for a, e in m}, key=lambda a: a.id)

    def vec(m):
        d = dict(m)
        return tuple(d.get(a, F0) for a in atoms)
    rem = {vec(m): c for m, c in P.items()}
    dv = sorted(((vec(m), c) for m, c in D.items()), reverse=True)
    lv, lc = dv[0]
    out = {}
    for _ in range(400):
        if not rem:
            return {tuple((a, e) for a, e in zip(atoms, v) if e != 0): c for v, c in out.items()}
        v = max(rem)
        qv = tuple(x - y for x, y in zip(v, lv))
        if any(x < 0 for x in qv):
            return None
        qc = rem[v] / lc
        out[qv] = out.get(qv, F0) + qc
        for m, c in dv:
            w = tuple(x + y for x, y in zip(qv, m))
            n = rem.get(w, F0) - qc * c
            if n == 0:
                rem.pop(w, None)
            else:
                rem[w] = n
        if len(rem) > 200:
            return None
    return None


def squarefree(P):
    atoms = sorted({a for m in P for a, e in m}, key=lambda a: a.id)
    if not atoms or len(atoms) > 8:
        return None
    den, mx = {}, {}
    for m in P:
        for a, e in m:
            d = den.get(a, 1)
            den[a] = d * e.denominator // gcd(d, e.denominator)
    for m in P:
        for a, e in m:
            n = e * den[a]
            if n < 0:
                return None
            mx[a] = max(mx.get(a, 0), int(n))
    # a repeated factor needs degree >= 2 in some atom
    if max(mx.values()) < 2 or max(mx.values()) > 40:
        return None
    import sympy
    sy = sympy.symbols('x0:%d' % len(atoms))
    ix = {a: i for i, a in enumerate(atoms)}
    dct = {}
    for m, c in P.items():
        ex = [0] * len(atoms)
        for a, e in m:
            ex[ix[a]] = int(e * den[a])
        dct[tuple(ex)] = sympy.Rational(c.numerator, c.denominator)
    c, fl = sympy.Poly(dct, *sy, domain='QQ').sqf_list()
    if all(n == 1 for _, n in fl):
        return None
    out = []
    for f, n in fl:
        q = {}
        for ex, co in f.terms():
            m = tuple(sorted(((atoms[i], Fraction(e, den[atoms[i]])) for i, e in enumerate(ex) if e),
                             key=lambda x: x[0].id))
            q[m] = Fraction(int(co.p), int(co.q))
        out.append((q, n))
    c = Fraction(int(c.p), int(c.q))
    if c != 1:
        out.append(({(): c}, 1))
    return out


def rcmp(op, x, o, i):
    a, b = (x, o) if i == 0 else (o, x)
    return {'<': lt, '<=': le, '==': eq}[op](a, b)
