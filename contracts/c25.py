"""C25: enough harmonics for the luminosity tolerance; loop invariants of the table construction."""
from pyvc.runner import Case
from pyvc.inputs import In, Lit, U, Dom
from pyvc.spec import *
from pyvc.engine import E, Unsupported
from pyvc.terms import *
from pyvc.sym import SArray, SQuantity, Sym, is_int_term, new_array, Axis, INT_FNS, axis_from_len, simp, scal
from pyvc import npshim, twins
from . import defs as d
from . import srcdefs as q
from .c20_c26 import BASE

CASES = {}


def case(prop, *a, **k):
    CASES.setdefault(prop, []).append(Case(prop + '/' + a[0], *a[1:], **k))


INT_FNS.add('§H')
JA, JB = var('§ja', 'i'), var('§jb', 'i')


# ---- the table and what follows from it
def ps(i, h):
    """power in the first h harmonics of row i"""
    if h.op == 'num':
        n = int(h.args[0])
        return ZERO if n <= 0 else add(ps(i, num(n - 1)), T.g(i, num(n - 1)))
    return fn('§ps', i, h)


def ps_facts(i, h):
    """adding one harmonic adds its power"""
    if h.op == '+' and any(a.op == 'num' and a.args[0] == 1 for a in h.args):
        p = simp(sub(h, ONE))
        return [eq(fn('§ps', i, h), add(fn('§ps', i, p), T.g(i, p)))]
    return []


class Table:
    """one symbolic luminosity table: R rows (eccentricities), N columns (harmonics), both arbitrary"""

    def g(self, i, n):
        return self.G(((i,), (n,)))

    def x(self, k):
        return T.lo if k is ZERO else sub(ONE, fn('§ls', k))

    def F(self, k):
        return S(d.op_F(Sym(self.x(k), 'f'))).t

    def enough(self, k, h, tol=None):
        return le(mul(sub(ONE, tol or self.tol()), self.F(k)), ps(k, h))

    def tol(self):
        t = getattr(self.source, '_gw_lum_tol', None)
        if t is None:
            raise Unsupported('where the tolerance is kept')
        return S(t).t


T = Table()


def install(G, lo, hi):
    """harmonics.npz with these powers, for eccentricities lo ... hi"""
    T.G, (T.rows, T.cols) = G.snap(), G.axes
    T.R, T.N = T.rows.length(), T.cols.length()
    T.lo, T.hi = S(lo).t, S(hi).t
    T.hints = [JA, JB]
    T.state = None
    T.seen = {}
    T.source = None
    e_lims = new_array([Axis((num(3),))], lambda idx: [T.lo, T.hi, T.R][int(idx[0][0].args[0])], 'f')
    file = {'e_lims': e_lims, 'n_max': Sym(T.N, 'i'), 'g_vals': G.copy()}
    npshim.LOADERS['harmonics.npz'] = lambda: dict(file)
    E.rules.update(sum=sum_rule, first=first_rule, logspace=logspace_rule, interp=interp_rule, loops=Rules())


def tab(k):
    """eccentricity of row k"""
    t = S(k).t
    if t not in T.hints:
        T.hints.append(t)
    return Sym(T.x(t), 'f')


def tab_last():
    return tab(Sym(simp(sub(T.R, ONE)), 'i'))


def sum_rule(l, inner):
    """a sum over the first l harmonics of one row of the table"""
    v = var('§sv', 'i')
    b = inner(v)
    w = var('§sw', 'i')
    for x in walk(b):
        if x.op == 'fn' and x.args[0] == T.name:
            i = x.args[1]
            if x is b and T.g(i, v) is b and v not in fv(i):
                return ps(i, l)
    return None


def logspace_rule(a, b, n):
    """numpy.logspace(log10 p, log10 q, n): from p to q, strictly monotonic"""
    want = [npshim.log10(Sym(sub(ONE, t), 'f')) for t in (T.lo, T.hi)]
    nt = S(n).t
    if S(a).t is not S(want[0]).t or S(b).t is not S(want[1]).t or not E.entails(eq(nt, T.R)):
        raise Unsupported('other eccentricities than those of the table')
    return new_array([T.rows], lambda idx: sub(ONE, T.lo) if idx[0][0] is ZERO else fn('§ls', idx[0][0]), 'f')


def ls_facts(k):
    out = [lt(ZERO, fn('§ls', k)), le(fn('§ls', k), sub(ONE, T.lo)), le(sub(ONE, T.hi), fn('§ls', k)), eq(fn('§ls', ZERO), sub(ONE, T.lo)),
           eq(fn('§ls', sub(T.R, ONE)), sub(ONE, T.hi))] if k is not ZERO else [eq(fn('§ls', ZERO), sub(ONE, T.lo))]
    for h in T.hints[2:]:
        if h is not k:
            out += [implies(lt(k, h), lt(fn('§ls', h), fn('§ls', k))), implies(lt(h, k), lt(fn('§ls', k), fn('§ls', h)))]
    return out


def interp_rule(f, qv):
    """scipy interp1d, linear: the tabulated value at a node, the straight line between two nodes, the fill values outside"""
    if len(f.x[0]) != 1 or len(f.y[0]) != 1 or f.lo is None:
        raise Unsupported('interp1d')
    x, y = (lambda k: f.x[1](((k,),))), (lambda k: f.y[1](((k,),)))
    if x(JA) is not T.x(JA):
        raise Unsupported('interp1d over something else than the eccentricities of the table')
    lo, hi = [S(v).t for v in (f.lo, f.hi)]
    kind = f.y[2]
    ks = T.hints[2:]
    for k in ks:
        if x(k) is qv:
            return Sym(y(k), kind)
    if E.decide(lt(qv, x(ZERO))):
        return Sym(lo, 'f')
    if E.decide(lt(x(simp(sub(T.R, ONE))), qv)):
        return largest(hi)
    for k in ks:
        k1 = simp(add(k, ONE))
        if k1 in ks and E.decide(band(le(x(k), qv), le(qv, x(k1)))):
            w = div(sub(qv, x(k)), sub(x(k1), x(k)))
            r = var('§line%d' % next(E.uniq))
            # the straight line, kept as one symbol between its two ends
            w = simp(w)
            for c in (eq(r, add(mul(sub(ONE, w), y(k)), mul(w, y(k1)))), le(npmin(y(k), y(k1)), r), le(r, npmax(y(k), y(k1)))):
                E.assume(E.prover.canon(c))
            T.line = (r, k, k1, y(k), y(k1), w)
            return Sym(r, 'f')
    raise Unsupported('interp1d between unknown nodes')


def largest(t):
    """a maximum over all rows is at least the value of every row"""
    if t.op == 'bind' and t.args[0] == 'max' and t.args[1] is T.R and t.args[3] is TRUE:
        m = var('§max%d' % next(E.uniq), 'i' if is_int_term(t.args[4]) else '')
        for k in T.hints[2:]:
            E.assume(E.prover.canon(implies(band(le(ZERO, k), lt(k, T.R)), le(subst(t.args[4], {t.args[2]: k}), m))))
        return Sym(m, 'f')
    return Sym(t, 'f')


def npmin(a, b):
    return ite(le(a, b), a, b)


def npmax(a, b):
    return ite(le(a, b), b, a)


def first_rule(axis):
    """index of the first true entry of a mask: true there and false before"""
    n = axis.lens[0]
    if not any(E.entails(band(le(ZERO, j), lt(j, n), axis.mask((j,)))) for j in T.grid):
        return None
    m = var('§first%d' % next(E.uniq), 'i')
    for c in [le(ZERO, m), lt(m, n), axis.mask((m,))] + [implies(lt(j, m), bnot(axis.mask((j,)))) for j in T.grid]:
        E.assume(E.prover.canon(c))
    return m


# ---- invariants
class Rows:
    """after rows 0 ... i-1: between 2 and N harmonics each, enough of them (or all), never fewer than for an earlier row"""
    made = 0

    def __init__(self, name, arr, carried):
        Rows.made += 1
        self.uid = Rows.made
        self.name, self.arr, self.carried = name, arr, carried
        self.vals = {}

    def bufs(self):
        return [self.arr.buf]

    def read(self, vals):
        self.vals = vals

    def H(self, k):
        return self.arr.at(((k,),))

    def goals(self, i):
        js = [num(j) for j in range(int(i.args[0]))] if i.op == 'num' and i.args[0] <= 3 else [JA]
        out = []
        for j in js:
            pre = band(le(ZERO, j), lt(j, i))
            h = self.H(j)
            out += [('at least two harmonics', implies(pre, le(num(2), h))), ('no more than tabulated', implies(pre, le(h, T.N))),
                    ('enough power', implies(pre, bor(T.enough(j, h), eq(h, T.N))))]
        for a, b in ([(x, y) for x in js for y in js] if js != [JA] else [(JA, JB)]):
            out.append(('never fewer than for a lower eccentricity', implies(band(le(ZERO, a), le(a, b), lt(b, i)), le(self.H(a), self.H(b)))))
        for n in self.carried:
            v = self.vals.get(n)
            if not isinstance(v, Sym):
                raise Unsupported('loop-carried %s' % n)
            out.append(('%s is the number for the row before' % n, eq(v.t, self.H(simp(sub(i, ONE))))))
        return out

    def havoc(self, i):
        k = next(E.uniq)
        nm = '§H%d' % k
        INT_FNS.add(nm)
        H = lambda j, tol=T.tol(): fn(nm, j, tol)
        im = simp(sub(i, ONE))

        def facts(j, tol):
            inside = band(le(ZERO, j), lt(j, i))
            h = H(j, tol)
            out = [implies(inside, le(num(2), h)), implies(inside, le(h, T.N)), implies(inside, bor(T.enough(j, h, tol), eq(h, T.N)))]
            for m in T.hints + [im]:
                if m is not j:
                    out.append(implies(band(inside, le(ZERO, m), lt(m, i), le(j, m)), le(h, H(m, tol))))
                    out.append(implies(band(inside, le(ZERO, m), lt(m, i), le(m, j)), le(H(m, tol), h)))
            return out
        E.facts.fn(nm, facts)
        self.arr.buf.write(lambda idx: H(idx[0][0]))
        return {n: Sym(H(im), 'i') for n in self.carried}


class Harmonics:
    """number of harmonics of row i so far, and the power in them"""

    def __init__(self, rows, i, names, stored):
        self.rows, self.i, self.names = rows, i, names
        self.own = rows.name in stored
        self.before = rows.arr.snap()
        self.count = self.total = ()

    def bufs(self):
        return [self.rows.arr.buf] if self.own else []

    def read(self, scope):
        self.scope = scope
        vals = {n: scope.get(n) for n in self.names if isinstance(scope.get(n), Sym)}
        self.count = [n for n, v in vals.items() if v.kind == 'i']
        self.total = [n for n, v in vals.items() if v.kind == 'f']
        self.vals = vals

    def h(self):
        if self.own:
            return self.rows.H(self.i)
        if not self.count:
            raise Unsupported('no count of harmonics')
        return self.vals[self.count[0]].t

    def goals(self):
        h = self.h()
        out = [('at least two harmonics', le(num(2), h)), ('no more than tabulated', le(h, T.N)),
               ('at least as many as before', le(self.before(((simp(sub(self.i, ONE)),),)), h))]
        out += [('%s is the power in the harmonics' % n, eq(self.vals[n].t, ps(self.i, h))) for n in self.total]
        out += [('%s is the number of harmonics' % n, eq(self.vals[n].t, h)) for n in self.count]
        if self.own:
            out.append(('other rows are left alone', implies(bnot(eq(JA, self.i)), eq(self.rows.H(JA), self.before(((JA,),))))))
        return out

    def havoc(self):
        h = var('§h%d' % next(E.uniq), 'ip')
        E.facts.var(h, le(num(2), h), le(h, T.N), le(self.before(((simp(sub(self.i, ONE)),),)), h))
        if self.own:
            f = self.before
            i = self.i
            self.rows.arr.buf.write(lambda idx: h if idx[0][0] is i else ite(eq(idx[0][0], i), h, f(idx)))
        out = {n: v for n, v in self.scope.items() if n in self.names and n not in self.count and n not in self.total}
        out.update({n: Sym(h, 'i') for n in self.count})
        out.update({n: Sym(ps(self.i, h), 'f') for n in self.total})
        return out


class Rules:
    def __init__(self):
        self.current = []

    def for_loop(self, it, names, stored, scope):
        T.source = scope.get('self')
        arrs = [n for n in stored if isinstance(scope.get(n), SArray) and scope[n].kind == 'i' and len(scope[n].axes) == 1]
        if len(arrs) != 1:
            return None
        carried = [n for n in names if isinstance(scope.get(n), Sym) and scope[n].kind == 'i']
        r = Rows(arrs[0], scope[arrs[0]], carried)
        r.vals = {n: scope.get(n) for n in names}
        return r

    def inside(self, state, i):
        self.current = [(state, i)]

    def while_loop(self, names, stored, make):
        if not self.current:
            return None
        rows, i = self.current[-1]
        return make(Harmonics(rows, i, names, stored), names)


# ---- cases
def setup(world):
    T.name = 'in_G'
    T.grid = []
    q.facts(world)
    world.extra_script.update(install=install, tab=tab, tab_last=tab_last, grid=grid)
    E.facts.var(JA, le(ZERO, JA))
    E.facts.var(JB, le(ZERO, JB))
    E.facts.fn('§ps', ps_facts)
    E.facts.fn('§ls', ls_facts)
    E.facts.fn('ceil', lambda x: [le(x, fn('ceil', x)), lt(fn('ceil', x), add(x, ONE))])


def TOL():
    return In(None, (), Dom(lo=0, lo_open=True, hi=1, hi_open=True, **TOLS))


TOLS = dict(rng=(0.001, 0.25), log=False, special=[0.01, 0.05])
GRID = dict(G=In(None, ('R', 'C'), Dom(lo=0, rng=(0.0, 1.2), log=False)), hi=In(None, (), Dom(lo=0, lo_open=True, hi=1, hi_open=True, rng=(0.1, 0.7), log=False)),
            tol=TOL())
INT = Dom(lo=0, rng=(0, 3), integer=True)
K1, K2 = dict(k=In(None, (), INT, integer=True)), dict(k2=In(None, (), INT, integer=True))
W = dict(w=In(None, (), Dom(lo=0, lo_open=True, hi=1, hi_open=True, rng=(0.0, 1.0), log=False)))
MAKE = 's = source.Source(m_1=m1, m_2=m2, ecc=e, dist=D, f_orb=f, interpolate_g=False, gw_lum_tol=%s)\n'
STUBS = q.CTOR[1:] + ('source.Source.set_sc', 'utils.peters_f')


def rows(i):
    return i.G.axes[0].length()


def el(i, a, b):
    return i.G.snap()(((num(a),), (num(b),)))


def circular(*names):
    """the first row is a circular binary: its first two harmonics are all there is"""
    def f(i):
        return [S(1) <= Sym(add(el(i, 0, 0), el(i, 0, 1)), 'f')] + [Sym(lt(S(getattr(i, n)).t, rows(i)), 'b') for n in names]
    return f


def val(x):
    return S(at(x) if not isinstance(x, Sym) else x).t


def tabulated(got, i, tol):
    h, N = val(got), T.N
    return [('at least two', le(num(2), h)), ('no more than tabulated', le(h, N)),
            ('enough power or all harmonics', bor(le(mul(sub(ONE, S(tol).t), T.F(S(i.k).t)), ps(S(i.k).t, h)), eq(h, N)))]


def between(got, i):
    a, b, c, w = val(got[0]), val(got[1]), val(got[2]), S(i.w).t
    return [('at least the straight line', le(add(mul(sub(ONE, w), a), mul(w, b)), c)), ('at least two', le(num(2), c))]


def below(e, tol):
    """the n=2 harmonic alone is below the tolerance"""
    e = S(e)
    return Sym(lt(S(d.op_g(S(2), e)).t, mul(sub(ONE, S(tol).t), S(d.op_F(e)).t)), 'b')


def transition(got, i, tol):
    e = Sym(val(got), 'f')
    j = S(i.j) * F(1, 5) / 9999
    return [('the n=2 harmonic alone is not enough', below(e, tol).t), ('it is enough at every lower eccentricity', implies(lt(j.t, e.t), bnot(below(j, tol).t))),
            ('within the range searched', band(le(ZERO, e.t), le(e.t, num(F(1, 5)))))]


def grid(j):
    T.grid = [S(j).t, num(9999)]
    E.rules.update(first=first_rule)


HOW = {'built': (MAKE % 'tol', 'tol', {}), 'changed': (MAKE % 'tol2' + 's.gw_lum_tol = tol\n', 'tol', dict(tol2=TOL())),
       'changed_back': (MAKE % 'tol' + 's.gw_lum_tol = tol2\ns.gw_lum_tol = tol\n', 'tol', dict(tol2=TOL())),
       'default': (MAKE.replace(', gw_lum_tol=%s', ''), None, {})}
for how, (make, tol, more) in HOW.items():
    T_ = (lambda i, tol=tol: F('0.05') if tol is None else getattr(i, tol))
    pre = 'install(G, 0, hi)\n'
    real = "result = check_harmonics(G, hi, '%s', %s)" % (how, 'tol=tol' + (', tol2=tol2' if more else ''))
    if more:
        real += " or check_close(hi, tol, '%s')" % how
    opt = dict(stubs=STUBS, setup=setup, variants=[{'N': 'sym', 'R': 'sym', 'C': 'sym'}], real=real)
    def pred(f, T_=T_):
        return lambda i: Pred(lambda got, i=i: f(got, i, T_(i)))
    case('C25', 'tabulated.' + how, dict(BASE, **GRID, **K1, **more), pre + 'x = tab(k)\n' + make + 'result = s.harmonics_required(x)',
         pred(tabulated), requires=circular('k'), **opt)
    case('C25', 'increasing.' + how, dict(BASE, **GRID, **K1, **K2, **more), pre + 'x, y = tab(k), tab(k2)\n' + make +
         'result = [s.harmonics_required(x), s.harmonics_required(y)]',
         lambda i: Pred(lambda got: [('never fewer for a higher eccentricity', le(val(got[0]), val(got[1])))]),
         requires=lambda i: circular('k', 'k2')(i) + [i.k <= i.k2], **opt)
    case('C25', 'between.' + how, dict(BASE, **GRID, **K1, **W, **more), pre + 'x, y = tab(k), tab(k + 1)\n' + make +
         'result = [s.harmonics_required(x), s.harmonics_required(y), s.harmonics_required(x + w * (y - x))]',
         lambda i: Pred(lambda got, i=i: between(got, i)), requires=lambda i: circular('k')(i) + [i.k + 1 < Sym(rows(i), 'i')], **opt)
    case('C25', 'beyond.' + how, dict(BASE, **GRID, **K1, **W, **more), pre + 'x, y = tab(k), tab_last()\n' + make +
         'result = [s.harmonics_required(x), s.harmonics_required(y + w * (1 - y))]',
         lambda i: Pred(lambda got, i=i: [('never fewer above the table', le(val(got[0]), val(got[1]))), ('at least two', le(num(2), val(got[1])))]),
         requires=circular('k'), **opt)
    # the transition
    case('C25', 'transition.' + how, dict(BASE, **GRID, j=In(None, (), Dom(lo=0, hi=9999, rng=(0, 9999), integer=True)), **more), 'grid(j)\n' + make + 'result = s.ecc_tol',
         lambda i, T_=T_: Pred(lambda got, i=i: transition(got, i, T_(i))), requires=lambda i, T_=T_, more=more: [below(F(1, 5), v) for v in [T_(i)] + [getattr(i, n) for n in more]],
         **dict(opt, stubs=(q.CTOR[0], 'source.Source.set_sc', 'utils.peters_f', 'utils.peters_g')))
