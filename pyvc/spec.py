"""Vocabulary for writing contracts: mathematical definitions over physical (SI) values."""
from fractions import Fraction as F
from .terms import *
from .terms import fn as tfn, bfn as tbfn
from .engine import E, Unsupported
from .sym import (Sym, SArray, SQuantity, Unit, DIMLESS, Axis, new_array, bcast_axes, fit, as_array, scal, coerce, scalarise,
                  phys, kjoin, select, GenList)
from .ushim import UNITS, DIM_NAMES, CLIGHT, GNEWT, MSUN as MSUN_T, m, kg, s, rad
from .npshim import np as NP
from .inputs import unit_of

G = Sym(GNEWT, 'f')
C = Sym(CLIGHT, 'f')
PI_ = Sym(PI, 'f')
MSUN = Sym(MSUN_T, 'f')
YR = F(31557600)
INF_ = Sym(INF, 'f')


def S(x):
    """scalar constant"""
    if isinstance(x, T):
        return Sym(x, 'b' if x.isbool else 'f')
    if isinstance(x, Sym):
        return x
    if isinstance(x, str):
        x = F(x)
    if isinstance(x, bool):
        return Sym(TRUE if x else FALSE, 'b')
    return Sym(num(F(x)), 'f')


def k(x):
    """numeric constant given as decimal text"""
    return S(F(x))


def dims(text):
    return Unit(unit_of(text).dims, ONE, 'si')


def where(c, a, b):
    return Sym(ite(bt(c), S(a).t, S(b).t), 'f')


def unless(c, v):
    """the value v, unspecified when c holds"""
    from .sym import b2n
    return Sym(ite(bt(c), var('\u00a7any'), b2n(S(v).t)), 'f')


def bt(c):
    if isinstance(c, bool):
        return TRUE if c else FALSE
    return c.t if c.t.isbool else bnot(eq(c.t, ZERO))


def land(*cs):
    return Sym(band(*[bt(c) for c in cs]), 'b')


def lor(*cs):
    return Sym(bor(*[bt(c) for c in cs]), 'b')


def lnot(c):
    return Sym(bnot(bt(c)), 'b')


def ceq(a, b):
    return Sym(eq(S(a).t, S(b).t), 'b')


def isnan_(x):
    return Sym(bfn('isnan', S(x).t), 'b')


def sqrt(x):
    return x ** F(1, 2)


def op(name):
    return lambda x: Sym(tfn(name, S(x).t), 'f')


sin, cos, tan, exp, log, tanh = [op(n) for n in ('sin', 'cos', 'tan', 'exp', 'log', 'tanh')]
ceil, floor, rnd = op('ceil'), op('floor'), op('round')


def unfun(name, *args):
    return Sym(tfn(name, *[S(a).t for a in args]), 'f')


def minimum(a, b):
    return where(S(a) <= S(b), a, b) if False else Sym(tmin(S(a).t, S(b).t), 'f')


def maximum(a, b):
    return Sym(tmax(S(a).t, S(b).t), 'f')


def quantity(v, unit):
    """value given in SI -> quantity of these dimensions"""
    return SQuantity(v, dims(unit) if isinstance(unit, str) else unit)


def ph(x):
    """SI magnitude of an input (array or scalar)"""
    return phys(x)


def emap(f, *args, unit=None, kind='f'):
    """elementwise definition over broadcast physical values; unit None: plain number"""
    arrs = [as_array(phys(a)) for a in args]
    axes = []
    for a in arrs:
        axes = bcast_axes(axes, a.axes)
    fs = [fit(a.snap(), a.axes, axes) for a in arrs]
    ks = [a.kind for a in arrs]

    def elem(idx):
        r = f(*[Sym(g(idx), kk) for g, kk in zip(fs, ks)])
        return S(r).t
    r = scalarise(new_array(axes, elem, kind))
    return r if unit is None else quantity(r, unit)


def array(axes, elem, unit=None, kind='f'):
    """array over given axes; elem(*index tuples) -> scalar"""
    r = scalarise(new_array(axes, lambda idx: S(elem(*idx)).t, kind))
    return r if unit is None else quantity(r, unit)


def at(x, *idx):
    """element of an input at index tuples (SI)"""
    x = phys(x)
    if isinstance(x, Sym):
        return x
    return Sym(x.at(tuple(idx)), x.kind)


def axis(x, j=0):
    x = phys(x)
    return Axis() if isinstance(x, Sym) else x.axes[j]


def ndim(x):
    x = phys(x)
    return 0 if isinstance(x, Sym) else len(x.axes)


def ssum(n, f):
    """sum over i = 0..n-1"""
    n = S(n).t
    if n.op == 'num' and n.args[0] <= 12:
        return Sym(add(*[S(f(Sym(num(i), 'i'))).t for i in range(int(n.args[0]))]), 'f')
    return Sym(bind('sum', n, lambda v: (TRUE, S(f(Sym(v, 'i'))).t)), 'f')


class Out:
    """expected value that must come back in exactly this unit"""

    def __init__(self, value, unit):
        self.value, self.unit = value, unit


class Any:
    """component not specified by this contract"""


class Pred:
    """component described by a predicate: f(result value) -> list of (label, goal term)"""

    def __init__(self, f, num=None):
        self.f = f
        self.num = num


def anyof_(f, x):
    """some element of x satisfies f"""
    from .sym import reduce_any
    x = phys(x)
    if isinstance(x, Sym):
        return Sym(bt(f(x)), 'b')
    els = x.snap()
    roots = [l for a in x.axes for l in a.lens]

    def g(idx):
        parts, k = [], 0
        for a in x.axes:
            parts.append(tuple(idx[k:k + len(a.lens)]))
            k += len(a.lens)
        c = band(*[a.cond(p) for a, p in zip(x.axes, parts)])
        return band(c, bt(f(Sym(els(tuple(parts)), x.kind))))
    return Sym(reduce_any(roots, g), 'b')


reduce = anyof_


def elementwise_goal(rel, *xs):
    """rel over the generic elements of broadcast arrays -> goal term"""
    arrs = [as_array(phys(x)) for x in xs]
    axes = []
    for a in arrs:
        axes = bcast_axes(axes, a.axes)
    idx = tuple(a.generic() for a in axes)
    c = band(*[a.cond(i) for a, i in zip(axes, idx)])
    return implies(c, rel(*[fit(a.snap(), a.axes, axes)(idx) for a in arrs]))


def pair_eq(a='lhs', b='rhs', rtol=1e-8):
    """the two named components of the result are equal, element by element"""
    def f(got):
        x, y = got[a], got[b]
        dx = x.unit.dims if isinstance(x, SQuantity) else DIMLESS.dims
        dy = y.unit.dims if isinstance(y, SQuantity) else DIMLESS.dims
        if tuple(dx) != tuple(dy):
            return [('%s and %s have the same dimensions' % (a, b), FALSE)]
        return [('%s = %s' % (a, b), elementwise_goal(eq, x, y))]

    def n(g):
        from .runner import as_num, close
        x, y = as_num(g['v'][a]), as_num(g['v'][b])
        if x is None or y is None or x[0] != y[0]:
            return '%s and %s do not have the same shape' % (a, b)
        for k, (p, q) in enumerate(zip(x[1], y[1])):
            if not close(p, q, 0.0, rtol, 0.0):
                return 'entry %d: %s is %r, %s is %r' % (k, a, p, b, q)
    return Pred(f, n)


def lemma(goals):
    """obligations that do not mention the code: goals() -> list of (label, term)"""
    return Pred(lambda got: goals())


def fresh(name, *facts, flags=''):
    v = var('lem_' + name, flags)
    E.facts.by_var.pop(v, None)
    if facts:
        E.facts.var(v, *[f(v) for f in facts])
    return Sym(v, 'f')
