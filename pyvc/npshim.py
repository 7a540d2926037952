"""numpy as seen by the verified code: the documented meaning of each function over symbolic arrays.

Every function here is an assumed contract on numpy (and on astropy's numpy overrides for quantities)."""
import builtins
import itertools
from fractions import Fraction
from .terms import *
from . import terms as tm
from .engine import E, Unsupported
from . import sym
from .sym import (Sym, SArray, SQuantity, Unit, Axis, GenList, Buf, DIMLESS, NODIM, UnitConversionError, UnitTypeError,
                  coerce, as_array, new_array, map1, mapn, binop, unop, elementwise, conv, special0, list_array,
                  reduce_sum, reduce_any, scal, b2n, n2b, kjoin, same_axis, bcast_axes, fit, scalarise, split, intval,
                  simp, axis_from_len, len_equal, BIG, mask_axis, select, conv_kind, is_int_term, memo, fcopy)

METHODS = {}


class DType:
    def __init__(self, kind, name):
        self.kind, self.name = kind, name
        self.num = kind

    def __eq__(self, o):
        k = kind_of_dtype(o, None)
        return k == self.kind

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.kind)

    def __repr__(self):
        return 'dtype(%r)' % self.name

    @property
    def type(self):
        return self

    def __call__(self, x=0):
        v = coerce(x)
        if v is None:
            raise Unsupported('dtype call')
        return astype(v, self)


_dt = {'f': DType('f', 'float64'), 'i': DType('i', 'int64'), 'b': DType('b', 'bool')}


def dtype_of(kind):
    return _dt[kind]


def kind_of_dtype(d, default):
    if d is None:
        return default
    if isinstance(d, DType):
        return d.kind
    n = getattr(d, '__name__', None) or str(d)
    if n in ('float', 'float64', 'double', 'f8', 'd', 'floating', 'f', 'float32', 'number'):
        return 'f'
    if n in ('int', 'int64', 'int32', 'i8', 'i', 'integer', 'intp', 'int_'):
        return 'i'
    if n in ('bool', 'bool_', '?'):
        return 'b'
    if n == 'object':
        raise Unsupported('object dtype')
    raise Unsupported('dtype ' + n)


def issubdtype(a, b):
    k, n = kind_of_dtype(a, None), getattr(b, '__name__', None) or str(b)
    want = {'integer': 'i', 'signedinteger': 'i', 'int': 'i', 'int64': 'i', 'floating': 'f', 'float': 'f', 'float64': 'f',
            'number': 'fi', 'bool': 'b', 'bool_': 'b', 'inexact': 'f', 'generic': 'fib'}.get(n)
    if want is None:
        raise Unsupported('issubdtype ' + n)
    return k in want


class Marker:
    """class-like objects for isinstance"""

    def __init__(self, name, test, kind=None):
        self.name, self.test, self.kind = name, test, kind
        self.__name__ = name

    def __repr__(self):
        return '<marker %s>' % self.name

    def __call__(self, *a, **k):
        if self.kind:
            return astype(coerce(a[0] if a else 0), self)
        raise Unsupported('construction of ' + self.name)

    def __or__(self, o):
        return (self, o)


ndarray = Marker('ndarray', lambda x: isinstance(x, (SArray, SQuantity, StrArray)))
generic = Marker('generic', lambda x: isinstance(x, Sym) and not x.py)
number = Marker('number', lambda x: isinstance(x, Sym) and not x.py and x.kind in 'fi')
floating = Marker('floating', lambda x: isinstance(x, Sym) and not x.py and x.kind == 'f')
integer = Marker('integer', lambda x: isinstance(x, Sym) and not x.py and x.kind == 'i')
float64 = Marker('float64', lambda x: isinstance(x, Sym) and not x.py and x.kind == 'f', 'f')
float_ = float64
int64 = Marker('int64', lambda x: isinstance(x, Sym) and not x.py and x.kind == 'i', 'i')
bool_ = Marker('bool_', lambda x: isinstance(x, Sym) and not x.py and x.kind == 'b', 'b')


class StrArray:
    def __init__(self, items):
        self.items = list(items)

    def __iter__(self):
        return iter(self.items)

    def __len__(self):
        return len(self.items)

    @property
    def shape(self):
        return (len(self.items),)

    ndim = 1

    @property
    def size(self):
        return len(self.items)

    def __getitem__(self, k):
        if isinstance(k, slice):
            return StrArray(self.items[k])
        return self.items[k]

    def tolist(self):
        return list(self.items)

    def __contains__(self, x):
        return x in self.items

    def _cmp(self, o, neg_):
        if isinstance(o, str):
            vals = [(i == o) != neg_ for i in self.items]
        elif isinstance(o, (list, tuple, StrArray)) and len(o) == len(self.items):
            vals = [(a == b) != neg_ for a, b in zip(self.items, o)]
        else:
            return neg_
        return list_array(vals)

    def __eq__(self, o):
        return self._cmp(o, False)

    def __ne__(self, o):
        return self._cmp(o, True)

    __hash__ = None


pi = Sym(PI, 'f', True)
inf = Sym(INF, 'f', True)
nan = Sym(NAN, 'f', True)
e = Sym(fn('exp', ONE), 'f', True)
newaxis = None


# ------------------------------------------------------------------ helpers
def arr(x):
    """coerce to Sym/SArray/SQuantity"""
    if isinstance(x, (Sym, SArray, SQuantity)):
        return x
    if isinstance(x, SymRange):
        return arange(x.start, x.stop)
    if isinstance(x, builtins.range):
        return list_array(list(x)) if len(x) else new_array([Axis((ZERO,))], lambda i: ZERO, 'i')
    v = coerce(x)
    if v is None:
        raise Unsupported('array from %s' % type(x).__name__)
    return v


class SymRange:
    def __init__(self, start, stop):
        self.start, self.stop = start, stop


def split_q(x):
    x = arr(x)
    return (x.v, x.unit) if isinstance(x, SQuantity) else (x, None)


def wrap(v, u):
    return v if u is None else SQuantity(v, u)


def same_unit(*xs):
    """convert to the unit of the first quantity (plain numbers only if 0/inf/nan or dimensionless)"""
    xs = [arr(x) for x in xs]
    u = None
    for x in xs:
        if isinstance(x, SQuantity):
            u = x.unit
            break
    if u is None:
        return xs, None
    out = []
    for x in xs:
        if isinstance(x, SQuantity):
            if x.unit.dims != u.dims:
                raise UnitConversionError('units are not convertible')
            out.append(conv(x.v, x.unit, u))
        elif u.dims == NODIM:
            out.append(conv(x, DIMLESS, u))
        elif special0(x):
            out.append(x)
        else:
            raise UnitConversionError('dimensionless value where a quantity is needed')
    return out, u


def norm_axis(axis, nd):
    if axis is None:
        return None
    if isinstance(axis, tuple):
        return tuple(norm_axis(a, nd) for a in axis)
    a = int(axis)
    if a < 0:
        a += nd
    if not 0 <= a < nd:
        raise ValueError('axis out of bounds')
    return a


def reduction(a, axis, keepdims, fterm, kind):
    """fterm(lens, body(roots), cond(roots) or None) -> T"""
    a = as_array(a)
    ax = norm_axis(axis, len(a.axes))
    red = list(range(len(a.axes))) if ax is None else ([ax] if isinstance(ax, int) else sorted(ax))
    keep = [i for i in range(len(a.axes)) if i not in red]
    f = a.snap()
    axes = a.axes
    lens = tuple(l for i in red for l in axes[i].lens)
    nl = [len(axes[i].lens) for i in red]
    masked = any(axes[i].mask is not None for i in red)

    def elem(idx):
        if keepdims:
            idx = tuple(idx[i] for i in keep)

        def full(roots):
            parts = split(roots, nl)
            out = [None] * len(axes)
            for i, p in zip(red, parts):
                out[i] = p
            for i, p in zip(keep, idx):
                out[i] = p
            return tuple(out)

        def cond(roots):
            parts = split(roots, nl)
            return band(*[axes[i].cond(p) for i, p in zip(red, parts)])
        return fterm(lens, lambda r: f(full(r)), cond if masked else None)
    out_axes = [(Axis() if i in red else axes[i]) for i in range(len(axes))] if keepdims else [axes[i] for i in keep]
    return scalarise(new_array(out_axes, elem, kind))


def nonempty(a, axis):
    a = as_array(a)
    ax = norm_axis(axis, len(a.axes))
    red = range(len(a.axes)) if ax is None else ([ax] if isinstance(ax, int) else ax)
    for i in red:
        A = a.axes[i]
        if A.isone:
            continue
        if not E.decide(lt(ZERO, A.length())):
            raise ValueError('zero-size array to reduction operation which has no identity')


def t_sum(lens, body, cond):
    return reduce_sum(lens, lambda r: b2n(body(r)), cond)


def t_prod(lens, body, cond):
    if cond is not None or not all(l.op == 'num' and l.args[0] <= BIG for l in lens):
        if len(lens) == 1:
            return bind('prod', lens[0], lambda v: ((cond((v,)) if cond else TRUE), body((v,))))
        raise Unsupported('prod')
    out = ONE
    for i in itertools.product(*[range(int(l.args[0])) for l in lens]):
        out = mul(out, body(tuple(num(k) for k in i)))
    return out


def t_ext(which):
    cmpf = tm.tmax if which == 'max' else tm.tmin

    def f(lens, body, cond):
        if not lens:
            return b2n(body(()))
        if cond is None and all(l.op == 'num' for l in lens):
            n = 1
            for l in lens:
                n *= int(l.args[0])
            if n <= BIG:
                out = None
                for i in itertools.product(*[range(int(l.args[0])) for l in lens]):
                    x = b2n(body(tuple(num(k) for k in i)))
                    out = x if out is None else cmpf(out, x)
                return out
        l, rest = lens[0], lens[1:]
        if rest:
            if cond is not None:
                raise Unsupported('extremum over a masked product axis')
            return bind(which, l, lambda v: (TRUE, f(rest, lambda r: body((v,) + r), None)))
        return bind(which, l, lambda v: ((cond((v,)) if cond else TRUE), b2n(body((v,)))))
    return f


def t_any(lens, body, cond):
    return reduce_any(lens, lambda r: band(cond(r) if cond else TRUE, n2b(body(r))))


def t_all(lens, body, cond):
    return bnot(reduce_any(lens, lambda r: band(cond(r) if cond else TRUE, bnot(n2b(body(r))))))


def t_count(lens, body, cond):
    if len(lens) == 1 and not (lens[0].op == 'num' and lens[0].args[0] <= BIG):
        return bind('count', lens[0], lambda v: (band(cond((v,)) if cond else TRUE, n2b(body((v,)))),))
    return reduce_sum(lens, lambda r: ite(n2b(body(r)), ONE, ZERO), cond)


def t_arg(which):
    def f(lens, body, cond):
        if not lens:
            return ZERO
        if len(lens) > 1 or cond is not None:
            raise Unsupported('arg-extremum over a structured axis')
        if lens[0].op == 'num' and lens[0].args[0] <= 8:
            # small: explicit
            n = int(lens[0].args[0])
            best, bi = b2n(body((ZERO,))), ZERO
            for k in range(1, n):
                x = b2n(body((num(k),)))
                c = lt(best, x) if which == 'argmax' else lt(x, best)
                best, bi = ite(c, x, best), ite(c, num(k), bi)
            return bi
        return bind(which, lens[0], lambda v: (TRUE, b2n(body((v,)))))
    return f


def method(name):
    def deco(f):
        METHODS[name] = f
        return f
    return deco


def need_where(kw):
    for k, v in kw.items():
        if v is not None and not (k == 'dtype') and not (k == 'where' and v is True):
            raise Unsupported('numpy option ' + k)


def sum_(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=None):
    need_where(dict(out=out, initial=initial, where=where))
    v, u = split_q(a)
    return wrap(reduction(v, axis, keepdims, t_sum, 'i' if v.kind in 'bi' else 'f'), u)


def prod(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=None):
    need_where(dict(out=out, initial=initial, where=where))
    v, u = split_q(a)
    if u is not None and u.dims != NODIM:
        raise UnitTypeError('prod of a quantity')
    return wrap(reduction(v, axis, keepdims, t_prod, 'i' if v.kind in 'bi' else 'f'), u)


def max_(a, axis=None, out=None, keepdims=False, initial=None, where=None):
    need_where(dict(out=out, initial=initial, where=where))
    v, u = split_q(a)
    nonempty(v, axis)
    if v.kind == 'b':
        return wrap(reduction(v, axis, keepdims, t_any, 'b'), u)
    return wrap(reduction(v, axis, keepdims, t_ext('max'), v.kind), u)


def min_(a, axis=None, out=None, keepdims=False, initial=None, where=None):
    need_where(dict(out=out, initial=initial, where=where))
    v, u = split_q(a)
    nonempty(v, axis)
    if v.kind == 'b':
        return wrap(reduction(v, axis, keepdims, t_all, 'b'), u)
    return wrap(reduction(v, axis, keepdims, t_ext('min'), v.kind), u)


def mean(a, axis=None, keepdims=False):
    v, u = split_q(a)
    v = as_array(v)
    ax = norm_axis(axis, len(v.axes))
    red = range(len(v.axes)) if ax is None else ([ax] if isinstance(ax, int) else ax)
    n = ONE
    for i in red:
        n = mul(n, v.axes[i].length())
    s = reduction(v, axis, keepdims, t_sum, 'f')
    return wrap(elementwise('/', s, Sym(n, 'i')), u)


def any_(a, axis=None, out=None, keepdims=False, where=None):
    need_where(dict(out=out, where=where))
    if isinstance(a, (bool, int)):
        return Sym(TRUE if a else FALSE, 'b')
    v, u = split_q(a)
    if u is not None and u.dims != NODIM:
        raise Unsupported('any of quantity')
    return reduction(v, axis, keepdims, t_any, 'b')


def all_(a, axis=None, out=None, keepdims=False, where=None):
    need_where(dict(out=out, where=where))
    if isinstance(a, (bool, int)):
        return Sym(TRUE if a else FALSE, 'b')
    v, u = split_q(a)
    if u is not None and u.dims != NODIM:
        raise Unsupported('all of quantity')
    return reduction(v, axis, keepdims, t_all, 'b')


def argmax(a, axis=None, out=None, keepdims=False):
    v, u = split_q(a)
    v = as_array(v)
    if axis is None and len(v.axes) > 1:
        v = flatten(v)
    nonempty(v, axis)
    if v.kind == 'b':
        v = map1(b2n, v, 'i')
    k = small_arg(v, 'argmax') if not keepdims else None
    return k if k is not None else reduction(v, axis, keepdims, t_arg('argmax'), 'i')


def small_arg(v, which):
    """extremum of a short vector: the comparisons are decided one by one"""
    if len(v.axes) != 1 or v.axes[0].mask is not None or len(v.axes[0].lens) != 1:
        return None
    n = v.axes[0].lens[0]
    if n.op != 'num' or n.args[0] > 8:
        return None
    f = v.snap()
    x = [f(((num(k),),)) for k in range(int(n.args[0]))]
    best = 0
    for k in range(1, len(x)):
        if E.decide(lt(x[best], x[k]) if which == 'argmax' else lt(x[k], x[best])):
            best = k
    return Sym(num(best), 'i')


def argmin(a, axis=None, out=None, keepdims=False):
    v, u = split_q(a)
    v = as_array(v)
    if axis is None and len(v.axes) > 1:
        v = flatten(v)
    nonempty(v, axis)
    if v.kind == 'b':
        v = map1(b2n, v, 'i')
    k = small_arg(v, 'argmin') if not keepdims else None
    return k if k is not None else reduction(v, axis, keepdims, t_arg('argmin'), 'i')


def count_nonzero(a, axis=None, keepdims=False):
    v, u = split_q(a)
    return reduction(v, axis, keepdims, t_count, 'i')


def std(*a, **k):
    raise Unsupported('std')


# ------------------------------------------------------------------ elementwise
def uf(name):
    def f(x, out=None, where=True):
        if out is not None or where is not True:
            raise Unsupported('ufunc out/where')
        v, u = split_q(x)
        if u is not None:
            if u.dims != NODIM:
                raise UnitTypeError("Can only apply '%s' function to dimensionless quantities" % name)
            v = conv(v, u, DIMLESS)
        r = map1(lambda t: FUN[name](b2n(t)), v, 'f')
        return r if u is None else SQuantity(r, DIMLESS)
    f.__name__ = name
    return f


LN10 = fn('log', num(10))
LN2 = fn('log', num(2))


def t_exp(t):
    return fn('exp', t) if t is not ZERO else ONE


def t_log(t):
    return fn('log', t) if t is not ONE else ZERO


FUN = {
    'exp': t_exp, 'log': t_log,
    'log10': lambda t: div(t_log(t), LN10), 'log2': lambda t: div(t_log(t), LN2),
    'exp2': lambda t: power(num(2), t),
    'expm1': lambda t: sub(t_exp(t), ONE), 'log1p': lambda t: t_log(add(ONE, t)),
    'tanh': lambda t: fn('tanh', t), 'sinh': lambda t: fn('sinh', t), 'cosh': lambda t: fn('cosh', t),
}
exp, log, log10, log2, expm1, log1p = map(uf, ('exp', 'log', 'log10', 'log2', 'expm1', 'log1p'))
tanh, sinh, cosh, exp2 = map(uf, ('tanh', 'sinh', 'cosh', 'exp2'))
RAD = None


def radian():
    global RAD
    if RAD is None:
        RAD = Unit((Fraction(0),) * 3 + (Fraction(1),) + (Fraction(0),) * 2, ONE, 'rad')
    return RAD


def trig(name):
    def f(x, out=None, where=True):
        if out is not None or where is not True:
            raise Unsupported('ufunc out/where')
        v, u = split_q(x)
        if u is not None:
            if u.dims != radian().dims:
                raise UnitTypeError("Can only apply '%s' function to quantities with angle units" % name)
            v = conv(v, u, radian())
        if name == 'tan':
            g = lambda t: div(fn('sin', t), fn('cos', t))
        else:
            g = lambda t: fn(name, t)
        r = map1(lambda t: g(b2n(t)), v, 'f')
        return r if u is None else SQuantity(r, DIMLESS)
    f.__name__ = name
    return f


sin, cos, tan = trig('sin'), trig('cos'), trig('tan')


def atrig(name):
    def f(x):
        v, u = split_q(x)
        if u is not None:
            if u.dims != NODIM:
                raise UnitTypeError('arc function of a dimensional quantity')
            v = conv(v, u, DIMLESS)
        r = map1(lambda t: fn(name, t), v, 'f')
        return r if u is None else SQuantity(r, radian())
    return f


arcsin, arccos, arctan = atrig('arcsin'), atrig('arccos'), atrig('arctan')


def rootf(q):
    def f(x):
        v, u = split_q(x)
        r = map1(lambda t: power(b2n(t), num(q)), v, 'f')
        return r if u is None else SQuantity(r, u.pow(q))
    return f


sqrt = rootf(Fraction(1, 2))
cbrt = rootf(Fraction(1, 3))


def square(x):
    v, u = split_q(x)
    r = map1(lambda t: power(b2n(t), num(2)), v, 'i' if v.kind == 'i' else 'f')
    return r if u is None else SQuantity(r, u.pow(Fraction(2)))


def bop(op):
    def f(a, b, out=None, where=True):
        if out is not None or where is not True:
            raise Unsupported('ufunc out/where')
        r = binop(op, arr(a), arr(b))
        if isinstance(r, Sym) and r.py:
            r = Sym(r.t, r.kind)
        return r
    return f


add_, subtract, multiply, divide = bop('+'), bop('-'), bop('*'), bop('/')
true_divide = divide
power_ = bop('**')
mod = remainder = bop('%')
floor_divide = bop('//')
equal, not_equal, less, less_equal, greater, greater_equal = (bop('=='), bop('!='), bop('<'), bop('<='), bop('>'),
                                                              bop('>='))


def float_power(a, b):
    return power_(a, b)


def negative(x):
    return unop('neg', arr(x))


def positive(x):
    return arr(x)


def reciprocal(x):
    return binop('/', 1, arr(x))


def absolute(x):
    return unop('abs', arr(x))


def sign(x):
    v, u = split_q(x)
    return map1(lambda t: ite(lt(ZERO, t), ONE, ite(lt(t, ZERO), num(-1), ZERO)), v, v.kind)


def rnd(name):
    def f(x, decimals=0):
        v, u = split_q(x)
        if decimals:
            raise Unsupported('round decimals')
        r = map1(lambda t: t if is_int_term(t) else fn(name, t), v, v.kind)
        return wrap(r, u)
    return f


floor, ceil, round_ = rnd('floor'), rnd('ceil'), rnd('round')
rint = trunc = None
rint = round_


def two(f, kind=None):
    def g(a, b, out=None, where=True):
        if out is not None or where is not True:
            raise Unsupported('ufunc out/where')
        (a, b), u = same_unit(a, b)
        r = mapn(lambda x, y: f(b2n(x), b2n(y)), [a, b], kjoin(a.kind, b.kind))
        return wrap(r, u)
    return g


minimum = fmin = two(tm.tmin)
maximum = fmax = two(tm.tmax)


def hypot(a, b):
    (a, b), u = same_unit(a, b)
    return wrap(mapn(lambda x, y: power(add(mul(x, x), mul(y, y)), num(Fraction(1, 2))), [a, b], 'f'), u)


def clip(a, a_min=None, a_max=None, min=None, max=None, out=None):
    if out is not None:
        raise Unsupported('clip out')
    lo = a_min if a_min is not None else min
    hi = a_max if a_max is not None else max
    r = arr(a)
    if lo is not None:
        r = maximum(r, lo)
    if hi is not None:
        r = minimum(r, hi)
    return r


def lop(f):
    def g(a, b, out=None):
        va, ua = split_q(a)
        vb, ub = split_q(b)
        return mapn(lambda x, y: f(n2b(x), n2b(y)), [va, vb], 'b')
    return g


logical_and = lop(band)
logical_or = lop(bor)
logical_xor = lop(lambda a, b: bor(band(a, bnot(b)), band(bnot(a), b)))
bitwise_and, bitwise_or = lop(band), lop(bor)


def logical_not(a):
    v, u = split_q(a)
    return map1(lambda t: bnot(n2b(t)), v, 'b')


invert = lambda a: unop('~', arr(a))


class _LU:
    def __init__(self, f, red):
        self.f, self.red = f, red

    def __call__(self, *a, **k):
        return self.f(*a, **k)

    def reduce(self, xs, axis=0):
        if isinstance(xs, (list, tuple)):
            r = xs[0]
            for x in xs[1:]:
                r = self.f(r, x)
            return r
        return self.red(xs, axis=axis)


logical_and = _LU(logical_and, lambda x, axis: all_(x, axis=axis))
logical_or = _LU(logical_or, lambda x, axis: any_(x, axis=axis))


def t_isnan(t):
    if t.op == 'num' or t.op == 'inf':
        return FALSE
    if t.op == 'nan':
        return TRUE
    if t.op == 'ite':
        return ite(t.args[0], t_isnan(t.args[1]), t_isnan(t.args[2]))
    if t.isbool:
        return FALSE
    if may_nan(t):
        return bfn('isnan', t)
    return FALSE


NAN_FNS = set()          # opaque functions whose value may be nan
_mn = {}


def may_nan(t):
    r = _mn.get(t)
    if r is None:
        r = any((x.op == 'fn' and x.args[0] in NAN_FNS) or x.op == 'nan' or (x.op == 'bind' and x.args[0] == 'ode')
                for x in tm.walk(t))
        _mn[t] = r
    return r


def t_isinf(t):
    if t.op == 'inf' or (t.op == '*' and INF in t.args):
        return TRUE
    if t.op == 'ite':
        return ite(t.args[0], t_isinf(t.args[1]), t_isinf(t.args[2]))
    return FALSE


def isnan(x):
    v, u = split_q(x)
    return map1(t_isnan, v, 'b')


def isinf(x):
    v, u = split_q(x)
    return map1(t_isinf, v, 'b')


def isfinite(x):
    v, u = split_q(x)
    return map1(lambda t: bnot(bor(t_isnan(t), t_isinf(t))), v, 'b')


def nan_to_num(x, copy=True, nan=0, posinf=None, neginf=None):
    if copy is not True or posinf is not None or neginf is not None:
        raise Unsupported('nan_to_num options')
    v, u = split_q(x)
    n = arr(nan)
    if not isinstance(n, Sym):
        raise Unsupported('nan_to_num')
    return wrap(map1(lambda t: ite(t_isnan(t), n.t, t), v, v.kind), u)


def where(c, a=None, b=None):
    if a is None and b is None:
        return nonzero(c)
    cv, cu = split_q(c)
    (a, b), u = same_unit(a, b)
    kind = kjoin(a.kind, b.kind)
    r = mapn(lambda k, x, y: ite(n2b(k), conv_kind(x, a.kind, kind), conv_kind(y, b.kind, kind)), [cv, a, b], kind)
    if isinstance(r, Sym):
        r = new_array([], lambda idx: r0, kind) if False else r
    return wrap(r, u)


def nonzero(c):
    v, u = split_q(c)
    v = as_array(v)
    if len(v.axes) != 1:
        raise Unsupported('nonzero of a %d-d array' % len(v.axes))
    ax = v.axes[0]
    if ax.isone or ax.mask is not None or len(ax.lens) != 1:
        raise Unsupported('nonzero of a structured axis')
    m = v.snap()
    nax = mask_axis([ax], m)
    return (new_array([nax], lambda idx: idx[0][0], 'i'),)


def flatnonzero(c):
    return nonzero(ravel(arr(c)))[0]


def argwhere(c):
    r = nonzero(c)[0]
    return r[:, None]


def select_(condlist, choicelist, default=0):
    r = arr(default)
    for c, x in reversed(list(zip(condlist, choicelist))):
        r = where(c, x, r)
    return r


def isclose(a, b, rtol=Fraction(1, 10**5), atol=Fraction(1, 10**8), equal_nan=False):
    (a, b), u = same_unit(a, b)
    rt, at = arr(rtol), arr(atol)
    if u is not None and u.dims != NODIM and at.t is not ZERO:
        at = Sym(div(at.t, u.scale), 'f') if isinstance(at, Sym) else at
        raise Unsupported('isclose of quantities')
    def close(x, y, r, s):
        if x is INF or y is INF:
            z = y if x is INF else x     # numpy: infinities are only close to themselves
            return FALSE if all(t.op in ('num', 'v', '+') for t in walk(z)) else eq(x, y)
        return le(fn('abs', sub(x, y)), add(s, mul(r, fn('abs', y))))
    return mapn(close, [a, b, rt, at], 'b')


def allclose(a, b, rtol=Fraction(1, 10**5), atol=Fraction(1, 10**8), equal_nan=False):
    return all_(isclose(a, b, rtol, atol))


def array_equal(a, b):
    a, b = arr(a), arr(b)
    aa, bb = as_array(split_q(a)[0]), as_array(split_q(b)[0])
    if len(aa.axes) != len(bb.axes):
        return False
    for p, q in zip(aa.axes, bb.axes):
        if not same_axis(p, q):
            if not E.decide(eq(p.length(), q.length())):
                return False
    return all_(binop('==', a, b))


def isscalar(x):
    return isinstance(x, (int, float, str, bool, Fraction)) or isinstance(x, Sym)


def real(x):
    return arr(x)


def deg2rad(x):
    return binop('*', arr(x), Sym(div(PI, num(180)), 'f'))


radians = deg2rad


def rad2deg(x):
    return binop('*', arr(x), Sym(div(num(180), PI), 'f'))


# ------------------------------------------------------------------ construction
def shape_axes(shape):
    if isinstance(shape, (int, Sym)):
        shape = (shape,)
    out = []
    for s in shape:
        if isinstance(s, Sym):
            if s.kind not in 'ib':
                raise TypeError("'float' object cannot be interpreted as an integer")
            out.append(axis_from_len(s.t))
        elif isinstance(s, int):
            out.append(axis_from_len(num(s)))
        else:
            raise TypeError('shape')
    return out


def full(shape, fill_value, dtype=None):
    v, u = split_q(fill_value)
    axes = shape_axes(shape)
    k = kind_of_dtype(dtype, v.kind)
    if isinstance(v, Sym):
        t = conv_to(v.t, v.kind, k)
        return wrap(new_array(axes, lambda i: t, k), u)
    r = broadcast_axes(v, axes)
    return wrap(new_array(axes, r.snap(), k), u)


def conv_to(t, k, to):
    if k == to:
        return t
    if to == 'b':
        return n2b(t)
    t = b2n(t)
    if to == 'i' and k == 'f' and not is_int_term(t):
        return fn('trunc', t)
    return t


def zeros(shape, dtype=float):
    return full(shape, Sym(ZERO, kind_of_dtype(dtype, 'f')) if kind_of_dtype(dtype, 'f') != 'b' else Sym(FALSE, 'b'))


def ones(shape, dtype=float):
    return full(shape, Sym(ONE, kind_of_dtype(dtype, 'f')) if kind_of_dtype(dtype, 'f') != 'b' else Sym(TRUE, 'b'))


def empty(shape, dtype=float):
    nm = 'uninit%d' % next(E.ctr)
    axes = shape_axes(shape)
    NAN_FNS.add(nm)
    return new_array(axes, lambda idx: fn(nm, *[r for p in idx for r in p]), kind_of_dtype(dtype, 'f'))


def full_like(a, fill_value, dtype=None, shape=None):
    v, u = split_q(a)
    fv_, fu = split_q(fill_value)
    axes = list(v.axes) if isinstance(v, SArray) else []
    if shape is not None:
        axes = shape_axes(shape)
    k = kind_of_dtype(dtype, v.kind)
    if fu is not None:
        if u is None:
            if fu.dims != NODIM:
                raise UnitConversionError('full_like')
            fv_ = conv(fv_, fu, DIMLESS)
        else:
            fv_ = conv(fv_, fu, u)
    if isinstance(fv_, Sym):
        t = conv_to(fv_.t, fv_.kind, k)
        r = new_array(axes, lambda i: t, k)
    else:
        r = new_array(axes, broadcast_axes(fv_, axes).snap(), k)
    return wrap(scal_q(r) if u is not None else r, u)


def scal_q(r):
    return Sym(r.at(()), r.kind) if isinstance(r, SArray) and not r.axes else r


def zeros_like(a, dtype=None, shape=None):
    v, u = split_q(a)
    k = kind_of_dtype(dtype, v.kind)
    axes = (list(v.axes) if isinstance(v, SArray) else []) if shape is None else shape_axes(shape)
    z = FALSE if k == 'b' else ZERO
    r = new_array(axes, lambda i: z, k)
    return wrap(scal_q(r) if u is not None else r, u)


def ones_like(a, dtype=None, shape=None):
    v, u = split_q(a)
    k = kind_of_dtype(dtype, v.kind)
    axes = (list(v.axes) if isinstance(v, SArray) else []) if shape is None else shape_axes(shape)
    z = TRUE if k == 'b' else ONE
    r = new_array(axes, lambda i: z, k)
    return wrap(scal_q(r) if u is not None else r, u)


def empty_like(a, dtype=None):
    v, u = split_q(a)
    r = empty(tuple(x.length() if False else intval(x.length()) for x in v.axes) if isinstance(v, SArray) else (),
              dtype if dtype is not None else dtype_of(v.kind))
    if isinstance(v, SArray):
        r = new_array(v.axes, (lambda nm: (lambda idx: fn(nm, *[q for p in idx for q in p])))('uninit%d' % next(E.ctr)),
                      v.kind)
    return wrap(r, u)


def strip_units_list(x):
    """np.array([...]) of quantities: dimensional scalars are an error"""
    if isinstance(x, GenList) and x.axis is not None:
        if isinstance(x.val, SQuantity):
            if isinstance(x.val.v, Sym):
                if x.val.unit.dims != NODIM:
                    raise TypeError('only dimensionless scalar quantities can be converted to Python scalars')
                return GenList(x.axis, x.gi, x.val.to(DIMLESS).v)
            return GenList(x.axis, x.gi, x.val.v)
        return x
    out = []
    for i in x:
        if isinstance(i, SQuantity):
            if isinstance(i.v, Sym):
                if i.unit.dims != NODIM:
                    raise TypeError('only dimensionless scalar quantities can be converted to Python scalars')
                i = i.to(DIMLESS).v
            else:
                i = i.v
        elif isinstance(i, (list, tuple)):
            i = strip_units_list(i)
        out.append(i)
    return out


def array(x, dtype=None, copy=True, ndmin=0):
    if isinstance(x, StrArray):
        return StrArray(x.items)
    if isinstance(x, str):
        return StrArray([x])
    if isinstance(x, SymRange) or isinstance(x, builtins.range):
        return arr(x)
    if isinstance(x, (list, tuple)):
        if not (isinstance(x, GenList) and x.axis is not None) and len(x) and all(isinstance(i, str) for i in x):
            return StrArray(x)
        r = list_array(strip_units_list(x))
        if isinstance(r, StrArray):
            return r
    elif isinstance(x, SQuantity):
        r = x.v
    else:
        r = coerce(x)
        if r is None:
            raise Unsupported('np.array of %s' % type(x).__name__)
    if isinstance(r, Sym):
        t = r.t
        r = new_array([], lambda i: t, r.kind)
    elif copy and not isinstance(x, (list, tuple)):
        r = new_array(r.axes, r.snap(), r.kind)
    if dtype is not None:
        r = astype(r, dtype)
    while ndmin > len(r.axes):
        r = r[None]
    return r


def asarray(x, dtype=None):
    if isinstance(x, SArray) and dtype is None:
        return x
    if isinstance(x, SQuantity) and isinstance(x.v, SArray) and dtype is None:
        return x.v
    return array(x, dtype, copy=False)


def asanyarray(x, dtype=None):
    if isinstance(x, SQuantity):
        return x
    return asarray(x, dtype)


def copy_(x):
    v, u = split_q(x)
    return wrap(new_array(v.axes, v.snap(), v.kind) if isinstance(v, SArray) else
                (v if u is not None else array(v)), u)


def atleast_1d(*xs):
    out = []
    for x in xs:
        v, u = split_q(x)
        v = as_array(v)
        out.append(wrap(v if v.axes else v[None], u))
    return out[0] if len(out) == 1 else tuple(out)


def atleast_2d(*xs):
    out = []
    for x in xs:
        v, u = split_q(x)
        v = as_array(v)
        if not v.axes:
            v = v[None, None]
        elif len(v.axes) == 1:
            v = v[None, :]
        out.append(wrap(v, u))
    return out[0] if len(out) == 1 else tuple(out)


def int_t(x):
    if isinstance(x, int):
        return num(x)
    if isinstance(x, Sym):
        if x.kind in 'ib' or is_int_term(x.t):
            return x.t
        raise TypeError("'float' object cannot be interpreted as an integer")
    if isinstance(x, SArray) and not x.axes:
        return x.at(())
    raise TypeError('integer expected')


def arange(start, stop=None, step=None, dtype=None):
    if stop is None:
        start, stop = 0, start
    if isinstance(start, SQuantity) or isinstance(stop, SQuantity):
        raise Unsupported('arange of quantities')
    a, b = arr(start), arr(stop)
    s = arr(1 if step is None else step)
    if s.t is ONE and is_int_term(a.t) and is_int_term(b.t):
        L = simp(sub(b.t, a.t))
        if L.op == 'num':
            L = num(builtins.max(0, int(L.args[0])))
        elif not E.decide(le(ZERO, L)):
            L = ZERO
        at = a.t
        ax = axis_from_len(L)
        k = kind_of_dtype(dtype, kjoin(a.kind, b.kind))
        return new_array([ax], (lambda i: at) if ax.isone else (lambda i: add(at, i[0][0])), k)
    if a.t.op == 'num' and b.t.op == 'num' and s.t.op == 'num':
        st = s.t.args[0]
        q = (b.t.args[0] - a.t.args[0]) / st
        n = builtins.max(0, -((-q.numerator) // q.denominator))
        at, stt = a.t, s.t
        ax = axis_from_len(num(n))
        return new_array([ax], (lambda i: at) if ax.isone else (lambda i: add(at, mul(stt, i[0][0]))),
                         kjoin(a.kind, b.kind, s.kind))
    raise Unsupported('arange of symbolic non-integers')


def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    if retstep or dtype is not None:
        raise Unsupported('linspace options')
    (a, b), u = same_unit(start, stop)
    nt = int_t(num)
    a, b = as_array(a), as_array(b)
    axes = bcast_axes(a.axes, b.axes)
    fa, fb = fit(a.snap(), a.axes, axes), fit(b.snap(), b.axes, axes)
    ax = axis_from_len(nt)
    dn = sub(nt, ONE) if endpoint else nt
    if nt.op != 'num' and E.decide(eq(nt, ONE)):
        raise Unsupported('linspace with one point')
    pos = 0 if int(axis) == 0 else (len(axes) if int(axis) in (-1, len(axes)) else None)
    if pos is None:
        raise Unsupported('linspace axis')

    def elem(idx):
        i = idx[pos]
        r = idx[:pos] + idx[pos + 1:]
        x = b2n(fa(r))
        if not i:
            return x
        return add(x, div(mul(i[0], sub(b2n(fb(r)), x)), dn))
    out = list(axes)
    out.insert(pos, ax)
    return wrap(new_array(out, elem, 'f'), u)


def logspace(start, stop, num=50, endpoint=True, base=10):
    if 'logspace' in E.rules and endpoint and base == 10:
        r = E.rules['logspace'](start, stop, num)
        if r is not None:
            return r
    return binop('**', arr(base), linspace(start, stop, num, endpoint))


def geomspace(start, stop, num=50, endpoint=True):
    (a, b), u = same_unit(start, stop)
    r = mapn(lambda x, y, k: mul(x, power(div(y, x), k)), [a, b, linspace(0, 1, num, endpoint)], 'f')
    return wrap(r, u)


# ------------------------------------------------------------------ shapes
def flatten(a, order='C'):
    v, u = split_q(a)
    v = as_array(v)
    return wrap(flat_arr(v, False), u)


def flat_arr(v, shadow):
    nl = [len(x.lens) for x in v.axes]
    f = v.snap()
    if len(v.axes) == 1:
        if shadow:
            return v
        return new_array(v.axes, f, v.kind)
    if any(x.mask is not None for x in v.axes):
        big = [x for x in v.axes if not x.isone]
        if len(big) == 1:
            ax = big[0]
        else:
            lens = tuple(l for x in v.axes for l in x.lens)
            axs = v.axes
            ax = Axis(lens, memo(lambda idx: band(*[x.cond(p) for x, p in zip(axs, split(idx, nl))])))
    else:
        ax = Axis(tuple(l for x in v.axes for l in x.lens))
        if len(ax.lens) > 1:
            ax.length()
    r = new_array([ax], lambda idx: f(split(idx[0], nl)), v.kind)
    r.shadow = shadow
    return r


def ravel(a, order='C'):
    v, u = split_q(a)
    v = as_array(v)
    return wrap(flat_arr(v, True), u)


def length_T(s):
    if isinstance(s, int):
        return num(s)
    if isinstance(s, Sym):
        if s.kind == 'f':
            raise TypeError("'float' object cannot be interpreted as an integer")
        return s.t
    if hasattr(s, '__index__'):
        return num(s.__index__())
    raise TypeError('shape entries must be integers')


def reshape(a, *shape, order='C', newshape=None, **kw):
    if kw or order != 'C':
        raise Unsupported('reshape options')
    if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
        shape = tuple(shape[0])
    if newshape is not None:
        shape = tuple(newshape) if isinstance(newshape, (tuple, list)) else (newshape,)
    v, u = split_q(a)
    v = as_array(v)
    return wrap(reshape_arr(v, [length_T(s) for s in shape]), u)


def reshape_arr(v, tgt):
    # atoms: unmasked roots separately, masked axes as a whole
    atoms = []          # (axis position, root slice, Axis)
    for p, ax in enumerate(v.axes):
        if ax.mask is None:
            for k, l in enumerate(ax.lens):
                atoms.append((p, k, Axis((l,)), l))
        else:
            atoms.append((p, None, ax, ax.length()))
    M1 = num(-1)

    def group(ats, ts):
        """match target lengths to consecutive atoms"""
        if not ts:
            return [] if not ats else None
        t = ts[0]
        if t is ONE:
            r = group(ats, ts[1:])
            if r is not None:
                return [[]] + r
        acc = ONE
        for k in range(1, len(ats) + 1):
            acc = mul(acc, ats[k - 1][3])
            if acc is t or (acc.op != 'num' or t.op != 'num') and len_equal(acc, t) or \
                    (acc.op == 'num' and t.op == 'num' and acc.args[0] == t.args[0]):
                r = group(ats[k:], ts[1:])
                if r is not None:
                    return [ats[:k]] + r
        return None

    total = ONE
    for x in atoms:
        total = mul(total, x[3])
    res = None
    if M1 in tgt:
        if tgt.count(M1) > 1:
            raise ValueError('can only specify one unknown dimension')
        j = tgt.index(M1)
        pre, post = tgt[:j], tgt[j + 1:]
        for a in range(len(atoms) + 1):
            for b in range(a, len(atoms) + 1):
                g1, g2 = group(atoms[:a], pre), group(atoms[b:], post)
                if g1 is not None and g2 is not None:
                    res = g1 + [atoms[a:b]] + g2
                    break
            if res is not None:
                break
        if res is None:
            known = ONE
            for t in pre + post:
                known = mul(known, t)
            if known.op == 'num' and total.op == 'num':
                if int(total.args[0]) % int(known.args[0]):
                    raise ValueError('cannot reshape array')
                tgt = pre + [num(total.args[0] / known.args[0])] + post
            else:
                raise Unsupported('reshape with -1')
    if res is None and M1 not in tgt:
        res = group(atoms, tgt)
    f = v.snap()
    if res is None:
        prodt = ONE
        for t in tgt:
            prodt = mul(prodt, t)
        if not E.decide(eq(total, prodt)):
            raise ValueError('cannot reshape array of size %s into shape %s' % (total, tgt))
        if all(x[2].mask is None for x in atoms) and len(atoms) == 1:
            # one root: linear index
            axes = [axis_from_len(t) for t in tgt]

            def elem(idx):
                lin = ZERO
                for ax, i, t in zip(axes, idx, tgt):
                    lin = add(mul(lin, t), i[0] if i else ZERO)
                out = []
                for ax in v.axes:
                    out.append((lin,) if ax.lens else ())
                return f(tuple(out))
            r = new_array(axes, elem, v.kind)
            r.shadow = True
            return r
        if all(x[3].op == 'num' for x in atoms) and all(t.op == 'num' for t in tgt):
            # fully concrete
            import numpy as _np
            n = int(total.args[0])
            if n <= 64:
                src = list(itertools.product(*[range(int(x[3].args[0])) for x in atoms]))
                nl = [len(ax.lens) for ax in v.axes]
                vals = [f(split(tuple(num(k) for k in s), nl)) for s in src]
                axes = [axis_from_len(t) for t in tgt]

                def elem(idx):
                    lin = ZERO
                    for i, t in zip(idx, tgt):
                        lin = add(mul(lin, t), i[0] if i else ZERO)
                    return select(vals, (lin,))
                r = new_array(axes, elem, v.kind)
                r.shadow = True
                return r
        raise Unsupported('reshape %s -> %s' % (v.axes, tgt))
    axes = []
    for g in res:
        if len(g) == 1:
            a = g[0][2]
            # keep the original axis object where possible
            p = g[0][0]
            if v.axes[p].mask is None and len(v.axes[p].lens) == 1:
                a = v.axes[p]
            axes.append(a)
        elif not g:
            axes.append(Axis())
        elif all(x[2].mask is None for x in g):
            ax = Axis(tuple(x[3] for x in g))
            ax.length()
            axes.append(ax)
        else:
            raise Unsupported('reshape merging masked axes')
    place = [(gi, g) for gi, g in enumerate(res)]

    def elem(idx):
        out = [dict() for _ in v.axes]
        for gi, g in place:
            i = idx[gi]
            q = 0
            for (p, k, ax, l) in g:
                if k is None:
                    out[p]['all'] = tuple(i[q:q + len(ax.lens)])
                    q += len(ax.lens)
                else:
                    out[p][k] = i[q]
                    q += 1
        full = []
        for p, ax in enumerate(v.axes):
            if 'all' in out[p]:
                full.append(out[p]['all'])
            else:
                full.append(tuple(out[p][k] for k in range(len(ax.lens))))
        return f(tuple(full))
    r = new_array(axes, elem, v.kind)
    r.shadow = True
    return r


def repeat(a, repeats, axis=None):
    v, u = split_q(a)
    v = as_array(v)
    if isinstance(repeats, (SArray, list)):
        raise Unsupported('repeat with an array of counts')
    n = int_t(repeats)
    if axis is None:
        if not v.axes:
            v = v[None]
        v = flat_arr(v, False)
        ax = 0
    else:
        ax = norm_axis(axis, len(v.axes))
    A = v.axes[ax]
    f = v.snap()
    if n is ONE:
        return wrap(new_array(v.axes, f, v.kind), u)
    if n.op != 'num' and E.decide(eq(n, ONE)):
        return wrap(new_array(v.axes, f, v.kind), u)
    k = len(A.lens)
    if A.mask is None:
        nax = Axis(A.lens + (n,))
        if len(nax.lens) > 1:
            nax.length()
        else:
            nax = axis_from_len(n)
    else:
        nax = Axis(A.lens + (n,), lambda idx: A.mask(idx[:k]))
    axes = list(v.axes)
    axes[ax] = nax
    return wrap(new_array(axes, lambda idx: f(idx[:ax] + (tuple(idx[ax][:k]),) + idx[ax + 1:]), v.kind), u)


def tile(a, reps):
    v, u = split_q(a)
    v = as_array(v)
    reps = tuple(reps) if isinstance(reps, (tuple, list)) else (reps,)
    while len(v.axes) < len(reps):
        v = v[None]
    reps = (1,) * (len(v.axes) - len(reps)) + reps
    axes = []
    fs = []
    for A, r in zip(v.axes, reps):
        n = int_t(r)
        if n is ONE:
            axes.append(A)
            fs.append(0)
        else:
            if A.mask is not None:
                raise Unsupported('tile of a masked axis')
            na = Axis((n,) + A.lens)
            if len(na.lens) > 1:
                na.length()
            else:
                na = axis_from_len(n)
            axes.append(na)
            fs.append(1)
    f = v.snap()
    src = v.axes
    return wrap(new_array(axes, lambda idx: f(tuple(i[1:] if (k and A.lens) else (() if k else i)
                                                    for i, k, A in zip(idx, fs, src))), v.kind), u)


def broadcast_axes(v, axes):
    v = as_array(v)
    b = bcast_axes(v.axes, axes)
    if len(b) != len(axes):
        raise ValueError('input operand has more dimensions than allowed')
    for p, q in zip(b, axes):
        if p is not q and not same_axis(p, q):
            raise ValueError('could not broadcast')
    return new_array(axes, fit(v.snap(), v.axes, axes), v.kind)


def broadcast_to(a, shape, subok=False):
    v, u = split_q(a)
    if u is not None and not subok:
        u = None
    axes = shape_axes(shape)
    r = broadcast_axes(v, axes)
    r.ro = True
    return wrap(r, u)


def broadcast_arrays(*xs, subok=False):
    vs = [split_q(x) for x in xs]
    axes = []
    for v, u in vs:
        axes = bcast_axes(axes, as_array(v).axes)
    out = []
    for v, u in vs:
        r = broadcast_axes(v, axes)
        r.shadow = True
        out.append(wrap(r, u if subok else None))
    return out


def broadcast_shapes(*shapes):
    axes = []
    for s in shapes:
        axes = bcast_axes(axes, shape_axes(s))
    return tuple(intval(a.length()) for a in axes)


def expand_dims(a, axis):
    v, u = split_q(a)
    v = as_array(v)
    axs = axis if isinstance(axis, (tuple, list)) else (axis,)
    n = len(v.axes) + len(axs)
    axs = sorted((int(x) + n) % n for x in axs)
    key = []
    for i in range(n):
        key.append(None if i in axs else slice(None))
    return wrap(v[tuple(key)], u)


def squeeze(a, axis=None):
    v, u = split_q(a)
    v = as_array(v)
    key = []
    for i, A in enumerate(v.axes):
        if axis is None:
            if not A.isone and A.concrete() is None and E.decide(eq(A.length(), ONE)):
                key.append(0)
                continue
            key.append(0 if A.isone else slice(None))
        else:
            want = norm_axis(axis, len(v.axes))
            want = want if isinstance(want, tuple) else (want,)
            if i in want:
                if not A.isone:
                    raise ValueError('cannot select an axis to squeeze out which has size not equal to one')
                key.append(0)
            else:
                key.append(slice(None))
    return wrap(v[tuple(key)] if key else v, u)


def transpose(a, axes=None, *more):
    v, u = split_q(a)
    v = as_array(v)
    if more:
        axes = (axes,) + more
    if axes is None:
        return wrap(v.T, u)
    perm = [int(x) % len(v.axes) for x in axes]
    inv = {old: new for new, old in enumerate(perm)}
    vm = [m if m[0] == 'fix' else ('ax', inv[m[1]], m[2], m[3]) for m in v.vmap]
    return wrap(SArray(v.buf, [v.axes[p] for p in perm], vm, v.ro, v.shadow), u)


def swapaxes(a, i, j):
    n = ndim(a)
    p = list(range(n))
    i, j = int(i) % n, int(j) % n
    p[i], p[j] = p[j], p[i]
    return transpose(a, p)


def moveaxis(a, src, dst):
    n = ndim(a)
    src, dst = int(src) % n, int(dst) % n
    p = [k for k in range(n) if k != src]
    p.insert(dst, src)
    return transpose(a, p)


def ndim(x):
    if isinstance(x, StrArray):
        return 1
    if x is None or isinstance(x, str):
        return 0
    v = coerce(x)
    if v is None:
        return 0
    return v.ndim


def shape(x):
    if isinstance(x, StrArray):
        return x.shape
    return arr(x).shape


def size(x, axis=None):
    if isinstance(x, StrArray):
        return len(x.items)
    if axis is not None:
        return arr(x).shape[axis]
    return arr(x).size


def concatenate(xs, axis=0):
    if isinstance(xs, GenList) and xs.axis is not None:
        raise Unsupported('concatenate of a symbolic-length list')
    xs = [arr(x) for x in xs]
    vs, u = same_unit(*xs)
    vs = [as_array(v) for v in vs]
    if axis is None:
        vs = [flat_arr(v if v.axes else v[None], False) for v in vs]
        axis = 0
    if not vs:
        raise ValueError('need at least one array to concatenate')
    nd = len(vs[0].axes)
    ax = norm_axis(axis, nd)
    if any(len(v.axes) != nd for v in vs) or nd == 0:
        raise ValueError('all the input array dimensions must match exactly')
    other = []
    for p in range(nd):
        if p == ax:
            other.append(None)
            continue
        for v in vs[1:]:
            if not same_axis(vs[0].axes[p], v.axes[p]):
                if not E.decide(eq(vs[0].axes[p].length(), v.axes[p].length())):
                    raise ValueError('all the input array dimensions except for the concatenation axis must match')
        other.append(vs[0].axes[p])
    lens = []
    for v in vs:
        A = v.axes[ax]
        if A.mask is not None or len(A.lens) > 1:
            raise Unsupported('concatenate along a structured axis')
        lens.append(A.length())
    tot = simp(add(*lens))
    nax = axis_from_len(tot)
    kind = kjoin(*[v.kind for v in vs])
    fs = [v.snap() for v in vs]
    ones_ = [v.axes[ax].isone for v in vs]

    def elem(idx):
        i = idx[ax][0] if idx[ax] else ZERO
        out = None
        offs = [ZERO]
        for l in lens:
            offs.append(simp(add(offs[-1], l)))
        for k in range(len(vs) - 1, -1, -1):
            if lens[k] is ZERO:
                continue
            j = () if ones_[k] else (simp(sub(i, offs[k])),)
            t = conv_kind(fs[k](idx[:ax] + (j,) + idx[ax + 1:]), vs[k].kind, kind)
            out = t if out is None else ite(lt(i, offs[k + 1]), t, out)
        return out if out is not None else ZERO
    other[ax] = nax
    return wrap(new_array(other, elem, kind), u)


def stack(xs, axis=0):
    xs = [arr(x) for x in xs]
    nd = max([ndim(x) for x in xs])
    ax = int(axis)
    ax = ax if ax >= 0 else ax + nd + 1
    return concatenate([expand_dims(x, ax) for x in xs], axis=ax)


max = builtins.max


def vstack(xs):
    return concatenate([atleast_2d(x) for x in xs], axis=0)


def hstack(xs):
    xs = [atleast_1d(x) for x in xs]
    return concatenate(xs, axis=0 if ndim(xs[0]) == 1 else 1)


def column_stack(xs):
    xs = [arr(x) for x in xs]
    return concatenate([x if ndim(x) == 2 else expand_dims(atleast_1d(x), 1) for x in xs], axis=1)


def append(a, b, axis=None):
    if axis is None:
        return concatenate([ravel(a), ravel(b)])
    return concatenate([a, b], axis=axis)


def astype(a, dtype, copy=True):
    v, u = split_q(a)
    k = kind_of_dtype(dtype, v.kind)
    return wrap(map1(lambda t: conv_to(t, v.kind, k), v, k), u)


def diff(a, n=1, axis=-1):
    v, u = split_q(a)
    v = as_array(v)
    if n != 1:
        raise Unsupported('diff n')
    ax = norm_axis(axis, len(v.axes))
    pre = (slice(None),) * ax
    return wrap(binop('-', v[pre + (slice(1, None),)], v[pre + (slice(None, -1),)]), u)


def cumsum(a, axis=None):
    v, u = split_q(a)
    v = as_array(v)
    if axis is None and len(v.axes) > 1:
        v = flat_arr(v, False)
    ax = norm_axis(0 if axis is None else axis, len(v.axes))
    A = v.axes[ax]
    n = A.concrete()
    f = v.snap()
    if A.isone:
        return wrap(new_array(v.axes, f, v.kind), u)
    if n is None or n > 64:
        # sum over j <= i
        l = A.lens[0]
        if A.mask is not None or len(A.lens) > 1:
            raise Unsupported('cumsum of a structured axis')
        return wrap(new_array(v.axes, lambda idx: bind('sum', l, lambda j: (
            le(j, idx[ax][0]), b2n(f(idx[:ax] + ((j,),) + idx[ax + 1:])))), 'f' if v.kind == 'f' else 'i'), u)

    def elem(idx):
        vals = []
        s = ZERO
        for k in range(n):
            s = add(s, b2n(f(idx[:ax] + ((num(k),),) + idx[ax + 1:])))
            vals.append(s)
        return select(vals, idx[ax])
    return wrap(new_array(v.axes, elem, 'f' if v.kind == 'f' else 'i'), u)


def trapezoid(y, x=None, dx=1, axis=-1):
    y = arr(y)
    n = ndim(y)
    ax = norm_axis(axis, n)
    lo = (slice(None),) * ax + (slice(None, -1),)
    hi = (slice(None),) * ax + (slice(1, None),)
    if x is None:
        d = arr(dx)
    else:
        x = arr(x)
        if ndim(x) == 1:
            d = diff(x)
            if n > 1:
                key = [None] * n
                key[ax] = slice(None)
                d = d[tuple(key)]
        else:
            d = diff(x, axis=axis)
    s = binop('*', d, binop('/', binop('+', y[hi], y[lo]), 2))
    return sum_(s, axis=ax)


trapz = trapezoid


def dot(a, b):
    a, b = arr(a), arr(b)
    if ndim(a) == 0 or ndim(b) == 0:
        return binop('*', a, b)
    if ndim(a) == 1 and ndim(b) == 1:
        return sum_(binop('*', a, b))
    if ndim(a) == 2 and ndim(b) == 1:
        return sum_(binop('*', a, b[None, :]), axis=1)
    if ndim(a) == 2 and ndim(b) == 2:
        return sum_(binop('*', a[:, :, None], b[None, :, :]), axis=1)
    raise Unsupported('dot')


def outer(a, b):
    return binop('*', ravel(arr(a))[:, None], ravel(arr(b))[None, :])


def polyval(p, x):
    p = list(p) if not isinstance(p, (SArray, SQuantity)) else [p[i] for i in range(len(p))]
    x = arr(x)
    r = None
    for c in p:
        r = binop('+', binop('*', r, x), c) if r is not None else binop('+', binop('*', x, 0), c)
    return r


class poly1d:
    def __init__(self, c):
        self.c = list(c) if not isinstance(c, SArray) else [c[i] for i in range(len(c))]
        self.coeffs = self.coef = self.c

    def __call__(self, x):
        return polyval(self.c, x)


class _Polynomial:
    @staticmethod
    def polyval(x, c, tensor=True):
        return polyval(list(reversed(list(c))), x)


class _PolyMod:
    polynomial = _Polynomial()

    class Polynomial:
        def __init__(self, c):
            self.c = list(c)

        def __call__(self, x):
            return polyval(list(reversed(self.c)), x)


polynomial = _PolyMod()


def isin(x, test, invert=False):
    if isinstance(x, str):
        return Sym(TRUE if (x in list(test)) != invert else FALSE, 'b')
    if isinstance(x, (list, tuple, StrArray)) and any(isinstance(i, str) for i in x):
        test = [test] if isinstance(test, str) else list(test)
        return list_array([(i in test) != invert for i in x])
    if isinstance(x, (list, tuple, StrArray)) and not len(x):
        return new_array([Axis((ZERO,))], lambda i: FALSE, 'b')
    v, u = split_q(x)
    tv = as_array(split_q(test)[0])
    r = any_(binop('==', as_array(v)[..., None] if isinstance(v, SArray) else v, flat_arr(tv, False)), axis=-1)
    return r if not invert else logical_not(r)


in1d = isin


def interp(x, xp, fp, left=None, right=None):
    """piecewise linear interpolation, opaque in its table"""
    v, u = split_q(x)
    xv, fu_ = split_q(xp)
    fv_, fu = split_q(fp)
    if u is not None or fu_ is not None:
        (v, xv), _ = same_unit(x, xp)
    if left is not None or right is not None:
        raise Unsupported('interp options')
    xv, fv_ = as_array(xv), as_array(fv_)
    ax = xv.axes[0]
    if ax.mask is not None or len(ax.lens) != 1:
        raise Unsupported('interp table')
    gx, gf = xv.snap(), fv_.snap()
    tab = bind('interp', ax.lens[0], lambda k: (TRUE, gx(((k,),)), gf(((k,),))))
    return wrap(map1(lambda t: fn('interp', t, tab), v, 'f'), fu)


def unique(a, **k):
    raise Unsupported('unique')


def meshgrid(*xs, indexing='xy'):
    xs = [ravel(x) for x in xs]
    n = len(xs)
    out = []
    order = list(range(n))
    if indexing == 'xy' and n >= 2:
        order[0], order[1] = 1, 0
    axes = [None] * n
    for k, x in enumerate(xs):
        axes[order[k]] = as_array(split_q(x)[0]).axes[0]
    for k, x in enumerate(xs):
        key = [None] * n
        key[order[k]] = slice(None)
        v, u = split_q(x)
        r = broadcast_axes(v[tuple(key)], axes)
        out.append(wrap(r, u))
    return out


class errstate:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __call__(self, f):
        return f


def seterr(*a, **k):
    return {}


def may_share_memory(a, b):
    raise Unsupported('may_share_memory')


def vectorize(f, *a, **k):
    raise Unsupported('vectorize')


LOADERS = {}


def load(path, *a, **k):
    p = str(path)
    for suffix, f in LOADERS.items():
        if p.endswith(suffix):
            return f()
    raise Unsupported('np.load of ' + p)


def item(a, *k):
    v, u = split_q(a)
    if isinstance(v, Sym):
        return wrap(Sym(v.t, v.kind, True), u)
    if not k:
        r = flat_arr(v, False)
        n = r.axes[0].concrete()
        if r.axes[0].isone:
            return Sym(r.at(((),)), v.kind, True)
        raise Unsupported('item')
    r = v[k if len(k) > 1 else k[0]]
    return Sym(r.t, r.kind, True)


def tolist(a):
    v, u = split_q(a)
    if isinstance(v, Sym):
        return Sym(v.t, v.kind, True)
    n = v.axes[0].concrete() if not v.axes[0].isone else 1
    if n is not None and n <= 64:
        return [tolist(v[i]) if isinstance(v[i], SArray) else Sym(v[i].t, v[i].kind, True) for i in range(n)]
    gi = v.axes[0].generic()
    idx = Sym(gi[0], 'i', True, (v.axes[0], gi)) if len(gi) == 1 else None
    if idx is None:
        raise Unsupported('tolist of a structured axis')
    x = v[idx]
    return GenList(v.axes[0], gi, x)


class _View:
    pass


for _n, _f in dict(any=any_, all=all_, sum=sum_, prod=prod, max=max_, min=min_, mean=mean, argmax=argmax,
                   argmin=argmin, flatten=flatten, ravel=ravel, reshape=reshape, repeat=repeat, astype=astype,
                   copy=copy_, clip=clip, round=round_, tolist=tolist, item=item, squeeze=squeeze,
                   transpose=transpose, swapaxes=swapaxes, dot=dot, nonzero=nonzero, cumsum=cumsum, std=std,
                   diff=diff).items():
    METHODS[_n] = _f


def _fill(a, val):
    a[...] = val


METHODS['fill'] = _fill

_EXPORT = dict(
    sum=sum_, any=any_, all=all_, max=max_, min=min_, amax=max_, amin=min_, abs=absolute, copy=copy_, power=power_,
    add=add_, round=round_, around=round_, float64=float64, bool=bool_, conjugate=real, pow=power_, select=select_,
    asfarray=asarray, nanmax=None, concat=concatenate, permute_dims=transpose, acos=arccos, asin=arcsin, atan=arctan,
    float32=None, double=float64, intp=int64, int32=int64, nansum=None)


class _NP:
    """the module object"""
    __name__ = 'numpy'

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        if name in _EXPORT:
            r = _EXPORT[name]
        else:
            r = globals().get(name)
            if name in ('E', 'Sym', 'tm', 'sym', 'builtins', 'itertools', 'max', 'min') or name.startswith('_'):
                r = None
        if r is None and name != 'newaxis':
            raise Unsupported('numpy.' + name)
        return r


class _Testing:
    def __getattr__(self, name):
        raise Unsupported('numpy.testing')


np = _NP()
ndindex = None
