"""Symbolic scalars, arrays (with views, masks, aliasing), units and quantities."""
import itertools
import operator
from fractions import Fraction
from .terms import *
from . import terms as tm
from .engine import E, Unsupported

BIG = 16          # concrete lengths up to this are expanded


class UnitConversionError(TypeError, ValueError):
    pass


class UnitTypeError(TypeError):
    pass


# ------------------------------------------------------------------ axes
class Axis:
    """An axis enumerates tuples of root indices (row-major), restricted by a mask."""
    __slots__ = ('lens', 'mask', '_key')

    def __init__(self, lens=(), mask=None):
        if mask is None:
            lens = tuple(l for l in lens if l is not ONE)
        self.lens = tuple(lens)
        self.mask = mask
        self._key = None

    def cond(self, idx):
        return TRUE if self.mask is None else self.mask(idx)

    @property
    def isone(self):
        return not self.lens and self.mask is None

    def concrete(self):
        if self.mask is None and all(l.op == 'num' for l in self.lens):
            n = 1
            for l in self.lens:
                n *= int(l.args[0])
            return n
        return None

    def enum(self):
        """all index tuples of a concrete axis"""
        return [tuple(num(i) for i in c) for c in
                itertools.product(*[range(int(l.args[0])) for l in self.lens])]

    def length(self):
        if self.mask is None:
            t = ONE
            for l in self.lens:
                t = mul(t, l)
            if len(self.lens) > 1:
                E.axis_of_len.setdefault(t, self)
            return t
        t = count_over(self.lens, self.mask)
        if t.op != 'num':
            E.axis_of_len.setdefault(t, self)
        return t

    def generic(self):
        return tuple(E.fresh_idx(l) for l in self.lens)

    def __repr__(self):
        return 'Axis(%s%s)' % (','.join(map(str, self.lens)), '' if self.mask is None else '|mask')


def count_over(lens, mask):
    if not lens:
        return ite(mask(()), ONE, ZERO)
    if len(lens) == 1:
        if lens[0].op == 'num' and lens[0].args[0] <= BIG:
            return add(*[ite(mask((num(i),)), ONE, ZERO) for i in range(int(lens[0].args[0]))])
        return bind('count', lens[0], lambda v: (mask((v,)),))
    return reduce_sum(lens, lambda idx: ite(mask(idx), ONE, ZERO))


def reduce_sum(lens, f, cond=None):
    """sum over nested roots"""
    if not lens:
        return f(()) if cond is None else ite(cond(()), f(()), ZERO)
    l, rest = lens[0], lens[1:]
    if rest:
        inner = lambda v: reduce_sum(rest, lambda r: f((v,) + r),
                                     None if cond is None else (lambda r: cond((v,) + r)))
        c1 = None
    else:
        inner = lambda v: f((v,))
        c1 = (lambda v: cond((v,))) if cond is not None else None
    if l.op == 'num' and l.args[0] <= BIG:
        return add(*[ite(c1(num(i)), inner(num(i)), ZERO) if c1 else inner(num(i))
                     for i in range(int(l.args[0]))])
    if 'sum' in E.rules and c1 is None:
        r = E.rules['sum'](l, inner)
        if r is not None:
            return r
    t = bind('sum', l, lambda v: (c1(v) if c1 else TRUE, inner(v)))
    if t.op == 'bind' and t.args[4].op == 'ite' and t.args[4].args[1] is ONE and t.args[4].args[2] is ZERO:
        return bind('count', l, lambda v: (subst(band(t.args[3], t.args[4].args[0]), {t.args[2]: v}),))    # a sum of truth values counts
    return t


def reduce_any(lens, f):
    if not lens:
        return f(())
    l, rest = lens[0], lens[1:]
    inner = (lambda v: reduce_any(rest, lambda r: f((v,) + r))) if rest else (lambda v: f((v,)))
    if l.op == 'num' and l.args[0] <= BIG:
        return bor(*[inner(num(i)) for i in range(int(l.args[0]))])
    return anyof(l, inner)


def one_axis():
    return Axis()


def axis_from_len(n):
    """axis with a given length term"""
    if n is ONE:
        return Axis()
    if n.op == 'num':
        if n.args[0] < 0:
            raise ValueError('negative dimensions are not allowed')
        return Axis((n,))
    a = E.axis_of_len.get(n)
    if a is not None:
        return a
    c = E.prover.base.to_term(E.prover.base.nf(n))
    for k, a in E.axis_of_len.items():
        if E.prover.base.to_term(E.prover.base.nf(k)) is c:
            return a
    return Axis((n,))


def len_equal(a, b):
    if a is b:
        return True
    if a.op == 'num' and b.op == 'num':
        return False
    return E.entails(eq(a, b))


def same_axis(a, b):
    if a is b:
        return True
    if len(a.lens) != len(b.lens):
        return False
    for x, y in zip(a.lens, b.lens):
        if not len_equal(x, y):
            return False
    if a.mask is None and b.mask is None:
        return True
    idx = a.generic()
    ca, cb = a.cond(idx), b.cond(idx)
    if ca is cb:
        return True
    return E.entails(eq(ca, cb))


def shape_error(a, b):
    raise ValueError('operands could not be broadcast together with shapes %s %s' % (a, b))


def bcast_axes(A, B):
    n = max(len(A), len(B))
    A = [Axis()] * (n - len(A)) + list(A)
    B = [Axis()] * (n - len(B)) + list(B)
    out = []
    for a, b in zip(A, B):
        if a.isone:
            out.append(b)
        elif b.isone:
            out.append(a)
        elif same_axis(a, b):
            out.append(a)
        else:
            # one of the symbolic lengths might equal one on this path
            la, lb = a.length(), b.length()
            if E.entails(eq(la, ONE)) or E.entails(eq(lb, ONE)):
                raise Unsupported('broadcast of an axis whose symbolic length is one')
            if E.decide(eq(la, lb)):
                if a.mask is None and b.mask is None and len(a.lens) == 1 and len(b.lens) == 1:
                    out.append(a)
                    continue
                if lb is ZERO or la is ZERO:
                    out.append(a if lb is ZERO else b)
                    continue
                raise Unsupported('axes of equal length with different structure')
            shape_error(A, B)
    return out


def fit(elem, src, dst):
    """index function of an array with axes src seen as broadcast to dst"""
    off = len(dst) - len(src)
    ones = [a.isone for a in src]

    def f(idx):
        sub = idx[off:]
        return elem(tuple(() if o else i for o, i in zip(ones, sub)))
    return f


# ------------------------------------------------------------------ scalars
def isdec(x):
    return isinstance(x, float)


def lit_float(x):
    """python float -> exact decimal rational (or inf/nan)"""
    if x != x:
        return NAN
    if x in (float('inf'), float('-inf')):
        return INF if x > 0 else neg(INF)
    return num(Fraction(repr(x)))


class Sym:
    """symbolic scalar"""
    __slots__ = ('t', 'kind', 'py', 'gidx')
    __array_priority__ = 100

    def __init__(self, t, kind='f', py=False, gidx=None):
        self.t = t
        self.kind = kind
        self.py = py
        self.gidx = gidx        # (Axis, idx tuple) for generic positions

    def __repr__(self):
        return 'Sym(%s:%s)' % (self.t, self.kind)

    def __bool__(self):
        t = self.t if self.kind == 'b' else bnot(eq(self.t, ZERO))
        return E.decide(t)

    def __index__(self):
        if self.t.op == 'num' and self.kind in 'ib':
            return int(self.t.args[0])
        if self.kind == 'b':
            return 1 if bool(self) else 0
        if self.kind == 'i' and self.t.op == 'bind' and self.t.args[0] in ('argmin', 'argmax') and \
                self.t.args[1].op == 'num':
            n = int(self.t.args[1].args[0])
            for k in range(n - 1):
                if E.decide(eq(self.t, num(k))):
                    return k
            return n - 1
        if self.kind == 'i' and self.t.op == 'ite':
            # small finite domain
            vals = finite_values(self.t)
            if vals is not None and len(vals) <= 24:
                for v in vals[:-1]:
                    if E.decide(eq(self.t, num(v))):
                        return int(v)
                return int(vals[-1])
        raise Unsupported('symbolic integer used as a concrete index')

    def __int__(self):
        if self.t.op == 'num':
            return int(self.t.args[0])
        return self.__index__()

    def __float__(self):
        if self.t.op == 'num':
            return float(self.t.args[0])
        raise Unsupported('float() of a symbolic value')

    def __hash__(self):
        if self.t.op == 'num':
            return hash(self.t.args[0])
        return hash(self.t)

    def __format__(self, spec):
        return '<sym>'

    def __iter__(self):
        raise TypeError("'float' object is not iterable")

    def __len__(self):
        raise TypeError("object of type 'float' has no len()")

    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()

    @property
    def size(self):
        return 1

    def __getattr__(self, name):
        from . import npshim
        if name.startswith('__') or self.py:
            raise AttributeError(name)
        f = npshim.METHODS.get(name)
        if f is not None:
            return lambda *a, **k: f(self, *a, **k)
        if name in ('value', 'unit', 'to', 'decompose', 'si', 'cgs'):
            raise AttributeError("'float' object has no attribute '%s'" % name)
        if name == 'dtype':
            return npshim.dtype_of(self.kind)
        raise Unsupported('scalar attribute ' + name)

    def __getitem__(self, k):
        if k is Ellipsis or k == ():
            return self
        if k is None:
            return as_array(self)[None]
        raise IndexError('invalid index to scalar variable.')

    __add__ = lambda a, b: binop('+', a, b)
    __radd__ = lambda a, b: binop('+', b, a)
    __sub__ = lambda a, b: binop('-', a, b)
    __rsub__ = lambda a, b: binop('-', b, a)
    __mul__ = lambda a, b: binop('*', a, b)
    __rmul__ = lambda a, b: binop('*', b, a)
    __truediv__ = lambda a, b: binop('/', a, b)
    __rtruediv__ = lambda a, b: binop('/', b, a)
    __floordiv__ = lambda a, b: binop('//', a, b)
    __rfloordiv__ = lambda a, b: binop('//', b, a)
    __mod__ = lambda a, b: binop('%', a, b)
    __rmod__ = lambda a, b: binop('%', b, a)
    __pow__ = lambda a, b: binop('**', a, b)
    __rpow__ = lambda a, b: binop('**', b, a)
    __lt__ = lambda a, b: binop('<', a, b)
    __le__ = lambda a, b: binop('<=', a, b)
    __gt__ = lambda a, b: binop('>', a, b)
    __ge__ = lambda a, b: binop('>=', a, b)
    __eq__ = lambda a, b: binop('==', a, b)
    __ne__ = lambda a, b: binop('!=', a, b)
    __and__ = lambda a, b: binop('&', a, b)
    __rand__ = lambda a, b: binop('&', b, a)
    __or__ = lambda a, b: binop('|', a, b)
    __ror__ = lambda a, b: binop('|', b, a)
    __xor__ = lambda a, b: binop('^', a, b)
    __rxor__ = lambda a, b: binop('^', b, a)
    __neg__ = lambda a: unop('neg', a)
    __pos__ = lambda a: a
    __abs__ = lambda a: unop('abs', a)
    __invert__ = lambda a: unop('~', a)


def finite_values(t):
    if t.op == 'num':
        return [t.args[0]]
    if t.op == 'ite':
        a, b = finite_values(t.args[1]), finite_values(t.args[2])
        if a is None or b is None:
            return None
        return a + [x for x in b if x not in a]
    if t.op == '+':
        out = [Fraction(0)]
        for x in t.args:
            v = finite_values(x)
            if v is None:
                return None
            out = sorted({p + q for p in out for q in v})
            if len(out) > 40:
                return None
        return out
    return None


def scal(x):
    """coerce a python/symbolic scalar to Sym or None"""
    if type(x) is Sym:
        return x
    if isinstance(x, bool):
        return Sym(TRUE if x else FALSE, 'b', True)
    if isinstance(x, int):
        return Sym(num(x), 'i', True)
    if isinstance(x, float):
        return Sym(lit_float(x), 'f', True)
    if isinstance(x, Fraction):
        return Sym(num(x), 'f', True)
    return None


def numt(s):
    """numeric term of a scalar term of kind"""
    return s


def b2n(t):
    return ite(t, ONE, ZERO) if t.isbool else t


def n2b(t):
    return t if t.isbool else bnot(eq(t, ZERO))


# ------------------------------------------------------------------ buffers and arrays
class Buf:
    __slots__ = ('axes', 'elem', 'kind', 'name', 'dead', 'version', 'readonly', 'uid')
    _uid = itertools.count()

    def __init__(self, axes, elem, kind, name=None):
        self.axes = list(axes)
        self.elem = memo(elem)
        self.kind = kind
        self.name = name
        self.dead = False
        self.version = 0
        self.readonly = False
        self.uid = next(Buf._uid)
        E.bufs.append(self)

    def write(self, elem):
        if self.readonly:
            raise ValueError('assignment destination is read-only')
        if E.loops:
            for lp in E.loops:
                lp.touch(self)
        self.elem = memo(elem)
        self.version += 1


def memo(f):
    if getattr(f, '_memo', False):
        return f
    cache = {}

    def g(idx):
        r = cache.get(idx)
        if r is None:
            r = f(idx)
            cache[idx] = r
        return r
    g._memo = True
    return g


class SArray:
    """view on a buffer.  vmap: per buffer axis either ('ax', j, start, step) or ('fix', idx tuple)"""
    __array_priority__ = 100
    __slots__ = ('buf', 'axes', 'vmap', 'ro', 'shadow', 'isT')

    def __init__(self, buf, axes=None, vmap=None, ro=False, shadow=False):
        self.buf = buf
        self.axes = list(buf.axes if axes is None else axes)
        self.vmap = vmap if vmap is not None else [('ax', j, None, 1) for j in range(len(buf.axes))]
        self.ro = ro
        self.shadow = shadow     # a copy of what numpy would make a view: writing is not supported

    @property
    def kind(self):
        return self.buf.kind

    @property
    def ndim(self):
        return len(self.axes)

    def bidx(self, idx):
        out = []
        for m in self.vmap:
            if m[0] == 'fix':
                out.append(m[1])
            else:
                _, j, start, step = m
                i = idx[j]
                if start is not None:
                    if self.axes[j].isone:
                        i = (start,)
                    elif step == 1:
                        i = (add(start, i[0]),)
                    else:
                        i = (add(start, mul(num(step), i[0])),)
                out.append(i)
        return tuple(out)

    def at(self, idx):
        return self.buf.elem(self.bidx(idx))

    def snap(self):
        """immutable element function of the current contents"""
        e = self.buf.elem
        if all(m == ('ax', j, None, 1) for j, m in enumerate(self.vmap)) and len(self.vmap) == len(self.axes):
            return e
        vmap, axes = list(self.vmap), list(self.axes)
        me = SArray(self.buf, axes, vmap)
        return lambda idx: e(me.bidx(idx))

    # shape
    @property
    def shape(self):
        return tuple(intval(a.length()) for a in self.axes)

    @property
    def size(self):
        t = ONE
        for a in self.axes:
            t = mul(t, a.length())
        return intval(t)

    @property
    def T(self):
        n = len(self.axes)
        vm = [m if m[0] == 'fix' else ('ax', n - 1 - m[1], m[2], m[3]) for m in self.vmap]
        return SArray(self.buf, self.axes[::-1], vm, self.ro, self.shadow)

    @property
    def dtype(self):
        from . import npshim
        return npshim.dtype_of(self.kind)

    def __len__(self):
        if not self.axes:
            raise TypeError('len() of unsized object')
        n = self.axes[0].length()
        if n.op == 'num':
            return int(n.args[0])
        raise Unsupported('len() of a symbolic-length array through C code')

    def slen(self):
        if not self.axes:
            raise TypeError('len() of unsized object')
        return intval(self.axes[0].length())

    def __iter__(self):
        if not self.axes:
            raise TypeError('iteration over a 0-d array')
        n = self.axes[0].concrete()
        if n is None:
            raise Unsupported('iteration over a symbolic-length array')
        return iter([self[i] for i in range(n)])

    def __bool__(self):
        if self.size == 1:
            return bool(Sym(self.at(tuple(() for _ in self.axes)), self.kind))
        n = self.size
        if isinstance(n, Sym):
            if E.decide(eq(n.t, ONE)):
                raise Unsupported('truth value of a one-element symbolic-length array')
        raise ValueError('The truth value of an array with more than one element is ambiguous. '
                         'Use a.any() or a.all()')

    def __repr__(self):
        return 'SArray(%s,%s)' % (self.axes, self.kind)

    __hash__ = None

    def __getattr__(self, name):
        from . import npshim
        if name.startswith('__'):
            raise AttributeError(name)
        f = npshim.METHODS.get(name)
        if f is not None:
            return lambda *a, **k: f(self, *a, **k)
        if name in ('value', 'unit', 'to', 'decompose', 'si', 'cgs', 'to_value', 'lat', 'lon', 'append', 'keys'):
            raise AttributeError("'numpy.ndarray' object has no attribute '%s'" % name)
        raise Unsupported('array attribute ' + name)

    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, value):
        setitem(self, key, value)

    for _n, _o in (('add', '+'), ('sub', '-'), ('mul', '*'), ('truediv', '/'), ('floordiv', '//'), ('mod', '%'),
                   ('pow', '**'), ('and', '&'), ('or', '|'), ('xor', '^')):
        exec("__%s__ = lambda a, b: binop('%s', a, b)\n__r%s__ = lambda a, b: binop('%s', b, a)\n"
             "def __i%s__(a, b):\n    return inplace('%s', a, b)\n" % (_n, _o, _n, _o, _n, _o))
    for _n, _o in (('lt', '<'), ('le', '<='), ('gt', '>'), ('ge', '>='), ('eq', '=='), ('ne', '!=')):
        exec("__%s__ = lambda a, b: binop('%s', a, b)" % (_n, _o))
    __neg__ = lambda a: unop('neg', a)
    __pos__ = lambda a: a.copy()
    __abs__ = lambda a: unop('abs', a)
    __invert__ = lambda a: unop('~', a)


def intval(t):
    if t.op == 'num' and t.args[0].denominator == 1:
        return int(t.args[0])
    return Sym(t, 'i', True)


def new_array(axes, elem, kind):
    return SArray(Buf(axes, elem, kind))


def as_array(x):
    if isinstance(x, SArray):
        return x
    s = scal(x)
    if s is not None:
        t = s.t
        return new_array([], lambda idx: t, s.kind)
    raise Unsupported('as_array of %r' % (type(x),))


def kjoin(*ks):
    if 'o' in ks:
        return 'o'
    if 'f' in ks:
        return 'f'
    if 'i' in ks:
        return 'i'
    return 'b'


class GenList(list):
    """list with symbolic length: one generic element"""

    def __init__(self, axis, idx, value):
        super().__init__()
        self.axis, self.gi, self.val = axis, idx, value

    def slen(self):
        if self.axis is None:
            return list.__len__(self)
        return intval(self.axis.length())

    def __iter__(self):
        if self.axis is None:
            return list.__iter__(self)
        raise Unsupported('iteration over a symbolic-length list')

    def __getitem__(self, k):
        if self.axis is None:
            if isinstance(k, Sym):
                k = k.__index__()
            return list.__getitem__(self, k)
        a = list_array(self)
        return a[k]

    def __bool__(self):
        if self.axis is None:
            return list.__len__(self) > 0
        return E.decide(lt(ZERO, self.axis.length()))

    def __len__(self):
        if self.axis is None:
            return list.__len__(self)
        raise Unsupported('len of a symbolic-length list')


def subst_val(v, m):
    """substitute index terms inside a symbolic value"""
    if isinstance(v, Sym):
        return Sym(subst(v.t, m), v.kind, v.py)
    if isinstance(v, SArray):
        f = v.snap()
        axes = [Axis([subst(l, m) for l in a.lens],
                     None if a.mask is None else (lambda idx, a=a: subst(a.mask(idx), m))) for a in v.axes]
        return new_array(axes, lambda idx: subst(f(idx), m), v.kind)
    if isinstance(v, SQuantity):
        return SQuantity(subst_val(v.v, m), Unit(v.unit.dims, subst(v.unit.scale, m), v.unit.name))
    if isinstance(v, (tuple, list)):
        return type(v)(subst_val(x, m) for x in v)
    return v


def list_array(x):
    """python list / tuple / GenList -> SArray (or SQuantity)"""
    if isinstance(x, GenList) and x.axis is not None:
        v = x.val
        if isinstance(v, (list, tuple)):
            v = list_array(v)
        unit = None
        if isinstance(v, SQuantity):
            unit, v = v.unit, v.v
        s = scal(v)
        gi = x.gi
        if s is not None:
            r = new_array([x.axis], lambda idx: subst(s.t, dict(zip(gi, idx[0]))), s.kind)
        elif isinstance(v, SArray):
            f = v.snap()
            for a in v.axes:
                for l in a.lens:
                    if any(g in fv(l) for g in gi):
                        raise Unsupported('ragged list')
                if a.mask is not None:
                    raise Unsupported('ragged list')
            r = new_array([x.axis] + v.axes, lambda idx: subst(f(idx[1:]), dict(zip(gi, idx[0]))), v.kind)
        else:
            raise Unsupported('list of ' + str(type(v)))
        return r if unit is None else SQuantity(r, unit)
    items = list(x)
    if not items:
        return new_array([Axis((ZERO,))], lambda idx: ZERO, 'f')
    if any(isinstance(i, str) for i in items):
        from .npshim import StrArray
        return StrArray(items)
    conv = []
    unit = None
    for i in items:
        if isinstance(i, (list, tuple)):
            i = list_array(i)
        if isinstance(i, SQuantity):
            if unit is None:
                unit = i.unit
            i = i.to(unit).v
        s = scal(i)
        if s is None and not isinstance(i, SArray):
            return objarray(items)
        conv.append(s if s is not None else i)
    arrs = [as_array(c) for c in conv]
    axes = arrs[0].axes
    kind = arrs[0].kind
    for a in arrs[1:]:
        if len(a.axes) != len(axes) or not all(same_axis(p, q) for p, q in zip(a.axes, axes)):
            raise ValueError('setting an array element with a sequence. The requested array has an '
                             'inhomogeneous shape')
        kind = kjoin(kind, a.kind)
    fs = [a.snap() for a in arrs]
    ks = [a.kind for a in arrs]

    def elem(idx):
        vals = [conv_kind(f(idx[1:]), k, kind) for f, k in zip(fs, ks)]
        return select(vals, idx[0])
    r = new_array([Axis((num(len(items)),))] + list(axes), elem, kind)
    return r if unit is None else SQuantity(r, unit)


def objarray(items):
    raise Unsupported('object array')


def conv_kind(t, k, to):
    if k == to:
        return t
    if to == 'b':
        return n2b(t)
    return b2n(t)


def select(vals, ix):
    if not ix:
        return vals[0]
    i = ix[0]
    if i.op == 'num':
        return vals[int(i.args[0])]
    out = vals[-1]
    for k in range(len(vals) - 2, -1, -1):
        out = ite(eq(i, num(k)), vals[k], out)
    return out


# ------------------------------------------------------------------ element operations
def is_int_term(t):
    op = t.op
    if op == 'num':
        return t.args[0].denominator == 1
    if op == 'v':
        return 'i' in t.args[1]
    if op in ('+', '*'):
        return all(is_int_term(a) for a in t.args)
    if op == '^':
        return is_int_term(t.args[0]) and t.args[1].op == 'num' and t.args[1].args[0] >= 0 and \
            t.args[1].args[0].denominator == 1
    if op == 'ite':
        return is_int_term(t.args[1]) and is_int_term(t.args[2])
    if op == 'fn':
        return t.args[0] in ('ceil', 'floor', 'round', 'trunc') or t.args[0] in INT_FNS
    if op == 'bind':
        return t.args[0] in ('count', 'argmax', 'argmin', 'first', 'last')
    return False


INT_FNS = set()


def e_add(a, b):
    return add(a, b)


def e_abs(a):
    return ite(le(ZERO, a), a, neg(a)) if a.op == 'num' else fn('abs', a)


def e_mod(a, b):
    if a.op == 'num' and b.op == 'num':
        return num(a.args[0] % b.args[0])
    return sub(a, mul(b, fn('floor', div(a, b))))


def e_floordiv(a, b):
    if a.op == 'num' and b.op == 'num':
        return num(a.args[0] // b.args[0])
    return fn('floor', div(a, b))


ARITH = {'+': add, '-': sub, '*': mul, '/': div, '**': power, '%': e_mod, '//': e_floordiv}
CMP = {'<': lt, '<=': le, '>': lambda a, b: lt(b, a), '>=': lambda a, b: le(b, a), '==': eq,
       '!=': lambda a, b: bnot(eq(a, b))}
LOGIC = {'&': band, '|': bor, '^': lambda a, b: bor(band(a, bnot(b)), band(bnot(a), b))}


def elementwise(op, a, b):
    """a, b: Sym or SArray -> Sym or SArray (no units)"""
    ka, kb = a.kind, b.kind
    if op in ARITH:
        f = ARITH[op]
        kind = kjoin(ka, kb)
        if kind == 'b':
            if op == '+':
                f, kind = bor, 'b'
            elif op == '*':
                f, kind = band, 'b'
            elif op == '-':
                raise TypeError('numpy boolean subtract, the `-` operator, is not supported')
            else:
                kind = 'i'
        if op == '/':
            kind = 'f'
        if op == '**' and kind == 'i':
            pass
        g = (lambda x, y: f(b2n(x), b2n(y))) if kind != 'b' else f
    elif op in CMP:
        f = CMP[op]
        kind = 'b'
        g = (lambda x, y: f(b2n(x), b2n(y))) if not (ka == 'b' and kb == 'b' and op in ('==', '!=')) else f
    elif op in LOGIC:
        if ka == 'b' and kb == 'b':
            g, kind = LOGIC[op], 'b'
        else:
            raise Unsupported('bitwise operation on numbers')
    else:
        raise Unsupported(op)
    return map2(g, a, b, kind)


def map2(g, a, b, kind):
    if isinstance(a, Sym) and isinstance(b, Sym):
        return Sym(g(a.t, b.t), kind, a.py and b.py)
    if isinstance(a, Sym):
        t, f = a.t, b.snap()
        return new_array(b.axes, lambda idx: g(t, f(idx)), kind)
    if isinstance(b, Sym):
        t, f = b.t, a.snap()
        return new_array(a.axes, lambda idx: g(f(idx), t), kind)
    axes = bcast_axes(a.axes, b.axes)
    fa, fb = fit(a.snap(), a.axes, axes), fit(b.snap(), b.axes, axes)
    return scalarise(new_array(axes, lambda idx: g(fa(idx), fb(idx)), kind))


def scalarise(a):
    """0-d results become numpy scalars"""
    if isinstance(a, SArray) and not a.axes:
        return Sym(a.at(()), a.kind)
    return a


def mapn(g, args, kind):
    """elementwise over several Sym/SArray"""
    arrs = [as_array(a) for a in args]
    axes = []
    for a in arrs:
        axes = bcast_axes(axes, a.axes)
    fs = [fit(a.snap(), a.axes, axes) for a in arrs]
    r = new_array(axes, lambda idx: g(*[f(idx) for f in fs]), kind)
    return scalarise(r)


def map1(g, a, kind):
    if isinstance(a, Sym):
        return Sym(g(a.t), kind, False)
    f = a.snap()
    return scalarise(new_array(a.axes, lambda idx: g(f(idx)), kind))


def coerce(x, none_ok=False):
    """anything numeric -> Sym / SArray / SQuantity / Unit, else None"""
    if isinstance(x, (Sym, SArray, SQuantity)):
        return x
    s = scal(x)
    if s is not None:
        return s
    if isinstance(x, (list, tuple)):
        return list_array(x)
    return None


def special0(v):
    """0, inf, nan can take any unit"""
    s = scal(v) if not isinstance(v, SArray) else None
    if s is not None:
        return s.t is ZERO or s.t in (INF, NAN) or s.t is neg(INF)
    if isinstance(v, SArray):
        if v.axes and v.axes[0].concrete() is None or not v.axes:
            idx = tuple(a.generic() for a in v.axes)
            return v.at(idx) in (ZERO, INF, NAN)
        n = v.axes[0].concrete()
        if len(v.axes) == 1 and n is not None and n <= BIG:
            return all(v.at((i,)) in (ZERO, INF, NAN) for i in v.axes[0].enum())
    return False


def binop(op, a, b):
    if isinstance(a, Unit) or isinstance(b, Unit):
        return unit_binop(op, a, b)
    ca, cb = coerce(a), coerce(b)
    if ca is None or cb is None:
        if op == '==':
            return cmp_other(a, b, False)
        if op == '!=':
            return cmp_other(a, b, True)
        raise TypeError('unsupported operand type(s) for %s: %s and %s' % (op, type(a).__name__, type(b).__name__))
    a, b = ca, cb
    qa, qb = isinstance(a, SQuantity), isinstance(b, SQuantity)
    if not qa and not qb:
        return elementwise(op, a, b)
    va, ua = (a.v, a.unit) if qa else (a, None)
    vb, ub = (b.v, b.unit) if qb else (b, None)
    if op == '*':
        u = ua * ub if qa and qb else (ua if qa else ub)
        return SQuantity(elementwise('*', va, vb), u)
    if op == '/':
        u = ua / ub if qa and qb else (ua if qa else ub.inv())
        return SQuantity(elementwise('/', va, vb), u)
    if op == '**':
        if qb:
            vb = b.to(DIMLESS).v
        if not qa:
            return SQuantity(elementwise('**', va, vb), DIMLESS)
        e = scal(vb) if not isinstance(vb, SArray) else None
        if e is None or e.t.op != 'num':
            if ua.dims == NODIM:
                return SQuantity(elementwise('**', a.to(DIMLESS).v, vb), DIMLESS)
            if e is None:
                x = vb.snap()(tuple(() if q.isone else q.generic() for q in vb.axes))
                if x.op == 'num':
                    return SQuantity(elementwise('**', va, vb), ua.pow(x.args[0]))
            raise ValueError('Can only raise something to a dimensionless scalar power')
        return SQuantity(elementwise('**', va, e), ua.pow(e.t.args[0]))
    if op in ('+', '-', '%') or op in CMP or op == '//':
        iscmp = op in CMP
        if qa and qb:
            if ua.dims != ub.dims:
                if special0(vb) and False:
                    pass
                if op == '==':
                    return cmp_mismatch(va, vb, False)
                if op == '!=':
                    return cmp_mismatch(va, vb, True)
                raise UnitConversionError('units %s and %s are not convertible' % (ua, ub))
            vb = conv(vb, ub, ua)
            u = ua
        elif qa:
            if ua.dims == NODIM:
                if iscmp or op:
                    # plain numbers are dimensionless: convert to the quantity's unit
                    vb = conv(vb, DIMLESS, ua)
                u = ua
            elif special0(vb):
                u = ua
            elif op == '==':
                return cmp_mismatch(va, vb, False)
            elif op == '!=':
                return cmp_mismatch(va, vb, True)
            else:
                raise UnitConversionError("Can only apply '%s' function to dimensionless quantities" % op)
        else:
            if ub.dims == NODIM:
                va = va
                vb = conv(vb, ub, DIMLESS)
                u = DIMLESS
            elif special0(va):
                u = ub
            elif op == '==':
                return cmp_mismatch(va, vb, False)
            elif op == '!=':
                return cmp_mismatch(va, vb, True)
            else:
                raise UnitConversionError("Can only apply '%s' function to dimensionless quantities" % op)
        if op == '//':
            return SQuantity(elementwise('//', va, vb), DIMLESS)
        r = elementwise(op, va, vb)
        return r if iscmp else SQuantity(r, u)
    if op in LOGIC:
        raise TypeError('bitwise operation on quantities')
    raise Unsupported(op)


def cmp_mismatch(va, vb, res):
    return res


def cmp_other(a, b, res):
    """comparison with a non-numeric object"""
    from .npshim import StrArray
    for x in (a, b):
        if isinstance(x, (SArray,)):
            if isinstance(b if x is a else a, str) or (b if x is a else a) is None:
                f = FALSE if not res else TRUE
                return new_array(x.axes, lambda idx: f, 'b')
    return res


def conv(v, u1, u2):
    """raw value in u1 -> raw value in u2"""
    if u1.scale is u2.scale:
        return v
    k = div(u1.scale, u2.scale)
    k = simp(k)
    if k is ONE:
        return v
    return elementwise('*', v, Sym(k, 'f'))


_simp_cache = {}


def simp(t):
    """cheap canonicalisation of scale factors"""
    r = _simp_cache.get(t)
    if r is None:
        c = E.prover.base
        r = c.to_term(c.nf(t))
        _simp_cache[t] = r
    return r


def unop(op, a):
    if isinstance(a, SQuantity):
        return SQuantity(unop(op, a.v), a.unit)
    a = coerce(a)
    if op == 'neg':
        if a.kind == 'b':
            raise TypeError('The numpy boolean negative, the `-` operator, is not supported')
        return map1(neg, a, a.kind) if not (isinstance(a, Sym) and a.py) else Sym(neg(a.t), a.kind, True)
    if op == 'abs':
        return map1(e_abs, a, a.kind)
    if op == '~':
        if a.kind != 'b':
            raise Unsupported('bitwise not on integers')
        return map1(bnot, a, 'b')
    raise Unsupported(op)


def inplace(op, a, b):
    """a op= b for arrays (writes through)"""
    if isinstance(b, Unit) or isinstance(b, SQuantity):
        raise Unsupported('in-place operation of an array with a quantity') if not (
            isinstance(b, SQuantity) and b.unit.dims == NODIM) else Unsupported('in-place dimensionless')
    r = binop(op, a, b)
    if isinstance(r, Sym):
        r = as_array(r)
    if a.kind == 'i' and r.kind == 'f':
        raise TypeError("Cannot cast ufunc output from dtype('float64') to dtype('int64')")
    if len(r.axes) != len(a.axes) or not all(x.isone == y.isone for x, y in zip(r.axes, a.axes)):
        raise ValueError('non-broadcastable output operand')
    store(a, lambda vidx: TRUE, r.snap(), r.kind)
    return a


# ------------------------------------------------------------------ indexing
def norm_key(arr, key):
    """expand to a list of (kind, payload) aligned with axes"""
    if not isinstance(key, tuple):
        key = (key,)
    key = [list_array(k) if isinstance(k, list) else k for k in key]
    used = 0
    for k in key:
        if k is None or k is Ellipsis:
            continue
        if isinstance(k, SArray) and k.kind == 'b':
            used += max(1, len(k.axes))
        else:
            used += 1
    n = len(arr.axes)
    if used > n:
        raise IndexError('too many indices for array: array is %d-dimensional, but %d were indexed' % (n, used))
    out = []
    seen = False
    for k in key:
        if k is Ellipsis:
            seen = True
            out += [slice(None)] * (n - used)
        else:
            out.append(k)
    if not seen:
        out += [slice(None)] * (n - used)
    return out


def int_index(axis, k):
    """root index tuple of integer position k (Sym or int) on an axis"""
    if isinstance(k, Sym) and k.gidx is not None:
        ga, gi = k.gidx
        if ga is axis or same_axis(ga, axis):
            return gi
    kt = num(k) if isinstance(k, int) else k.t
    if axis.isone:
        if kt in (ZERO, num(-1)):
            return ()
        if E.decide(bor(eq(kt, ZERO), eq(kt, num(-1)))):
            return ()
        raise IndexError('index out of bounds')
    n = axis.length()
    if axis.mask is not None:
        if 'first' in E.rules and kt is ZERO and len(axis.lens) == 1:
            m = E.rules['first'](axis)
            if m is not None:
                return (m,)
        if not E.decide(lt(ZERO, n)):
            raise IndexError('index is out of bounds for axis 0 with size 0')
        if len(axis.lens) == 1 and kt is ZERO:
            return (bind('first', axis.lens[0], lambda v: (axis.mask((v,)),)),)
        if len(axis.lens) == 1 and kt is num(-1):
            return (bind('last', axis.lens[0], lambda v: (axis.mask((v,)),)),)
        raise Unsupported('integer index into a masked axis')
    if len(axis.lens) > 1:
        if all(l.op == 'num' for l in axis.lens) and kt.op == 'num':
            e = axis.enum()
            return e[int(kt.args[0])]
        if kt is ZERO:
            return tuple(ZERO for _ in axis.lens)
        if kt is num(-1):
            return tuple(sub(l, ONE) for l in axis.lens)
        raise Unsupported('integer index into a flattened axis')
    # bounds
    if kt.op == 'num':
        k0 = kt.args[0]
        if k0 < 0:
            kt = add(n, kt)
            ok = le(ZERO, kt)
        else:
            ok = lt(kt, n)
    else:
        if E.entails(le(ZERO, kt)):
            ok = lt(kt, n)
        elif E.decide(le(ZERO, kt)):
            ok = lt(kt, n)
        else:
            kt = add(n, kt)
            ok = le(ZERO, kt)
    if not E.decide(ok):
        raise IndexError('index is out of bounds')
    return (kt,)


def getitem(arr, key):
    if isinstance(key, str):
        raise IndexError('only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or '
                         'boolean arrays are valid indices')
    if isinstance(key, SQuantity):
        raise IndexError('quantity index')
    key = norm_key(arr, key)
    adv = [k for k in key if isinstance(k, (SArray,)) or
           (isinstance(k, Sym) and k.kind == 'b') or isinstance(k, bool)]
    if not adv:
        return scalarise_view(view(arr, key))
    if len(adv) > 1:
        raise Unsupported('several advanced indices')
    # apply basic keys first, then the advanced one
    basic, pos, where = [], 0, None
    a0 = adv[0]
    if not isinstance(a0, SArray) or not a0.axes:
        raise Unsupported('boolean scalar index')
    nd = len(a0.axes) if a0.kind == 'b' else 1
    for k in key:
        if k is a0:
            where = pos
            basic += [slice(None)] * nd
            pos += nd
        else:
            basic.append(k)
            if not isinstance(k, (int, Sym)):
                pos += 1
    v = view(arr, basic)
    f = v.snap()
    if a0.kind == 'b':
        m = a0.snap()
        maxes, vaxes = a0.axes, v.axes[where:where + nd]
        for p, q in zip(maxes, vaxes):
            if not same_axis(p, q):
                if p.isone or q.isone or True:
                    raise IndexError('boolean index did not match indexed array')
        ax = mask_axis(vaxes, m)
        nl = [len(a.lens) for a in vaxes]

        def elem(idx):
            return f(idx[:where] + split(idx[where], nl) + idx[where + 1:])
        return new_array(v.axes[:where] + [ax] + v.axes[where + nd:], elem, v.kind)
    # integer array index
    if a0.kind == 'f':
        raise IndexError('arrays used as indices must be of integer (or boolean) type')
    ix = a0.snap()
    ax = v.axes[where]
    na = len(a0.axes)

    def elem(idx):
        j = ix(idx[where:where + na])
        return f(idx[:where] + (fancy_index(ax, j),) + idx[where + na:])
    check_fancy(ax, a0)
    return new_array(v.axes[:where] + a0.axes + v.axes[where + 1:], elem, v.kind)


def fancy_index(ax, j):
    if ax.isone:
        return ()
    if len(ax.lens) != 1 or ax.mask is not None:
        raise Unsupported('fancy index into a structured axis')
    if j.op == 'num':
        return (j if j.args[0] >= 0 else add(ax.lens[0], j),)
    ctx = E.prover.base
    if ctx.sign(j) in ('+', '0+') or j.op == 'v' and 'i' in j.args[1] and j in E.facts.idx_axis:
        return (j,)
    return (ite(lt(j, ZERO), add(ax.lens[0], j), j),)


def check_fancy(ax, a0):
    idx = tuple(a.generic() for a in a0.axes)
    conds = [a.cond(i) for a, i in zip(a0.axes, idx)]
    j = a0.at(idx)
    n = ax.length()
    if j.op == 'bind' and j.args[0] in ('argmax', 'argmin') and j.args[1] is n:
        return
    ok = band(le(neg(n), j), lt(j, n))
    if ok is TRUE:
        return
    if E.entails(implies(band(*conds), ok)):
        return
    # does some index fall outside?
    lens = [l for a in a0.axes for l in a.lens]
    nl = [len(a.lens) for a in a0.axes]

    def bad(r):
        ix = split(r, nl)
        return band(*[a.cond(i) for a, i in zip(a0.axes, ix)], bnot(subst(ok, dict(zip(sum(idx, ()), r)))))
    if E.decide(reduce_any(tuple(lens), bad)):
        raise IndexError('index out of bounds')


def mask_axis(axes, m):
    lens, nl = [], []
    for a in axes:
        lens += list(a.lens)
        nl.append(len(a.lens))
    masks = [(a.mask, a) for a in axes]

    def mask(idx):
        parts = split(idx, nl)
        return band(*[a.cond(p) for a, p in zip(axes, parts)], n2b(m(parts)))
    if len(axes) == 1 and axes[0].mask is None and mask(axes[0].generic()) is TRUE:
        return axes[0]          # everything is selected
    return Axis(tuple(lens), memo(mask))


def split(idx, nl):
    out, p = [], 0
    for n in nl:
        out.append(tuple(idx[p:p + n]))
        p += n
    return tuple(out)


def view(arr, key):
    """basic indexing -> view"""
    axes = []
    trans = {}          # old axis j -> ('fix', idx) | ('ax', newj, start, step)
    j = 0
    for k in key:
        if k is None:
            axes.append(Axis())
            continue
        ax = arr.axes[j]
        if isinstance(k, slice):
            st, sp, step = k.start, k.stop, k.step
            if st is None and sp is None and step in (None, 1):
                trans[j] = ('ax', len(axes), None, 1)
                axes.append(ax)
            else:
                nax, start, step = slice_axis(ax, st, sp, step)
                trans[j] = ('ax', len(axes), start, step) if not nax.isone or start is None else \
                    ('fixax', len(axes), start)
                axes.append(nax)
        elif isinstance(k, int) or isinstance(k, Sym):
            if isinstance(k, Sym) and k.kind == 'f':
                raise IndexError('only integers, slices are valid indices')
            trans[j] = ('fix', int_index(ax, k))
        else:
            ki = getattr(k, '__index__', None)
            if ki is None:
                raise IndexError('only integers, slices (`:`), ellipsis (`...`) are valid indices')
            trans[j] = ('fix', int_index(ax, k.__index__()))
        j += 1
    vmap = []
    for m in arr.vmap:
        if m[0] == 'fix':
            vmap.append(m)
            continue
        _, oj, start, step = m
        t = trans[oj]
        if t[0] == 'fix':
            i = t[1]
            if start is not None:
                i = (add(start, mul(num(step), i[0])) if i else start,)
            vmap.append(('fix', i))
        elif t[0] == 'fixax':
            i = t[2]
            if start is not None:
                i = add(start, mul(num(step), i))
            vmap.append(('fix', (i,)))
        else:
            _, nj, s2, st2 = t
            if s2 is None:
                vmap.append(('ax', nj, start, step))
            elif start is None:
                vmap.append(('ax', nj, s2, st2))
            else:
                vmap.append(('ax', nj, add(start, mul(num(step), s2)), step * st2))
    return SArray(arr.buf, axes, vmap, arr.ro, arr.shadow)


def to_T(x):
    if isinstance(x, int):
        return num(x)
    if isinstance(x, Sym) and x.kind in 'ib':
        return b2n(x.t)
    if hasattr(x, '__index__'):
        return num(x.__index__())
    raise TypeError('slice indices must be integers or None')


def slice_axis(ax, st, sp, step):
    step = 1 if step is None else step
    if isinstance(step, Sym):
        step = int(step)
    if ax.isone:
        n = ONE
    elif ax.mask is not None or len(ax.lens) != 1:
        raise Unsupported('slice of a structured axis')
    else:
        n = ax.lens[0]
    if step == -1 and st is None and sp is None:
        if ax.isone:
            return ax, None, 1
        return Axis((n,)), sub(n, ONE), -1
    if step < 0:
        raise Unsupported('negative slice step')

    def bound(x, default):
        if x is None:
            return default
        t = to_T(x)
        if t.op == 'num' and t.args[0] < 0:
            t = add(n, t)
            if E.decide(lt(t, ZERO)):
                t = ZERO
        elif t.op != 'num' and not E.entails(le(ZERO, t)):
            raise Unsupported('slice bound of unknown sign')
        if t.op == 'num' and n.op == 'num':
            return tmin(t, n)
        if E.decide(le(t, n)):
            return t
        return n
    a, b = bound(st, ZERO), bound(sp, n)
    L = sub(b, a)
    L = simp(L)
    if L.op == 'num':
        if L.args[0] < 0:
            L = ZERO
    elif not E.decide(le(ZERO, L)):
        L = ZERO
    if step != 1:
        if L.op != 'num':
            raise Unsupported('slice step with symbolic length')
        L = num(-((-int(L.args[0])) // step))
    if ax.isone:
        return (Axis() if L is ONE else Axis((L,))), (None if L is ONE else ZERO), 1
    if L is n and a is ZERO and step == 1:
        return ax, None, 1
    return (Axis() if L is ONE else Axis((L,))), a, step


def scalarise_view(v):
    if not v.axes:
        return Sym(v.at(()), v.kind)
    return v


def store(arr, cond, elem, kind):
    """write elem(view idx) where cond(view idx), through the view into the buffer"""
    if arr.shadow:
        raise Unsupported('write through a reshaped view')
    if arr.ro or arr.buf.readonly:
        raise ValueError('assignment destination is read-only')
    buf = arr.buf
    old = buf.elem
    vmap, axes = list(arr.vmap), list(arr.axes)
    bk = buf.kind
    # view axes not mapped to any buffer axis must have length one
    mapped = {m[1] for m in vmap if m[0] == 'ax'}
    for j, a in enumerate(axes):
        if j not in mapped and not a.isone:
            raise Unsupported('write through a broadcast view')

    def newelem(bidx):
        conds = []
        vidx = [()] * len(axes)
        for m, bi in zip(vmap, bidx):
            if m[0] == 'fix':
                for x, y in zip(m[1], bi):
                    conds.append(eq(x, y))
            else:
                _, j, start, step = m
                if start is None:
                    vidx[j] = bi
                else:
                    if abs(step) != 1:
                        raise Unsupported('write through a strided view')
                    if axes[j].isone:
                        conds.append(eq(bi[0], start))
                        continue
                    i = mul(num(step), sub(bi[0], start))
                    conds.append(le(ZERO, i))
                    conds.append(lt(i, axes[j].lens[0]))
                    vidx[j] = (i,)
        vidx = tuple(vidx)
        c = band(*conds)
        if c is FALSE:
            return old(bidx)
        c = band(c, cond(vidx))
        if c is FALSE:
            return old(bidx)
        return ite(c, conv_store(elem(vidx), kind, bk), old(bidx))
    buf.write(newelem)


def conv_store(t, k, bk):
    if bk == 'b':
        return n2b(t)
    t = b2n(t)
    if bk == 'i' and k == 'f' and not is_int_term(t):
        return fn('trunc', t)
    return t


def bool_scalar(key):
    """condition of an index that is one boolean value, None for other indices"""
    if isinstance(key, bool):
        return TRUE if key else FALSE
    if isinstance(key, Sym) and key.kind == 'b':
        return key.t
    if isinstance(key, SArray) and key.kind == 'b' and not key.axes:
        return key.snap()(())
    return None


def setitem(arr, key, value):
    if isinstance(value, SQuantity):
        if value.unit.dims != NODIM:
            raise TypeError('only dimensionless scalar quantities can be converted to Python scalars')
        value = value.to(DIMLESS).v
    val = coerce(value)
    if val is None:
        raise Unsupported('assignment of %r' % (type(value),))
    if isinstance(val, SQuantity):
        val = val.to(DIMLESS).v
    sc = bool_scalar(key)
    if sc is not None:          # a[True] = v assigns everything, a[False] = v nothing
        va = as_array(val)
        f = bfit(va, arr.axes)
        store(arr, lambda i: sc, f, va.kind)
        return
    key = norm_key(arr, key)
    adv = [k for k in key if isinstance(k, SArray) or isinstance(k, bool) or (isinstance(k, Sym) and k.kind == 'b')]
    va = as_array(val)
    if not adv:
        v = view(arr, key)
        f = bfit(va, v.axes)
        store(v, lambda i: TRUE, f, va.kind)
        return
    if len(adv) > 1:
        raise Unsupported('several advanced indices')
    a0 = adv[0]
    if not isinstance(a0, SArray) or not a0.axes:
        raise Unsupported('boolean scalar index')
    nd = len(a0.axes) if a0.kind == 'b' else 1
    basic, pos, where = [], 0, None
    for k in key:
        if k is a0:
            where = pos
            basic += [slice(None)] * nd
            pos += nd
        else:
            basic.append(k)
            if not isinstance(k, (int, Sym)):
                pos += 1
    v = view(arr, basic)
    if a0.kind == 'b':
        m = a0.snap()
        vaxes = v.axes[where:where + nd]
        for p, q in zip(a0.axes, vaxes):
            if not same_axis(p, q):
                raise IndexError('boolean index did not match indexed array')
        ax = mask_axis(vaxes, m)
        target = v.axes[:where] + [ax] + v.axes[where + nd:]
        f = bfit(va, target)

        def elem(vidx):
            mid = tuple(x for p in vidx[where:where + nd] for x in p)
            return f(vidx[:where] + (mid,) + vidx[where + nd:])
        store(v, lambda vidx: n2b(m(vidx[where:where + nd])), elem, va.kind)
        return
    # integer array index: later positions win
    ax0 = a0.axes[0] if a0.axes else None
    if len(a0.axes) == 1 and ax0.concrete() is not None and ax0.concrete() <= BIG and a0.kind == 'i':
        for i in ax0.enum():
            j = a0.at((i,))
            k2 = list(basic)
            k2[where] = intval(j)
            sub_ = view(v, k2)
            tgt = v.axes[:where] + [ax0] + v.axes[where + 1:]
            f = bfit(va, tgt)
            store(sub_, lambda vidx: TRUE, (lambda vidx, i=i: f(vidx[:where] + (i,) + vidx[where:])), va.kind)
        return
    raise Unsupported('assignment through an integer array')


def bfit(va, target):
    """element function of value va broadcast to target axes (numpy assignment rules)"""
    src = list(va.axes)
    while len(src) > len(target) and src[0].isone:
        src = src[1:]
    drop = len(va.axes) - len(src)
    if len(src) > len(target):
        raise ValueError('could not broadcast input array')
    off = len(target) - len(src)
    for s, t in zip(src, target[off:]):
        if s.isone:
            continue
        if not same_axis(s, t):
            la, lb = s.length(), t.length()
            if E.decide(eq(la, lb)):
                raise Unsupported('assignment between structurally different axes')
            raise ValueError('could not broadcast input array from shape %s into shape %s' % (la, lb))
    f = va.snap()
    ones = [s.isone for s in src]

    def g(idx):
        sub_ = idx[off:]
        return f(((),) * drop + tuple(() if o else i for o, i in zip(ones, sub_)))
    return g


# ------------------------------------------------------------------ units
DIMS = ('m', 'kg', 's', 'rad', 'K', 'A')
NODIM = (Fraction(0),) * 6


class Unit:
    __slots__ = ('dims', 'scale', 'name')
    __array_priority__ = 200

    def __init__(self, dims, scale, name=None):
        self.dims = tuple(dims)
        self.scale = scale
        self.name = name

    def __repr__(self):
        return self.name or 'Unit(%s,%s)' % (self.scale, self.dims)

    def __str__(self):
        from .ushim import unit_text
        return unit_text(self)

    def __format__(self, spec):
        return str(self)

    def __mul__(self, o):
        if isinstance(o, Unit):
            return Unit([a + b for a, b in zip(self.dims, o.dims)], simp(mul(self.scale, o.scale)))
        return unit_binop('*', self, o)

    def __rmul__(self, o):
        return unit_binop('*', o, self)

    def inv(self):
        return Unit([-a for a in self.dims], simp(div(ONE, self.scale)))

    def __truediv__(self, o):
        if isinstance(o, Unit):
            return self * o.inv()
        return unit_binop('/', self, o)

    def __rtruediv__(self, o):
        return unit_binop('/', o, self)

    def pow(self, q):
        return Unit([a * q for a in self.dims], simp(power(self.scale, num(q))))

    def __pow__(self, e):
        s = scal(e)
        if s is None or s.t.op != 'num':
            raise TypeError('unit exponent')
        return self.pow(s.t.args[0])

    def __eq__(self, o):
        if isinstance(o, str):
            from .ushim import parse_unit
            o = parse_unit(o)
        if not isinstance(o, Unit):
            return False
        return self.dims == o.dims and (self.scale is o.scale or E.prover.base.equal(self.scale, o.scale))

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.dims)

    @property
    def physical_type(self):
        raise Unsupported('physical_type')

    def is_equivalent(self, o):
        return isinstance(o, Unit) and self.dims == o.dims

    def to(self, o, value=1):
        if self.dims != o.dims:
            raise UnitConversionError('not convertible')
        return conv(coerce(value), self, o)

    def decompose(self, bases=None):
        return self

    def to_string(self, *a, **k):
        return str(self)


DIMLESS = Unit(NODIM, ONE, '')


def unit_binop(op, a, b):
    if isinstance(a, Unit) and isinstance(b, Unit):
        if op == '==':
            return a == b
        if op == '!=':
            return a != b
        if op == '*':
            return a * b
        if op == '/':
            return a / b
        raise TypeError('unit ' + op)
    if op == '==':
        return False
    if op == '!=':
        return True
    if isinstance(b, Unit):
        if isinstance(a, SQuantity):
            return SQuantity(a.v, a.unit * b if op == '*' else a.unit / b)
        v = coerce(a)
        if v is None:
            raise TypeError('unsupported operand for unit: %r' % (a,))
        if isinstance(v, SQuantity):
            return SQuantity(v.v, v.unit * b if op == '*' else v.unit / b)
        if op not in '*/':
            raise TypeError('unit ' + op)
        v = fcopy(v)
        return SQuantity(v, b if op == '*' else b.inv())
    if isinstance(a, Unit):
        if isinstance(b, SQuantity):
            return SQuantity(b.v if op == '*' else elementwise('/', Sym(ONE, 'i'), b.v),
                             a * b.unit if op == '*' else a / b.unit)
        v = coerce(b)
        if v is None or op not in '*/':
            raise TypeError('unsupported operand for unit')
        v = fcopy(v) if op == '*' else elementwise('/', Sym(ONE, 'i'), v)
        return SQuantity(v, a)
    raise TypeError


def fcopy(v):
    """copy as float (what Quantity(...) does)"""
    if isinstance(v, Sym):
        return Sym(b2n(v.t), 'f')
    f = v.snap()
    return new_array(v.axes, (lambda idx: b2n(f(idx))) if v.kind == 'b' else f, 'f')


def copy_arr(v):
    if isinstance(v, Sym):
        return v
    return new_array(v.axes, v.snap(), v.kind)


class SQuantity:
    __array_priority__ = 300
    __slots__ = ('v', 'unit')

    def __init__(self, v, unit=None, dtype=None, copy=True):
        if unit is None:
            unit = DIMLESS
        if isinstance(unit, str):
            from .ushim import parse_unit
            unit = parse_unit(unit)
        if isinstance(v, SQuantity):
            v = v.to(unit).v
        elif not isinstance(v, (Sym, SArray)):
            v = coerce(v)
            if isinstance(v, SQuantity):
                v = v.to(unit).v
        self.v = v
        self.unit = unit

    def __repr__(self):
        return 'Q(%r,%s)' % (self.v, self.unit)

    @property
    def value(self):
        return self.v

    @property
    def isscalar(self):
        return isinstance(self.v, Sym)

    def to(self, u, equivalencies=None, copy=True):
        if isinstance(u, str):
            from .ushim import parse_unit
            u = parse_unit(u)
        if isinstance(u, SQuantity):
            u = Unit(u.unit.dims, simp(mul(u.unit.scale, u.v.t)))
        if not isinstance(u, Unit):
            raise TypeError('not a unit')
        if self.unit.dims != u.dims:
            raise UnitConversionError("'%s' and '%s' are not convertible" % (self.unit, u))
        return SQuantity(copy_arr(conv(self.v, self.unit, u)), u)

    def to_value(self, u=None):
        return self.v if u is None else self.to(u).v

    def decompose(self, bases=None):
        return SQuantity(copy_arr(conv(self.v, self.unit, Unit(self.unit.dims, ONE))), Unit(self.unit.dims, ONE))

    @property
    def si(self):
        return self.decompose()

    @property
    def phys(self):
        """value in SI"""
        return conv(self.v, self.unit, Unit(self.unit.dims, ONE))

    @property
    def shape(self):
        return self.v.shape

    @property
    def ndim(self):
        return self.v.ndim

    @property
    def size(self):
        return self.v.size

    @property
    def dtype(self):
        from . import npshim
        return npshim.dtype_of(self.v.kind)

    @property
    def T(self):
        return SQuantity(self.v.T, self.unit) if isinstance(self.v, SArray) else self

    def slen(self):
        if isinstance(self.v, Sym):
            raise TypeError("'Quantity' object with a scalar value has no len()")
        return self.v.slen()

    def __len__(self):
        if isinstance(self.v, Sym):
            raise TypeError("'Quantity' object with a scalar value has no len()")
        return len(self.v)

    def __iter__(self):
        if isinstance(self.v, Sym):
            raise TypeError("'Quantity' object with a scalar value is not iterable")
        return iter([SQuantity(x, self.unit) for x in self.v])

    def __bool__(self):
        return True

    def __float__(self):
        if self.unit.dims != NODIM:
            raise TypeError('only dimensionless scalar quantities can be converted to Python scalars')
        return float(self.to(DIMLESS).v)

    def __format__(self, spec):
        return '<quantity>'

    __hash__ = None

    def __getattr__(self, name):
        from . import npshim
        if name.startswith('__'):
            raise AttributeError(name)
        f = npshim.METHODS.get(name)
        if f is not None:
            return lambda *a, **k: f(self, *a, **k)
        if name in ('lat', 'lon', 'append', 'keys'):
            raise AttributeError("'Quantity' object has no '%s' member" % name)
        raise Unsupported('quantity attribute ' + name)

    def __getitem__(self, key):
        if isinstance(self.v, Sym):
            if key is None or key is Ellipsis or (isinstance(key, tuple) and all(
                    k is None or k is Ellipsis for k in key)):
                if key is Ellipsis or key == ():
                    return self
                return SQuantity(as_array(self.v)[key], self.unit)
            raise TypeError("'Quantity' object with a scalar value does not support indexing")
        return SQuantity(self.v[key], self.unit)

    def __setitem__(self, key, val):
        if isinstance(self.v, Sym) and bool_scalar(key) is None:
            raise Unsupported('item assignment on scalar quantity')
        if isinstance(val, list):
            val = list_array(val)
        if isinstance(val, SQuantity):
            if val.unit.dims != self.unit.dims:
                if special0(val.v) and val.unit.dims == NODIM:
                    pass
                else:
                    raise UnitConversionError('not convertible')
                x = val.v
            else:
                x = conv(val.v, val.unit, self.unit)
        else:
            x = coerce(val)
            if self.unit.dims != NODIM and not special0(x):
                raise UnitConversionError('dimensionless value assigned to a quantity')
            if self.unit.dims == NODIM:
                x = conv(x, DIMLESS, self.unit)
        if isinstance(self.v, Sym):
            x = as_array(x)
            if x.axes:
                raise Unsupported('array assigned to a scalar quantity')
            self.v = Sym(ite(bool_scalar(key), b2n(x.snap()(())), b2n(self.v.t)), self.v.kind)
            return
        setitem(self.v, key, x)

    for _n, _o in (('add', '+'), ('sub', '-'), ('mul', '*'), ('truediv', '/'), ('floordiv', '//'), ('mod', '%'),
                   ('pow', '**'), ('and', '&'), ('or', '|'), ('xor', '^')):
        exec("__%s__ = lambda a, b: binop('%s', a, b)\n__r%s__ = lambda a, b: binop('%s', b, a)\n"
             % (_n, _o, _n, _o))
    for _n, _o in (('lt', '<'), ('le', '<='), ('gt', '>'), ('ge', '>='), ('eq', '=='), ('ne', '!=')):
        exec("__%s__ = lambda a, b: binop('%s', a, b)" % (_n, _o))
    __neg__ = lambda a: unop('neg', a)
    __pos__ = lambda a: a
    __abs__ = lambda a: unop('abs', a)

    def _ip(self, op, b):
        if isinstance(self.v, Sym):
            return binop(op, self, b)
        if op in ('+', '-'):
            r = binop(op, self, b)
            r = r.to(self.unit)
            store_all(self.v, r.v)
            return self
        r = binop(op, self, b)
        store_all(self.v, r.v)
        # astropy changes the unit in place
        self.unit = r.unit
        return self

    __iadd__ = lambda a, b: a._ip('+', b)
    __isub__ = lambda a, b: a._ip('-', b)

    def __imul__(a, b):
        if isinstance(b, Unit):
            a.unit = a.unit * b
            return a
        return a._ip('*', b)

    def __itruediv__(a, b):
        if isinstance(b, Unit):
            a.unit = a.unit / b
            return a
        return a._ip('/', b)

    def __ipow__(a, b):
        return a._ip('**', b)


def store_all(a, r):
    r = as_array(r)
    if len(r.axes) != len(a.axes):
        raise ValueError('non-broadcastable output operand')
    store(a, lambda vidx: TRUE, r.snap(), r.kind)


def phys(x):
    """SI value of anything numeric"""
    if isinstance(x, SQuantity):
        return x.phys
    return coerce(x)
