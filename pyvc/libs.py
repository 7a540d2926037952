"""Assumed contracts of the other libraries the package uses (scipy, numba, schwimmbad, os, copy, ...)."""
import builtins
import copy as _copy
import math as _math
import os as _os
import itertools
from fractions import Fraction
from .terms import *
from . import terms as tm
from .engine import E, Unsupported
from . import sym
from .sym import (Sym, SArray, SQuantity, GenList, scal, coerce, as_array, new_array, Axis, n2b, b2n, intval, Unit,
                  bcast_axes, fit, mapn, copy_arr, NODIM, DIMLESS)
from . import npshim
from .npshim import np as NP, StrArray, arr, split_q, wrap, Marker
from . import ushim
from .ushim import units, constants, coordinates, SkyCoordS
from . import loops
from .loops import run_local, merge_vals, SymMap, SymZip, sym_axis, concretise, make_list, comp, SList
from .loader import NS, Missing, _pow, b_int


def plain(x):
    """value of a dimensionless argument (what C code sees: the unit is dropped only when dimensionless)"""
    x = arr(x)
    if isinstance(x, SQuantity):
        if x.unit.dims != NODIM:
            raise TypeError('dimensional argument to a dimensionless function')
        x = x.to(DIMLESS).v
    return x


def bare(x):
    """value in its own unit (what np.array(x) leaves of a quantity)"""
    x = arr(x)
    return x.value if isinstance(x, SQuantity) else x


# ------------------------------------------------------------------ scipy.special
def jv(n, x):
    q = any(isinstance(arr(v), SQuantity) for v in (n, x))
    n, x = plain(n), plain(x)
    r = mapn(lambda a, b: fn('jv', b2n(a), b2n(b)), [n, x], 'f')
    return SQuantity(r, DIMLESS) if q else r


# ------------------------------------------------------------------ scipy.integrate
_tmpc = itertools.count()


def local_value(f, v):
    """value of f(v) as one term (local case splits merged)"""
    out = []
    for conds, r in run_local(lambda: f(Sym(v, 'f'))):
        if r[0] == 'exc':
            raise Unsupported('exception inside an integrand: %r' % (r[1],))
        out.append((band(*conds), r[1]))
    r = merge_vals(out)
    r = arr(r)
    if isinstance(r, SQuantity):
        if r.unit.dims != NODIM:
            raise Unsupported('integrand with units')
        r = r.to(DIMLESS).v
    if isinstance(r, SArray):
        if all(a.isone for a in r.axes):
            r = Sym(r.at(tuple(() for _ in r.axes)), r.kind)
        else:
            raise Unsupported('array-valued integrand')
    return b2n(r.t)


def scalar_arg(x):
    x = plain(x)
    if isinstance(x, SArray):
        if all(a.isone for a in x.axes):
            return b2n(x.at(tuple(() for _ in x.axes)))
        raise Unsupported('array where a number is expected')
    return b2n(x.t)


def tup(args):
    return args if isinstance(args, tuple) else (args,)


def quad(func, a, b, args=(), full_output=0, epsabs=None, epsrel=None, limit=50, points=None, weight=None, **k):
    if full_output or weight is not None or k:
        raise Unsupported('quad options')
    at, bt = scalar_arg(a), scalar_arg(b)
    unit = all(E.entails(band(le(ZERO, t), le(t, ONE))) for t in (at, bt))
    v = var('§q%d' % next(_tmpc), 'u' if unit else '')
    body = local_value(lambda x: func(x, *tup(args)), v)
    t = bind('int', 'R', lambda w: (TRUE, subst(body, {v: w}), at, bt), flags='u' if unit else '')
    return (Sym(t, 'f', True), Sym(fn('quad_err', t), 'f', True))


def odeint(func, y0, t, args=(), Dfun=None, col_deriv=0, full_output=0, ml=None, mu=None, rtol=None, atol=None,
           tcrit=None, h0=0, hmax=0, hmin=0, ixpr=0, mxstep=0, mxhnil=0, mxordn=12, mxords=5, printmessg=0,
           tfirst=False):
    if full_output or Dfun is not None:
        raise Unsupported('odeint options')
    y = scalar_arg(y0)
    ts = plain(t)
    if not isinstance(ts, SArray) or len(ts.axes) != 1:
        raise Unsupported('odeint times')
    unit = E.entails(band(lt(ZERO, y), lt(y, ONE)))
    k = next(_tmpc)
    v, tv = var('§y%d' % k, 'u' if unit else ''), var('§t%d' % k, '')
    T_ = Sym(tv, 'f')
    rhs = local_value(lambda x: func(T_, x, *tup(args)) if tfirst else func(x, T_, *tup(args)), v)
    if tv in fv(rhs):
        raise Unsupported('time-dependent ODE')
    f = ts.snap()
    ax = ts.axes[0]
    z = tuple(ZERO for _ in ax.lens)
    if ax.mask is not None:
        raise Unsupported('odeint over masked times')
    t0 = f((z,))
    one = Axis()

    def elem(idx):
        return bind('ode', 'R', lambda w: (TRUE, subst(rhs, {v: w}), y, t0, f((idx[0],))),
                    flags='u' if unit else '')
    return new_array([ax, one], elem, 'f')


# ------------------------------------------------------------------ scipy.interpolate
def table(*cols):
    """term identifying tabulated data"""
    cols = [plain(c) for c in cols]
    for c in cols:
        if not isinstance(c, SArray) or len(c.axes) != 1:
            raise Unsupported('table shape')
    ax = cols[0].axes[0]
    for c in cols[1:]:
        if not sym.same_axis(c.axes[0], ax):
            raise ValueError('x and y arrays must be equal in length along interpolation axis.')
    if len(ax.lens) != 1 and not ax.isone:
        raise Unsupported('structured table')
    fs = [c.snap() for c in cols]
    if ax.mask is not None:
        return bind('table', ax.lens[0], lambda v: (ax.cond((v,)),) + tuple(f(((v,),)) for f in fs))
    return bind('table', ax.length(), lambda v: (TRUE,) + tuple(f(((v,) if ax.lens else (),)) for f in fs))


class TCK:
    def __init__(self, t, k, s):
        self.t, self.k, self.s = t, k, s

    def __iter__(self):
        raise Unsupported('spline internals')


def splrep(x, y, w=None, xb=None, xe=None, k=3, task=0, s=None, t=None, full_output=0, per=0, quiet=1):
    if w is not None or xb is not None or xe is not None or task or t is not None or full_output or per:
        raise Unsupported('splrep options')
    s = scal(s if s is not None else 0).t
    t = table(x, y)
    # an interpolating spline only depends on x / scale: take a common positive factor out of the abscissae
    scale = ONE
    if s is ZERO:
        lam, xs = t.args[2], t.args[4]
        fs = xs.args if xs.op == '*' else (xs,)
        free = [q for q in fs if not any(a is lam for a in walk(q))]
        if free and len(free) < len(fs):
            c = mul(*free)
            if E.entails(lt(ZERO, c)):
                scale = c
                t = table(sym.map1(lambda v: strip(v, free), plain(x), 'f'), y)
    r = TCK(t, int(k), s)
    r.scale = scale
    return r


def strip(t, factors):
    """t without the given factors"""
    fs = list(t.args if t.op == '*' else (t,))
    for f in factors:
        if f in fs:
            fs.remove(f)
        else:
            fs.append(power(f, -1))
    return mul(*fs)


def splev(x, tck, der=0, ext=0):
    if not isinstance(tck, TCK):
        raise Unsupported('splev')
    x = plain(x)
    nm = 'splev:%d:%d:%d' % (int(der), int(ext), tck.k)
    return as_array(sym.map1(lambda v: fn(nm, div(b2n(v), tck.scale), tck.t, tck.s), x, 'f'))


class Interp1d:
    def __init__(self, x, y, kind='linear', axis=-1, copy=True, bounds_error=None, fill_value=npshim.nan,
                 assume_sorted=False):
        self.t = table(bare(x), bare(y))
        self.x, self.y = [as_array(v) for v in (bare(x), bare(y))]
        self.x, self.y = [(v.axes, v.snap(), v.kind) for v in (self.x, self.y)]
        self.linear = kind == 'linear'
        be = True if bounds_error is None and fill_value is npshim.nan else bool(bounds_error)
        self.lo = self.hi = None
        if isinstance(fill_value, str):
            self.fill = fill_value
        elif isinstance(fill_value, tuple):
            self.fill = 'v'
            self.lo, self.hi = [scalar_arg(v) for v in fill_value]
        else:
            self.fill = 'v'
            self.lo = self.hi = scalar_arg(fill_value)
        self.name = 'interp1d:%s:%s:%s' % (kind, 'err' if be else 'fill', self.fill)

    def __call__(self, x):
        x = bare(x)
        if 'interp' in E.rules and isinstance(x, Sym) and self.linear:
            r = E.rules['interp'](self, b2n(x.t))
            if r is not None:
                return as_array(r)
        r = sym.map1(lambda v: fn(self.name, b2n(v), self.t, *([self.lo, self.hi] if self.lo is not None else [])),
                     x, 'f')
        return as_array(r)


class RBS:
    def __init__(self, x, y, z, bbox=None, kx=3, ky=3, s=0):
        self.x, self.y, self.z = plain(x), plain(y), plain(z)
        if not isinstance(self.z, SArray) or len(self.z.axes) != 2:
            raise Unsupported('spline table')
        self.name = 'rbs:%d:%d' % (int(kx), int(ky))
        fx, fy, fz = self.x.snap(), self.y.snap(), self.z.snap()
        ax, ay = self.z.axes
        self.t = bind('table', ax.length(), lambda v: (TRUE, fx(((v,),)), bind(
            'table', ay.length(), lambda w: (TRUE, fy(((w,),)), fz(((v,), (w,)))))))

    def ev(self, x, y, dx=0, dy=0):
        return mapn(lambda a, b: fn(self.name, b2n(a), b2n(b), self.t), [plain(x), plain(y)], 'f')

    def __call__(self, *a, **k):
        raise Unsupported('spline on a grid')


# ------------------------------------------------------------------ numba / pools
def jitted(f):
    """compiled functions take numbers and plain arrays (what they do with units is not modelled)"""
    import functools

    @functools.wraps(f)
    def g(*a, **k):
        if any(isinstance(x, sym.SQuantity) for x in list(a) + list(k.values())):
            raise Unsupported('quantity handed to a compiled function')
        return f(*a, **k)
    return g


def jit(*a, **k):
    if a and callable(a[0]):
        return jitted(a[0])
    return jitted


class Pool:
    def __init__(self, processes=None, *a, **k):
        self.n = processes

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def map(self, f, it, *a, **k):
        if sym_axis(it) is not None:
            return comp(f, it)
        return make_list(*[f(x) for x in concretise(it)])

    imap = map

    def starmap(self, f, it):
        return self.map(lambda x: f(*x), it)

    def close(self):
        pass
    join = terminate = close


# ------------------------------------------------------------------ files
class PathS(str):
    def joinpath(self, *o):
        return PathS(_os.path.join(self, *[str(x) for x in o]))

    def __truediv__(self, o):
        return PathS(_os.path.join(self, str(o)))

    def open(self, *a, **k):
        return self

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __fspath__(self):
        return str(self)

    @property
    def path(self):
        return self


class VFS:
    """virtual files of one symbolic run"""

    def __init__(self):
        self.files = {}


VF = VFS()


def exists(p):
    p = str(p)
    return p in VF.files or p.startswith('/§pkg')


class _Path:
    join = staticmethod(lambda *a: PathS(_os.path.join(*[str(x) for x in a])))
    exists = isfile = lexists = staticmethod(exists)
    isdir = staticmethod(lambda p: False)
    basename = staticmethod(lambda p: _os.path.basename(str(p)))
    dirname = staticmethod(lambda p: PathS(_os.path.dirname(str(p))))
    abspath = realpath = expanduser = staticmethod(lambda p: PathS(str(p)))
    splitext = staticmethod(lambda p: _os.path.splitext(str(p)))
    sep = '/'


def os_remove(p):
    if str(p) not in VF.files:
        raise FileNotFoundError(str(p))
    del VF.files[str(p)]


# ------------------------------------------------------------------ HDF5 files
class H5Attrs:
    """attributes: numbers, booleans, strings and arrays; read back as numpy scalars, strings and arrays"""

    def __init__(self, node):
        self.node = node

    def __setitem__(self, k, v):
        self.node.writable()
        if isinstance(v, bool):
            v = Sym(TRUE if v else FALSE, 'b')
        elif isinstance(v, (int, float)):
            v = Sym(scal(v).t, scal(v).kind)
        elif isinstance(v, SQuantity):
            v = copy_arr(v.v)
        elif isinstance(v, (Sym, SArray)):
            v = copy_arr(v)
        elif v is None:
            raise TypeError("Object dtype dtype('O') has no native HDF5 equivalent")
        elif type(v) is not str:
            raise Unsupported('HDF5 attribute of type %s' % type(v).__name__)
        if isinstance(v, Sym):
            v = Sym(v.t, v.kind)
        self.node.attributes[str(k)] = v

    create = modify = __setitem__

    def __getitem__(self, k):
        self.node.readable()
        v = self.node.attributes[k]
        return copy_arr(v) if isinstance(v, SArray) else v

    def get(self, k, default=None):
        return self[k] if k in self.node.attributes else default

    def __contains__(self, k):
        self.node.readable()
        return k in self.node.attributes

    def __delitem__(self, k):
        self.node.writable()
        del self.node.attributes[k]

    def __iter__(self):
        self.node.readable()
        return iter(sorted(self.node.attributes))

    def __len__(self):
        return len(self.node.attributes)

    def keys(self):
        return list(self)

    def values(self):
        return [self[k] for k in self]

    def items(self):
        return [(k, self[k]) for k in self]

    def update(self, other=(), **kw):
        for k, v in dict(other, **kw).items():
            self[k] = v


class H5Node:
    def __init__(self, root):
        self.root = self if root is None else root
        self.attributes = {}
        self.mode = None

    def readable(self):
        if self.root.mode is None:
            raise ValueError('Invalid location identifier (file is closed)')

    def writable(self):
        self.readable()
        if self.root.mode == 'r':
            raise OSError('no write intent on file')

    @property
    def attrs(self):
        return H5Attrs(self)


class H5Dataset(H5Node):
    def __init__(self, root, data):
        super().__init__(root)
        data = arr(data) if not isinstance(data, (str, StrArray)) else None
        if not isinstance(data, (SArray, SQuantity, Sym)):
            raise Unsupported('HDF5 dataset of this type')
        self.data = copy_arr(bare(data))

    def __getitem__(self, k):
        self.readable()
        v = self.data
        if isinstance(v, Sym):
            if k == () or k is Ellipsis:
                return v
            raise Unsupported('HDF5 scalar')
        return copy_arr(v) if k == () or k is Ellipsis else npshim.copy_(v[k])

    def __len__(self):
        return len(self[...])

    def __array__(self, *a, **k):
        raise Unsupported('HDF5 dataset as an array')

    @property
    def shape(self):
        return self[...].shape

    @property
    def size(self):
        return self[...].size

    @property
    def ndim(self):
        return self[...].ndim

    @property
    def dtype(self):
        return self[...].dtype


class H5Group(H5Node):
    def __init__(self, root=None):
        super().__init__(root)
        self.items_ = {}

    def find(self, name, make=False):
        parts, g = [p for p in str(name).split('/') if p], self
        for p in parts[:-1]:
            if p not in g.items_ and make:
                g.items_[p] = H5Group(self.root)
            g = g.items_[p]
        return g, parts[-1]

    def create_group(self, name):
        self.writable()
        g, n = self.find(name, True)
        if n in g.items_:
            raise ValueError('Unable to create group (name already exists)')
        g.items_[n] = H5Group(self.root)
        return g.items_[n]

    def require_group(self, name):
        return self[name] if name in self else self.create_group(name)

    def create_dataset(self, name, shape=None, dtype=None, data=None, **k):
        self.writable()
        if data is None or dtype is not None:
            raise Unsupported('create_dataset')
        g, n = self.find(name, True)
        if n in g.items_:
            raise ValueError('Unable to create dataset (name already exists)')
        g.items_[n] = H5Dataset(self.root, data)
        return g.items_[n]

    def __setitem__(self, name, data):
        self.create_dataset(name, data=data)

    def __getitem__(self, name):
        self.readable()
        g, n = self.find(name)
        return g.items_[n]

    def __delitem__(self, name):
        self.writable()
        g, n = self.find(name)
        del g.items_[n]

    def __contains__(self, name):
        self.readable()
        try:
            g, n = self.find(name)
        except (KeyError, AttributeError):
            return False
        return n in g.items_

    def get(self, name, default=None):
        return self[name] if name in self else default

    def keys(self):
        self.readable()
        return sorted(self.items_)

    def __iter__(self):
        return iter(self.keys())

    def __len__(self):
        return len(self.items_)

    def values(self):
        return [self.items_[k] for k in self.keys()]

    def items(self):
        return [(k, self.items_[k]) for k in self.keys()]


def h5file(name, mode='r', **k):
    name = str(name)
    if mode not in ('r', 'r+', 'w', 'w-', 'x', 'a'):
        raise ValueError('Invalid mode; must be one of r, r+, w, w-, x, a')
    old = VF.files.get(name)
    if old is not None and not isinstance(old, H5File):
        raise OSError('Unable to open file (file signature not found)')
    if mode in ('r', 'r+') and old is None:
        raise FileNotFoundError('Unable to open file (%s)' % name)
    if mode in ('w-', 'x') and old is not None:
        raise FileExistsError('Unable to create file (file exists)')
    if old is not None and old.mode is not None:
        raise OSError('Unable to lock file')
    if mode in ('r', 'r+', 'a') and old is not None:
        old.mode = 'r' if mode == 'r' else 'w'
        return old
    VF.files[name] = f = H5File()
    f.filename, f.mode = name, 'w'
    return f


class H5File(H5Group):
    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def close(self):
        self.mode = None

    def flush(self):
        pass


def files():
    """the virtual file system at the start of a run"""
    VF.files.clear()


# ------------------------------------------------------------------ copying
def s_copy(x):
    if isinstance(x, (SArray, SQuantity)):
        return npshim.copy_(x)
    if isinstance(x, SkyCoordS):
        return x.copy()
    if isinstance(x, (Sym, StrArray, Unit)):
        return x
    return _copy.copy(x)


def s_deepcopy(x, memo=None):
    if isinstance(x, (SArray, SQuantity)):
        return npshim.copy_(x)
    if isinstance(x, SkyCoordS):
        return x.copy()
    if isinstance(x, (Sym, StrArray, Unit)) or x is None or isinstance(x, (str, int, float)) or callable(x) and \
            not hasattr(x, '__dict__'):
        return x
    if isinstance(x, SList) and x.axis is None:
        return make_list(*[s_deepcopy(v) for v in x])
    return _copy.deepcopy(x, memo)


for _c in (Sym, SArray, SQuantity, Unit, StrArray, SkyCoordS):
    _c.__deepcopy__ = lambda self, memo: s_deepcopy(self)
    _c.__copy__ = lambda self: s_copy(self)


# ------------------------------------------------------------------ math
def mfun(name):
    f = getattr(NP, name)

    def g(*a):
        if any(isinstance(x, SArray) for x in a):
            raise TypeError('only length-1 arrays can be converted to Python scalars')
        r = f(*[plain(x) for x in a])
        return Sym(r.t, r.kind, True)
    return g


class _Math:
    __name__ = 'math'
    pi = Sym(PI, 'f', True)
    e = Sym(fn('exp', ONE), 'f', True)
    inf = Sym(INF, 'f', True)
    nan = Sym(NAN, 'f', True)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if n in ('sqrt', 'exp', 'log', 'log10', 'sin', 'cos', 'tan', 'tanh', 'sinh', 'cosh', 'log2', 'hypot', 'cbrt',
                 'log1p', 'expm1'):
            return mfun(n)
        if n in ('floor', 'ceil', 'trunc'):
            return lambda x: b_int(getattr(NP, n)(plain(x)))
        if n == 'pow':
            return _pow
        if n == 'fabs':
            return mfun('abs')
        if n == 'radians':
            return mfun('deg2rad')
        if n == 'degrees':
            return mfun('rad2deg')
        if n == 'prod':
            def prod(x, start=1):
                r = start
                for v in concretise(x):
                    r = r * v
                return r
            return prod
        if n in ('gcd', 'factorial', 'comb'):
            return getattr(_math, n)
        if n == 'isnan':
            return lambda x: bool(NP.isnan(plain(x)))
        if n == 'isinf':
            return lambda x: bool(NP.isinf(plain(x)))
        raise Unsupported('math.' + n)


# ------------------------------------------------------------------ logging
class Logger:
    name = 'LEGWORK'
    level = 20
    handlers = ()
    propagate = False

    def _log(self, lvl, msg, *a, **k):
        E.events.append(('log', lvl))

    def __getattr__(self, n):
        if n in ('debug', 'info', 'warning', 'error', 'critical', 'exception', 'warn'):
            return lambda *a, **k: self._log(n, *a, **k)
        if n in ('setLevel', 'addHandler'):
            return lambda *a: None
        if n in ('isEnabledFor',):
            return lambda *a: True
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('logger.' + n)


class _Warn:
    __name__ = 'warnings'

    @staticmethod
    def warn(*a, **k):
        E.events.append(('warn',))

    @staticmethod
    def filterwarnings(*a, **k):
        pass
    simplefilter = filterwarnings

    class catch_warnings:
        def __init__(self, *a, **k):
            pass

        def __enter__(self):
            return []

        def __exit__(self, *a):
            return False


class _Context:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class _Plt:
    """assumed: the plotting back ends only draw what they are handed (and rc_context has no other effect)"""
    __name__ = 'matplotlib.pyplot'
    rc_context = _Context

    def __init__(self):
        self.record = None

    def subplots(self, *a, **k):
        if self.record is None or a or set(k) - {'figsize'}:
            raise Unsupported('plt.subplots')
        return self.record.new()

    def show(self, *a, **k):
        pass

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Missing('matplotlib.pyplot.' + n)


class _Sns:
    __name__ = 'seaborn'

    def __init__(self, plt):
        self.plt = plt

    def kdeplot(self, *a, **k):
        if self.plt.record is None:
            raise Unsupported('seaborn')
        return self.plt.record.seaborn(*a, **k)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Missing('seaborn.' + n)


PLT = None


def canvas():
    from .canvas import Record
    PLT.record = Record()
    return PLT.record


def make_libs(extra=None):
    import functools
    import operator
    import collections
    import contextlib
    import typing
    import re
    import abc
    import enum
    import string
    import dataclasses
    import inspect
    res = NS('importlib.resources', files=lambda p: PathS('/§pkg/' + str(p)),
             path=lambda p, n: PathS('/§pkg/%s/%s' % (p, n)), open_binary=lambda p, n: PathS('/§pkg/%s/%s' % (p, n)),
             as_file=lambda p: PathS(p), contents=Missing('resources.contents'))
    special = NS('scipy.special', jv=jv, jn=jv)
    integrate = NS('scipy.integrate', quad=quad, odeint=odeint, trapezoid=NP.trapezoid)
    interpolate = NS('scipy.interpolate', splrep=splrep, splev=splev, interp1d=Interp1d, RectBivariateSpline=RBS)
    astropy = NS('astropy', units=units, constants=constants, coordinates=coordinates,
                 visualization=NS('astropy.visualization', quantity_support=_Context))
    osm = NS('os', path=_Path(), sep='/', remove=os_remove, unlink=os_remove, environ={}, fspath=str,
             PathLike=PathS)
    global PLT
    PLT = _Plt()
    L = {
        'matplotlib': NS('matplotlib', pyplot=PLT), 'matplotlib.pyplot': PLT, 'seaborn': _Sns(PLT),
        'astropy.visualization': astropy.visualization,
        'h5py': NS('h5py', File=h5file, Group=H5Group, Dataset=H5Dataset, is_hdf5=lambda p: isinstance(VF.files.get(str(p)), H5File)),
        'numpy': NP, 'astropy': astropy, 'astropy.units': units, 'astropy.constants': constants,
        'astropy.coordinates': coordinates, 'scipy': NS('scipy', special=special, integrate=integrate,
                                                        interpolate=interpolate),
        'astropy.units.quantity': NS('q', Quantity=ushim.Quantity),
        'scipy.special': special, 'scipy.integrate': integrate, 'scipy.interpolate': interpolate,
        'numba': NS('numba', jit=jit, njit=jit), 'schwimmbad': NS('schwimmbad', MultiPool=Pool, SerialPool=Pool),
        'importlib': NS('importlib', resources=res), 'importlib.resources': res, 'os': osm, 'os.path': osm.path,
        'copy': NS('copy', copy=s_copy, deepcopy=s_deepcopy), 'math': _Math(), 'warnings': _Warn(),
        '§logger': Logger(), 'functools': functools, 'operator': operator, 'collections': collections,
        'contextlib': contextlib, 'typing': typing, 're': re, 'abc': abc, 'enum': enum, 'string': string,
        'dataclasses': dataclasses, 'inspect': inspect, 'itertools': itertools, '__future__': NS('__future__'),
        'collections.abc': collections.abc, 'numbers': NS('numbers', Number=Marker('Number', lambda x: isinstance(
            x, (int, float, Sym))), Real=Marker('Real', lambda x: isinstance(x, (int, float, Sym))),
            Integral=Marker('Integral', lambda x: isinstance(x, int) or isinstance(x, Sym) and x.kind == 'i')),
    }
    if extra:
        L.update(extra)
    return L


def data_R():
    n = E.length_var('§nR', 2)
    ax = Axis((n,))
    return new_array([Axis((num(2),)), ax], lambda idx: fn('§R', idx[0][0], idx[1][0]), 'f')


npshim.LOADERS['R.npy'] = data_R
