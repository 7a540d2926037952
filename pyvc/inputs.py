"""Inputs of a contract case: symbolic form (all values, all sizes, all units), and concrete samples of the same."""
import math
import random
from fractions import Fraction
from .terms import *
from .engine import E, Unsupported
from .sym import Axis, Buf, SArray, Sym, SQuantity, Unit, DIMLESS, new_array, mapn, elementwise
from . import ushim
from .ushim import DIM_NAMES, UNITS, SkyCoordS
from .ev import ev

UNIT_CHOICES = {
    'mass': ['Msun', 'kg', 'g'],
    'length': ['AU', 'km', 'm', 'Rsun', 'kpc', 'pc', 'Mpc'],
    'dist': ['kpc', 'pc', 'Mpc', 'm'],
    'time': ['s', 'yr', 'Myr', 'd', 'Gyr'],
    'frequency': ['Hz', 'mHz', 'kHz', 'uHz'],
    'angle': ['rad', 'deg', 'arcmin'],
    'dimensionless': ['one'],
}
DIMS = dict(DIM_NAMES)
DIMS['dist'] = DIM_NAMES['length']
EXTRA = {'beta': ('m4/s', [('m', 4), ('s', -1)], ['m4/s', 'AU4/yr', 'km4/s'])}


def unit_of(name):
    """unit object for names such as m4/s or AU4/yr"""
    if name in UNITS:
        return UNITS[name]
    import re
    out = DIMLESS
    for k, part in enumerate(name.split('/')):
        for mm in re.finditer(r'([A-Za-z]+)(\d*)', part):
            x = UNITS[mm.group(1)].pow(Fraction(int(mm.group(2) or 1)))
            out = out * x if k == 0 else out / x
    return out


def dim_unit(dim):
    return unit_of(EXTRA[dim][0]) if dim in EXTRA else DIMS[dim]


def choices(dim):
    return EXTRA[dim][2] if dim in EXTRA else UNIT_CHOICES[dim]


CONSTS = {'Gnewt': 6.6743e-11, 'clight': 299792458.0, 'Msun': 1.988409870698051e+30, 'Rsun': 695700000.0,
          'Lsun': 3.828e+26}


def const_env():
    return {var(k, 'p'): v for k, v in CONSTS.items()}


_sc = {}


def unit_scale(name):
    if name not in _sc:
        from .ev import Env
        _sc[name] = ev(unit_of(name).scale, Env(const_env()))[0]
    return _sc[name]


# ------------------------------------------------------------------ domains
class Dom:
    """set of admissible SI values: bounds (value, strict) and a sampling range"""

    def __init__(self, lo=None, hi=None, lo_open=False, hi_open=False, rng=None, log=True, special=(), integer=False):
        self.lo, self.hi, self.lo_open, self.hi_open = lo, hi, lo_open, hi_open
        self.rng = rng
        self.log = log
        self.special = list(special)
        self.integer = integer

    def facts(self, t):
        out = []
        if self.lo is not None:
            out.append((lt if self.lo_open else le)(num(self.lo), t))
        if self.hi is not None:
            out.append((lt if self.hi_open else le)(t, num(self.hi)))
        return out

    def ok(self, v):
        if self.lo is not None and (v < self.lo or self.lo_open and v <= self.lo):
            return False
        if self.hi is not None and (v > self.hi or self.hi_open and v >= self.hi):
            return False
        return math.isfinite(v)

    def sample(self, r):
        if self.special and r.random() < 0.25:
            return float(r.choice(self.special))
        a, b = self.rng
        if self.integer:
            return r.randint(a, b)
        if self.log:
            return math.exp(r.uniform(math.log(a), math.log(b)))
        return r.uniform(a, b)


MSUN = 1.988409870698051e30
YR = 31557600.0
KPC = 3.0856775814913673e19
AU = 149597870700.0


def pos(rng, special=()):
    return Dom(lo=0, lo_open=True, rng=rng, special=special)


D = {
    'mass': pos((0.1 * MSUN, 60 * MSUN)),
    'f': pos((1e-5, 1e-1)),
    'a': pos((1e-4 * AU, 1e-1 * AU)),
    'dist': pos((0.1 * KPC, 30 * KPC)),
    'time': pos((0.1 * YR, 10 * YR)),
    'time0': Dom(lo=0, rng=(0.1 * YR, 1e6 * YR), special=[0]),
    'beta': pos((1e20, 1e24)),
    'ecc': Dom(lo=0, hi=1, hi_open=True, rng=(0.0, 0.97), log=False, special=[0, 0, 0.01, 0.1, 0.9]),
    'ecc+': Dom(lo=0, lo_open=True, hi=1, hi_open=True, rng=(0.001, 0.95), log=False, special=[0.01, 0.1, 0.9]),
    'angle': Dom(rng=(-4.0, 7.0), log=False),
    'lat': Dom(lo=-math.pi / 2, hi=math.pi / 2, rng=(-1.57, 1.57), log=False),
    'lon': Dom(rng=(0.0, 6.28), log=False),
    'real': Dom(rng=(-5.0, 5.0), log=False, special=[0]),
    'pos': pos((1e-2, 1e2)),
    'nonneg': Dom(lo=0, rng=(1e-2, 1e2), special=[0]),
}
# facts of 'lat' in rational arithmetic would be inexact: no symbolic bound is assumed
D['lat'].facts = lambda t: []


def dom(d):
    return d if isinstance(d, Dom) else D[d]


def axes_of(ax, lens):
    out = []
    for a in ax:
        out.append(Axis((num(a),)) if isinstance(a, int) else Axis((lens[a],)))
    return out


def fname(name):
    return 'in_' + name


class In:
    """numeric input.  dim None: plain numbers; axes: names of symbolic lengths or literal lengths"""

    def __init__(self, dim=None, axes=(), d='real', integer=False, py=False, boolean=False, as_list=False, units=None,
                 readonly=False, fixed=None):
        self.dim, self.axes, self.d = dim, tuple(axes if isinstance(axes, (tuple, list)) else (axes,)), dom(d)
        self.integer = integer or self.d.integer
        self.py = py
        self.boolean = boolean
        self.as_list = as_list
        self.units = units
        self.fixed = fixed

    # -- symbolic
    def declare(self, name, lens, scaled=True):
        self.name = name
        self.lens = lens
        if self.boolean:
            self.kind = 'b'
        else:
            self.kind = 'i' if self.integer else 'f'
        if self.axes:
            if not self.boolean:
                E.facts.fn(fname(name), lambda *a: self.d.facts(fn(fname(name), *a)))
        elif not self.boolean:
            self.v = var(fname(name), ('i' if self.integer else '') + ('p' if self.d.lo_open and self.d.lo == 0
                                                                        else ''))
            E.facts.var(self.v, *self.d.facts(self.v))
        else:
            self.v = bfn(fname(name))
        if self.dim:
            self.scale = var('s_' + name, 'p')

    def make(self, si=False):
        if self.axes:
            ax = axes_of(self.axes, self.lens)
            mk_ = bfn if self.boolean else fn
            nm = fname(self.name)

            def elem(idx):
                return mk_(nm, *[i[0] if i else ZERO for i in idx])
            f = elem
        else:
            f = None
        if self.dim:
            un = dim_unit(self.dim)
            if not si:
                sc = mul(self.scale, un.scale)
                unit = Unit(un.dims, sc, 'U_' + self.name)
                if f:
                    g = lambda idx: div(elem(idx), sc)
                else:
                    t = div(self.v, sc)
            else:
                unit = Unit(un.dims, ONE, 'si')
                if f:
                    g = elem
                else:
                    t = self.v
            if f:
                return SQuantity(self.arr(ax, g), unit)
            return SQuantity(Sym(t, 'f'), unit)
        if f:
            a = self.arr(ax, elem)
            if self.as_list:
                return [a[i] for i in range(int(self.axes[0]))]
            return a
        return Sym(self.v, self.kind, self.py)

    def arr(self, ax, g):
        b = Buf(ax, g, self.kind, self.name)
        self.buf = b
        self.orig = b.elem
        return SArray(b)

    # -- concrete
    def shape(self, sizes):
        return tuple(a if isinstance(a, int) else sizes[a] for a in self.axes)

    def sample(self, r, sizes, unit=None):
        sh = self.shape(sizes)
        n = 1
        for k in sh:
            n *= k
        if self.boolean:
            vals = [r.random() < 0.5 for _ in range(n)]
        else:
            vals = []
            same = None
            for _ in range(n):
                if same is not None and r.random() < 0.1:
                    vals.append(same)
                    continue
                for _ in range(50):
                    x = self.d.sample(r)
                    if self.d.ok(x):
                        break
                vals.append(x)
                same = x
        un = None
        if self.dim:
            un = unit or r.choice(self.units or choices(self.dim))
        return Conc(self, sh, vals, un)


class Conc:
    """a concrete numeric input"""

    def __init__(self, inp, shape, vals, unit):
        self.inp, self.shape, self.unit = inp, shape, unit
        if unit is not None:
            k = unit_scale(unit)
            self.raw = [v / k for v in vals]
        else:
            self.raw = list(vals)

    def phys(self, k):
        if self.unit is None:
            return self.raw[k]
        v = self.raw[k] * unit_scale(self.unit)
        return (v, abs(v) * 4e-16)

    def flat(self, idx):
        k = 0
        for i, n in zip(idx, self.shape):
            k = k * n + int(i)
        return k

    def bind(self, env):
        inp = self.inp
        if inp.axes:
            me = self

            def f(*idx):
                try:
                    r = me.phys(me.flat(idx))
                except IndexError:
                    from .ev import NoValue
                    raise NoValue('index out of range')
                return r
            env.fns[fname(inp.name)] = f
        elif inp.boolean:
            v = self.raw[0]
            env.fns[fname(inp.name)] = lambda: v
        else:
            env.vars[inp.v] = self.phys(0)
        if inp.dim:
            env.vars[inp.scale] = unit_scale(self.unit) / ev_scale(dim_unit(inp.dim))

    def json(self):
        inp = self.inp
        d = {'v': self.nest(self.raw, self.shape), 'shape': list(self.shape)}
        if inp.dim:
            d.update(t='q', unit=self.unit)
        elif inp.as_list:
            d.update(t='list')
        elif inp.axes:
            d.update(t='a', dtype={'b': 'bool', 'i': 'int', 'f': 'float'}[inp.kind])
        else:
            d.update(t='s', dtype={'b': 'bool', 'i': 'int', 'f': 'float'}[inp.kind], np=not inp.py)
        return d

    @staticmethod
    def nest(v, sh):
        if not sh:
            return v[0]
        if len(sh) == 1:
            return list(v)
        n = len(v) // sh[0] if sh[0] else 0
        return [Conc.nest(v[i * n:(i + 1) * n], sh[1:]) for i in range(sh[0])]

    def clone(self):
        c = Conc.__new__(Conc)
        c.inp, c.shape, c.unit, c.raw = self.inp, self.shape, self.unit, list(self.raw)
        return c


def ev_scale(u):
    from .ev import Env
    return ev(u.scale, Env(const_env()))[0]


# ------------------------------------------------------------------ other inputs
class Lit:
    """a fixed python literal (None, strings, numbers, unit names via U(...))"""

    def __init__(self, value):
        self.value = value

    def declare(self, name, lens, scaled=True):
        self.name = name

    def make(self, si=False):
        return self.conv(self.value)

    def conv(self, v):
        if isinstance(v, (list, tuple)):
            return type(v)(self.conv(x) for x in v)
        if isinstance(v, dict):
            return {k: self.conv(x) for k, x in v.items()}
        if isinstance(v, U):
            return unit_of(v.name)
        if isinstance(v, float):
            return Sym(num(Fraction(str(v))), 'f', True)
        return v

    def sample(self, r, sizes, unit=None):
        return self

    def bind(self, env):
        pass

    def clone(self):
        return self

    def json(self):
        return {'t': 'lit', 'v': self.enc(self.value)}

    def enc(self, v):
        if isinstance(v, U):
            return {'§unit': v.name}
        if isinstance(v, tuple):
            return {'§tuple': [self.enc(x) for x in v]}
        if isinstance(v, list):
            return [self.enc(x) for x in v]
        if isinstance(v, dict):
            return {k: self.enc(x) for k, x in v.items()}
        if isinstance(v, float) and not math.isfinite(v):
            return {'§float': repr(v)}
        return v


class U:
    def __init__(self, name):
        self.name = name


class Sky:
    """sky positions given directly in the ecliptic frame the code uses"""

    def __init__(self, axes=(), frame='heliocentrictrueecliptic'):
        self.frame = frame
        self.lon = In('angle', axes, 'lon', units=['rad', 'deg'])
        self.lat = In('angle', axes, 'lat', units=['rad', 'deg'])

    def declare(self, name, lens, scaled=True):
        self.name = name
        self.lon.declare(name + '_lon', lens)
        self.lat.declare(name + '_lat', lens)

    def make(self, si=False):
        return SkyCoordS(self.lon.make(si), self.lat.make(si), frame=self.frame)

    def sample(self, r, sizes, unit=None):
        c = SkyConc()
        c.frame = self.frame
        c.lon, c.lat = self.lon.sample(r, sizes), self.lat.sample(r, sizes)
        return c


class SkyConc:
    def bind(self, env):
        self.lon.bind(env)
        self.lat.bind(env)

    def clone(self):
        c = SkyConc()
        c.frame = self.frame
        c.lon, c.lat = self.lon.clone(), self.lat.clone()
        return c

    def json(self):
        return {'t': 'sky', 'frame': self.frame, 'lon': self.lon.json(), 'lat': self.lat.json()}

    def parts(self):
        return [self.lon, self.lat]


class Call:
    """a function argument: pure callable with an uninterpreted value per call (name of its concrete twin)"""

    def __init__(self, twin, build):
        self.twin = twin
        self.build = build

    def declare(self, name, lens, scaled=True):
        self.name = name

    def make(self, si=False):
        return self.build(self.twin)

    def sample(self, r, sizes, unit=None):
        return self

    def bind(self, env):
        pass

    def clone(self):
        return self

    def json(self):
        return {'t': 'fn', 'name': self.twin}


def numeric_parts(concs):
    out = []
    for c in concs.values():
        if isinstance(c, Conc):
            out.append(c)
        elif isinstance(c, SkyConc):
            out.extend(c.parts())
    return out
