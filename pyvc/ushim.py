"""astropy.units / astropy.constants / astropy.coordinates as seen by the verified code (assumed contracts)."""
import re
from fractions import Fraction
from .terms import *
from .engine import E, Unsupported
from .sym import (Unit, DIMLESS, NODIM, SQuantity, Sym, SArray, UnitConversionError, UnitTypeError, coerce, fcopy, scal,
                  new_array)
from .npshim import Marker, radian, arr

MSUN = var('Msun', 'p')
RSUN = var('Rsun', 'p')
LSUN = var('Lsun', 'p')
GNEWT = var('Gnewt', 'p')
CLIGHT = var('clight', 'p')


def base(i, name):
    d = [Fraction(0)] * 6
    d[i] = Fraction(1)
    return Unit(d, ONE, name)


m, kg, s, K, A = base(0, 'm'), base(1, 'kg'), base(2, 's'), base(4, 'K'), base(5, 'A')
rad = radian()


def scaled(u, k, name):
    return Unit(u.dims, mul(k if isinstance(k, T) else num(k), u.scale), name)


UNITS = {}


def reg(u, *names):
    u.name = names[0]
    for n in names:
        UNITS[n] = u
    return u


AU_M = Fraction(149597870700)
for u_, ns in ((m, 'm meter metre'), (kg, 'kg kilogram'), (s, 's second'), (K, 'K'), (A, 'A'),
               (rad, 'rad radian')):
    reg(u_, *ns.split())
reg(scaled(kg, Fraction(1, 1000), 'g'), 'g', 'gram')
Hz = reg(Unit([-x for x in s.dims], ONE, 'Hz'), 'Hz', 'Hertz', 'hertz')
for pre, k in (('k', 10**3), ('M', 10**6), ('G', 10**9), ('m', Fraction(1, 10**3)), ('u', Fraction(1, 10**6)),
               ('n', Fraction(1, 10**9))):
    reg(scaled(Hz, k, ''), pre + 'Hz')
    reg(scaled(s, k, ''), pre + 's')
for pre, k in (('k', 10**3), ('c', Fraction(1, 100)), ('m', Fraction(1, 1000)), ('M', 10**6), ('G', 10**9),
               ('u', Fraction(1, 10**6)), ('n', Fraction(1, 10**9))):
    reg(scaled(m, k, ''), pre + 'm')
reg(scaled(s, 60, ''), 'min', 'minute')
reg(scaled(s, 3600, ''), 'h', 'hr', 'hour')
reg(scaled(s, 86400, ''), 'd', 'day')
reg(scaled(s, 86400 * 7, ''), 'wk', 'week')
reg(scaled(s, 31557600, ''), 'yr', 'year', 'a', 'annum')
for pre, k in (('k', 10**3), ('M', 10**6), ('G', 10**9)):
    reg(scaled(s, 31557600 * k, ''), pre + 'yr')
reg(scaled(m, AU_M, ''), 'AU', 'au', 'astronomical_unit')
PC = div(num(AU_M * 648000), PI)
reg(scaled(m, PC, ''), 'pc', 'parsec')
for pre, k in (('k', 10**3), ('M', 10**6), ('G', 10**9)):
    reg(scaled(m, mul(num(k), PC), ''), pre + 'pc')
reg(scaled(m, mul(num(31557600), CLIGHT), ''), 'lyr', 'lightyear')
reg(scaled(kg, MSUN, ''), 'Msun', 'M_sun', 'solMass')
reg(scaled(m, RSUN, ''), 'Rsun', 'R_sun', 'solRad')
reg(Unit((m * m * kg / (s * s * s)).dims, LSUN), 'Lsun', 'L_sun', 'solLum')
reg(scaled(rad, div(PI, num(180)), ''), 'deg', 'degree')
reg(scaled(rad, div(PI, num(180 * 60)), ''), 'arcmin', 'arcminute')
reg(scaled(rad, div(PI, num(180 * 3600)), ''), 'arcsec', 'arcsecond')
reg(scaled(rad, div(PI, num(12)), ''), 'hourangle')
reg(Unit((m * m * kg / (s * s)).dims, ONE), 'J', 'Joule')
reg(Unit((m * kg / (s * s)).dims, ONE), 'N')
reg(Unit((m * m * kg / (s * s * s)).dims, ONE), 'W')
reg(Unit((m * m * kg / (s * s)).dims, num(Fraction(1, 10**7))), 'erg')
reg(Unit(NODIM, num(Fraction(1, 100))), 'percent')
UNITS['dimensionless_unscaled'] = UNITS['one'] = DIMLESS

DIM_NAMES = {'mass': kg, 'length': m, 'time': s, 'frequency': Hz, 'angle': rad, 'dimensionless': DIMLESS}


TEXTS = []


def unit_text(x):
    """text that parses back to the same unit (assumed of astropy's str)"""
    if x.name is not None and UNITS.get(x.name) is not None and UNITS[x.name].dims == x.dims and UNITS[x.name].scale is x.scale or x is DIMLESS:
        return x.name
    for k, y in enumerate(TEXTS):
        if y.dims == x.dims and y.scale is x.scale:
            return '\u00a7u%d' % k
    TEXTS.append(x)
    return '\u00a7u%d' % (len(TEXTS) - 1)


def parse_unit(st):
    st = st.strip()
    if st.startswith('\u00a7u'):
        return TEXTS[int(st[2:])]
    if st == '':
        return DIMLESS
    if st in UNITS:
        return UNITS[st]
    toks = re.split(r'([*/ ])', st.replace('**', '^'))
    out, op = DIMLESS, '*'
    for t in toks:
        t = t.strip(' ()')
        if t in ('', '*'):
            continue
        if t == '/':
            op = '/'
            continue
        mm = re.match(r'^([A-Za-z_]+)\^?\(?(-?[0-9.]*)\)?$', t)
        if t == '1':
            uu = DIMLESS
        elif not mm or mm.group(1) not in UNITS:
            raise ValueError("'%s' did not parse as unit" % st)
        else:
            uu = UNITS[mm.group(1)]
            if mm.group(2):
                uu = uu.pow(Fraction(mm.group(2)))
        out = out * uu if op == '*' else out / uu
        op = '*'
    return out


def make_quantity(value, unit=None, dtype=None, copy=True, **kw):
    if kw:
        raise Unsupported('Quantity options')
    v = arr(value) if not isinstance(value, str) else None
    if v is None:
        raise Unsupported('Quantity from string')
    if isinstance(unit, str):
        unit = parse_unit(unit)
    if isinstance(unit, SQuantity):
        unit = Unit(unit.unit.dims, mul(unit.unit.scale, unit.v.t))
    if isinstance(v, SQuantity):
        return v.to(unit) if unit is not None else SQuantity(fcopy(v.v), v.unit)
    return SQuantity(fcopy(v) if copy else v, unit or DIMLESS)


class QMarker(Marker):
    def __call__(self, *a, **k):
        return make_quantity(*a, **k)


class UMarker(Marker):
    def __call__(self, x):
        if isinstance(x, Unit):
            return x
        if isinstance(x, str):
            return parse_unit(x)
        if isinstance(x, SQuantity):
            return Unit(x.unit.dims, mul(x.unit.scale, x.v.t))
        raise Unsupported('Unit()')


Quantity = QMarker('Quantity', lambda x: isinstance(x, SQuantity))
UnitM = UMarker('Unit', lambda x: isinstance(x, Unit))


class _QMod:
    Quantity = Quantity


class _UnitsMod:
    __name__ = 'astropy.units'
    Quantity = Quantity
    quantity = _QMod()
    Unit = UnitM
    UnitBase = UnitM
    UnitsError = UnitConversionError
    UnitConversionError = UnitConversionError
    UnitTypeError = UnitTypeError
    dimensionless_unscaled = DIMLESS

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if n in UNITS:
            return UNITS[n]
        raise Unsupported('units.' + n)


units = _UnitsMod()


def const(t, u):
    return SQuantity(Sym(t, 'f'), u)


class _ConstMod:
    __name__ = 'astropy.constants'
    G = const(GNEWT, m.pow(3) / kg / s.pow(2))
    c = const(CLIGHT, m / s)
    M_sun = const(MSUN, kg)
    R_sun = const(RSUN, m)
    L_sun = const(LSUN, UNITS['W'])
    au = const(num(AU_M), m)
    pc = const(PC, m)
    kpc = const(mul(num(1000), PC), m)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('constants.' + n)


constants = _ConstMod()


class SkyCoordS:
    """sky position: longitude, latitude (radians), distance; already in the ecliptic frame"""

    def __init__(self, lon=None, lat=None, distance=None, frame=None, **kw):
        if kw or isinstance(lon, SkyCoordS):
            raise Unsupported('SkyCoord construction')
        self.lon, self.lat, self.distance = lon, lat, distance
        self.frame = frame or 'icrs'

    def transform_to(self, f):
        if f not in ('heliocentrictrueecliptic', 'barycentrictrueecliptic') or self.frame not in (
                f, 'heliocentrictrueecliptic', 'barycentrictrueecliptic'):
            # (the same axes seen from the Sun or the barycentre: equal up to 1e-8 rad for Galactic distances)
            raise Unsupported('frame ' + str(f))
        return SkyCoordS(self.lon, self.lat, self.distance, f)

    @property
    def heliocentrictrueecliptic(self):
        return self.transform_to('heliocentrictrueecliptic')

    @property
    def barycentrictrueecliptic(self):
        return self.transform_to('barycentrictrueecliptic')

    @property
    def shape(self):
        return self.lon.shape

    @property
    def ndim(self):
        return self.lon.ndim

    @property
    def size(self):
        return self.lon.size

    @property
    def isscalar(self):
        return self.lon.isscalar

    def slen(self):
        return self.lon.slen()

    def __len__(self):
        return len(self.lon)

    def __getitem__(self, k):
        return SkyCoordS(self.lon[k], self.lat[k], None if self.distance is None else self.distance[k], self.frame)

    def reshape(self, *sh):
        return SkyCoordS(self.lon.reshape(*sh), self.lat.reshape(*sh),
                         None if self.distance is None else self.distance.reshape(*sh), self.frame)

    def flatten(self):
        return SkyCoordS(self.lon.flatten(), self.lat.flatten(),
                         None if self.distance is None else self.distance.flatten(), self.frame)

    def copy(self):
        return SkyCoordS(self.lon.copy(), self.lat.copy(),
                         None if self.distance is None else self.distance.copy(), self.frame)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('SkyCoord.' + n)


class SCMarker(Marker):
    def __call__(self, *a, **k):
        return SkyCoordS(*a, **k)


SkyCoord = SCMarker('SkyCoord', lambda x: isinstance(x, SkyCoordS))


class _CoordMod:
    SkyCoord = SkyCoord

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('coordinates.' + n)


coordinates = _CoordMod()
