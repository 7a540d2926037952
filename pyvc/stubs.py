"""Callee contracts: elementwise functions used opaquely by callers, their definition proved where they are defined."""
import inspect
from .terms import *
from .engine import E, Unsupported
from .sym import (Sym, SArray, SQuantity, Unit, NODIM, new_array, bcast_axes, fit, as_array, scalarise, coerce, phys)
from .ev import ev

DEFS = {}        # opaque name -> Opaque
BY_QUAL = {}     # package function -> contract


class Opaque:
    """name(args) over SI values; facts hold whenever the precondition does"""

    def __init__(self, name, defn, facts=None):
        self.name, self.defn, self.facts = name, defn, facts
        DEFS['op_' + name] = self

    def __call__(self, *args):
        from .spec import S
        return Sym(fn('op_' + self.name, *[S(a).t for a in args]), 'f')

    def unfold(self, *ts):
        from .spec import S
        return S(self.defn(*[Sym(t, 'f') for t in ts])).t


class ElemContract:
    """contract of an elementwise function of the package"""

    def __init__(self, qual, opaque, params, pre=None, dims=None, out=None, ignore=(), ignore_none=()):
        self.ignore, self.ignore_none = ignore, ignore_none
        self.qual, self.opaque, self.params, self.pre = qual, opaque, params, pre
        self.dims = dims or {}
        self.out = out
        BY_QUAL[qual] = self

    def __call__(self, f, a, k):
        try:
            b = inspect.signature(getattr(f, 'f', f)).bind(*a, **k)
        except TypeError:
            return NotImplemented
        b.apply_defaults()
        args = {k_: v for k_, v in b.arguments.items() if k_ not in self.ignore and not (k_ in self.ignore_none and v is None)}
        vals = []
        from .inputs import unit_of
        for p in self.params:
            if p not in args:
                return NotImplemented
            x = args.pop(p)
            x = coerce(x) if not isinstance(x, (list, tuple)) else None
            if x is None or isinstance(x, Unit):
                return NotImplemented
            want = unit_of(self.dims[p]).dims if p in self.dims else NODIM
            have = x.unit.dims if isinstance(x, SQuantity) else NODIM
            if tuple(want) != tuple(have):
                return NotImplemented
            vals.append(x)
        if args:
            return NotImplemented
        arrs = [as_array(phys(v)) for v in vals]
        axes = []
        for v in arrs:
            axes = bcast_axes(axes, v.axes)
        fs = [fit(v.snap(), v.axes, axes) for v in arrs]
        idx = tuple(x.generic() for x in axes)
        cond = band(*[x.cond(i) for x, i in zip(axes, idx)])
        els = [Sym(g(idx), v.kind) for g, v in zip(fs, arrs)]
        if self.pre:
            for c in self.pre(*els):
                t = c.t if isinstance(c, Sym) else (TRUE if c else FALSE)
                if not E.entails(implies(cond, t)):
                    return NotImplemented
        E.stubs_used.add(self.qual)
        nm = 'op_' + self.opaque.name
        r = scalarise(new_array(axes, lambda i: fn(nm, *[g(i) for g in fs]), 'f'))
        if self.out and self.out.startswith('?'):       # a unit the contract leaves open
            dm = unit_of(self.out[1:]).dims
            sc = var('s_of_' + self.opaque.name, 'p')
            return SQuantity(r, Unit(dm, ONE, 'si')).to(Unit(dm, sc, 'some unit'))
        if self.out:
            u = unit_of(self.out)
            return SQuantity(r, Unit(u.dims, ONE, 'si')).to(u)
        # a quantity argument makes a (dimensionless) quantity result; callers must not depend on it
        if any(isinstance(v, SQuantity) for v in vals):
            return SQuantity(r, Unit(NODIM, ONE, ''))
        return r


class FunContract:
    """contract given by a function over shim values: f(args dict) -> value or NotImplemented"""

    def __init__(self, qual, fun):
        self.qual, self.fun = qual, fun
        BY_QUAL[qual] = self

    def __call__(self, f, a, k):
        try:
            b = inspect.signature(getattr(f, 'f', f)).bind(*a, **k)
        except TypeError:
            return NotImplemented
        b.apply_defaults()
        r = self.fun(dict(b.arguments))
        if r is not NotImplemented:
            E.stubs_used.add(self.qual)
        return r


def get(q, world):
    import contracts.defs      # noqa: registers the contracts
    return BY_QUAL[q]


def declare_facts():
    import contracts.defs
    contracts.defs.data_facts(E)
    for nm, o in DEFS.items():
        if o.facts:
            E.facts.fn(nm, lambda *a, o=o, nm=nm: [c.t for c in o.facts(Sym(fn(nm, *a), 'f'), *[Sym(x, 'f') for x in a])])


def unfold(t, cache=None):
    """replace opaque applications by their definitions"""
    cache = {} if cache is None else cache
    r = cache.get(t)
    if r is not None:
        return r
    if not any(isinstance(a, T) for a in t.args):
        r = t
    else:
        from . import terms as tm
        new = [unfold(a, cache) if isinstance(a, T) else a for a in t.args]
        if t.op == 'fn' and t.args[0] in DEFS:
            r = DEFS[t.args[0]].unfold(*new[1:])
            r = unfold(r, cache)
        elif all(x is y for x, y in zip(new, t.args)):
            r = t
        else:
            r = tm.rebuild(t, new)
    cache[t] = r
    return r


def has_opaque(t, seen=None):
    return any(x.op == 'fn' and x.args[0] in DEFS for x in walk(t))


def bind(env):
    for nm, o in DEFS.items():
        env.fns[nm] = numeric(o)


_num = {}


def numeric(o):
    f = _num.get(o.name)
    if f is None:
        cache = {}

        def f(env, *args):
            t = cache.get(args)
            if t is None:
                t = cache[args] = o.unfold(*args)
            return ev(t, env)
        f.raw = True
        _num[o.name] = f
    return f
