"""Discharge one contract case: symbolic execution of the current source, obligations, proof, replay on the real code."""
import itertools
import json
import math
import random
import time
import traceback
from fractions import Fraction
from .terms import *
from . import terms as tm
from . import engine
from .engine import E, Unsupported, PathStop
from .solve import STATS, lits
from .sym import (Sym, SArray, SQuantity, Unit, Axis, GenList, list_array, same_axis, phys, as_array, NODIM, Buf)
from . import sym as symmod
from .ushim import SkyCoordS, units as U_SHIM, constants as CONST_SHIM, SkyCoord as SC_SHIM
from .npshim import np as NP
from .libs import make_libs
from .loader import World
from .ev import ev, alternatives, Env, Ambiguous, NoValue
from . import inputs as inp_mod
from .inputs import const_env, numeric_parts, Conc, unit_scale
from .spec import Out, Any, Pred
from . import twins, stubs
from .real import REAL


class Case:
    """one use of the real code under contract"""

    def __init__(self, id, inputs, call, spec, requires=None, lens=None, stubs=(), atol=0.0, rtol=1e-9, samples=None,
                 budget=40.0, world=None, bounded_only=False, frame=True, note='', setup=None, max_paths=400,
                 relational=True, drive=None, noconc=False, slow=False, variants=None, guard=True,
                 real=None):
        self.id, self.inputs, self.call, self.spec = id, inputs, call, spec
        seen = {}
        for n, i in inputs.items():
            if not isinstance(i, inp_mod.Lit):
                seen.setdefault(i, []).append(n)
        if len(seen) < sum(map(len, seen.values())):
            raise ValueError('%s: one input under two names' % self.id)
        self.requires = requires
        self.lens = dict(lens or {})
        for i in inputs.values():
            for part in ([i.lon, i.lat] if isinstance(i, inp_mod.Sky) else [i]):
                for a in getattr(part, 'axes', ()):
                    if isinstance(a, str):
                        self.lens.setdefault(a, None)
        self.stubs = stubs
        self.atol, self.rtol = atol, rtol
        self.samples = samples
        self.budget = budget
        self.bounded_only = bounded_only
        self.frame = frame
        self.note = note
        self.setup = setup
        self.max_paths = max_paths
        self.relational = relational
        self.noconc = noconc
        self.slow = slow
        self.drive = drive
        self.variants_ = variants
        self.guard = guard
        self.real = real        # script for the real code that answers None, or what is wrong (instead of the contract's value)

    def variants(self):
        if self.variants_ is not None:
            return self.variants_
        names = sorted(self.lens)
        out = []
        for combo in itertools.product(*[(('sym', 'one') if self.lens[n] is None else self.lens[n]) for n in names]):
            out.append(dict(zip(names, combo)))
        return out


class In_:
    """attribute view of the inputs for contract functions"""

    def __init__(self, d, case=None, lens=None):
        self.__dict__.update(d)
        self._lens = lens or {}


# ------------------------------------------------------------------ flattening
ANYV = var('\u00a7any')


class FArr:
    def __init__(self, axes, idx, term, kind, dims=None, scale=None, want_unit=False):
        self.axes, self.idx, self.term, self.kind, self.dims, self.scale = axes, idx, term, kind, dims, scale
        self.want_unit = want_unit
        self.cond = band(*[a.cond(i) for a, i in zip(axes, idx)])


def flat(x, want_unit=False):
    """value -> FArr / tuple('list', [...]) / ('dict', {...}) / ('py', v)"""
    if isinstance(x, Out):
        f = flat(x.value)
        from .inputs import unit_of
        f.scale = unit_of(x.unit).scale if isinstance(x.unit, str) else x.unit.scale
        f.want_unit = True
        return f
    if isinstance(x, (Any, Pred)):
        return x
    if isinstance(x, SQuantity):
        p = x.phys
        f = flat(p)
        f.dims, f.scale = x.unit.dims, x.unit.scale
        return f
    if isinstance(x, Sym):
        return FArr([], (), x.t, x.kind)
    if isinstance(x, SArray):
        idx = tuple(a.generic() for a in x.axes)
        return FArr(list(x.axes), idx, x.at(idx), x.kind)
    if isinstance(x, bool):
        return FArr([], (), TRUE if x else FALSE, 'b')
    if isinstance(x, (int, Fraction)):
        return FArr([], (), num(x), 'i' if isinstance(x, int) else 'f')
    if isinstance(x, float):
        return FArr([], (), symmod.lit_float(x), 'f')
    if isinstance(x, GenList) and x.axis is not None:
        return flat(list_array(x))
    if isinstance(x, (list, tuple)):
        return ('list', [flat(y) for y in x])
    if isinstance(x, dict):
        return ('dict', {str(k): flat(v) for k, v in x.items()})
    if isinstance(x, SkyCoordS):
        return ('dict', {'lon': flat(x.lon), 'lat': flat(x.lat)})
    if isinstance(x, Unit):
        return ('unit', x)
    return ('py', x)


class Ob:
    """one proof obligation of a path"""

    def __init__(self, label, goal, kind='value', hyps=(), prover=None):
        self.label, self.goal, self.kind, self.hyps, self.prover = label, goal, kind, tuple(hyps), prover


def specified(t):
    """term of a contract -> (condition under which it says something, what it says)"""
    c = TRUE
    while t.op == 'ite' and (t.args[1] is ANYV or t.args[2] is ANYV):
        if t.args[1] is ANYV:
            c, t = band(c, bnot(t.args[0])), t.args[2]
        else:
            c, t = band(c, t.args[0]), t.args[1]
    return c, t


def predicates(exp, got, label):
    """the predicates anywhere in the contract's value, each with the part of the result it talks about"""
    if isinstance(exp, Pred):
        yield label, exp, (got,)
    elif isinstance(exp, (list, tuple)):
        it = list(got) if isinstance(got, (list, tuple)) and len(got) == len(exp) else None
        for k, x in enumerate(exp):
            if it is None:
                for lb, p, _ in predicates(x, None, '%s[%d] ' % (label, k)):
                    yield lb, p, None
            else:
                yield from predicates(x, it[k], '%s[%d] ' % (label, k))
    elif isinstance(exp, dict):
        for k, x in exp.items():
            if isinstance(got, dict) and k in got:
                yield from predicates(x, got[k], '%s[%r] ' % (label, k))
            else:
                for lb, p, _ in predicates(x, None, '%s[%r] ' % (label, k)):
                    yield lb, p, None


def cmp_flat(got, exp, label, obs, *exempts):
    """obligations saying got equals exp (where the contract values exempts are specified)"""
    if isinstance(exp, Any):
        return
    if isinstance(exp, Pred):
        return
    if isinstance(exp, FArr):
        if isinstance(got, tuple) and got[0] == 'list':
            try:
                got = flat(list_array(unflat(got)))
            except (Unsupported, ValueError):
                pass
        if not isinstance(got, FArr):
            obs.append(Ob(label + ': is a number or array', FALSE, 'shape'))
            return
        gd = got.dims or NODIM
        ed = exp.dims or NODIM
        if tuple(gd) != tuple(ed):
            obs.append(Ob(label + ': has the right dimensions', FALSE, 'unit'))
            return
        if exp.want_unit:
            obs.append(Ob(label + ': is in the documented unit', eq(got.scale if got.scale is not None else ONE,
                                                                   exp.scale), 'unit'))
        if len(got.axes) != len(exp.axes):
            obs.append(Ob(label + ': has %d dimension(s)' % len(exp.axes), FALSE, 'shape'))
            return
        m = {}
        ok = True
        for j, (a, b, ia, ib) in enumerate(zip(got.axes, exp.axes, got.idx, exp.idx)):
            la, lb = a.length(), b.length()
            if la is not lb:
                obs.append(Ob('%s: length of axis %d' % (label, j), eq(la, lb), 'shape'))
            if a.isone and b.isone:
                continue
            if same_axis(a, b):
                m.update({x: y for x, y in zip(ib, ia)})
            elif len(a.lens) == len(b.lens) and all(symmod.len_equal(x, y) for x, y in zip(a.lens, b.lens)):
                # same roots, different masks
                m.update({x: y for x, y in zip(ib, ia)})
                obs.append(Ob('%s: selected entries of axis %d' % (label, j),
                              eq(a.cond(ia), subst(b.cond(ib), {x: y for x, y in zip(ib, ia)})), 'shape'))
            elif a.isone or b.isone:
                one, oth = (ia, ib) if a.isone else (ib, ia)
                # lengths provably equal -> the other axis has exactly index 0
                m.update({x: ZERO for x in oth}) if b is not one else None
            else:
                obs.append(Ob('%s: structure of axis %d' % (label, j), None, 'shape'))
                ok = False
        if not ok:
            return
        et = subst(exp.term, m)
        ec = subst(exp.cond, m)
        gt = subst(got.term, m) if any(a.isone and not b.isone for a, b in zip(got.axes, exp.axes)) else got.term
        c0, et = specified(et)                          # the contract may say nothing about some entries
        ec = band(ec, c0)
        if gt.isbool != et.isbool:
            gt, et = symmod.b2n(gt), symmod.b2n(et)
        for x in exempts:
            if isinstance(x, FArr) and len(x.axes) == len(got.axes):
                c0 = specified(x.term)[0]
                if c0 is not TRUE:
                    ec = band(ec, subst(c0, {q: p for i, j in zip(got.idx, x.idx) for p, q in zip(i, j)}))
        g = implies(band(got.cond, ec), eq(gt, et)) if (got.cond is not TRUE or ec is not TRUE) else eq(gt, et)
        obs.append(Ob(label + ': value', g, 'value'))
        return
    tag = exp[0]
    if tag == 'list':
        if not (isinstance(got, tuple) and got[0] == 'list' and len(got[1]) == len(exp[1])):
            obs.append(Ob(label + ': has %d components' % len(exp[1]), FALSE, 'shape'))
            return
        for k, (a, b) in enumerate(zip(got[1], exp[1])):
            cmp_flat(a, b, '%s[%d]' % (label, k), obs,
                     *[x[1][k] for x in exempts if isinstance(x, tuple) and x[0] == 'list' and k < len(x[1])])
        return
    if tag == 'dict':
        if not (isinstance(got, tuple) and got[0] == 'dict'):
            obs.append(Ob(label + ': is a record', FALSE, 'shape'))
            return
        for k in exp[1]:
            if k not in got[1]:
                obs.append(Ob('%s.%s present' % (label, k), FALSE, 'shape'))
            else:
                cmp_flat(got[1][k], exp[1][k], '%s.%s' % (label, k), obs,
                         *[x[1].get(k) for x in exempts if isinstance(x, tuple) and x[0] == 'dict'])
        return
    if tag == 'unit':
        if not (isinstance(got, tuple) and got[0] == 'unit' and got[1].dims == exp[1].dims):
            obs.append(Ob(label + ': is the unit', FALSE, 'unit'))
        else:
            obs.append(Ob(label + ': is the unit', eq(got[1].scale, exp[1].scale), 'unit'))
        return
    same = isinstance(got, tuple) and got[0] == 'py' and (got[1] is exp[1] or got[1] == exp[1])
    if not same:
        obs.append(Ob('%s: is %r' % (label, exp[1]), FALSE, 'shape'))


def unflat(f):
    if isinstance(f, FArr):
        if f.axes:
            t, idx = f.term, f.idx
            a = symmod.new_array(f.axes, lambda i: subst(t, {x: y for p, q in zip(idx, i) for x, y in zip(p, q)}),
                                 f.kind)
        else:
            a = Sym(f.term, f.kind)
        return a if f.dims is None else SQuantity(a, Unit(f.dims, ONE))
    if f[0] == 'list':
        return [unflat(x) for x in f[1]]
    raise Unsupported('list of objects')


# ------------------------------------------------------------------ numeric side
def num_flat(f, env):
    """expected structure with numbers (same layout as the worker's answers)"""
    if isinstance(f, Any) or isinstance(f, Pred) and f.num is None:
        return {'t': 'any'}
    if isinstance(f, Pred):
        return {'t': 'pred', 'f': f.num}
    if isinstance(f, FArr):
        pts, shape = [], []
        per = []
        for a, i in zip(f.axes, f.idx):
            ns = [int(round(ev(l, env)[0])) for l in a.lens]
            sel = []
            for c in itertools.product(*[range(n) for n in ns]):
                e = env
                for v, k in zip(i, c):
                    e = e.child(v, k)
                if a.mask is None or ev(a.cond(i), e):
                    sel.append(c)
            per.append((i, sel))
            shape.append(len(sel))
        vals, errs, alt = [], [], []
        for combo in itertools.product(*[s for _, s in per]):
            e = env
            for (i, _), c in zip(per, combo):
                for v, k in zip(i, c):
                    e = e.child(v, k)
            rs = alternatives(f.term, e)
            if len(rs) > 1:
                alt.append([len(vals), [float(r) if isinstance(r, bool) else r[0] for r in rs],
                            [0.0 if isinstance(r, bool) else r[1] for r in rs]])
            r = rs[0]
            if isinstance(r, bool):
                vals.append(float(r))
                errs.append(0.0)
            else:
                vals.append(r[0])
                errs.append(r[1])
        return {'t': 'n', 'shape': shape, 'v': vals, 'err': errs, 'dims': [float(x) for x in (f.dims or NODIM)],
                'unit': ev(f.scale, env)[0] if f.want_unit else None, 'alt': alt}
    if f[0] == 'list':
        return {'t': 'l', 'v': [num_flat(x, env) for x in f[1]]}
    if f[0] == 'dict':
        return {'t': 'd', 'v': {k: num_flat(x, env) for k, x in f[1].items()}}
    if f[0] == 'unit':
        return {'t': 'u', 'dims': [float(x) for x in f[1].dims], 'scale': ev(f[1].scale, env)[0]}
    return {'t': 'py', 'v': f[1]}


def as_num(g):
    """worker answer -> (shape, values, dims) or None"""
    t = g.get('t')
    if t == 'q':
        return g['shape'], g['v'], g['dims']
    if t == 'a':
        return g['shape'], g['v'], [0.0] * 6
    if t == 's':
        return [], [float(g['v'])], [0.0] * 6
    if t == 'l':
        parts = [as_num(x) for x in g['v']]
        if any(p is None for p in parts) or not parts:
            return None if parts else ([0], [], [0.0] * 6)
        if any(p[0] != parts[0][0] or p[2] != parts[0][2] for p in parts):
            return None
        return [len(parts)] + parts[0][0], [v for p in parts for v in p[1]], parts[0][2]
    return None


def close(g, e, err, rtol, atol):
    if math.isnan(e) or math.isnan(g):
        return math.isnan(e) and math.isnan(g)
    if math.isinf(e) or math.isinf(g):
        return e == g
    return abs(g - e) <= rtol * max(abs(e), abs(g)) + 10 * err + atol


def diff(g, e, label, rtol, atol):
    """first difference between the worker answer and the expected structure, or None"""
    t = e['t']
    if t == 'any':
        return None
    if t == 'pred':
        return e['f'](g)
    if t == 'n':
        n = as_num(g)
        if n is None:
            return '%s: expected a number/array, got %s' % (label, brief(g))
        sh, v, d = n
        if any(abs(x - y) > 1e-9 for x, y in zip(d, e['dims'])):
            return '%s: dimensions %s, expected %s' % (label, d, e['dims'])
        if e.get('unit') is not None:
            sc = g.get('scale', 1.0)
            if abs(sc - e['unit']) > 1e-9 * abs(e['unit']):
                return '%s: unit %s (scale %r), expected scale %r' % (label, g.get('unit'), sc, e['unit'])
        if list(sh) != list(e['shape']):
            return '%s: shape %s, expected %s' % (label, sh, e['shape'])
        for k, (a, b, er) in enumerate(zip(v, e['v'], e['err'])):
            if not close(a, b, er, rtol, atol):
                for k2, vs, es in e.get('alt', ()):
                    # a comparison too close to call: any of the values it allows
                    if k2 == k and any(close(a, b2, er2, rtol, atol) for b2, er2 in zip(vs, es)):
                        break
                else:
                    return '%s: entry %d is %r, expected %r' % (label, k, a, b)
        return None
    if t == 'l':
        if g.get('t') != 'l' or len(g['v']) != len(e['v']):
            return '%s: expected %d components, got %s' % (label, len(e['v']), brief(g))
        for k, (a, b) in enumerate(zip(g['v'], e['v'])):
            r = diff(a, b, '%s[%d]' % (label, k), rtol, atol)
            if r:
                return r
        return None
    if t == 'd':
        if g.get('t') == 'sky':
            g = {'t': 'd', 'v': {'lon': g['lon'], 'lat': g['lat']}}
        if g.get('t') != 'd':
            return '%s: expected a record, got %s' % (label, brief(g))
        for k in e['v']:
            if k not in g['v']:
                return '%s.%s missing' % (label, k)
            r = diff(g['v'][k], e['v'][k], '%s.%s' % (label, k), rtol, atol)
            if r:
                return r
        return None
    if t == 'u':
        if g.get('t') != 'unit' or abs(g['scale'] - e['scale']) > 1e-9 * abs(e['scale']):
            return '%s: unit %s' % (label, brief(g))
        return None
    v = e['v']
    if v is None:
        return None if g.get('t') == 'none' else '%s: expected None, got %s' % (label, brief(g))
    if g.get('v') != v and str(g.get('v')) != str(v):
        return '%s: expected %r, got %s' % (label, v, brief(g))
    return None


def brief(g):
    return json.dumps(g)[:160]


# ------------------------------------------------------------------ results
class Result:
    def __init__(self, case, variant):
        self.case, self.variant = case, variant
        self.obligations = 0
        self.discharged = 0
        self.undecided = []      # (label, why)
        self.violations = []     # dict
        self.paths = 0
        self.samples = 0
        self.sample_skipped = 0
        self.functions = set()
        self.stubs = set()
        self.wall = 0.0
        self.trusted = set()
        self.stats = {}
        self.notes = []
        self.unsupported = []
        self.discrep = []
        self.unproved = []       # obligations the prover decided against without a replay: (label, why, leaf)
        self.vacuous = False


def sizes_for(variant, r):
    out = {}
    used = set()
    for k, v in variant.items():
        if v == 'sym':
            c = [n for n in (2, 3, 4, 5) if n not in used]
            out[k] = r.choice(c[:3])
            used.add(out[k])
        elif v == 'one':
            out[k] = 1
        else:
            out[k] = int(v)
    return out


class Runner:
    def __init__(self, case, variant, tier='quick', seed=1, mode='values'):
        self.case, self.variant, self.tier, self.mode = case, variant, tier, mode
        self.rng = random.Random('%s|%s|%s' % (seed, case.id, sorted(variant.items())))
        self.res = Result(case.id, variant)

    # -------------------------------------------------- set-up
    def lens(self):
        out = {}
        for k, v in self.variant.items():
            if v == 'sym':
                out[k] = E.length_var('len_' + k, 2)
            elif v == 'one':
                out[k] = ONE
            else:
                out[k] = num(int(v))
        return out

    def prepare(self):
        t = 1.0 if self.tier == 'quick' else 4.0
        E.reset(budget=self.case.budget * t, max_paths=self.case.max_paths)
        self.L = self.lens()
        for n, i in self.case.inputs.items():
            i.declare(n, self.L)
        twins.declare_facts(E)
        self.world = World(make_libs())
        for q in ('utils', 'evol', 'strain', 'psd', 'snr', 'source', 'visualisation'):
            try:
                self.world.module(q)
            except Unsupported as e:
                self.res.notes.append('module %s: %s' % (q, e))
            except SyntaxError:
                raise
            except Exception as e:
                self.res.notes.append('module %s: %s: %s' % (q, type(e).__name__, e))
        from . import stubs
        stubs.declare_facts()
        for q in self.case.stubs:
            self.world.stubs[q] = stubs.get(q, self.world)
        self.world.lens_terms = self.L
        if self.case.setup:
            self.case.setup(self.world)
        E.bufs = []

    def env_syms(self, vals):
        mods = {k.split('.')[-1]: m for k, m in self.world.mods.items() if '.' in k}
        env = dict(np=NP, u=U_SHIM, const=CONST_SHIM, SkyCoord=SC_SHIM)
        env.update(mods)
        env.update(twins.script_env(self.world))
        env.update(vals)
        return env

    def make(self, si=False):
        vals = {n: i.make(si) for n, i in self.case.inputs.items()}
        return vals

    def assume(self, vals):
        if self.case.requires:
            for c in self.case.requires(In_(vals, lens=self.L)):
                t = c.t if isinstance(c, Sym) else (TRUE if c is True else FALSE if c is False else c)
                for a in (t.args if t.op == 'and' else (t,)):
                    E.assume(E.prover.canon(a))

    def call_code(self, vals):
        try:
            env = self.world.run_script(self.case.call, self.env_syms(vals), 'call')
            return 'ret', env.get('result')
        except Exception as e:
            return 'exc', e

    def call_spec(self, vals):
        try:
            return 'ret', self.case.spec(In_(vals, lens=self.L))
        except Exception as e:
            return 'exc', e

    # -------------------------------------------------- one joint path
    def joint(self):
        vals = self.make()
        self.assume(vals)
        bufs = self.input_bufs()
        kind, got = self.call_code(vals)
        obs = []
        if self.mode == 'frame':
            for b, orig, name in bufs:
                if b.elem is not orig:
                    idx = tuple(a.generic() for a in b.axes)
                    obs.append(Ob('argument %s unchanged' % name, eq(b.elem(idx), orig(idx)), 'frame'))
                else:
                    obs.append(Ob('argument %s unchanged' % name, TRUE, 'frame'))
            return obs, None, None
        vals2 = self.make()
        if self.mode == 'units':
            saved = self.world.run_script
            vals3 = self.make(si=True)
            k2, exp = self.call_code(vals3)
            if k2 == 'exc' or kind == 'exc':
                same = k2 == kind and type(got) is type(exp)
                obs.append(Ob('same outcome in any unit', TRUE if same else FALSE, 'exc'))
                return obs, None, None
            specs = [self.call_spec(v) for v in (vals2, self.make(si=True))]
            cmp_flat(flat(got), flat(exp), 'result', obs, *[flat(v) for k4, v in specs if k4 == 'ret'])
            return obs, None, None
        k2, exp = self.call_spec(vals2)
        if k2 == 'exc' and not getattr(exp, 'spec_ok', isinstance(exp, (ValueError, AssertionError, TypeError,
                                                                         KeyError, IndexError, FileExistsError,
                                                                         NotImplementedError))):
            raise exp
        if k2 == 'exc':
            ok = kind == 'exc' and issubclass(type(got), type(exp))
            obs.append(Ob('raises %s' % type(exp).__name__, TRUE if ok else FALSE, 'exc'))
            return obs, (kind, None), None
        if kind == 'exc':
            obs.append(Ob('returns normally (no %s: %s)' % (type(got).__name__, str(got)[:80]), FALSE, 'exc'))
            return obs, None, flat(exp)
        fg, fe = flat(got), flat(exp)
        if not isinstance(exp, Pred):
            cmp_flat(fg, fe, 'result', obs)
        for where_, pred, value in predicates(exp, got, ''):
            if value is None:
                obs.append(Ob('result%s is there' % where_, FALSE, 'shape'))
                continue
            for lb, g, *pr in pred.f(value[0]):
                obs.append(Ob(where_ + lb, g.t if isinstance(g, Sym) else g, 'value', prover=pr[0] if pr else None))
        for g in E.asserts:
            obs.append(Ob('callee precondition', g, 'pre'))
        return obs, fg, fe

    def input_bufs(self):
        out = []
        for n, i in self.case.inputs.items():
            for part in ([i.lon, i.lat] if isinstance(i, inp_mod.Sky) else [i]):
                if getattr(part, 'axes', None) and hasattr(part, 'buf'):
                    out.append((part.buf, part.orig, n))
        return out

    # -------------------------------------------------- symbolic phase
    def symbolic(self):
        res = self.res
        self.failed = []
        if self.case.bounded_only:
            return
        paths = E.explore(self.joint)
        res.paths = len(paths)
        timed_out = 0
        live = 0
        for label, ok, goal, hyps, leaves in E.loop_obs:
            res.obligations += 1
            if ok:
                res.discharged += 1
            else:
                label = '%s: %s' % (self.case.id, label)
                self.failed.append((label, Ob(label, goal, 'value'), hyps, leaves))
        for pn, p in enumerate(paths):
            if p[0] == 'unsupported':
                res.unsupported.append(p[1])
                continue
            if p[0] == 'exc':
                res.unsupported.append('contract evaluation failed: %s: %s' % (type(p[1]).__name__, p[1]))
                if self.tier == 'debug':
                    traceback.print_exception(p[1])
                continue
            obs, fg, fe = p[1]
            hyps = p[2]
            live += 1
            for o in obs:
                res.obligations += 1
                label = '%s path %d: %s' % (self.case.id, pn, o.label)
                if o.goal is None:
                    res.undecided.append((label, 'axis structure outside the comparison'))
                    continue
                if time.time() > E.deadline:
                    res.undecided.append((label, 'time budget'))
                    continue
                hy = list(hyps) + list(o.hyps)
                bud = 12.0 if self.tier == 'quick' else 60.0
                if timed_out >= 3:          # this code is out of the prover's reach: leave time for the replays
                    bud /= 4
                if o.prover is not None:
                    try:
                        if o.prover(hy):
                            res.discharged += 1
                            continue
                    except Unsupported as e:
                        res.notes.append('%s: %s' % (o.label, e))
                ok, leaves = E.prover.prove(hy, o.goal, budget=bud)
                if not ok and (stubs.has_opaque(o.goal) or any(stubs.has_opaque(h) for h in hy)):
                    c = {}
                    ok, lv2 = E.prover.prove([stubs.unfold(h, c) for h in hy], stubs.unfold(o.goal, c), budget=bud)
                if ok:
                    res.discharged += 1
                else:
                    timed_out += any(lf.why == 'budget' for lf in leaves)
                    self.failed.append((label, o, hyps, leaves))
        if live == 0 and not res.unsupported:
            res.vacuous = True

    def spec_paths(self):
        E.deadline = time.time() + 30
        E.max_paths = max(self.case.max_paths, 400)
        saved = E.prover

        def run():
            vals = self.make()
            self.assume(vals)
            k, v = self.call_spec(vals)
            if k == 'exc':
                return ('exc', type(v).__name__)
            return ('ret', flat(v))
        out = []
        for p in E.explore(run):
            if p[0] == 'ret':
                out.append((p[1][0], p[1][1], p[2]))
            elif p[0] == 'unsupported':
                self.res.notes.append('spec path unsupported: %s' % (p[1],))
                if self.tier == 'debug':
                    print('spec unsupported', p[1])
            elif p[0] == 'exc':
                self.res.notes.append('spec path failed: %s' % (p[1],))
                if self.tier == 'debug':
                    traceback.print_exception(p[1])
        return out

    # -------------------------------------------------- concrete phase
    def new_env(self, concs, sizes):
        e = Env(const_env())
        for k, v in self.L.items():
            if v.op == 'v':
                e.vars[v] = sizes[k]
        twins.bind(e)
        e.vars[ANYV] = (0.0, math.inf)
        for c in concs.values():
            c.bind(e)
        return e

    def sample(self):
        sizes = sizes_for(self.variant, self.rng)
        concs = {n: i.sample(self.rng, sizes) for n, i in self.case.inputs.items()}
        if self.case.drive:
            self.case.drive(concs, sizes, self.rng)
        return concs, sizes

    def admissible(self, concs, sizes):
        if not self.case.requires:
            return True
        if getattr(self, '_req', None) is None:
            vals = self.make()
            E.hyps = []
            self._req = [c.t if isinstance(c, Sym) else (TRUE if c is True else c)
                         for c in self.case.requires(In_(vals, lens=self.L))]
        env = self.new_env(concs, sizes)
        try:
            return all(ev(c, env) for c in self._req)
        except (Ambiguous, NoValue):
            return False

    def expected(self, env):
        """-> ('ret', numeric) / ('exc', class) / None when too close to call"""
        amb = False
        for k, v, hyps in self.spaths:
            try:
                if not all(ev(h, env) for h in hyps):
                    continue
                if k == 'exc':
                    return 'exc', v
                return 'ret', num_flat(v, env)
            except Ambiguous:
                amb = True
                continue
            except NoValue as e:
                self.res.notes.append('no numeric value: %s' % (e,))
                return None
        return None

    def real_check(self, concs, sizes, confirm=True):
        """run the real code; -> None if fine/unknown, else description of the mismatch"""
        if self.case.real:
            r = REAL.call(self.case.real, {n: c.json() for n, c in concs.items()}, timeout=90)
            if 'worker_error' in r:
                self.res.notes.append(r['worker_error'])
                return None
            if 'dead' in r:
                return 'the real code gave no answer within 90 s' if r.get('timeout') else r['dead']
            self.res.samples += 1
            if 'exc' in r:
                return 'unexpected %s: %s at %s' % (r['exc'][0], r['msg'], r['where'][-2:])
            if r['ret'].get('t') == 'str' and r['ret']['v'].startswith('skip'):
                self.res.sample_skipped += 1
                return None
            return None if r['ret'].get('t') == 'none' else str(r['ret'].get('v'))[:400]
        env = self.new_env(concs, sizes)
        if self.mode == 'values':
            exp = self.expected(env)
            if exp is None:
                self.res.sample_skipped += 1
                return None
        ins = {n: c.json() for n, c in concs.items()}
        r = REAL.call(self.case.call, ins, timeout=90)
        if 'worker_error' in r:
            self.res.notes.append(r['worker_error'])
            return None
        if 'dead' in r:
            if not r.get('timeout'):
                return r['dead']
            return 'the real code gave no answer within 90 s'
        self.res.samples += 1
        if self.mode == 'frame':
            if r['mutated']:
                return 'argument(s) %s changed by the call' % ', '.join(r['mutated'])
            return None
        if self.mode == 'units':
            alt = {n: c.clone() for n, c in concs.items()}
            for c in numeric_parts(alt):
                if c.unit is not None:
                    vals = [x * unit_scale(c.unit) for x in c.raw]
                    c.unit = self.rng.choice(c.inp.units or inp_mod.choices(c.inp.dim))
                    c.raw = [v / unit_scale(c.unit) for v in vals]
            r2 = REAL.call(self.case.call, {n: c.json() for n, c in alt.items()}, timeout=90)
            if 'ret' in r and 'ret' in r2:
                try:
                    exp = self.expected(env)
                except Exception:
                    exp = ()
                if exp is None:          # too close to call
                    self.res.sample_skipped += 1
                    return None
                return rel_diff(r['ret'], r2['ret'], 'result', max(self.case.rtol, 1e-6),
                                exp[1] if exp and exp[0] == 'ret' else None)
            if ('exc' in r) != ('exc' in r2):
                return 'different outcome in different units: %s / %s' % (r.get('msg', 'returns'),
                                                                          r2.get('msg', 'returns'))
            return None
        if exp[0] == 'exc':
            if 'exc' in r and exp[1] in r['exc']:
                return None
            return 'expected %s, got %s' % (exp[1], r['exc'][0] if 'exc' in r else 'a value')
        if 'exc' in r:
            return 'unexpected %s: %s at %s' % (r['exc'][0], r['msg'], r['where'][-1:])
        return diff(r['ret'], exp[1], 'result', self.case.rtol, self.case.atol)

    def n_samples(self):
        n = self.case.samples if self.case.samples is not None else 12
        return n if self.tier == 'quick' else n * 10

    def concrete(self, more=1):
        res = self.res
        if more == 1:
            self.spaths = self.spec_paths() if self.mode in ('values', 'units') and not self.case.real else []
        n = self.n_samples() * more
        got = 0
        t0 = time.time()
        limit = 40 if self.tier == 'quick' else 300
        for _ in range(n * 3):
            if got >= n or time.time() - t0 > limit:
                break
            concs, sizes = self.sample()
            if not self.admissible(concs, sizes):
                continue
            got += 1
            why = self.real_check(concs, sizes)
            if why:
                self.violation(None, concs, sizes, why)
                return

    def violation(self, label, concs, sizes, why):
        ins = {n: c.json() for n, c in concs.items()}
        exp = None
        if self.mode == 'values' and not self.case.real:
            try:
                exp = self.expected(self.new_env(concs, sizes))
                json.dumps(exp)
            except Exception:
                exp = None
        self.res.violations.append({'case': self.case.id, 'variant': self.variant, 'mode': self.mode,
                                    'obligation': label, 'why': why, 'call': self.case.real or self.case.call, 'inputs': ins,
                                    'oracle': 'script' if self.case.real else 'contract',
                                    'expected': exp, 'rtol': self.case.rtol, 'atol': self.case.atol})

    # -------------------------------------------------- witness search for failed obligations
    def resolve(self):
        t0 = time.time()
        for label, o, hyps, leaves in self.failed:
            if time.time() - t0 > (100 if self.tier == 'quick' else 900):
                self.res.undecided.append((label, 'not proved (%s); no time left for the search of an input'
                                           % ','.join(sorted({str(lf.why) for lf in leaves}))))
                continue
            if self.res.violations:
                self.res.undecided.append((label, 'not proved; replay found for this case'))
                continue
            w = self.search(label, o, hyps, leaves)
            if w == 'violation':
                continue
            self.res.undecided.append((label, w))
            hard = [lf for lf in leaves if lf.why in ('sat', 'toobig', 'recursion')]
            if w.startswith('not proved') and (hard or o.goal is FALSE):
                self.res.unproved.append((label, w, {'hyps': [show(h, 300) for h in (hard[0].hyps if hard else hyps)[:40]],
                                                     'goal': show(hard[0].goal if hard else o.goal, 2000)}))

    def search(self, label, o, hyps, leaves):
        """look for a concrete input on this path falsifying the obligation, confirmed on the real code"""
        hits = 0
        t0 = time.time()
        limit = 30 if self.tier == 'quick' else 120
        tried = 0
        disc = 0
        targets = [(lf.hyps, lf.goal) for lf in leaves[:4]]
        atoms = split_atoms(o.goal)
        if atoms:
            base = targets or [(hyps, o.goal)]
            extra = [(tuple(base[0][0]) + (x,), base[0][1]) for a in atoms for x in (a, bnot(a))]
            self.rng.shuffle(extra)
            targets = [t for j in range(max(len(base), len(extra)))
                       for t in (base[j % len(base)], extra[j % len(extra)])]
        why = ','.join(sorted({str(lf.why) for lf in leaves}))
        best = None
        while time.time() - t0 < limit and tried < 400:
            tried += 1
            concs, sizes = self.sample()
            if not self.admissible(concs, sizes):
                continue
            th, tg = targets[tried % len(targets)] if targets else (hyps, o.goal)
            concs = self.steer(concs, sizes, list(th))
            if concs is None:
                continue
            if not self.admissible(concs, sizes):
                continue
            env = self.new_env(concs, sizes)
            v = self.falsified(env, hyps, o)
            if v is None:
                continue
            hits += 1
            if v:
                bad = self.real_check(concs, sizes)
                if bad:
                    self.violation(label, concs, sizes, bad)
                    return 'violation'
                disc += 1
                if disc >= 12:
                    return 'refuted in the model but 12 replays on the real code agree with the contract (%s)' % why
            elif hits >= 40:
                return 'not proved (%s); no sampled input of this path falsifies it' % why
        if hits == 0:
            sat = [lf for lf in leaves if lf.why == 'sat']
            if sat:
                self.res.violations.append({'case': self.case.id, 'variant': self.variant, 'mode': self.mode,
                                            'obligation': label, 'noinput': True,
                                            'why': 'obligation refuted by the prover, no input of this path found',
                                            'call': self.case.call,
                                            'leaf': {'hyps': [show(h, 300) for h in sat[0].hyps[:40]],
                                                     'goal': show(sat[0].goal, 2000)}})
                return 'violation'
        return 'not proved (%s); %d inputs of this path evaluated' % (why, hits)

    def falsified(self, env, hyps, o):
        """True/False whether the goal is false at these values (path condition holding); None: not on this path"""
        try:
            for h in hyps:
                if not ev(h, env):
                    return None
        except (Ambiguous, NoValue):
            return None
        goal = o.goal
        ivs = [v for v in fv(goal) if v in E.facts.idx_axis]
        rng = []
        try:
            for v in ivs:
                rng.append(range(int(round(ev(E.facts.idx_axis[v], env)[0]))))
        except NoValue:
            return None
        seen = False
        for combo in itertools.product(*rng):
            e = env
            for v, k in zip(ivs, combo):
                e = e.child(v, k)
            try:
                if not ev(goal, e):
                    return True
                seen = True
            except Ambiguous:
                seen = True
            except NoValue:
                continue
        return False if seen else None

    def steer(self, concs, sizes, hyps):
        """move the sample towards satisfying the literals (one-dimensional searches on single inputs)"""
        concs = {k: c.clone() for k, c in concs.items()}
        parts = [p for p in numeric_parts(concs) if not p.inp.boolean]
        ivs = {v for h in hyps for v in fv(h) if v in E.facts.idx_axis}
        assign = {}
        for _round in range(4):
            env = self.new_env(concs, sizes)
            for v in ivs:
                if v not in assign:
                    try:
                        n = int(round(ev(E.facts.idx_axis[v], env)[0]))
                    except NoValue:
                        n = 1
                    assign[v] = self.rng.randrange(max(n, 1))
                env.vars[v] = assign[v]
            bad = []
            for h in hyps:
                try:
                    if ev(h, env) is False:
                        bad.append(h)
                except (Ambiguous, NoValue):
                    pass
            if not bad:
                return concs
            h = self.rng.choice(bad)
            if not self.fix(h, concs, sizes, parts, assign):
                # try with other index choices
                assign = {}
        return concs

    def fix(self, h, concs, sizes, parts, assign):
        core = h.args[0] if h.op == 'not' else h
        if core.op in ('and', 'or'):
            core = self.rng.choice(core.args)
            core = core.args[0] if core.op == 'not' else core
        if core.op == 'any':
            return self.flip(parts)
        if core.op not in ('<', '<=', '=='):
            return self.flip(parts)
        slots = [(p, k) for p in parts for k in range(len(p.raw))]
        self.rng.shuffle(slots)

        def val(p, k, x):
            old = p.raw[k]
            p.raw[k] = x
            env = self.new_env(concs, sizes)
            env.vars.update(assign)
            try:
                a, _ = ev(core.args[0], env)
                b, _ = ev(core.args[1], env)
                r = a - b
                ok = None
                try:
                    ok = ev(h, env)
                except Ambiguous:
                    pass
                return r, ok
            except (NoValue, Ambiguous, TypeError, ValueError, OverflowError):
                return None, None
            finally:
                p.raw[k] = old
        eager = self.rng.random() < 0.5
        for p, k in slots[:8]:
            d = p.inp.d
            sc = unit_scale(p.unit) if p.unit else 1.0
            base, _ = val(p, k, p.raw[k])
            if base is None:
                continue
            cand = []
            xs = [d.sample(self.rng) / sc for _ in range(4)] + [s / sc for s in d.special]
            if p.inp.integer:
                xs = list(range(d.rng[0], min(d.rng[1], d.rng[0] + 12) + 1))
            elif d.log and d.rng and not eager:
                # beyond the usual range
                xs += [d.rng[0] / sc * 10 ** -self.rng.uniform(0, 6), d.rng[1] / sc * 10 ** self.rng.uniform(0, 6)]
            pts = [(p.raw[k], base)]
            for x in xs:
                if not d.ok(x * sc):
                    continue
                r, ok = val(p, k, x)
                if r is None:
                    continue
                if ok and (eager or p.inp.integer):
                    p.raw[k] = x
                    return True
                pts.append((x, r))
            if p.inp.integer:
                continue
            pts.sort()
            for (x0, r0), (x1, r1) in zip(pts, pts[1:]):
                if r0 == r0 and r1 == r1 and (r0 < 0) != (r1 < 0):
                    lo, hi, rl = x0, x1, r0
                    for _ in range(70):
                        mid = 0.5 * (lo + hi)
                        rm, ok = val(p, k, mid)
                        if rm is None:
                            break
                        if ok and core.op == '==':
                            break
                        if (rm < 0) == (rl < 0):
                            lo = mid
                        else:
                            hi = mid
                    # an exact literal threshold is hit exactly
                    near = round_nice(hi)
                    inner = [] if eager else [y + (near - y) * self.rng.random() for y in (x0, x1)]
                    self.rng.shuffle(inner)
                    for x in (*inner, near, lo, hi, lo * (1 - 1e-6), hi * (1 + 1e-6), lo - abs(lo) * 1e-3, hi + abs(hi) * 1e-3):
                        if not d.ok(x * sc):
                            continue
                        r, ok = val(p, k, x)
                        if ok:
                            p.raw[k] = x
                            return True
            # equality of two inputs: copy
        return False

    def flip(self, parts):
        return False

    # -------------------------------------------------- all together
    def run(self):
        t0 = time.time()
        res = self.res
        s0 = dict(STATS)
        for k in STATS:
            STATS[k] = type(STATS[k])(0)
        try:
            self.prepare()
            self.symbolic()
            if not self.case.noconc:
                self.concrete()
                if not res.violations and (self.failed or res.unsupported or res.undecided) \
                        and not self.case.bounded_only:
                    self.concrete(5)        # what the prover leaves open gets more replays
            if not res.violations or self.case.noconc:
                if self.mode == 'values' and not hasattr(self, 'spaths') and not self.case.real:
                    self.spaths = self.spec_paths()
                self.resolve()
            else:
                for label, o, hyps, leaves in self.failed:
                    res.undecided.append((label, 'not proved; replay found for this case'))
        except Unsupported as e:
            res.unsupported.append(str(e))
        res.functions = set(self.world.called) if hasattr(self, 'world') else set()
        res.stats = dict(STATS)
        res.trusted = set(E.trusted)
        res.stubs = set(E.stubs_used)
        res.wall = time.time() - t0
        return res


def split_atoms(t, limit=10):
    """conditions a goal distinguishes"""
    out, seen, todo = [], set(), [t]
    while todo and len(out) < limit:
        x = todo.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if x.op == 'ite':
            c = x.args[0]
            for a in (c.args if c.op in ('and', 'or') else (c,)):
                a = a.args[0] if a.op == 'not' else a
                if a.op in ('<', '<=', '==') and a not in out:
                    out.append(a)
        todo.extend(y for y in x.args if isinstance(y, T))
    return out


def round_nice(x):
    return float('%.6g' % x)


def rel_diff(a, b, label, rtol, exp=None):
    """compare two worker answers (exp: the contract value, for the rounding error to allow for)"""
    na, nb = as_num(a), as_num(b)
    if na and nb:
        if na[0] != nb[0]:
            return '%s: shapes %s and %s' % (label, na[0], nb[0])
        if any(abs(x - y) > 1e-9 for x, y in zip(na[2], nb[2])):
            return '%s: dimensions differ' % label
        err = exp['err'] if isinstance(exp, dict) and exp.get('t') == 'n' and len(exp['err']) == len(na[1]) else None
        ties = {k for k, _, _ in exp.get('alt', ())} if isinstance(exp, dict) else ()
        for k, (x, y) in enumerate(zip(na[1], nb[1])):
            if k not in ties and not close(x, y, 2 * err[k] if err else 0.0, rtol, 0.0):
                return '%s: entry %d is %r in one unit system and %r in another' % (label, k, x, y)
        return None
    if a.get('t') == 'l' and b.get('t') == 'l' and len(a['v']) == len(b['v']):
        for k, (x, y) in enumerate(zip(a['v'], b['v'])):
            e = exp['v'][k] if isinstance(exp, dict) and exp.get('t') == 'l' and k < len(exp['v']) else None
            r = rel_diff(x, y, '%s[%d]' % (label, k), rtol, e)
            if r:
                return r
    if a.get('t') == 'd' and b.get('t') == 'd':
        for k in a['v']:
            e = exp['v'].get(k) if isinstance(exp, dict) and exp.get('t') == 'd' else None
            r = rel_diff(a['v'][k], b['v'].get(k, {'t': 'none'}), '%s.%s' % (label, k), rtol, e)
            if r:
                return r
    return None
