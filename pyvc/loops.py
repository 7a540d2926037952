"""Loops and comprehensions with a symbolic number of iterations: one generic iteration, merged by rule."""
import builtins
import sys
from .terms import *
from . import terms as tm
from .engine import E, Unsupported, Local, PathStop
from .sym import (axis_from_len, Sym, SArray, SQuantity, Axis, GenList, memo, new_array, reduce_sum, reduce_any, scal, coerce, as_array,
                  n2b, b2n, intval, kjoin, conv, binop, Unit)
from .npshim import SymRange, StrArray
from .ushim import SkyCoordS


class SymZip:
    def __init__(self, parts):
        self.parts = parts


class SymEnum:
    def __init__(self, x, start):
        self.x, self.start = x, start


class SymMap:
    def __init__(self, f, parts):
        self.f, self.parts = f, parts


def sym_axis(x):
    """symbolic leading axis of an iterable or None when it can be iterated concretely"""
    if isinstance(x, SymRange):
        st = x.start.t if isinstance(x.start, Sym) else num(x.start)
        if st is ZERO and isinstance(x.stop, Sym) and x.stop.t in E.axis_of_len:
            return E.axis_of_len[x.stop.t]
        n = tm_len(x)
        a = axis_from_len(n) if n.op != 'num' else None
        return Axis((n,)) if a is None or a.isone else a
    if isinstance(x, GenList):
        return x.axis
    if isinstance(x, SQuantity):
        x = x.v
        if isinstance(x, Sym):
            raise TypeError("'Quantity' object with a scalar value is not iterable")
    if isinstance(x, SArray):
        if not x.axes:
            raise TypeError('iteration over a 0-d array')
        a = x.axes[0]
        if a.isone:
            return None
        return None if a.concrete() is not None else a
    if isinstance(x, SkyCoordS):
        return sym_axis(x.lon)
    if isinstance(x, SymZip):
        axs = [sym_axis(p) for p in x.parts]
        if all(a is None for a in axs):
            return None
        first = [a for a in axs if a is not None][0]
        for p, a in zip(x.parts, axs):
            if a is None:
                raise Unsupported('zip of symbolic and concrete lengths')
            if a is not first and not (a.mask is None and first.mask is None and
                                       E.entails(eq(a.length(), first.length()))):
                from .sym import same_axis
                if not same_axis(a, first):
                    if E.decide(eq(a.length(), first.length())):
                        raise Unsupported('zip over different axes')
                    raise Unsupported('zip of different lengths')
        return first
    if isinstance(x, SymEnum):
        return sym_axis(x.x)
    if isinstance(x, SymMap):
        return sym_axis(SymZip(x.parts)) if len(x.parts) > 1 else sym_axis(x.parts[0])
    return None


def tm_len(r):
    from .sym import simp
    return simp(sub(r.stop.t if isinstance(r.stop, Sym) else num(r.stop),
                    r.start.t if isinstance(r.start, Sym) else num(r.start)))


def rank(ax, gi):
    """position of the entry with these root indices along the axis"""
    if ax.mask is None:
        k = ZERO
        for l, g in zip(ax.lens, gi):
            k = add(mul(k, l), g)
        return k
    if not gi:
        return ZERO
    if len(gi) != 1:
        raise Unsupported('position along a masked structured axis')
    return fn('rank', ax.length(), gi[0])


def item_at(x, ax, gi):
    if isinstance(x, SymRange):
        s = x.start.t if isinstance(x.start, Sym) else num(x.start)
        if len(gi) != 1 or ax.mask is not None:
            k = rank(ax, gi)
            return Sym(k, 'i', True, (ax, gi)) if s is ZERO else Sym(add(s, k), 'i', True)
        if s is ZERO:
            return Sym(gi[0], 'i', True, (ax, gi))
        return Sym(add(s, gi[0]), 'i', True)
    if isinstance(x, GenList):
        from .sym import subst_val
        return subst_val(x.val, dict(zip(x.gi, gi)))
    if isinstance(x, SymZip):
        return tuple(item_at(p, ax, gi) for p in x.parts)
    if isinstance(x, SymEnum):
        st = num(x.start) if isinstance(x.start, int) else x.start.t
        if len(gi) != 1:
            raise Unsupported('enumerate over a structured axis')
        return (Sym(add(gi[0], st), 'i', True, (ax, gi) if st is ZERO else None), item_at(x.x, ax, gi))
    if isinstance(x, SymMap):
        return x.f(*[item_at(p, ax, gi) for p in x.parts])
    if isinstance(x, SkyCoordS):
        return SkyCoordS(item_at(x.lon, ax, gi), item_at(x.lat, ax, gi),
                         None if x.distance is None else item_at(x.distance, ax, gi), x.frame)
    if isinstance(x, (SArray, SQuantity)):
        a = (x.v if isinstance(x, SQuantity) else x).axes[0]
        k = Sym(gi[0] if gi else ZERO, 'i', True, (a, gi))
        return x[k]
    raise Unsupported('iteration over %s' % type(x).__name__)


def concretise(x):
    """iterable usable natively"""
    if isinstance(x, SymRange):
        raise Unsupported('symbolic range')
    if isinstance(x, SymZip):
        return builtins.zip(*[concretise(p) for p in x.parts])
    if isinstance(x, SymEnum):
        return builtins.enumerate(concretise(x.x), x.start)
    if isinstance(x, SymMap):
        return builtins.map(x.f, *[concretise(p) for p in x.parts])
    if isinstance(x, SkyCoordS):
        n = x.slen()
        return [x[i] for i in builtins.range(n)]
    return x


class Unbound:
    def __repr__(self):
        return '<unbound>'


UNBOUND = Unbound()


class Poison:
    def __init__(self, name):
        object.__setattr__(self, '_n', name)

    def _die(self, *a, **k):
        raise Unsupported('value of %r after a symbolic loop' % object.__getattribute__(self, '_n'))
    __getattr__ = __call__ = __getitem__ = __setitem__ = __iter__ = __len__ = __bool__ = __index__ = _die
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = _die
    __eq__ = __lt__ = __gt__ = __le__ = __ge__ = __ne__ = __pow__ = __rpow__ = __neg__ = _die
    __hash__ = object.__hash__


def run_local(body):
    """explore the local paths of body(); yields (conds, result|exception)"""
    outer = E.local
    stack = [[]]
    base = list(E.hyps)
    n = 0
    out = []
    try:
        while stack:
            pre = stack.pop()
            n += 1
            if n > 32:
                raise Unsupported('too many paths in a loop body')
            loc = Local(pre)
            E.local = loc
            E.hyps = list(base)
            try:
                r = ('ok', body())
            except PathStop:
                r = None
            except Exception as e:
                r = ('exc', e)
            conds = [h for h in E.hyps if h not in base]
            stack.extend(loc.pending)
            if r is not None:
                out.append((conds, r))
    finally:
        E.local = outer
        E.hyps = base
    return out


def merge_vals(pairs):
    """[(cond term, value)] -> value"""
    v0 = pairs[-1][1]
    if all(p[1] is v0 for p in pairs):
        return v0
    if isinstance(v0, (tuple, list)) and not isinstance(v0, GenList) and \
            all(type(p[1]) is type(v0) and len(p[1]) == len(v0) for p in pairs):
        return type(v0)(merge_vals([(c, v[i]) for c, v in pairs]) for i in range(len(v0)))
    if all(isinstance(p[1], SQuantity) for p in pairs):
        u = v0.unit
        return SQuantity(merge_vals([(c, v.to(u).v) for c, v in pairs]), u)
    vals = [(c, scal(v)) for c, v in pairs]
    if all(v is not None for c, v in vals):
        k = kjoin(*[v.kind for c, v in vals])
        t = vals[-1][1].t
        if k != 'b':
            t = b2n(t)
        for c, v in reversed(vals[:-1]):
            t = ite(c, v.t if k == 'b' else b2n(v.t), t)
        return Sym(t, k)
    if all(isinstance(p[1], SArray) for p in pairs):
        from .npshim import where
        r = v0
        for c, v in reversed(pairs[:-1]):
            r = where(Sym(c, 'b'), v, r)
        return r
    if all(not isinstance(p[1], (Sym, SArray, SQuantity)) for p in pairs):
        try:
            if all(p[1] == v0 for p in pairs):
                return v0
        except Exception:
            pass
    raise Unsupported('merging values of different kinds')


def handle_exceptions(results, ax, gi, pre=TRUE):
    """exceptional local paths: fork globally on 'some iteration raises'"""
    ok = []
    for conds, r in results:
        if r[0] == 'ok':
            ok.append((conds, r[1]))
            continue
        c = band(*conds)
        some = reduce_any(ax.lens, lambda roots: band(ax.cond(roots), subst(c, dict(zip(gi, roots)))))
        if E.decide(some):
            raise r[1]
    return ok


def comp(f, it, conds=()):
    """list comprehension"""
    ax = sym_axis(it)
    if ax is None:
        out = GenList(None, None, None)
        for x in concretise(it):
            if all(c(x) for c in conds):
                list.append(out, f(x))
        return out
    n = ax.length()
    if not E.decide(lt(ZERO, n)):
        return GenList(None, None, None)
    gi = ax.generic()
    base = list(E.hyps)
    E.hyps = base + [h for h in lits_(ax.cond(gi)) if h not in base]
    keep = TRUE
    try:
        for c in conds:
            r = run_local(lambda: n2b(scal(c(item_at(it, ax, gi))).t))
            r = handle_exceptions(r, ax, gi)
            keep = band(keep, merge_vals([(band(*cs), Sym(v, 'b')) for cs, v in r]).t)
        if keep is not TRUE:
            E.hyps = E.hyps + [keep]
        res = run_local(lambda: f(item_at(it, ax, gi)))
    finally:
        E.hyps = base
    ok = handle_exceptions(res, ax, gi)
    if not ok:
        raise PathStop()
    val = merge_vals([(band(*cs), v) for cs, v in ok])
    if keep is not TRUE:
        am = ax
        ax = Axis(ax.lens, memo(lambda roots: band(am.cond(roots), subst(keep, dict(zip(gi, roots))))))
    return GenList(ax, gi, val)


def lits_(t):
    return list(t.args) if t.op == 'and' else ([] if t is TRUE else [t])


class Loop:
    """driver for one `for` statement"""

    def __init__(self, it, names):
        self.it = it
        self.names = names
        self.ax = sym_axis(it)
        self.symbolic = self.ax is not None
        self.touched = {}
        self.done = False
        self.appends = {}

    # called by Buf.write before contents change
    def touch(self, buf):
        if buf.uid not in self.touched and not getattr(self, 'born', 0) <= buf.uid:
            self.touched[buf.uid] = (buf, buf.elem)

    def append(self, lst, v):
        if id(lst) not in self.appends:
            self.appends[id(lst)] = [lst, None, 0]
        a = self.appends[id(lst)]
        if a[2] > 0:
            raise Unsupported('several appends in one iteration')
        a[1], a[2] = v, 1

    def __iter__(self):
        if not self.symbolic:
            for x in concretise(self.it):
                yield x
            return
        ax = self.ax
        if not E.decide(lt(ZERO, ax.length())):
            self.zero = True
            return
        self.zero = False
        self.gi = gi = ax.generic()
        from .sym import Buf
        outer_local, outer_hyps = E.local, E.hyps
        base = list(E.hyps)
        cond0 = lits_(ax.cond(gi))
        finished = False
        try:
            for phase in (1, 2):
                stack = [[]]
                self.paths = []
                self.raised = []
                n = 0
                if phase == 2:
                    self.orig = dict(self.touched)
                    self.opaque = {}
                    for uid, (buf, elem) in self.orig.items():
                        nm = '§old%d_%d' % (uid, len(E.hyps))
                        self.opaque[uid] = nm
                while stack:
                    pre = stack.pop()
                    n += 1
                    if n > 32:
                        raise Unsupported('too many paths in a loop body')
                    self.phase = phase
                    self.appends = {}
                    loc = Local(pre)
                    E.local = loc
                    E.hyps = base + cond0
                    E.loops.append(self)
                    self.born = next(Buf._uid)
                    self.err = None
                    if phase == 2:
                        for uid, (buf, elem) in self.orig.items():
                            nm = self.opaque[uid]
                            buf.elem = memo((lambda nm: lambda idx: (
                                bfn if False else fn)(nm, *[r for p in idx for r in p]))(nm)) if buf.kind != 'b' else \
                                memo((lambda nm: lambda idx: bfn(nm, *[r for p in idx for r in p]))(nm))
                    self.ended = False
                    yield item_at(self.it, ax, gi)
                    E.loops.pop()
                    conds = [h for h in E.hyps if h not in base and h not in cond0]
                    if self.err is not None:
                        self.raised.append((conds, self.err))
                    else:
                        self.paths.append((conds, self.endvals, {uid: b.elem for uid, (b, e) in self.touched.items()},
                                           {k: (a[0], a[1]) for k, a in self.appends.items()}))
                    stack.extend(loc.pending)
                    for uid, (buf, elem) in self.touched.items():
                        buf.elem = elem
            finished = True
        finally:
            if not finished and E.loops and E.loops[-1] is self:
                E.loops.pop()
            E.local = outer_local
            E.hyps = base
            if not finished:
                for uid, (buf, elem) in self.touched.items():
                    buf.elem = elem
        self.merge()

    def begin(self, *vals):
        if not self.symbolic:
            return vals
        out = []
        self.init = vals
        self.carry = []
        for k, v in enumerate(vals):
            s = scal(v) if not isinstance(v, (SArray, SQuantity, list, tuple)) else None
            if s is not None and not isinstance(v, bool) and s.kind != 'b':
                o = var('§carry_%s_%d' % (self.names[k], k), '')
                self.carry.append(o)
                out.append(Sym(o, s.kind))
            elif isinstance(v, SQuantity) and isinstance(v.v, Sym):
                o = var('§carry_%s_%d' % (self.names[k], k), '')
                self.carry.append(o)
                out.append(SQuantity(Sym(o, v.v.kind), v.unit))
            else:
                self.carry.append(None)
                out.append(v)
        return tuple(out)

    def end(self, *vals):
        if self.symbolic:
            self.endvals = vals
            self.ended = True

    def brk(self):
        if self.symbolic:
            raise Unsupported('early exit from a loop with a symbolic number of iterations')

    def exc(self, e):
        """exception raised by the body; returns normally when it is handled as a symbolic path"""
        if not self.symbolic:
            raise e
        if E.local is None:
            raise e
        self.err = e

    def merge(self):
        ax, gi = self.ax, self.gi
        for conds, e in self.raised:
            c = band(*conds)
            if any(x.args[0].startswith('§') for x in tm.walk(c) if x.op in ('v', 'fn', 'bfn') and x.args):
                raise Unsupported('loop-carried state decides an exception')
            if E.decide(reduce_any(ax.lens, lambda r: band(ax.cond(r), subst(c, dict(zip(gi, r)))))):
                raise e
        if not self.paths:
            raise PathStop()
        for uid, (buf, init) in self.touched.items():
            if buf.dead:
                continue
            if uid not in self.opaque:
                raise Unsupported('loop state discovered late')
            self.merge_buf(buf, init, self.opaque[uid],
                           [(band(*p[0]), p[2].get(uid, init)) for p in self.paths])
        # names
        self.final = []
        for k, nme in enumerate(self.names):
            self.final.append(self.merge_name(k, nme))
        # appends
        keys = {k for p in self.paths for k in p[3]}
        for k in keys:
            if any(k not in p[3] for p in self.paths):
                raise Unsupported('conditional append in a symbolic loop')
            lst = self.paths[0][3][k][0]
            if len(lst):
                raise Unsupported('append to a non-empty list in a symbolic loop')
            v = merge_vals([(band(*p[0]), p[3][k][1]) for p in self.paths])
            lst.axis, lst.gi, lst.val = ax, gi, v

    def merge_name(self, k, nme):
        ini = self.init[k]
        vals = [(band(*p[0]), p[1][k]) for p in self.paths]
        if all(v is ini for c, v in vals):
            return ini
        if isinstance(ini, (SArray,)) and all(isinstance(v, SArray) and v.buf is ini.buf for c, v in vals):
            return ini
        try:
            v = merge_vals(vals)
        except Unsupported:
            return Poison(nme)
        o = self.carry[k]
        unit = None
        if isinstance(v, SQuantity):
            unit = v.unit
            v = v.v
        if not isinstance(v, Sym) or o is None and ini is not UNBOUND and not isinstance(ini, Unbound):
            return Poison(nme)
        t = v.t
        if o is not None and o in fv(t):
            if unit is not None and (not isinstance(ini, SQuantity)):
                return Poison(nme)
            d = self.delta(t, o)
            if d is None:
                return Poison(nme)
            i0 = ini.v.t if isinstance(ini, SQuantity) else scal(ini).t
            if unit is not None and unit is not ini.unit:
                return Poison(nme)
            gi = self.gi
            s = reduce_sum(self.ax.lens, lambda r: subst(d, dict(zip(gi, r))),
                           (lambda r: self.ax.cond(r)) if self.ax.mask is not None else None)
            r = Sym(add(i0, s), v.kind)
            return r if unit is None else SQuantity(r, unit)
        if any(x.op in ('v', 'fn', 'bfn') and str(x.args[0]).startswith('§') for x in tm.walk(t)):
            return Poison(nme)
        # value of the last iteration
        if self.ax.mask is not None or len(self.gi) != 1:
            return Poison(nme)
        r = Sym(subst(t, {self.gi[0]: sub(self.ax.lens[0], ONE)}), v.kind)
        return r if unit is None else SQuantity(r, unit)

    def delta(self, t, o):
        """d with t == o + d and d free of o"""
        if t is o:
            return ZERO
        if t.op == 'ite':
            if o in fv(t.args[0]):
                return None
            a, b = self.delta(t.args[1], o), self.delta(t.args[2], o)
            return None if a is None or b is None else ite(t.args[0], a, b)
        if t.op == '+' and t.args.count(o) == 1:
            r = add(*[x for x in t.args if x is not o])
            return r if o not in fv(r) else None
        c = E.prover.base
        r = c.to_term(c.nf(sub(t, o)))
        return r if o not in fv(r) else None

    def merge_buf(self, buf, init, nm, paths):
        ax, gi = self.ax, self.gi
        b = tuple(a.generic() for a in buf.axes)
        O = (bfn if buf.kind == 'b' else fn)(nm, *[r for p in b for r in p])
        N = paths[-1][1](b)
        for c, e in reversed(paths[:-1]):
            N = ite(c, e(b), N)
        others = ['§']

        def has_old(t):
            return any(x.op in ('fn', 'bfn') and str(x.args[0]).startswith('§old') for x in tm.walk(t)) or \
                any(x.op == 'v' and str(x.args[0]).startswith('§carry') for x in tm.walk(t))
        # accumulation
        if buf.kind != 'b':
            d = self.delta_fn(N, O)
            if d is not None and not has_old(d):
                def elem(idx):
                    m = dict(zip([x for p in b for x in p], [x for p in idx for x in p]))
                    dd = subst(d, m)
                    return add(init(idx), reduce_sum(ax.lens, lambda r: subst(dd, dict(zip(gi, r))),
                                                     (lambda r: ax.cond(r)) if ax.mask is not None else None))
                self.finish_buf(buf, elem)
                return
        # scatter
        keep = self.kept(N, O)
        # disjoint writes: written => b_k == gi
        pos = None
        for k, p in enumerate(b):
            if len(p) == len(gi) and E.entails(implies(band(*([bnot(keep)] + lits_(ax.cond(gi)))),
                                                       band(*[eq(x, y) for x, y in zip(p, gi)]))):
                pos = k
                break
        if pos is None:
            raise Unsupported('loop iterations may write the same element')
        # reads of the old contents only inside the own row
        flatpos = sum(len(p) for p in b[:pos])
        for x in tm.walk(N):
            if x.op in ('fn', 'bfn') and str(x.args[0]).startswith('§old'):
                if x.args[0] != nm:
                    raise Unsupported('loop reads another modified array')
                a = x.args[1 + flatpos:1 + flatpos + len(gi)]
                if not all(p is q or E.entails(implies(bnot(keep), eq(p, q))) for p, q in zip(a, gi)) and x is not O:
                    raise Unsupported('loop reads elements written by other iterations')
            if x.op == 'v' and str(x.args[0]).startswith('§carry'):
                raise Unsupported('loop-carried scalar written to an array')
        init_ = init

        def elem(idx):
            row = idx[pos]
            m = dict(zip(gi, row))
            m.update(zip([x for p in b for x in p], [x for p in idx for x in p]))
            t = subst(N, m)
            return self.replace_old(t, nm, buf, init_)
        if ax.mask is None:
            self.finish_buf(buf, elem)
        else:
            self.finish_buf(buf, lambda idx: ite(ax.cond(idx[pos]), elem(idx), init(idx)))

    def finish_buf(self, buf, elem):
        buf.write(elem)

    def replace_old(self, t, nm, buf, init):
        m = {}
        for x in tm.walk(t):
            if x.op in ('fn', 'bfn') and x.args[0] == nm:
                args = list(x.args[1:])
                idx = []
                for a in buf.axes:
                    idx.append(tuple(args[:len(a.lens)]))
                    args = args[len(a.lens):]
                m[x] = init(tuple(idx))
        return subst(t, m)

    def delta_fn(self, t, O):
        if t is O:
            return ZERO
        if t.op == 'ite':
            a, b = self.delta_fn(t.args[1], O), self.delta_fn(t.args[2], O)
            return None if a is None or b is None else ite(t.args[0], a, b)
        if t.op == '+' and t.args.count(O) == 1:
            return add(*[x for x in t.args if x is not O])
        return None

    def kept(self, t, O):
        """condition under which the element keeps its old value"""
        if t is O:
            return TRUE
        if t.op == 'ite':
            return ite(t.args[0], self.kept(t.args[1], O), self.kept(t.args[2], O))
        return FALSE

    def finish(self, *vals):
        if not self.symbolic:
            return vals
        if self.zero:
            return self.init if hasattr(self, 'init') else vals
        return tuple(self.final)


class SList(GenList):
    """list literal; appends in a symbolic loop make it generic"""

    def __init__(self, items=()):
        super().__init__(None, None, None)
        for x in items:
            list.append(self, x)

    def append(self, v):
        for lp in reversed(E.loops[getattr(self, '_loopdepth', 0):]):
            if lp.symbolic:
                lp.append(self, v)
                return
        if self.axis is not None:
            raise Unsupported('append to a symbolic-length list')
        list.append(self, v)


def make_list(*items):
    r = SList(items)
    r._loopdepth = len(E.loops)
    return r


# ------------------------------------------------------------------ loops with an invariant from a contract
def make_loop(it, names, stored, scope):
    rule = E.rules.get('loops')
    if rule is not None and isinstance(it, SymRange) and E.local is None and sym_axis(it) is not None:
        st = rule.for_loop(it, names, stored, dict(scope))
        if st is not None:
            return ContractLoop(rule, st, it, names)
    return Loop(it, names)


def make_while(names, stored):
    rule = E.rules.get('loops')
    if rule is not None and E.local is None:
        return rule.while_loop(names, stored, ContractWhile)
    return None


class Guarded:
    """writes inside the body may only reach what the invariant describes"""
    touched = ()

    def touch(self, buf):
        if buf.uid < self.born and buf.uid not in self.owned:
            raise Unsupported('loop writes an array its invariant does not describe')

    def append(self, lst, v):
        raise Unsupported('append inside a loop under contract')

    def push(self):
        from .sym import Buf
        self.owned = {b.uid for b in self.state.bufs()}
        self.born = next(Buf._uid)
        E.loops.append(self)

    def pop(self):
        if E.loops and E.loops[-1] is self:
            E.loops.pop()


class ContractLoop(Guarded):
    """`for i in range(a, b)`: the invariant holds at a; an arbitrary iteration keeps it; afterwards it holds at b"""

    def __init__(self, rule, state, it, names):
        self.rule, self.state, self.it, self.names = rule, state, it, names
        self.broke = False

    def __iter__(self):
        t = lambda x: x.t if isinstance(x, Sym) else num(x)
        a, b = t(self.it.start), t(self.it.stop)
        if not E.entails(le(a, b)):
            raise Unsupported('loop under contract that may be empty')
        self.stop = b
        for label, g in self.state.goals(a):
            E.oblige('loop invariant holds at the start: ' + label, g)
        if E.decide(bfn('\u00a7iteration', num(self.state.uid))):
            k = next(E.uniq)
            i = var('\u00a7it%d' % k, 'ip')
            E.facts.var(i, le(a, i), lt(i, b))
            self.i = i
            self.phase = 'body'
            yield Sym(i, 'i', True)
            if not self.broke:
                raise Unsupported('loop under contract left unexpectedly')
        else:
            self.phase = 'exit'

    def begin(self, *vals):
        self.state.read(dict(zip(self.names, vals)))
        new = self.state.havoc(self.i)
        self.push()
        self.rule.inside(self.state, self.i)
        return tuple(new.get(n, UNBOUND) for n in self.names)

    def end(self, *vals):
        if self.broke or isinstance(sys.exc_info()[1], (PathStop, Unsupported)):
            return
        self.state.read(dict(zip(self.names, vals)))
        for label, g in self.state.goals(simp_(add(self.i, ONE))):
            E.oblige('loop invariant kept: ' + label, g)
        raise PathStop()

    def brk(self):
        self.broke = True

    def exc(self, e):
        self.broke = True
        raise e

    def finish(self, *vals):
        self.pop()
        if self.broke:
            return vals
        self.state.read(dict(zip(self.names, vals)))
        new = self.state.havoc(self.stop)
        return tuple(new.get(n, UNBOUND) for n in self.names)


class ContractWhile(Guarded):
    def __init__(self, state, names):
        self.state, self.names = state, names

    def enter(self, scope):
        self.state.read(scope)
        for label, g in self.state.goals():
            E.oblige('inner loop invariant holds at the start: ' + label, g)
        new = self.state.havoc()
        self.push()
        return tuple(new.get(n, UNBOUND) for n in self.names)

    def end(self, scope):
        self.state.read(scope)
        for label, g in self.state.goals():
            E.oblige('inner loop invariant kept: ' + label, g)
        raise PathStop()

    def leave(self, scope):
        self.pop()


def simp_(t):
    from .sym import simp
    return simp(t)
