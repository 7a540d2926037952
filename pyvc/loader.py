"""Mechanical extraction: the real source of the package is parsed on every run, and the very statements that run
are executed over symbolic values.  The syntactic rewriting below is all that is changed (see DESIGN.md):
float literals -> exact rationals, `/` and `**` -> exact helpers, comprehensions and `for` -> drivers that also accept
symbolic lengths, list literals -> lists that can become symbolic, bare `except` -> `except Exception`."""
import inspect
import ast
import builtins
import os
import sys
import types
from fractions import Fraction
from .terms import *
from .engine import E, Unsupported, PathStop
from . import sym
from .sym import (Sym, SArray, SQuantity, GenList, scal, coerce, binop, as_array, Unit, list_array, intval, new_array,
                  Axis)
from . import npshim
from .npshim import np as NP, Marker, SymRange, StrArray
from . import ushim
from . import loops
from .loops import (SymZip, SymEnum, SymMap, sym_axis, concretise, comp, Loop, make_loop, make_while, SList, make_list, UNBOUND, Unbound)

REPO = os.environ.get('VERIF_REPO', '/repo')


# ------------------------------------------------------------------ arithmetic helpers
def _div(a, b):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if b == 0:
            raise ZeroDivisionError('division by zero')
        return binop('/', scal(a), scal(b))
    r = a / b
    return r


def _pow(a, b):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if type(a) is int and type(b) is int and b >= 0:
            return a ** b
        return binop('**', scal(a), scal(b))
    return a ** b


def _idiv(a, b):
    if isinstance(a, (int, float)):
        return _div(a, b)
    if isinstance(a, Sym):
        return a / b
    a /= b
    return a


def _ipow(a, b):
    if isinstance(a, (int, float)):
        return _pow(a, b)
    a **= b
    return a


def const(v):
    return Sym(sym.lit_float(v), 'f', True)


def negc(x):
    return -x


# ------------------------------------------------------------------ builtins
class TypeMarker(Marker):
    pass


def b_len(x):
    f = getattr(type(x), 'slen', None)
    if f is not None:
        return x.slen()
    if isinstance(x, SymRange):
        return Sym(loops.tm_len(x), 'i', True)
    if isinstance(x, Sym):
        raise TypeError("object of type 'float' has no len()")
    return len(x)


def b_range(*a):
    if any(isinstance(x, Sym) and x.t.op != 'num' for x in a):
        vals = [x for x in a]
        if len(vals) == 1:
            return SymRange(0, vals[0])
        if len(vals) == 2:
            return SymRange(vals[0], vals[1])
        raise Unsupported('range with a symbolic step')
    return range(*[int(x) if isinstance(x, Sym) else x for x in a])


def is_float(x):
    return isinstance(x, float) or (isinstance(x, Sym) and x.kind == 'f')


def is_int(x):
    # numpy integers are not python ints
    return isinstance(x, int) or (isinstance(x, Sym) and x.kind == 'i' and x.py) or \
        (isinstance(x, Sym) and x.kind == 'b' and x.py)


def is_bool(x):
    return isinstance(x, bool) or (isinstance(x, Sym) and x.kind == 'b' and x.py)


def b_float(x=0):
    if isinstance(x, Sym):
        return Sym(sym.b2n(x.t), 'f', True)
    if isinstance(x, str):
        return const(float(x))
    if isinstance(x, SQuantity):
        if x.unit.dims != sym.NODIM:
            raise TypeError('only dimensionless scalar quantities can be converted to Python scalars')
        return b_float(x.to(sym.DIMLESS).v)
    if isinstance(x, SArray):
        return b_float(npshim.item(x))
    if isinstance(x, (int, float)):
        return const(float(x)) if isinstance(x, float) else Sym(num(x), 'f', True)
    return float(x)


def b_int(x=0, *a):
    if a:
        return int(x, *a)
    if isinstance(x, SArray):
        x = npshim.item(x)
    if isinstance(x, SQuantity):
        if x.unit.dims != sym.NODIM:
            raise TypeError('only dimensionless scalar quantities can be converted to Python scalars')
        x = x.to(sym.DIMLESS).v
    if isinstance(x, Sym):
        t = sym.b2n(x.t)
        if sym.is_int_term(t):
            return intval(t)
        if t.op == 'num':
            return int(t.args[0])
        r = fn('trunc', t)
        return Sym(r, 'i', True)
    return int(x)


def b_bool(x=False):
    return bool(x)


def type_of(x):
    for f, m in ((is_bool, bool), (is_int, int), (is_float, float)):
        if f(x):
            return MARK[m]
    if isinstance(x, (GenList, list)):
        return MARK[list]
    return type(x)


def mk_type(name, real, test, call):
    class M(Marker):
        def __call__(self, *a, **k):
            return call(*a, **k)

        def __getattr__(self, n):
            if n.startswith('__') and n not in ('__name__',):
                raise AttributeError(n)
            return getattr(real, n)
    m = M(name, test)
    m.real = real
    return m


def b_list(x=()):
    if isinstance(x, (SymZip, SymEnum, SymMap, SymRange)) or sym_axis_safe(x) is not None:
        return comp(lambda v: v, x)
    r = SList(concretise(x))
    r._loopdepth = len(E.loops)
    return r


def sym_axis_safe(x):
    try:
        return sym_axis(x)
    except TypeError:
        return None


def b_tuple(x=()):
    if sym_axis_safe(x) is not None:
        raise Unsupported('tuple of symbolic length')
    return tuple(concretise(x))


def b_zip(*xs, strict=False):
    z = SymZip(xs)
    if any(sym_axis(x) is not None for x in xs):
        return z
    return zip(*[concretise(x) for x in xs])


def b_enumerate(x, start=0):
    if sym_axis(x) is not None:
        return SymEnum(x, start)
    return enumerate(concretise(x), start)


def b_map(f, *xs):
    if any(sym_axis(x) is not None for x in xs):
        return SymMap(f, xs)
    return map(f, *[concretise(x) for x in xs])


def b_filter(f, x):
    if sym_axis(x) is not None:
        return comp(lambda v: v, x, [f if f is not None else (lambda v: v)])
    return filter(f, concretise(x))


def b_sum(x, start=0):
    if sym_axis(x) is not None:
        a = x if isinstance(x, (SArray, SQuantity)) else list_array(comp(lambda v: v, x))
        return npshim.sum_(a, axis=0) + start if not (type(start) is int and start == 0) else npshim.sum_(a, axis=0)
    r = start
    for v in concretise(x):
        r = r + v
    return r


def b_any(x):
    if sym_axis(x) is not None:
        return bool(npshim.any_(list_array(comp(lambda v: v, x))))
    return any(bool(v) for v in concretise(x))


def b_all(x):
    if sym_axis(x) is not None:
        return bool(npshim.all_(list_array(comp(lambda v: v, x))))
    return all(bool(v) for v in concretise(x))


def b_ext(which):
    def f(*a, key=None, default=None):
        if key is not None:
            raise Unsupported('min/max with a key')
        if len(a) == 1:
            x = a[0]
            if sym_axis(x) is not None:
                g = npshim.max_ if which == 'max' else npshim.min_
                return g(x if isinstance(x, (SArray, SQuantity)) else list_array(comp(lambda v: v, x)))
            a = list(concretise(x))
        if not a:
            raise ValueError('empty sequence')
        r = a[0]
        for v in a[1:]:
            if isinstance(v, (Sym, int)) and isinstance(r, (Sym, int)):
                if isinstance(v, int) and isinstance(r, int):
                    r = max(r, v) if which == 'max' else min(r, v)
                    continue
                s, t = scal(r), scal(v)
                c = lt(s.t, t.t) if which == 'max' else lt(t.t, s.t)
                k = sym.kjoin(s.kind, t.kind)
                c2 = E.prover.canon(c)
                r = v if c2 is TRUE else (r if c2 is FALSE else Sym(ite(c, t.t, s.t), k, True))
            else:
                c = (v > r) if which == 'max' else (v < r)
                if bool(c):
                    r = v
        return r
    return f


def b_abs(x):
    return abs(x)


def b_sorted(x, key=None, reverse=False):
    x = list(concretise(x))
    if any(isinstance(v, Sym) and v.t.op != 'num' for v in x):
        raise Unsupported('sorting symbolic values')
    return SList(sorted(x, key=key, reverse=reverse))


def b_isinstance(x, ts):
    if isinstance(ts, tuple):
        return any(b_isinstance(x, t) for t in ts)
    if isinstance(ts, Marker):
        return ts.test(x)
    if ts in MARK:
        return MARK[ts].test(x)
    if isinstance(ts, type):
        return isinstance(x, ts)
    if isinstance(ts, types.UnionType):
        return isinstance(x, ts)
    raise Unsupported('isinstance against %r' % (ts,))


def b_round(x, n=None):
    if isinstance(x, (Sym, SArray, SQuantity)):
        if n is None:
            return b_int(NP.round(x))
        raise Unsupported('round to digits')
    return round(x) if n is None else round(x, n)


def b_print(*a, **k):
    E.events.append(('print',) + tuple(x if isinstance(x, str) else type(x).__name__ for x in a))


def b_hasattr(x, n):
    try:
        getattr(x, n)
        return True
    except AttributeError:
        return False


_no = object()


def b_getattr(x, n, d=_no):
    try:
        return getattr(x, n)
    except AttributeError:
        if d is _no:
            raise
        return d


def b_iter(x):
    if sym_axis_safe(x) is not None:
        raise Unsupported('iter() of a symbolic-length object')
    return iter(concretise(x))


def b_reversed(x):
    if sym_axis_safe(x) is not None:
        raise Unsupported('reversed() of symbolic length')
    return reversed(list(concretise(x)))


def b_set(x=()):
    return set(concretise(x))


def b_dict(*a, **k):
    return dict(*a, **k)


def b_pow(a, b):
    return _pow(a, b)


def b_divmod(a, b):
    return a // b, a % b


def b_callable(x):
    return callable(x) and not isinstance(x, (Sym, SArray, SQuantity))


MARK = {
    float: mk_type('float', float, is_float, b_float),
    int: mk_type('int', int, is_int, b_int),
    bool: mk_type('bool', bool, is_bool, b_bool),
    list: mk_type('list', list, lambda x: isinstance(x, list), b_list),
    tuple: mk_type('tuple', tuple, lambda x: isinstance(x, tuple), b_tuple),
    complex: mk_type('complex', complex, lambda x: isinstance(x, complex), complex),
}


def conc(x):
    if sym_axis_safe(x) is not None:
        raise Unsupported('loop form over a symbolic length')
    return concretise(x)


def loc_get(d, n):
    return d.get(n, UNBOUND)


def comp_nested(f, it):
    """[elt for a in A for b in B(a)]"""
    out = make_list()
    for x in conc(it):
        r = f(x)
        for y in conc(r):
            list.append(out, y)
    return out


def ld(v, name):
    return v


def make_builtins(importer):
    d = dict(vars(builtins))
    d.update(len=b_len, range=b_range, isinstance=b_isinstance, float=MARK[float], int=MARK[int], bool=MARK[bool],
             list=MARK[list], tuple=MARK[tuple], zip=b_zip, enumerate=b_enumerate, map=b_map, filter=b_filter,
             sum=b_sum, any=b_any, all=b_all, min=b_ext('min'), max=b_ext('max'), abs=b_abs, sorted=b_sorted,
             type=TYPE, print=b_print, hasattr=b_hasattr, getattr=b_getattr, iter=b_iter, round=b_round,
             reversed=b_reversed, pow=b_pow, divmod=b_divmod, callable=b_callable,
             open=banned('open'), input=banned('input'), exec=banned('exec'), eval=banned('eval'),
             __import__=importer)
    return d


def banned(n):
    def f(*a, **k):
        raise Unsupported(n + '()')
    return f


class _Type(Marker):
    def __call__(self, *a):
        if len(a) == 1:
            return type_of(a[0])
        return type(*a)

    def __getattr__(self, n):
        return getattr(type, n)


TYPE = _Type('type', lambda x: isinstance(x, (type, Marker)))


# ------------------------------------------------------------------ AST rewriting
class Rewrite(ast.NodeTransformer):
    def __init__(self):
        self.n = 0
        self.scope = ['module']
        self.loopdepth = 0
        self.loopstack = []

    def call(self, name, *args):
        return ast.Call(ast.Name(name, ast.Load()), list(args), [])

    def visit_Constant(self, node):
        if type(node.value) is float:
            return ast.copy_location(self.call('_vc_const', node), node)
        if type(node.value) is complex:
            return ast.copy_location(self.call('_vc_banned', ast.Constant('complex')), node)
        return node

    def visit_JoinedStr(self, node):
        # formatted text: keep, formatting of symbolic values is opaque
        self.generic_visit(node)
        return node

    def visit_FormattedValue(self, node):
        node.value = self.visit(node.value)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Div):
            return ast.copy_location(self.call('_vc_div', node.left, node.right), node)
        if isinstance(node.op, ast.Pow):
            return ast.copy_location(self.call('_vc_pow', node.left, node.right), node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.target, ast.Name) and isinstance(node.op, (ast.Div, ast.Pow)):
            f = '_vc_idiv' if isinstance(node.op, ast.Div) else '_vc_ipow'
            return ast.copy_location(ast.Assign([node.target], self.call(
                f, ast.Name(node.target.id, ast.Load()), node.value)), node)
        return node

    def visit_List(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return ast.copy_location(self.call('_vc_list', *node.elts), node)
        return node

    def visit_JoinedStr_(self, node):
        return node

    LOG = ('debug', 'info', 'warning', 'error', 'critical')

    def visit_If(self, node):
        """a branch that only writes a fixed text to the log: the test is evaluated, both outcomes go on together"""
        def fixed_text(st):
            c = st.value if isinstance(st, ast.Expr) else None
            return isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in self.LOG \
                and isinstance(c.func.value, ast.Name) and c.func.value.id == 'logger' and not c.keywords \
                and all(isinstance(a, ast.Constant) and isinstance(a.value, str) for a in c.args)
        if node.body and not node.orelse and all(fixed_text(st) for st in node.body):
            return ast.copy_location(ast.Expr(self.call('_vc_test', self.visit(node.test))), node)
        self.generic_visit(node)
        return node

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        if node.type is None:
            node.type = ast.Name('Exception', ast.Load())
        return node

    # comprehensions
    def lam(self, target, body):
        """function of one item for a target pattern"""
        if isinstance(target, ast.Name):
            return ast.Lambda(ast.arguments([], [ast.arg(target.id)], None, [], [], None, []), body)
        if isinstance(target, (ast.Tuple, ast.List)) and all(isinstance(e, ast.Name) for e in target.elts):
            inner = ast.Lambda(ast.arguments([], [ast.arg(e.id) for e in target.elts], None, [], [], None, []), body)
            self.n += 1
            nm = '_vct%d' % self.n
            return ast.Lambda(ast.arguments([], [ast.arg(nm)], None, [], [], None, []),
                              ast.Call(inner, [ast.Starred(ast.Name(nm, ast.Load()), ast.Load())], []))
        if isinstance(target, (ast.Tuple, ast.List)):
            # nested pattern: unpack step by step
            names = []
            subs = []
            for e in target.elts:
                if isinstance(e, ast.Name):
                    names.append(e.id)
                else:
                    self.n += 1
                    nm = '_vcu%d' % self.n
                    names.append(nm)
                    subs.append((nm, e))
            for nm, e in subs:
                body = ast.Call(self.lam(e, body), [ast.Name(nm, ast.Load())], [])
            return self.lam(ast.Tuple([ast.Name(n, ast.Load()) for n in names], ast.Load()), body)
        raise SyntaxError('comprehension target')

    def comp_expr(self, elt, gens):
        g = gens[0]
        if g.is_async:
            raise SyntaxError('async comprehension')
        if len(gens) == 1:
            return self.call('_vc_comp', self.lam(g.target, elt), g.iter,
                             ast.Tuple([self.lam(g.target, c) for c in g.ifs], ast.Load()))
        inner = self.comp_expr(elt, gens[1:])
        it = g.iter
        if g.ifs:
            it = self.call('_vc_comp', self.lam(g.target, self.tuple_of(g.target)), it,
                           ast.Tuple([self.lam(g.target, c) for c in g.ifs], ast.Load()))
        return self.call('_vc_nested', self.lam(g.target, inner), it)

    def tuple_of(self, target):
        if isinstance(target, ast.Name):
            return ast.Name(target.id, ast.Load())
        return ast.Tuple([self.tuple_of(e) for e in target.elts], ast.Load())

    def visit_ListComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(self.comp_expr(node.elt, node.generators), node)

    visit_GeneratorExp = visit_ListComp

    def visit_SetComp(self, node):
        self.generic_visit(node)
        for g in node.generators:
            g.iter = self.call('_vc_conc', g.iter)
        return node

    visit_DictComp = visit_SetComp

    # functions
    def visit_FunctionDef(self, node):
        saved = self.loopstack
        self.loopstack = []
        self.scope.append('def')
        self.generic_visit(node)
        self.scope.pop()
        self.loopstack = saved
        return node

    def visit_Lambda(self, node):
        saved = self.loopstack
        self.loopstack = []
        self.generic_visit(node)
        self.loopstack = saved
        return node

    def visit_ClassDef(self, node):
        saved = self.loopstack
        self.loopstack = []
        self.scope.append('class')
        self.generic_visit(node)
        self.scope.pop()
        self.loopstack = saved
        return node

    # for loops
    def assigned(self, stmts):
        out = []

        def names(t):
            if isinstance(t, ast.Name):
                if t.id not in out:
                    out.append(t.id)
            elif isinstance(t, (ast.Tuple, ast.List)):
                for e in t.elts:
                    names(e)
            elif isinstance(t, ast.Starred):
                names(t.value)

        class V(ast.NodeVisitor):
            def visit_FunctionDef(s, n):
                if n.name not in out:
                    out.append(n.name)

            def visit_Lambda(s, n):
                pass

            def visit_ClassDef(s, n):
                if n.name not in out:
                    out.append(n.name)

            def visit_Assign(s, n):
                for t in n.targets:
                    names(t)
                s.visit(n.value)

            def visit_AugAssign(s, n):
                names(n.target)

            def visit_AnnAssign(s, n):
                names(n.target)

            def visit_NamedExpr(s, n):
                names(n.target)
                s.visit(n.value)

            def visit_For(s, n):
                names(n.target)
                s.generic_visit(n)

            def visit_With(s, n):
                for i in n.items:
                    if i.optional_vars is not None:
                        names(i.optional_vars)
                s.generic_visit(n)

            def visit_ListComp(s, n):
                pass
            visit_GeneratorExp = visit_SetComp = visit_DictComp = visit_ListComp

            def visit_Import(s, n):
                for a in n.names:
                    nm = (a.asname or a.name).split('.')[0]
                    if nm not in out:
                        out.append(nm)
            visit_ImportFrom = visit_Import
        v = V()
        for st in stmts:
            v.visit(st)
        return out

    def visit_For(self, node):
        if node.orelse:
            node.iter = self.call('_vc_conc', node.iter)
            self.loopstack.append(None)
            self.generic_visit(node)
            self.loopstack.pop()
            return node
        names = self.assigned([ast.Assign([node.target], ast.Constant(None))] + node.body)
        self.n += 1
        L, X = '_vcL%d' % self.n, '_vcx%d' % self.n
        it = self.visit(node.iter)
        self.loopstack.append(L)
        body = []
        for s in node.body:
            r = self.visit(s)
            body.extend(r if isinstance(r, list) else [r])
        self.loopstack.pop()
        loc = 'globals' if self.scope[-1] == 'module' else 'locals'
        get = lambda: [self.call('_vc_get', self.call('_vc_' + loc), ast.Constant(n)) for n in names]
        if self.scope[-1] == 'class':
            raise SyntaxError('loop in a class body')

        def locs():
            return [ast.Call(ast.Name('_vc_get', ast.Load()),
                             [ast.Call(ast.Name(loc, ast.Load()), [], []), ast.Constant(n)], []) for n in names]
        store = lambda meth: ast.Assign(
            [ast.Tuple([ast.Name(n, ast.Store()) for n in names], ast.Store())],
            ast.Call(ast.Attribute(ast.Name(L, ast.Load()), meth, ast.Load()), locs(), []))
        end = ast.Expr(ast.Call(ast.Attribute(ast.Name(L, ast.Load()), 'end', ast.Load()), locs(), []))
        self.n += 1
        ev = '_vce%d' % self.n
        trybody = [ast.Assign([node.target], ast.Name(X, ast.Load()))] + body
        inner = ast.Try(trybody, [ast.ExceptHandler(ast.Name('Exception', ast.Load()), ev, [
            ast.Expr(ast.Call(ast.Attribute(ast.Name(L, ast.Load()), 'exc', ast.Load()),
                              [ast.Name(ev, ast.Load())], []))])], [], [end])
        loop = ast.For(ast.Name(X, ast.Store()), ast.Name(L, ast.Load()), [store('begin'), inner], [])
        out = [ast.Assign([ast.Name(L, ast.Store())],
                          self.call('_vc_loop', it, ast.Tuple([ast.Constant(n) for n in names], ast.Load()),
                                    ast.Tuple([ast.Constant(n) for n in self.stored(node.body)], ast.Load()),
                                    ast.Call(ast.Name(loc, ast.Load()), [], []))),
               loop, store('finish')]
        for o in out:
            ast.copy_location(o, node)
        return out

    def stored(self, stmts):
        """names of arrays with element assignments"""
        out = []
        for st in stmts:
            for n in ast.walk(st):
                if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and \
                        n.value.id not in out:
                    out.append(n.value.id)
        return out

    def visit_While(self, node):
        names, muts = self.assigned(node.body), self.stored(node.body)
        plain = not any(isinstance(n, (ast.Continue, ast.NamedExpr)) for n in ast.walk(node))
        self.loopstack.append(None)
        self.generic_visit(node)
        self.loopstack.pop()
        if node.orelse or not plain or self.scope[-1] in ('module', 'class') or not names + muts:
            return node
        self.n += 1
        W = '_vcw%d' % self.n
        wn = lambda: ast.Name(W, ast.Load())
        tup = lambda l: ast.Tuple([ast.Constant(n) for n in l], ast.Load())
        loc = lambda: ast.Call(ast.Name('locals', ast.Load()), [], [])
        meth = lambda m: ast.Call(ast.Attribute(wn(), m, ast.Load()), [loc()], [])
        guard = lambda b: ast.If(ast.Compare(wn(), [ast.IsNot()], [ast.Constant(None)]), [b], [])
        ent = meth('enter')
        node.body.append(guard(ast.Expr(meth('end'))))
        out = [ast.Assign([ast.Name(W, ast.Store())], self.call('_vc_while', tup(names), tup(muts))),
               guard(ast.Assign([ast.Tuple([ast.Name(n, ast.Store()) for n in names], ast.Store())], ent) if names
                     else ast.Expr(ent)),
               node, guard(ast.Expr(meth('leave')))]
        for o in out:
            ast.copy_location(o, node)
        return out

    def visit_Break(self, node):
        if self.loopstack and self.loopstack[-1] is not None:
            return [ast.Expr(ast.Call(ast.Attribute(ast.Name(self.loopstack[-1], ast.Load()), 'brk', ast.Load()),
                                      [], [])), node]
        return node

    def visit_Return(self, node):
        self.generic_visit(node)
        out = [ast.Expr(ast.Call(ast.Attribute(ast.Name(L, ast.Load()), 'brk', ast.Load()), [], []))
               for L in self.loopstack if L is not None]
        return out + [node] if out else node


def log_test(x):
    if not (isinstance(x, Sym) and x.kind == 'b'):
        bool(x)


HELPERS = dict(_vc_const=const, _vc_test=log_test, _vc_div=_div, _vc_pow=_pow, _vc_idiv=_idiv, _vc_ipow=_ipow, _vc_list=make_list,
               _vc_comp=comp, _vc_nested=comp_nested, _vc_conc=conc, _vc_get=loc_get, _vc_loop=make_loop, _vc_while=make_while,
               _vc_banned=lambda n: banned(n)())


def rewrite(source, filename):
    tree = ast.parse(source, filename)
    tree = Rewrite().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec')


# ------------------------------------------------------------------ modules
class NS:
    """a namespace standing for an external module"""

    def __init__(self, name, **kw):
        self.__dict__['__name__'] = name
        self.__dict__.update(kw)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Missing(self.__dict__['__name__'] + '.' + n)


class Missing:
    """anything outside the assumed library contracts: using it stops the symbolic run (never an alarm)"""

    def __init__(self, name):
        object.__setattr__(self, '_n', name)

    def _die(self, *a, **k):
        raise Unsupported('outside the assumed library: ' + object.__getattribute__(self, '_n'))
    __call__ = __getitem__ = __iter__ = __len__ = __bool__ = __enter__ = __add__ = __mul__ = _die

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Missing(object.__getattribute__(self, '_n') + '.' + n)

    def __mro_entries__(self, bases):
        return ()


class Module(types.ModuleType):
    pass


class Dispatcher:
    """call of a package function: contract stub when active, otherwise the body"""

    def __init__(self, world, qual, f):
        self.world, self.qual, self.f = world, qual, f
        self.__name__ = f.__name__
        self.__doc__ = f.__doc__
        self.__qualname__ = qual
        self.__module__ = f.__module__

    def __call__(self, *a, **k):
        w = self.world
        w.called.add(self.qual)
        st = w.stubs.get(self.qual)
        if st is not None:
            r = st(self.f, a, k)
            if r is not NotImplemented:
                return r
        return self.f(*a, **k)

    def __get__(self, obj, cls=None):
        return self if obj is None else types.MethodType(self, obj)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return getattr(self.f, n)


class World:
    """one instance of the package over symbolic values"""

    def __init__(self, libs, root=None, package='legwork'):
        self.root = root or os.path.join(REPO, 'src', 'legwork')
        self.package = package
        self.libs = libs
        self.mods = {}
        self.stubs = {}
        self.called = set()
        self.extra_script = {}
        self.errors = {}
        self.builtins = make_builtins(self.importer)

    def importer(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level > 0:
            pkg = (globals or {}).get('__package__') or self.package
            base = pkg.rsplit('.', level - 1)[0] if level > 1 else pkg
            full = base + ('.' + name if name else '')
            return self.pkg_import(full, fromlist)
        top = name.split('.')[0]
        if top == self.package:
            m = self.pkg_import(name, fromlist)
            return m if fromlist else self.load(self.package)
        if name in self.libs and fromlist:
            return self.libs[name]
        if fromlist:
            return self.libs.get(name) or NS(name)
        return self.libs.get(top) or NS(top)

    def pkg_import(self, full, fromlist):
        if full == self.package:
            m = self.mods.get(full)
            if m is None:
                m = self.mods[full] = self.fresh(full)
            for n in fromlist or ():
                p = os.path.join(self.root, n + '.py')
                if not hasattr(m, n) and os.path.exists(p):
                    setattr(m, n, self.load(full + '.' + n))
            return m
        return self.load(full)

    def fresh(self, full):
        m = Module(full)
        m.__dict__['__builtins__'] = self.builtins
        m.__dict__['__package__'] = self.package
        m.__dict__.update(HELPERS)
        return m

    def load(self, full):
        m = self.mods.get(full)
        if m is not None:
            return m
        if full == self.package:
            m = self.mods[full] = self.fresh(full)
            return m
        name = full.split('.', 1)[1]
        path = os.path.join(self.root, *name.split('.')) + '.py'
        if not os.path.exists(path):
            raise ModuleNotFoundError('No module named %r' % full)
        m = self.mods[full] = self.fresh(full)
        m.__file__ = path
        if name == '_logging':
            m.logger = self.libs['§logger']
            return m
        with open(path) as fh:
            src = fh.read()
        code = rewrite(src, path)
        exec(code, m.__dict__)
        for k, v in list(m.__dict__.items()):
            if isinstance(v, types.FunctionType) and v.__module__ == full \
                    and inspect.unwrap(v).__globals__ is m.__dict__:
                m.__dict__[k] = Dispatcher(self, name + '.' + v.__name__, v)
            elif isinstance(v, type) and v.__module__ == full:
                for k2, f in list(v.__dict__.items()):
                    if isinstance(f, types.FunctionType) and not k2.startswith('__') \
                            and inspect.unwrap(f).__globals__ is m.__dict__:
                        setattr(v, k2, Dispatcher(self, '%s.%s.%s' % (name, v.__name__, k2), f))
        pk = self.mods.setdefault(self.package, self.fresh(self.package))
        setattr(pk, name, m)
        return m

    def module(self, name):
        return self.load(self.package + '.' + name)

    def run_script(self, src, env, name='script'):
        """execute contract script text (same rewriting) with the given globals; returns its globals"""
        m = self.fresh('§' + name)
        m.__dict__.update(env)
        exec(rewrite(src, '<%s>' % name), m.__dict__)
        return m.__dict__
