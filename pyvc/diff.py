"""Symbolic differentiation of terms (for lemmas about rates)."""
from fractions import Fraction
from .terms import *
from .engine import Unsupported


def derivative(t, x):
    if t is x:
        return ONE
    if x not in fv(t):
        return ZERO
    op = t.op
    if op == '+':
        return add(*[derivative(a, x) for a in t.args])
    if op == '*':
        out = []
        for i, a in enumerate(t.args):
            d = derivative(a, x)
            if d is not ZERO:
                out.append(mul(d, *[b for j, b in enumerate(t.args) if j != i]))
        return add(*out)
    if op == '^':
        b, e = t.args
        if x in fv(e):
            raise Unsupported('derivative of a variable exponent')
        return mul(e, power(b, sub(e, ONE)), derivative(b, x))
    if op == 'fn' and len(t.args) == 2:
        n, a = t.args
        d = derivative(a, x)
        if n == 'exp':
            return mul(t, d)
        if n == 'log':
            return div(d, a)
        if n == 'sin':
            return mul(fn('cos', a), d)
        if n == 'cos':
            return neg(mul(fn('sin', a), d))
        if n == 'tanh':
            return mul(sub(ONE, power(t, num(2))), d)
    raise Unsupported('derivative of ' + op)
