"""Path exploration engine: the real code is re-executed once per feasible path over symbolic values."""
import itertools
import time
from fractions import Fraction
from .terms import *
from .solve import Facts, Prover, STATS


class Unsupported(BaseException):
    """the code uses something outside the engine's reach (never an alarm by itself)"""


class PathStop(BaseException):
    """abandon the current path (infeasible / local exploration finished)"""


class Engine:
    def __init__(self):
        self.reset()

    def reset(self, budget=60.0, max_paths=400):
        self.facts = Facts()
        self.prover = Prover(self.facts)
        self.hyps = []
        self.prefix = []
        self.taken = []
        self.pending = []
        self.local = None
        self.memo = {}
        self.ctr = itertools.count()
        self.axis_of_len = {}
        self.obligations = []
        self.trusted = set()
        self.stubs_used = set()
        self.loops = []
        self.bufs = []
        self.track = None
        self.max_paths = max_paths
        self.deadline = time.time() + budget
        self.npaths = 0
        self.events = []
        self.notes = set()
        self.asserts = []
        self.rules = {}
        self.loop_obs = []
        self.uniq = itertools.count()

    # ---- decisions
    def assume(self, c):
        if c is TRUE:
            return
        for a in (c.args if c.op == 'and' else (c,)):
            if a not in self.hyps:
                self.hyps.append(a)

    def decide(self, t):
        if t is TRUE:
            return True
        if t is FALSE:
            return False
        if time.time() > self.deadline:
            raise Unsupported('time budget of the symbolic execution exhausted')
        c = self.prover.canon(t)
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if c in self.hyps:
            return True
        if bnot(c) in self.hyps:
            return False
        known = closed(c)
        if known is not None:
            return known
        loc = self.local
        pre, taken, pending = (loc.prefix, loc.taken, loc.pending) if loc else \
            (self.prefix, self.taken, self.pending)
        k = len(taken)
        if k < len(pre):
            v = pre[k]
            taken.append(v)
            self.assume(c if v else bnot(c))
            return v
        key = (tuple(self.hyps), c)
        st = self.memo.get(key)
        if st is None:
            ft = self.prover.feasible(self.hyps + [c])
            ff = self.prover.feasible(self.hyps + [bnot(c)]) if ft else True
            st = (ft, ff)
            self.memo[key] = st
        ft, ff = st
        if ft and ff:
            pending.append(list(taken) + [False])
            taken.append(True)
            self.assume(c)
            return True
        # forced: recorded too, so that a replayed prefix meets the same decisions in the same order
        taken.append(ft)
        self.assume(c if ft else bnot(c))
        return ft

    def entails(self, c, budget=4.0):
        """prove c under the current hypotheses (no fork)"""
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        key = ('ent', tuple(self.hyps), c)
        r = self.memo.get(key)
        if r is None:
            r = self.prover.prove(self.hyps, c, budget=budget)[0]
            self.memo[key] = r
        return r

    def oblige(self, label, goal, budget=12.0):
        """proof obligation in the middle of a path (loop invariants)"""
        if goal is TRUE:
            return
        key = ('obl', label, tuple(self.hyps), goal)
        if key in self.memo:
            return
        ok, leaves = self.prover.prove(list(self.hyps), goal, budget=budget)
        if not ok:
            from . import stubs
            if any(stubs.has_opaque(h) for h in self.hyps + [goal]):
                c = {}
                ok, lv = self.prover.prove([stubs.unfold(h, c) for h in self.hyps], stubs.unfold(goal, c), budget=budget)
        self.memo[key] = ok
        self.loop_obs.append((label, ok, goal, list(self.hyps), leaves))

    def fresh_idx(self, length):
        v = var('i%d_%d' % (next(self.ctr), length.id), 'i')
        if v not in self.facts.idx_axis:
            self.facts.idx_axis[v] = length
            self.facts.var(v, le(ZERO, v), lt(v, length))
        return v

    def length_var(self, name, minimum=1):
        v = var(name, 'ip' if minimum >= 1 else 'i')
        self.facts.var(v, le(num(minimum), v))
        return v

    # ---- exploration
    def explore(self, run, setup=None):
        """yields (kind, value, hyps) per path; kind in ret / exc / unsupported"""
        stack = [[]]
        out = []
        n = 0
        while stack:
            pre = stack.pop()
            n += 1
            if n > self.max_paths:
                out.append(('unsupported', 'too many paths', []))
                break
            self.prefix, self.taken, self.pending = pre, [], []
            self.hyps = []
            self.local = None
            self.loops = []
            self.axis_of_len = {}
            self.events = []
            self.asserts = []
            self.rules = {}
            self.ctr = itertools.count()
            for b in self.bufs:
                b.dead = True
            self.bufs = []
            try:
                if setup:
                    setup()
                try:
                    r = run()
                    if len(self.taken) < len(pre):
                        raise Unsupported('a replayed path took fewer decisions')
                    out.append(('ret', r, list(self.hyps), list(self.events), list(self.asserts)))
                except PathStop:
                    pass
                except Unsupported as e:
                    out.append(('unsupported', str(e), list(self.hyps)))
                except RecursionError as e:
                    out.append(('unsupported', 'recursion', list(self.hyps)))
                except Exception as e:
                    out.append(('exc', e, list(self.hyps), list(self.events), list(self.asserts)))
            finally:
                stack.extend(self.pending)
        self.npaths += n
        return out

    # ---- local exploration (generic loop bodies)
    def local_paths(self):
        """generator of local path contexts; caller runs the body between next() calls"""
        raise NotImplementedError


def closed(c):
    """truth of a condition on constants alone, when floating-point evaluation with its error bound settles it"""
    if any(v is not PI for v in fv(c)) or c.op == 'any':
        return None
    from .ev import ev, Env, Ambiguous, NoValue
    try:
        return bool(ev(c, Env()))
    except (Ambiguous, NoValue, OverflowError, ValueError, TypeError):
        return None


class Local:
    def __init__(self, prefix):
        self.prefix = prefix
        self.taken = []
        self.pending = []


E = Engine()
