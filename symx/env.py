"""The harness interface. One harness function runs in two modes: symbolic (SymEnv) and concrete replay (ConcEnv)."""
import datetime as _dt
from fractions import Fraction

from . import core, dt, patch
from .core import Infeasible, SymBool, SymFloat, SymInt, to_bool_term, z3


class _Base:
    def __init__(self, tier, cfg):
        self.tier = tier
        self.cfg = cfg
        self._seq = {}
        self.picks = []         # weighted choices: {element: weight} as given to the library
        self.draws = []         # numbers drawn uniformly from [0, 1)
        self.dist = None        # callable(env, distribution) -> value, overrides sample_distribution

    def seq(self, what):
        return "%s_%d" % (what, self.count(what))

    def count(self, what):
        n = self._seq.get(what, 0)
        self._seq[what] = n + 1
        return n

    def shuffles(self, mode):
        patch.E.shuffle_mode = mode

    def sample_distribution(self, d):
        if self.dist is not None:
            return self.dist(self, d)
        lo = d.min if d.min is not None else 0
        hi = d.max if d.max is not None else 3600
        return self.flt(self.seq("sample"), int(lo), int(hi))

    def merge_minmax(self, on=True):
        """min()/max() in the code under test yield one conditional value instead of two paths"""
        patch.E.merge = on

    # boolean combinations that do not fork
    def all(self, cs):
        cs = list(cs)
        if any(type(c) is SymBool for c in cs):
            return SymBool(z3.And([to_bool_term(c) for c in cs]))
        return all(bool(c) for c in cs)

    def any(self, cs):
        cs = list(cs)
        if any(type(c) is SymBool for c in cs):
            return SymBool(z3.Or([to_bool_term(c) for c in cs]))
        return any(bool(c) for c in cs)

    def no(self, c):
        return SymBool(z3.Not(c.t)) if type(c) is SymBool else not c

    def implies(self, a, b):
        return self.any([self.no(a), b])

    def iff(self, a, b):
        if type(a) is SymBool or type(b) is SymBool:
            return SymBool(to_bool_term(a) == to_bool_term(b))
        return bool(a) == bool(b)

    def ite(self, c, a, b):
        if type(c) is SymBool:
            ta, tb = core._coerce(core._lift(a), core._lift(b))
            fl = core._isfl(a) or core._isfl(b)
            return core._num(z3.If(c.t, ta, tb), fl)
        return a if c else b

    def maximum(self, vs):
        vs = list(vs)
        r = vs[0]
        for v in vs[1:]:
            r = self.ite(v > r, v, r)
        return r

    def minimum(self, vs):
        vs = list(vs)
        r = vs[0]
        for v in vs[1:]:
            r = self.ite(v < r, v, r)
        return r

    def total(self, vs):
        r = 0
        for v in vs:
            r = r + v
        return r

    def secs(self, base, d):
        """(d - base) in seconds, d real or symbolic datetime"""
        return (d - base).total_seconds()

    def close(self, a, b, tol=1e-6):
        """equality up to float rounding (exact in symbolic mode)"""
        if core.is_sym(a) or core.is_sym(b):
            return a == b
        try:
            return abs(a - b) <= tol * max(1.0, abs(a), abs(b))
        except TypeError:
            return a == b


class SymEnv(_Base):
    symbolic = True

    def __init__(self, ctx, tier, cfg, known):
        super().__init__(tier, cfg)
        self.ctx = ctx
        self.known_ids = known
        self.known_hits = []

    def int(self, name, lo, hi):
        return SymInt(self.ctx.new(name, "int", "int", lo, hi))

    def flt(self, name, lo, hi, den=1):
        """float input k/den with lo <= k <= hi (den a power of two: exact in binary floating point)"""
        t = self.ctx.new(name, "flt", "int", lo, hi, den)
        return SymFloat(t if den == 1 else z3.ToReal(t) / den)

    def bool(self, name):
        return SymBool(self.ctx.new(name, "bool", "bool"))

    def choice(self, name, n):
        if n <= 1:
            return 0
        return self.ctx.concretize(self.ctx.new(name, "int", "int", 0, n - 1))

    def dt(self, base, secs):
        return dt.sym_dt(base) + dt.timedelta(seconds=secs)

    def assume(self, c):
        self.ctx.assume(c)

    def check(self, c, label, info=None, known=()):
        st = self.ctx.stats
        known = [(k, kc) for k, kc in known if k in self.known_ids]
        if known:
            for kid, kc in known:
                bad = z3.And(z3.Not(to_bool_term(c)), to_bool_term(kc))
                if not z3.is_false(z3.simplify(bad)) and len(self.known_hits) < 3 and self.ctx._check(bad):
                    self.known_hits.append((kid, label, self.ctx.model_inputs(self.ctx.solver.model())))
            kany = z3.Or([to_bool_term(kc) for _, kc in known])
            c0 = SymBool(z3.Or(to_bool_term(c), kany))
            self.ctx.check(c0, label, info)
            return
        self.ctx.check(c, label, info)

    def reach(self, label):
        self.ctx.stats.reached[label] = self.ctx.stats.reached.get(label, 0) + 1

    def observe(self, name, v):
        self.ctx.observed.append((name, v))


class ConcEnv(_Base):
    symbolic = False

    def __init__(self, inputs, tier, cfg, known):
        super().__init__(tier, cfg)
        self.inputs = inputs
        self.failures = []
        self.known_failures = []
        self.known_ids = known
        self.observed = []
        self.missing = 0

    def _get(self, name, default):
        if name in self.inputs:
            return self.inputs[name]
        self.missing += 1
        return default

    def int(self, name, lo, hi):
        return int(self._get(name, lo if lo is not None else 0))

    def flt(self, name, lo, hi, den=1):
        return float(Fraction(self._get(name, lo)) / den)

    def bool(self, name):
        return bool(self._get(name, False))

    def choice(self, name, n):
        return int(self._get(name, 0)) if n > 1 else 0

    def dt(self, base, secs):
        return base + _dt.timedelta(seconds=secs)

    def assume(self, c):
        if not c:
            raise Infeasible()

    def check(self, c, label, info=None, known=()):
        if not c:
            for kid, kc in known:
                if kid in self.known_ids and kc:
                    self.known_failures.append((kid, label))
                    return
            self.failures.append((label, info))

    def reach(self, label):
        pass

    def observe(self, name, v):
        self.observed.append((name, v))
