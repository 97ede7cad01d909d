"""Value proxies and the path explorer.

The functions of /repo are executed as they are (imported from the working tree); inputs are proxies carrying z3
terms.  Truth tests on proxies fork: the explorer re-executes the harness once per feasible path, every fork and every
assertion being decided by z3 over all values of the inputs.
"""
import math
import operator
import os
import sys
import time
from fractions import Fraction

_Z3_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
try:
    import z3 as _z3
except ImportError:  # /opt/venv runs the code under test, z3 lives in the verification venv
    sys.path.append(_Z3_SITE)
    import z3 as _z3
    sys.path.remove(_Z3_SITE)
from . import fz as z3


class Steer(BaseException):
    """Path control; never caught by code under test (which catches Exception at most)."""


class Infeasible(Steer):
    pass


class Unsupported(Steer):
    """The executor cannot represent an operation: the check is inconclusive."""


class Inconclusive(Steer):
    pass


CTX = None  # the active context (SymCtx); None in concrete mode


def cur():
    if CTX is None:
        raise Unsupported("symbolic value used outside of a symbolic run")
    return CTX


# ---------------------------------------------------------------------------------------------------------------- terms
def _lift(v):
    """python number / proxy -> z3 arith term, or None"""
    t = type(v)
    if t is SymInt or t is SymFloat:
        return v.t
    if t is SymBool:
        return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
    if t is bool:
        return z3.IntVal(int(v))
    if t is int:
        return z3.IntVal(v)
    if isinstance(v, float):
        v = float(v)
        if v != v or v in (math.inf, -math.inf):
            return None
        if v.is_integer():
            return z3.IntVal(int(v))
        return z3.RealVal(Fraction(v))
    if isinstance(v, Fraction):
        return z3.RealVal(v)
    if hasattr(v, "item") and not isinstance(v, (str, bytes)):  # numpy scalar
        try:
            return _lift(v.item())
        except (TypeError, ValueError):
            return None
    if isinstance(v, int):
        return z3.IntVal(int(v))
    return None


def _is_real(t):
    return type(t) is z3.FR or (type(t) is not z3.FI and t.sort().kind() == z3.Z3_REAL_SORT)


def _num(t, isfloat):
    return SymFloat(t) if isfloat else SymInt(t)


def _coerce(a, b):
    if _is_real(a) != _is_real(b):
        if not _is_real(a):
            a = z3.ToReal(a)
        else:
            b = z3.ToReal(b)
    return a, b


def _isfl(v):
    return type(v) is SymFloat or (isinstance(v, float) and type(v) is not SymInt)


def _floor(t):
    return z3.ToInt(t) if _is_real(t) else t


class SymBool:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    __class__ = property(lambda s: bool)

    def __bool__(self):
        return cur().branch(self.t)

    def __and__(self, o):
        return SymBool(z3.And(self.t, to_bool_term(o)))

    __rand__ = __and__

    def __or__(self, o):
        return SymBool(z3.Or(self.t, to_bool_term(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return SymBool(z3.Xor(self.t, to_bool_term(o)))

    def __invert__(self):  # used by harness code only (never on python bool semantics)
        return SymBool(z3.Not(self.t))

    def __eq__(self, o):
        if type(o) is SymBool or isinstance(o, bool):
            return SymBool(self.t == to_bool_term(o))
        return SymInt(_lift(self)) == o

    def __ne__(self, o):
        r = self == o
        return SymBool(z3.Not(r.t)) if type(r) is SymBool else not r

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __add__(self, o):
        return SymInt(_lift(self)) + o

    __radd__ = __add__

    def __mul__(self, o):
        return SymInt(_lift(self)) * o

    __rmul__ = __mul__

    def __repr__(self):
        return "<SymBool>"


def to_bool_term(v):
    if type(v) is SymBool:
        return v.t
    if isinstance(v, z3.BoolRef):
        return v
    return z3.BoolVal(bool(v))


class _SymNum:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    # -- arithmetic
    def _bin(self, o, f):
        b = _lift(o)
        if b is None:
            return NotImplemented
        a, b = _coerce(self.t, b)
        return _num(f(a, b), _isfl(self) or _isfl(o))

    def _rbin(self, o, f):
        a = _lift(o)
        if a is None:
            return NotImplemented
        a, b = _coerce(a, self.t)
        return _num(f(a, b), _isfl(self) or _isfl(o))

    def __add__(self, o):
        if type(o) is not SymFloat and isinstance(o, float) and math.isinf(o):
            return o
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self + o

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._rbin(o, lambda a, b: a - b)

    def __mul__(self, o):
        if isinstance(o, (list, tuple, str)):
            return o * self.__index__()
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self * o

    def __truediv__(self, o):
        return _truediv(self, o)

    def __rtruediv__(self, o):
        return _truediv(o, self)

    def __floordiv__(self, o):
        return _floordiv(self, o)

    def __rfloordiv__(self, o):
        return _floordiv(o, self)

    def __mod__(self, o):
        return _mod(self, o)

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        return _mod(o, self)

    def __divmod__(self, o):
        return _floordiv(self, o), _mod(self, o)

    def __rdivmod__(self, o):
        return _floordiv(o, self), _mod(o, self)

    def __pow__(self, o, m=None):
        if isinstance(o, int) and type(o) is int and 0 <= o <= 4 and m is None:
            r = _num(z3.IntVal(1), _isfl(self))
            for _ in range(o):
                r = r * self
            return r
        raise Unsupported("pow on symbolic value")

    def __neg__(self):
        return _num(-self.t, _isfl(self))

    def __pos__(self):
        return self

    def __abs__(self):
        return _num(z3.If(self.t >= 0, self.t, -self.t), _isfl(self))

    def __floor__(self):
        return SymInt(_floor(self.t))

    def __ceil__(self):
        return SymInt(-_floor(-self.t))

    def __trunc__(self):
        t = self.t
        return SymInt(t if not _is_real(t) else z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)))

    def __round__(self, n=None):
        if not _is_real(self.t):
            return SymInt(self.t) if n is None else self
        if n not in (None, 0):
            scale = z3.RealVal(Fraction(10) ** n)
            return SymFloat(z3.ToReal(_round_term(self.t * scale)) / scale)
        r = SymInt(_round_term(self.t))
        return r if n is None else SymFloat(r.t)

    def is_integer(self):
        return SymBool(z3.IsInt(self.t)) if _is_real(self.t) else True

    # -- comparison
    def _cmp(self, o, f, inf_result):
        if isinstance(o, float) and type(o) is not SymFloat and math.isinf(o):
            return inf_result(o)
        if isinstance(o, float) and type(o) is not SymFloat and o != o:
            return False
        b = _lift(o)
        if b is None:
            return NotImplemented
        a, b = _coerce(self.t, b)
        return SymBool(f(a, b))

    def __lt__(self, o):
        return self._cmp(o, operator.lt, lambda i: i > 0)

    def __le__(self, o):
        return self._cmp(o, operator.le, lambda i: i > 0)

    def __gt__(self, o):
        return self._cmp(o, operator.gt, lambda i: i < 0)

    def __ge__(self, o):
        return self._cmp(o, operator.ge, lambda i: i < 0)

    def __eq__(self, o):
        r = self._cmp(o, operator.eq, lambda i: False)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, operator.ne, lambda i: True)
        return True if r is NotImplemented else r

    def __bool__(self):
        return cur().branch(self.t != 0)

    def __repr__(self):
        return "<sym %s>" % (cur().token(self) if CTX is not None else "?")

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)


def _round_term(t):
    """round half to even on a real term -> int term"""
    f = z3.ToInt(t)
    d = t - z3.ToReal(f)
    half = z3.RealVal("1/2")
    return z3.If(d < half, f, z3.If(d > half, f + 1, z3.If(f % 2 == 0, f, f + 1)))


class SymInt(_SymNum):
    __slots__ = ()
    __class__ = property(lambda s: int)

    def __hash__(self):
        return hash(cur().concretize(self.t))

    def __index__(self):
        return cur().concretize(self.t)

    __int__ = __index__

    def __float__(self):
        return float(cur().concretize(self.t))

    def __and__(self, o):
        return cur().concretize(self.t) & (o if type(o) is int else operator.index(o))

    __rand__ = __and__

    def __or__(self, o):
        return cur().concretize(self.t) | (o if type(o) is int else operator.index(o))

    __ror__ = __or__

    def __lshift__(self, o):
        return cur().concretize(self.t) << operator.index(o)

    def __rlshift__(self, o):
        return operator.index(o) << cur().concretize(self.t)


class SymFloat(_SymNum):
    """A float-typed value. Its term may be Int-sorted (known to be integer-valued)."""
    __slots__ = ()
    __class__ = property(lambda s: float)

    def __hash__(self):
        return hash(cur().concretize(self.t))

    def __float__(self):
        return float(cur().concretize(self.t))

    def __int__(self):
        return int(cur().concretize(self.__trunc__().t))

    def item(self):
        return self


def _zero_div_guard(b):
    if type(b) in (SymInt, SymFloat):
        if cur().branch(b.t == 0):
            raise ZeroDivisionError("division by zero")
    elif b == 0:
        raise ZeroDivisionError("division by zero")


def _truediv(a, b):
    ta, tb = _lift(a), _lift(b)
    if ta is None or tb is None:
        return NotImplemented
    _zero_div_guard(b)
    if not _is_real(ta):
        ta = z3.ToReal(ta)
    if not _is_real(tb):
        tb = z3.ToReal(tb)
    return SymFloat(ta / tb)


def _fdiv_term(ta, tb, b):
    """floor(a/b) as an Int term"""
    if not _is_real(ta) and not _is_real(tb):
        if type(b) is int or (isinstance(b, float) and type(b) is not SymFloat):
            if b > 0:
                return ta / tb  # z3 div is floor for positive divisors
            return (-ta) / (-tb)
        return z3.If(tb > 0, ta / tb, (-ta) / (-tb))
    ta, tb = _coerce(ta, tb)
    return z3.ToInt(ta / tb)


def _floordiv(a, b):
    ta, tb = _lift(a), _lift(b)
    if ta is None or tb is None:
        return NotImplemented
    _zero_div_guard(b)
    return _num(_fdiv_term(ta, tb, b), _isfl(a) or _isfl(b))


def _mod(a, b):
    ta, tb = _lift(a), _lift(b)
    if ta is None or tb is None:
        return NotImplemented
    _zero_div_guard(b)
    q = _fdiv_term(ta, tb, b)
    ta, tb = _coerce(ta, tb)
    if _is_real(ta):
        q = z3.ToReal(q)
    return _num(ta - q * tb, _isfl(a) or _isfl(b))


def is_sym(v):
    return type(v) in (SymInt, SymFloat, SymBool)


# ------------------------------------------------------------------------------------------------------------ explorer
class Stats:
    def __init__(self):
        self.paths = 0
        self.infeasible = 0
        self.queries = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.checks = 0
        self.forks = 0
        self.labels = {}
        self.reached = {}

    def merge(self, d):
        for k in ("paths", "infeasible", "queries", "unknown", "solver_s", "checks", "forks"):
            setattr(self, k, getattr(self, k) + d[k])
        for k in ("labels", "reached"):
            m = getattr(self, k)
            for l, n in d[k].items():
                m[l] = m.get(l, 0) + n

    def as_dict(self):
        return dict(self.__dict__)


class SymCtx:
    """State of one path."""
    symbolic = True

    def __init__(self, prefix, stats, timeout_ms=20000):
        self.prefix = prefix
        self.decisions = []
        self.stats = stats
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.model = None
        self.inputs = {}        # name -> (kind, term, meta)
        self.violations = []
        self.observed = []
        self.tokens = []
        self.fmts = []
        self.n_fresh = {}
        self.pending = []       # alternatives discovered on this path (prefixes)
        self.concretize_limit = 400
        self.asserted = []
        self.decided = {}       # conditions already decided on this path

    # -- solver access
    def _check(self, *extra):
        st = self.stats
        st.queries += 1
        t0 = time.perf_counter()
        r = self.solver.check(*extra)
        if r == z3.unknown:     # once more without the state of the incremental solver
            fresh = z3.Solver()
            fresh.set("timeout", 60000)
            fresh.add(self.solver.assertions())
            if extra:
                fresh.add(*extra)
            r = fresh.check()
            if r == z3.sat:
                # the model is taken from the incremental solver: let it find the same one
                m = fresh.model()
                r = self.solver.check(*extra, *[t == m.eval(t, True) for _, t, _ in self.inputs.values()])
        st.solver_s += time.perf_counter() - t0
        if r == z3.unknown:
            st.unknown += 1
            raise Inconclusive("solver returned unknown: %s" % self.solver.reason_unknown())
        return r == z3.sat

    def _ensure_model(self):
        if self.model is None:
            if not self._check():
                raise Infeasible()
            self.model = self.solver.model()

    def _holds_in_model(self, c):
        v = self.model.eval(c, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        raise Inconclusive("model evaluation is not boolean: %s" % v)

    def assume(self, c):
        c = to_bool_term(c)
        if z3.is_true(c):
            return
        self._flush()
        self.solver.add(c)
        if self.model is not None and not self._holds_in_model(c):
            self.model = None
        if len(self.decisions) >= len(self.prefix):
            self._ensure_model()

    # decisions: 0/1 = the only feasible outcome (nothing to assert on replay), 2/3 = solver fork,
    # ("v", value) = the only value, ("=", value) / ("!", value) = chosen / excluded value of a concretised term
    def branch(self, c):
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
            if type(d) is not int:
                raise Inconclusive("non-deterministic re-execution")
            self.decisions.append(d)
            taken = (d & 1) == 1
            if d >= 2:
                self.solver.add(c if taken else z3.Not(c))
            return taken
        c = z3.simplify(c)
        if z3.is_true(c):
            self.decisions.append(1)
            return True
        if z3.is_false(c):
            self.decisions.append(0)
            return False
        key = z3.ast_id(c)
        if key in self.decided:
            taken = self.decided[key][0]
            self.decisions.append(1 if taken else 0)
            return taken
        self._flush()
        self._ensure_model()
        taken = self._holds_in_model(c)
        nc = z3.simplify(z3.Not(c))
        self.decided[key] = (taken, c)
        self.decided[z3.ast_id(nc)] = (not taken, nc)
        if self._check(nc if taken else c):
            self.stats.forks += 1
            self.pending.append(self.decisions + [2 if taken else 3])
            self.decisions.append(3 if taken else 2)
            self.solver.add(c if taken else nc)
        else:
            self.decisions.append(1 if taken else 0)
        return taken

    def concretize(self, t):
        t = z3.simplify(t)
        v = _const(t)
        if v is not None:
            return v
        n = 0
        while True:
            i = len(self.decisions)
            if i < len(self.prefix):
                d = self.prefix[i]
                if type(d) is int:
                    raise Inconclusive("non-deterministic re-execution")
                kind, val = d
                self.decisions.append(d)
                if kind == "v":
                    return val
                c = t == _val(val)
                self.solver.add(c if kind == "=" else z3.Not(c))
                if kind == "=":
                    return val
            else:
                self._flush()
                self._ensure_model()
                val = _const(self.model.eval(t, model_completion=True))
                if val is None:
                    raise Inconclusive("cannot concretize")
                c = t == _val(val)
                if self._check(z3.Not(c)):
                    self.stats.forks += 1
                    self.pending.append(self.decisions + [("!", val)])
                    self.decisions.append(("=", val))
                    self.solver.add(c)
                else:
                    self.decisions.append(("v", val))
                return val
            n += 1
            if n > self.concretize_limit:
                raise Unsupported("too many concrete values needed for one symbolic term")

    # -- harness interface
    def new(self, name, kind, sort="int", lo=None, hi=None, den=1):
        if name in self.inputs:
            raise RuntimeError("duplicate input " + name)
        if sort == "bool":
            t = z3.Bool(name)
        else:
            t = z3.Int(name)
            cs = []
            if lo is not None:
                cs.append(t >= lo)
            if hi is not None:
                cs.append(t <= hi)
            if cs:
                self.solver.add(*cs)
                if self.model is not None and not all(self._holds_in_model(c) for c in cs):
                    self.model = None
        self.inputs[name] = (kind, t, den)
        return t

    def token(self, v, fmt=None):
        self.tokens.append(v)
        self.fmts.append(fmt)
        return "@%d@" % (len(self.tokens) - 1)

    def model_inputs(self, model):
        out = {}
        for name, (kind, t, den) in self.inputs.items():
            v = model.eval(t, model_completion=True)
            if kind == "bool":
                out[name] = bool(z3.is_true(v))
            else:
                out[name] = _const(v)
        return out

    def check(self, cond, label, info=None):
        """assertion; decided (in batches) by the solver before the next fork or at the end of the path"""
        self.stats.checks += 1
        self.stats.labels[label] = self.stats.labels.get(label, 0) + 1
        if len(self.decisions) < len(self.prefix):
            return  # decided on the path this one forked from, before the fork
        c = z3.simplify(to_bool_term(cond))
        if not z3.is_true(c):
            self.asserted.append((c, label, info))

    def _flush(self):
        todo, self.asserted = self.asserted, []
        if not todo:
            return
        if not self._check(z3.Or([z3.Not(c) for c, _, _ in todo])):
            return
        for c, label, info in todo:
            if self._check(z3.Not(c)):
                self.violations.append((label, info, self.model_inputs(self.solver.model())))
                self.model = None
                if not self._check(c):
                    raise Infeasible()
                self.solver.add(c)

    def finish_model(self):
        self._flush()
        self._ensure_model()
        return self.model


def _const(t):
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_rational_value(t):
        f = t.as_fraction()
        return int(f) if f.denominator == 1 else f
    return None


def _val(v):
    return z3.IntVal(v) if isinstance(v, int) else z3.RealVal(v)


def value_in_model(model, v):
    """concrete python value of proxy v"""
    if type(v) is SymBool:
        return bool(z3.is_true(model.eval(v.t, model_completion=True)))
    if type(v) in (SymInt, SymFloat):
        c = _const(z3.simplify(model.eval(v.t, model_completion=True)))
        return c
    if hasattr(v, "_sym_value"):
        return v._sym_value(model)
    if isinstance(v, (list, tuple)):
        return type(v)(value_in_model(model, x) for x in v)
    if isinstance(v, dict):
        return {k: value_in_model(model, x) for k, x in v.items()}
    return v
