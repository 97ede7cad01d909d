"""Substitution of library entry points in the modules under test.

Two independent layers:
  * value layer (symbolic mode only): datetime/int/float/... names seen by the code under test accept proxies;
  * environment layer (both modes): randomness and uuid become inputs chosen by the solver (symbolic mode) or taken
    from the solver's assignment (replay).
"""
import builtins
import csv
import math
import random
import secrets
import statistics
import sys
import uuid

from . import core, dt
from .core import SymBool, SymFloat, SymInt, Unsupported, _lift, cur, is_sym, z3

PREFIXES = ("prosimos", "bpdfr_discovery", "cli", "pix_framework", "bimp_simulation_engine")


# ------------------------------------------------------------------------------------------------- builtin replacements
def _shim_type(real, conv, alias=()):
    class Meta(type):
        def __instancecheck__(cls, o):
            return isinstance(o, real)

        def __subclasscheck__(cls, o):
            return issubclass(o, real)

        def __getattr__(cls, n):
            return getattr(real, n)

        def __eq__(cls, o):
            return o is real or o is cls or o in alias

        def __hash__(cls):
            return hash(real)

        def __call__(cls, *a, **k):
            if len(a) == 1 and is_sym(a[0]):
                return conv(a[0])
            if len(a) == 1 and isinstance(a[0], str) and core.CTX is not None:
                v = _token_value(a[0])
                if v is not None:
                    return conv(v)
            return real(*a, **k)
    return Meta(real.__name__, (), {})


def _token_value(s):
    import re
    m = re.match(r"^\s*(?:<sym )?@(\d+)@>?\s*$", s)
    return core.CTX.tokens[int(m.group(1))] if m else None


def _to_int(v):
    if type(v) is SymBool:
        return SymInt(_lift(v))
    if type(v) is SymInt:
        return v
    return v.__trunc__()


def _to_float(v):
    return SymFloat(_lift(v))


def _to_bool(v):
    return bool(v)


int_shim = _shim_type(int, _to_int, (SymInt,))
float_shim = _shim_type(float, _to_float, (SymFloat,))


def round_shim(v, n=None):
    return v.__round__(n) if is_sym(v) else (round(v) if n is None else round(v, n))


def _mm(real, better):
    """min/max that, when the harness asks for it, builds one if-then-else value instead of splitting the path"""
    def fn(*a, **k):
        if E.merge and not k:
            items = list(a[0]) if len(a) == 1 else list(a)
            if any(is_sym(x) or type(x) is dt.SymDatetime for x in items):
                acc = items[0]
                for x in items[1:]:
                    acc = _pick(better(x, acc), x, acc)
                return acc
            if len(a) == 1:
                return real(items)
        return real(*a, **k)
    return fn


def _pick(c, x, y):
    if type(c) is not SymBool:
        return x if c else y
    if type(x) is dt.SymDatetime or type(y) is dt.SymDatetime:
        x, y = dt.sym_dt(x), dt.sym_dt(y)
        tx, ty = core._coerce(x.t, dt._norm(x, y))
        return dt.SymDatetime(z3.If(c.t, tx, ty), x.tzinfo)
    tx, ty = core._coerce(_lift(x), _lift(y))
    return core._num(z3.If(c.t, tx, ty), core._isfl(x) or core._isfl(y))


min_shim = _mm(min, lambda x, acc: x < acc)
max_shim = _mm(max, lambda x, acc: x > acc)


class _Math:
    def floor(self, v):
        return v.__floor__() if is_sym(v) else math.floor(v)

    def ceil(self, v):
        return v.__ceil__() if is_sym(v) else math.ceil(v)

    def trunc(self, v):
        return v.__trunc__() if is_sym(v) else math.trunc(v)

    def fabs(self, v):
        return _to_float(abs(v)) if is_sym(v) else math.fabs(v)

    def isclose(self, a, b, rel_tol=1e-09, abs_tol=0.0):
        if is_sym(a) or is_sym(b):
            d = abs(a - b)
            m = abs(a) if abs(a) >= abs(b) else abs(b)
            return d <= m * rel_tol or d <= abs_tol
        return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)

    def fsum(self, it):
        it = list(it)
        return sum(it) if any(is_sym(x) for x in it) else math.fsum(it)

    def isinf(self, v):
        return False if is_sym(v) else math.isinf(v)

    def isnan(self, v):
        return False if is_sym(v) else math.isnan(v)

    def __getattr__(self, n):
        return getattr(math, n)


math_shim = _Math()


class _Np:
    """numpy as seen by the modules under test: scalar helpers accept proxies, everything else is numpy."""

    def __init__(self, np):
        self.__dict__["_np"] = np

    def __getattr__(self, n):
        real = getattr(self._np, n)
        if n in ("float32", "float64", "int64", "int32"):
            return _np_scalar(real, n, self._np)
        if n in ("inf", "nan", "random"):
            return real
        if n in ("ceil", "floor", "round", "abs", "absolute", "maximum", "minimum", "sum", "mean", "isclose", "isnan",
                 "isinf", "isfinite", "max", "min", "searchsorted", "clip"):
            return _np_fn(real, n)
        return real


def _np_scalar(real, n, np):
    class Meta(type):
        def __instancecheck__(cls, o):
            return isinstance(o, real)

        def __getattr__(cls, a):
            return getattr(real, a)

        def __call__(cls, v=0, *a, **k):
            if is_sym(v):
                return _to_float(v) if n.startswith("float") else _to_int(v)
            return real(v, *a, **k)

        def __eq__(cls, o):
            return o is real or o is cls

        def __hash__(cls):
            return hash(real)
    return Meta(n, (), {})


def _np_fn(real, n):
    def fn(*a, **k):
        flat = [x for v in a for x in (v if isinstance(v, (list, tuple)) else [v])]
        if not any(is_sym(x) for x in flat):
            return real(*a, **k)
        if n == "ceil":
            return _to_float(a[0].__ceil__())
        if n == "floor":
            return _to_float(a[0].__floor__())
        if n == "round":
            return a[0].__round__(*(a[1:]))
        if n in ("abs", "absolute"):
            return abs(a[0])
        if n == "maximum":
            return a[0] if a[0] >= a[1] else a[1]
        if n == "minimum":
            return a[0] if a[0] <= a[1] else a[1]
        if n == "max":
            return max(a[0])
        if n == "min":
            return min(a[0])
        if n == "sum":
            return sum(a[0])
        if n == "mean":
            return sum(a[0]) / len(a[0])
        if n == "isclose":
            return abs(a[0] - a[1]) <= 1e-8 + abs(a[1]) * 1e-5
        if n in ("isnan", "isinf"):
            return False
        if n == "isfinite":
            return True
        if n == "clip":
            v, lo, hi = a
            return lo if v < lo else hi if v > hi else v
        if n == "searchsorted":
            right = (k.get("side") or (a[2] if len(a) > 2 else "left")) == "right"
            i = 0
            for x in a[0]:
                if (x > a[1]) if right else (x >= a[1]):
                    break
                i += 1
            return i
        raise Unsupported("numpy." + n)
    return fn


# --------------------------------------------------------------------------------------------------------- environment
class Environment:
    """Random choices as inputs. `env` is the active harness environment."""
    env = None
    shuffle_mode = "identity"
    merge = False


E = Environment()


def _weights_pick(n, weights, what):
    env = E.env
    if weights is not None:
        weights = list(weights)
        if len(weights) != n:
            raise ValueError("The number of weights does not match the population")
        total = sum(weights)
        if not (total > 0):
            raise ValueError("Total of weights must be greater than zero")
        ok = [i for i in range(n) if weights[i] > 0]
    else:
        ok = list(range(n))
    if not ok:
        raise IndexError("Cannot choose from an empty sequence")
    if len(ok) == 1:
        return ok[0]
    return ok[env.choice(env.seq(what), len(ok))]


def _record(population, weights):
    w = [1] * len(population) if weights is None else list(weights)
    try:
        E.env.picks.append(list(zip(population, w)))
    except TypeError:
        pass


def s_choices(population, weights=None, *, cum_weights=None, k=1):
    population = list(population)
    if cum_weights is not None:
        cw = list(cum_weights)
        weights = [cw[0]] + [cw[i] - cw[i - 1] for i in range(1, len(cw))]
    _record(population, weights)
    return [population[_weights_pick(len(population), weights, "rnd_choices")] for _ in range(k)]


def s_choice(seq):
    if len(seq) == 0:
        raise IndexError("Cannot choose from an empty sequence")
    _record(seq, None)
    return seq[_weights_pick(len(seq), None, "rnd_choice")]


def s_shuffle(x, *a):
    if E.shuffle_mode == "identity" or len(x) < 2:
        return None
    rest = list(x)
    out = []
    while len(rest) > 1:
        out.append(rest.pop(E.env.choice(E.env.seq("rnd_shuffle"), len(rest))))
    x[:] = out + rest


def s_sample(population, k, **kw):
    rest = list(population)
    if k > len(rest):
        raise ValueError("Sample larger than population or is negative")
    out = []
    for _ in range(k):
        out.append(rest.pop(E.env.choice(E.env.seq("rnd_sample"), len(rest)) if len(rest) > 1 else 0))
    return out


def s_randint(a, b):
    env = E.env
    return env.int(env.seq("rnd_int"), a, b) if env.symbolic and False else a + env.choice(env.seq("rnd_int"), b - a + 1)


def s_randrange(a, b=None, step=1):
    if b is None:
        a, b = 0, a
    n = len(range(a, b, step))
    return a + step * E.env.choice(E.env.seq("rnd_int"), n)


def s_random():
    env = E.env
    env.draws.append(env.flt(env.seq("rnd_unit"), 0, 1023, 1024))
    return env.draws[-1]


def s_uniform(a, b):
    return a + (b - a) * s_random()


class NpList(list):
    """the part of a 1-d numpy array the callers use: indexing, iteration, truth of a single element"""

    def __bool__(self):
        if len(self) > 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous")
        return len(self) == 1 and bool(self[0])

    def tolist(self):
        return list(self)


def s_np_choice(a, size=None, replace=True, p=None):
    pop = list(range(a)) if isinstance(a, int) else list(a)
    if p is not None:
        p = list(p)
        tot = sum(p)
        if any(q < 0 for q in p):
            raise ValueError("probabilities are not non-negative")
        if not (abs(tot - 1) <= 1e-8):
            raise ValueError("probabilities do not sum to 1")
    _record(pop, p)
    if size is None:
        return pop[_weights_pick(len(pop), p, "rnd_npchoice")]
    out = NpList()
    for _ in range(int(size)):
        i = _weights_pick(len(pop), p, "rnd_npchoice")
        out.append(pop[i])
        if not replace:
            del pop[i]
            if p is not None:
                del p[i]
    return out


def s_np_rand(*shape):
    if not shape:
        return s_random()
    n = shape[0]
    return NpList([s_random() for _ in range(n)])


def s_np_uniform(low=0.0, high=1.0, size=None):
    return s_uniform(low, high) if size is None else NpList([s_uniform(low, high) for _ in range(int(size))])


def s_uuid4():
    env = E.env
    return uuid.UUID(int=env.count("uuid") + 1)


def s_generate_sample(self, size=1):
    """DurationDistribution.generate_sample by contract: non-negative values inside the declared limits."""
    env = E.env
    out = []
    for _ in range(size):
        out.append(env.sample_distribution(self))
    return out


_ENV_PATCHES = None
_VALUE_PATCHES = None


def _modules():
    return [m for n, m in list(sys.modules.items()) if m is not None and n.split(".")[0] in PREFIXES]


def _env_table():
    import numpy as np
    t = [(random, "choices", s_choices), (random, "choice", s_choice), (random, "shuffle", s_shuffle),
         (random, "sample", s_sample), (random, "randint", s_randint), (random, "randrange", s_randrange),
         (random, "random", s_random), (random, "uniform", s_uniform), (secrets, "choice", s_choice),
         (secrets, "randbelow", lambda n: s_randrange(n)), (uuid, "uuid4", s_uuid4),
         (np.random, "choice", s_np_choice), (np.random, "rand", s_np_rand), (np.random, "random", s_np_rand),
         (np.random, "uniform", s_np_uniform),
         (np.random, "shuffle", s_shuffle)]
    try:
        from pix_framework.statistics.distribution import DurationDistribution
        t.append((DurationDistribution, "generate_sample", s_generate_sample))
    except ImportError:
        pass
    return t


def _compute():
    global _ENV_PATCHES, _VALUE_PATCHES
    envp, by_id = [], {}
    for owner, name, repl in _env_table():
        real = owner.__dict__[name] if name in owner.__dict__ else getattr(owner, name)
        envp.append((owner, name, real, repl))
        by_id[id(getattr(owner, name))] = repl
    valp = []
    import numpy as np
    repl = dict(dt.REPLACE)
    repl[id(math)] = math_shim
    repl[id(np)] = _Np(np)
    repl[id(math.floor)] = math_shim.floor
    repl[id(math.ceil)] = math_shim.ceil
    repl[id(math.trunc)] = math_shim.trunc
    repl[id(math.isclose)] = math_shim.isclose
    miss = object()
    for m in _modules():
        d = m.__dict__
        for k, v in list(d.items()):
            if id(v) in repl:
                valp.append((m, k, v, repl[id(v)]))
            elif id(v) in by_id and callable(v):
                envp.append((m, k, v, by_id[id(v)]))
        for k, v in (("int", int_shim), ("float", float_shim), ("round", round_shim), ("min", min_shim), ("max", max_shim)):
            if k not in d:
                valp.append((m, k, miss, v))
    _ENV_PATCHES, _VALUE_PATCHES = envp, valp
    return miss


_MISS = None
_value_on = False
_env_on = False


def prepare():
    global _MISS
    _MISS = _compute()


def _apply(table, on):
    for owner, name, real, repl in table:
        if on:
            setattr(owner, name, repl)
        elif real is _MISS:
            try:
                delattr(owner, name)
            except AttributeError:
                pass
        else:
            setattr(owner, name, real)


def set_env(env):
    """install the environment layer for `env` (None: remove)"""
    global _env_on
    E.env = env
    E.shuffle_mode = "identity"
    E.merge = False
    if (env is not None) != _env_on:
        _env_on = env is not None
        _apply(_ENV_PATCHES, _env_on)


def set_values(on):
    global _value_on
    if on != _value_on:
        _value_on = on
        _apply(_VALUE_PATCHES, on)
