"""A thin, fast layer over the z3 C API for the handful of term constructors the executor uses.

Same names as the z3 module (anything else is forwarded to it); terms are subclasses of z3's own expression classes.
"""
import atexit
from fractions import Fraction

import z3 as _z3
from z3 import z3core as _core



class _Lib:
    def __getattr__(self, name):
        return getattr(_core, name).__defaults__[-1].f


_L = _Lib()
_CTX = _z3.main_ctx()
_C = _CTX.ref()
_A2 = _core.Ast * 2
_inc, _dec = _L.Z3_inc_ref, _L.Z3_dec_ref
_add, _sub, _mul, _div, _mod, _um = (_L.Z3_mk_add, _L.Z3_mk_sub, _L.Z3_mk_mul, _L.Z3_mk_div, _L.Z3_mk_mod,
                                     _L.Z3_mk_unary_minus)
_lt, _le, _gt, _ge, _eq, _ite, _not = (_L.Z3_mk_lt, _L.Z3_mk_le, _L.Z3_mk_gt, _L.Z3_mk_ge, _L.Z3_mk_eq, _L.Z3_mk_ite,
                                       _L.Z3_mk_not)
_i2r, _r2i, _simp = _L.Z3_mk_int2real, _L.Z3_mk_real2int, _L.Z3_simplify
_and, _or = _L.Z3_mk_and, _L.Z3_mk_or
_kind, _sortof, _sortkind = _L.Z3_get_ast_kind, _L.Z3_get_sort, _L.Z3_get_sort_kind
_id = _L.Z3_get_ast_id
_boolval = _L.Z3_get_bool_value
_REAL, _INT, _BOOL = _z3.Z3_REAL_SORT, _z3.Z3_INT_SORT, _z3.Z3_BOOL_SORT


class _T:
    def __init__(self, ast):
        _inc(_C, ast)
        self.ast = ast
        self.ctx = _CTX

    def __del__(self):
        if _dec is not None:
            _dec(_C, self.ast)


def _two(a, b):
    """operands of one sort: (x, y, is_real)"""
    if type(b) is not FI and type(b) is not FR:
        b = _val(b)
    if type(a) is FR:
        return a, (b if type(b) is FR else ToReal(b)), True
    if type(b) is FR:
        return ToReal(a), b, True
    return a, b, False


def _val(v):
    if isinstance(v, _z3.ExprRef):
        return wrap(v)
    if isinstance(v, int):
        return IntVal(v)
    return RealVal(v)


def _mk(f):
    def op(self, o):
        a, b, r = _two(self, o)
        x = f(_C, 2, _A2(a.ast, b.ast))
        return FR(x) if r else FI(x)

    def rop(self, o):
        return op(_val(o), self)
    return op, rop


def _mkc(f):
    def op(self, o):
        a, b, _ = _two(self, o)
        return FB(f(_C, a.ast, b.ast))
    return op


class _N(_T):
    __add__, __radd__ = _mk(_add)
    __sub__, __rsub__ = _mk(_sub)
    __mul__, __rmul__ = _mk(_mul)
    __lt__, __le__, __gt__, __ge__, __eq__ = map(_mkc, (_lt, _le, _gt, _ge, _eq))

    def __ne__(self, o):
        return Not(self == o)

    def __truediv__(self, o):
        a, b, r = _two(self, o)
        x = _div(_C, a.ast, b.ast)
        return FR(x) if r else FI(x)

    def __rtruediv__(self, o):
        return _val(o) / self

    def __mod__(self, o):
        a, b, r = _two(self, o)
        assert not r
        return FI(_mod(_C, a.ast, b.ast))

    def __neg__(self):
        return type(self)(_um(_C, self.ast))

    def __hash__(self):
        return 7


class FI(_N, _z3.IntNumRef):
    __hash__ = _N.__hash__


class FR(_N, _z3.RatNumRef):
    __hash__ = _N.__hash__


class FB(_T, _z3.BoolRef):
    def __eq__(self, o):
        if not isinstance(o, _z3.ExprRef):
            o = BoolVal(bool(o))
        return FB(_eq(_C, self.ast, o.ast))

    def __ne__(self, o):
        return Not(self == o)

    def __hash__(self):
        return 7


def ast_id(t):
    return _id(_C, t.ast)


def wrap(t):
    if isinstance(t, _T):
        return t
    k = _sortkind(_C, _sortof(_C, t.ast))
    return (FR if k == _REAL else FI if k == _INT else FB)(t.ast)


_ints = {}


def IntVal(v):
    r = _ints.get(v)
    if r is None:
        r = FI(_z3.IntVal(v).ast)
        if len(_ints) < 20000:
            _ints[v] = r
    return r


def RealVal(v):
    if isinstance(v, (int, Fraction)):
        v = str(v)
    return FR(_z3.RealVal(v).ast)


TRUE, FALSE = FB(_z3.BoolVal(True).ast), FB(_z3.BoolVal(False).ast)


def BoolVal(b):
    return TRUE if b else FALSE


def Int(n):
    return FI(_z3.Int(n).ast)


def Bool(n):
    return FB(_z3.Bool(n).ast)


def If(c, a, b):
    if not isinstance(a, _T):
        a = _val(a)
    if not isinstance(b, _T):
        b = _val(b)
    if type(a) is FB:
        return FB(_ite(_C, c.ast, a.ast, b.ast))
    a, b, r = _two(a, b)
    x = _ite(_C, c.ast, a.ast, b.ast)
    return FR(x) if r else FI(x)


def _nary(f, cs):
    if len(cs) == 1 and isinstance(cs[0], (list, tuple)):
        cs = cs[0]
    cs = list(cs)
    arr = (_core.Ast * len(cs))(*[c.ast for c in cs])
    return FB(f(_C, len(cs), arr))


def And(*cs):
    return _nary(_and, cs)


def Or(*cs):
    return _nary(_or, cs)


def Not(c):
    return FB(_not(_C, c.ast))


def ToReal(t):
    return FR(_i2r(_C, t.ast))


def ToInt(t):
    return FI(_r2i(_C, t.ast))


def simplify(t):
    return type(wrap(t))(_simp(_C, t.ast))


def is_true(t):
    return _boolval(_C, t.ast) == 1


def is_false(t):
    return _boolval(_C, t.ast) == -1


@atexit.register
def _off():
    global _dec
    _dec = None


def __getattr__(name):
    return getattr(_z3, name)
