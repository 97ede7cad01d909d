"""datetime / timedelta / date / time proxies. Instants are seconds since 1970-01-01 (wall clock of their tzinfo)."""
import datetime as _dt
from fractions import Fraction

from . import fz as z3
from .core import (SymBool, SymFloat, SymInt, Unsupported, _const, _coerce, _floor, _is_real, _lift, _val, cur, is_sym)

EPOCH = _dt.datetime(1970, 1, 1)
EPOCH_ORD = EPOCH.date().toordinal()
DAY = 86400


def _td_secs(td):
    """exact seconds of a real timedelta"""
    s = td.days * DAY + td.seconds
    return s + Fraction(td.microseconds, 10 ** 6) if td.microseconds else s


def _t(v):
    return v if isinstance(v, z3.ExprRef) else (_val(v) if isinstance(v, (int, Fraction)) else _lift(v))


def _add(a, b):
    a, b = _coerce(_t(a), _t(b))
    return a + b


def _sub(a, b):
    a, b = _coerce(_t(a), _t(b))
    return a - b


def _secs_of_dt(d):
    """seconds since EPOCH (wall) of a real or symbolic datetime -> term"""
    if type(d) is SymDatetime:
        return d.t
    return _val(_td_secs(d.replace(tzinfo=None) - EPOCH))


def _frac_secs(t):
    return z3.IntVal(0) if not _is_real(t) else z3.ToInt((t - z3.ToReal(z3.ToInt(t))) * 1000000)


class SymTimedelta:
    __slots__ = ("t",)
    __class__ = property(lambda s: _dt.timedelta)

    def __init__(self, t):
        self.t = t

    def total_seconds(self):
        return SymFloat(self.t)

    @property
    def days(self):
        return SymInt(_floor(self.t) / DAY)

    @property
    def seconds(self):
        return SymInt(_floor(self.t) % DAY)

    @property
    def microseconds(self):
        return SymInt(_frac_secs(self.t))

    def _o(self, o):
        if type(o) is SymTimedelta:
            return o.t
        if isinstance(o, _dt.timedelta):
            return _val(_td_secs(o))
        return None

    def __add__(self, o):
        b = self._o(o)
        if b is None:
            if isinstance(o, _dt.datetime):
                return sym_dt(o) + self
            return NotImplemented
        return SymTimedelta(_add(self.t, b))

    __radd__ = __add__

    def __sub__(self, o):
        b = self._o(o)
        return NotImplemented if b is None else SymTimedelta(_sub(self.t, b))

    def __rsub__(self, o):
        b = self._o(o)
        if b is None:
            if isinstance(o, _dt.datetime):
                return sym_dt(o) - self
            return NotImplemented
        return SymTimedelta(_sub(b, self.t))

    def __neg__(self):
        return SymTimedelta(-self.t)

    def __abs__(self):
        return SymTimedelta(z3.If(self.t >= 0, self.t, -self.t))

    def __mul__(self, o):
        r = SymFloat(self.t) * o
        return SymTimedelta(r.t)

    __rmul__ = __mul__

    def __truediv__(self, o):
        b = self._o(o)
        if b is not None:
            return SymFloat(self.t) / SymFloat(b)
        return SymTimedelta((SymFloat(self.t) / o).t)

    def __floordiv__(self, o):
        b = self._o(o)
        if b is None:
            raise Unsupported("timedelta // number")
        return SymInt(_lift(SymFloat(self.t) // SymFloat(b)))

    def __mod__(self, o):
        b = self._o(o)
        return SymTimedelta((SymFloat(self.t) % SymFloat(b)).t)

    def _cmp(self, o, f):
        b = self._o(o)
        if b is None:
            return NotImplemented
        x, y = _coerce(self.t, b)
        return SymBool(f(x, y))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def __bool__(self):
        return cur().branch(self.t != 0)

    def __hash__(self):
        return hash(_dt.timedelta(seconds=float(cur().concretize(self.t))))

    def __repr__(self):
        return "<symtd %s>" % cur().token(self)

    def _sym_value(self, model):
        v = _const(z3.simplify(model.eval(self.t, model_completion=True)))
        return ("td", v)


class SymDate:
    __slots__ = ("d",)  # days since EPOCH
    __class__ = property(lambda s: _dt.date)

    def __init__(self, d):
        self.d = d

    def weekday(self):
        return SymInt((self.d + 3) % 7)

    def isoweekday(self):
        return SymInt((self.d + 3) % 7 + 1)

    def toordinal(self):
        return SymInt(self.d + EPOCH_ORD)

    def _o(self, o):
        if type(o) is SymDate:
            return o.d
        if isinstance(o, _dt.date):
            return z3.IntVal(o.toordinal() - EPOCH_ORD)
        return None

    def _cmp(self, o, f):
        b = self._o(o)
        return NotImplemented if b is None else SymBool(f(self.d, b))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def __add__(self, o):
        if isinstance(o, _dt.timedelta):
            t = o.t if type(o) is SymTimedelta else _val(_td_secs(o))
            return SymDate(self.d + _floor(t) / DAY)
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, _dt.timedelta):
            t = o.t if type(o) is SymTimedelta else _val(_td_secs(o))
            return SymDate(self.d - _floor(t) / DAY)
        b = self._o(o)
        return NotImplemented if b is None else SymTimedelta((self.d - b) * DAY)

    def __rsub__(self, o):
        b = self._o(o)
        return NotImplemented if b is None else SymTimedelta((b - self.d) * DAY)

    def _conc(self):
        return _dt.date.fromordinal(cur().concretize(self.d) + EPOCH_ORD)

    @property
    def year(self):
        return self._conc().year

    @property
    def month(self):
        return self._conc().month

    @property
    def day(self):
        return self._conc().day

    def __hash__(self):
        return hash(self._conc())

    def __str__(self):
        return str(self._conc())

    def isoformat(self):
        return self._conc().isoformat()

    def _sym_value(self, model):
        return _dt.date.fromordinal(_const(z3.simplify(model.eval(self.d, model_completion=True))) + EPOCH_ORD)


class SymTime:
    __slots__ = ("t", "tzinfo")
    __class__ = property(lambda s: _dt.time)

    def __init__(self, t, tzinfo=None):
        self.t = t
        self.tzinfo = tzinfo

    @property
    def hour(self):
        return SymInt(_floor(self.t) / 3600)

    @property
    def minute(self):
        return SymInt((_floor(self.t) / 60) % 60)

    @property
    def second(self):
        return SymInt(_floor(self.t) % 60)

    @property
    def microsecond(self):
        return SymInt(_frac_secs(self.t))

    def _o(self, o):
        if type(o) is SymTime:
            return o.t
        if isinstance(o, _dt.time):
            return time_secs(o)
        return None

    def _cmp(self, o, f):
        b = self._o(o)
        if b is None:
            return NotImplemented
        x, y = _coerce(self.t, b)
        return SymBool(f(x, y))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def replace(self, hour=None, minute=None, second=None, microsecond=None, tzinfo=True):
        return SymTime(_replace_tod(self.t, hour, minute, second, microsecond),
                       self.tzinfo if tzinfo is True else tzinfo)

    def _conc(self):
        v = cur().concretize(self.t)
        return (EPOCH + _dt.timedelta(seconds=float(v))).time()

    def __hash__(self):
        return hash(self._conc())

    def _sym_value(self, model):
        v = _const(z3.simplify(model.eval(self.t, model_completion=True)))
        return ("time", v)


def time_secs(o):
    """term: seconds of day of a real/symbolic time"""
    if type(o) is SymTime:
        return o.t
    s = o.hour * 3600 + o.minute * 60 + o.second
    return _val(s + Fraction(o.microsecond, 10 ** 6) if o.microsecond else s)


def _replace_tod(tod, hour, minute, second, microsecond):
    """new time-of-day term"""
    fl = _floor(tod)
    h = fl / 3600 if hour is None else _t(hour)
    m = (fl / 60) % 60 if minute is None else _t(minute)
    s = fl % 60 if second is None else _t(second)
    base = h * 3600 + m * 60 + s
    if microsecond is None:
        return _add(base, z3.simplify(tod - z3.ToReal(fl))) if _is_real(tod) else base
    if is_sym(microsecond):
        us = z3.simplify(_lift(microsecond))
        return base if _const(us) == 0 else z3.ToReal(base) + z3.ToReal(us) / 10 ** 6
    if microsecond == 0:
        return base
    return z3.ToReal(base) + _val(Fraction(microsecond, 10 ** 6))


class SymDatetime:
    __slots__ = ("t", "tzinfo")
    __class__ = property(lambda s: _dt.datetime)

    def __init__(self, t, tzinfo=None):
        self.t = t
        self.tzinfo = tzinfo

    # -- parts
    def _day(self):
        return _floor(self.t) / DAY

    def _tod(self):
        d = self._day() * DAY
        return _sub(self.t, d)

    def date(self):
        return SymDate(self._day())

    def time(self):
        return SymTime(self._tod())

    def timetz(self):
        return SymTime(self._tod(), self.tzinfo)

    def weekday(self):
        return SymInt((self._day() + 3) % 7)

    def isoweekday(self):
        return SymInt((self._day() + 3) % 7 + 1)

    hour = property(lambda s: s.time().hour)
    minute = property(lambda s: s.time().minute)
    second = property(lambda s: s.time().second)
    microsecond = property(lambda s: SymInt(_frac_secs(s.t)))
    year = property(lambda s: s.date().year)
    month = property(lambda s: s.date().month)
    day = property(lambda s: s.date().day)

    def toordinal(self):
        return self.date().toordinal()

    def utcoffset(self):
        return self.tzinfo.utcoffset(None) if self.tzinfo is not None else None

    def timestamp(self):
        off = self.utcoffset()
        return SymFloat(_sub(self.t, _td_secs(off) if off else 0))

    def astimezone(self, tz=None):
        if tz is None or self.tzinfo is None:
            raise Unsupported("astimezone")
        d = _off(tz) - _off(self.tzinfo)
        return SymDatetime(_add(self.t, d), tz)

    def replace(self, year=None, month=None, day=None, hour=None, minute=None, second=None, microsecond=None,
                tzinfo=True):
        tz = self.tzinfo if tzinfo is True else tzinfo
        if (year, month, day) != (None, None, None):
            d = self.date()._conc().replace(**{k: int(v) for k, v in
                                               (("year", year), ("month", month), ("day", day)) if v is not None})
            dayt = z3.IntVal(d.toordinal() - EPOCH_ORD)
        else:
            dayt = self._day()
        if (hour, minute, second, microsecond) == (None,) * 4:
            return SymDatetime(_add(dayt * DAY, self._tod()), tz)
        return SymDatetime(_add(dayt * DAY, _replace_tod(self._tod(), hour, minute, second, microsecond)), tz)

    # -- arithmetic
    def __add__(self, o):
        if type(o) is SymTimedelta:
            return SymDatetime(_add(self.t, o.t), self.tzinfo)
        if isinstance(o, _dt.timedelta):
            return SymDatetime(_add(self.t, _td_secs(o)), self.tzinfo)
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        if type(o) is SymTimedelta:
            return SymDatetime(_sub(self.t, o.t), self.tzinfo)
        if type(o) is not SymDatetime and isinstance(o, _dt.timedelta):
            return SymDatetime(_sub(self.t, _td_secs(o)), self.tzinfo)
        if isinstance(o, _dt.datetime):
            return SymTimedelta(_sub(self.t, _norm(self, o)))
        return NotImplemented

    def __rsub__(self, o):
        if isinstance(o, _dt.datetime):
            return SymTimedelta(_sub(_norm(self, o), self.t))
        return NotImplemented

    # -- comparison
    def _cmp(self, o, f):
        if not isinstance(o, _dt.datetime):
            return NotImplemented
        x, y = _coerce(self.t, _norm(self, o))
        return SymBool(f(x, y))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if not isinstance(o, _dt.datetime) or (o.tzinfo is None) != (self.tzinfo is None):
            return False
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        if not isinstance(o, _dt.datetime) or (o.tzinfo is None) != (self.tzinfo is None):
            return True
        return self._cmp(o, lambda a, b: a != b)

    def __bool__(self):
        return True

    def _conc(self):
        v = cur().concretize(self.t)
        d = EPOCH + _dt.timedelta(seconds=v if isinstance(v, int) else float(v))
        return d.replace(tzinfo=self.tzinfo)

    def __hash__(self):
        return hash(self._conc())

    # -- text: opaque tokens that remember the format
    def strftime(self, fmt):
        tok = cur().token(self, fmt.replace("%z", ""))
        return tok + ("+0000" if "%z" in fmt else "")

    def isoformat(self, *a, **k):
        return cur().token(self, ("iso", a, k)) + ("+00:00" if self.tzinfo is not None else "")

    def __str__(self):
        return self.isoformat(" ")

    def __repr__(self):
        return "<symdt>"

    def __format__(self, spec):
        return self.strftime(spec) if spec else self.isoformat()

    def _sym_value(self, model):
        v = _const(z3.simplify(model.eval(self.t, model_completion=True)))
        return ("dt", v)


def _off(tz):
    o = tz.utcoffset(EPOCH) if tz is not None else None
    return _td_secs(o) if o is not None else 0


def _norm(a, o):
    """seconds of o, on a's wall clock"""
    if (a.tzinfo is None) != (o.tzinfo is None):
        raise TypeError("can't compare offset-naive and offset-aware datetimes")
    t = _secs_of_dt(o)
    if a.tzinfo is not None and a.tzinfo is not o.tzinfo:
        d = _off(a.tzinfo) - _off(o.tzinfo)
        if d:
            t = _add(t, d)
    return t


def sym_dt(d):
    return d if type(d) is SymDatetime else SymDatetime(_secs_of_dt(d), d.tzinfo)


# -------------------------------------------------------------------------------------------- drop-in datetime module
def _mk_meta(real):
    class Meta(type):
        def __instancecheck__(cls, o):
            return isinstance(o, real)

        def __subclasscheck__(cls, o):
            return issubclass(o, real)

        def __getattr__(cls, n):
            return getattr(real, n)

        def __eq__(cls, o):
            return o is real or o is cls

        def __hash__(cls):
            return hash(real)
    return Meta


class timedelta(metaclass=_mk_meta(_dt.timedelta)):
    def __new__(cls, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
        args = (days, seconds, microseconds, milliseconds, minutes, hours, weeks)
        if not any(is_sym(a) for a in args):
            return _dt.timedelta(*args)
        tot = z3.IntVal(0)
        for a, k in zip(args, (DAY, 1, Fraction(1, 10 ** 6), Fraction(1, 1000), 60, 3600, 7 * DAY)):
            if is_sym(a):
                ta = _lift(a)
                x, y = _coerce(ta, _val(k))
                tot = _add(tot, x * y)
            elif a:
                tot = _add(tot, Fraction(a) * k)
        return SymTimedelta(z3.simplify(tot))


class date(metaclass=_mk_meta(_dt.date)):
    def __new__(cls, *a, **k):
        a = [int(x) for x in a]
        return _dt.date(*a, **k)


class time(metaclass=_mk_meta(_dt.time)):
    def __new__(cls, hour=0, minute=0, second=0, microsecond=0, tzinfo=None, **k):
        if any(is_sym(a) for a in (hour, minute, second, microsecond)):
            for v, hi, n in ((hour, 24, "hour"), (minute, 60, "minute"), (second, 60, "second")):
                if is_sym(v) and not (0 <= v and v < hi):
                    raise ValueError(n + " out of range")
            return SymTime(_replace_tod(z3.IntVal(0), hour, minute, second, microsecond), tzinfo)
        return _dt.time(hour, minute, second, microsecond, tzinfo, **k)


class datetime(metaclass=_mk_meta(_dt.datetime)):
    def __new__(cls, *a, **k):
        names = ("year", "month", "day", "hour", "minute", "second", "microsecond", "tzinfo")
        kw = dict(zip(names, a))
        kw.update(k)
        tod = [kw.get(n, 0) for n in names[3:7]]
        if any(is_sym(x) for x in tod):
            base = _dt.datetime(int(kw["year"]), int(kw["month"]), int(kw["day"]), tzinfo=kw.get("tzinfo"))
            return sym_dt(base).replace(hour=tod[0], minute=tod[1], second=tod[2], microsecond=tod[3])
        kw = {n: (int(v) if is_sym(v) else v) for n, v in kw.items()}
        return _dt.datetime(**kw)

    @staticmethod
    def combine(d, t, tzinfo=True):
        if type(d) is SymDatetime:
            d = d.date()
        if type(d) is not SymDate and type(t) is not SymTime:
            return _dt.datetime.combine(d, t) if tzinfo is True else _dt.datetime.combine(d, t, tzinfo)
        day = d.d if type(d) is SymDate else z3.IntVal(d.toordinal() - EPOCH_ORD)
        tz = t.tzinfo if tzinfo is True else tzinfo
        return SymDatetime(_add(day * DAY, time_secs(t)), tz)

    @staticmethod
    def fromtimestamp(ts, tz=None):
        if is_sym(ts):
            if tz is None:
                raise Unsupported("fromtimestamp without tz")
            return SymDatetime(_add(_lift(ts), _off(tz)), tz)
        return _dt.datetime.fromtimestamp(ts, tz)

    @staticmethod
    def fromisoformat(s):
        return _from_text(s) or _dt.datetime.fromisoformat(s)

    @staticmethod
    def strptime(s, fmt):
        return _from_text(s) or _dt.datetime.strptime(s, fmt)


def _from_text(s):
    import re
    m = re.match(r"^@(\d+)@", s) if isinstance(s, str) else None
    return cur().tokens[int(m.group(1))] if m else None


class _Module:
    datetime = datetime
    timedelta = timedelta
    date = date
    time = time

    def __getattr__(self, n):
        return getattr(_dt, n)


module = _Module()
REPLACE = {id(_dt): module, id(_dt.datetime): datetime, id(_dt.timedelta): timedelta, id(_dt.date): date,
           id(_dt.time): time}
