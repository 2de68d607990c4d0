"""``datetime`` for symbolic instants: wall clocks are integer microseconds since 1970-01-01.

Concrete arguments go to the real classes.  The local time zone of the modelled environment is
UTC-8 without daylight saving (the replay worker runs with TZ=XXX8), so code that forgets the
zone is visible.
"""
import datetime as _d
from datetime import *               # noqa: F401,F403
from datetime import timezone, tzinfo, MINYEAR, MAXYEAR, UTC   # noqa: F401

from . import engine as _e
from . import terms as t
from . import values as v
from .values import SymInt, SymReal, is_sym

LOCAL_OFFSET = -8 * 3600
DAY = 86400 * 10 ** 6
_STR = {"Y": 4, "m": 2, "d": 2, "H": 2, "M": 2, "S": 2, "f": 6}


def _num(x):
    """symbolic number -> SymReal/SymInt/number"""
    return x


def _us_from_seconds(x):
    r = x * 1000000
    if type(r) is SymReal:
        return r.__round__()
    return r


def _ie(x):
    return x.e if type(x) is SymInt else int(x)


def _civil(days):
    """(year, month, day) of a symbolic day count, as fresh constrained integers"""
    E = _e.ENG
    key = ("civil", id(days) if not isinstance(days, int) else days)
    hit = E.known.get(key)
    if hit is not None:
        return hit
    if isinstance(days, int):
        r = _d.date.fromordinal(days + 719163)
        return r.year, r.month, r.day
    lo, hi = -719162, 2932896
    if not E.decide(t.c_and([t.c_le(lo, days), t.c_le(days, hi)])):
        raise ValueError("year is out of range")
    n = E.counters.get("civil", 0)
    E.counters["civil"] = n + 1
    a, b = t.bounds(days)
    a = lo if a is None else min(max(a, lo), hi)
    b = hi if b is None else max(min(b, hi), a)
    ya, yb = (_d.date.fromordinal(q + 719163).year for q in (a, b))
    y = E.var("%%y%d" % n, t.ISet.rng(ya, yb), min(max(1970, ya), yb))
    m = E.var("%%m%d" % n, t.ISet.rng(1, 12), 1)
    d = E.var("%%d%d" % n, t.ISet.rng(1, 31), 1)
    E.assume(t.c_eq(days_from_civil(y, m, d), days))
    E.assume(t.c_le(d, days_in_month(y, m)))
    E.known[key] = (y, m, d)
    return y, m, d


def days_in_month(y, m):
    leap = t.c_and([t.c_eq(t.imod(y, 4), 0),
                    t.c_or([t.c_not(t.c_eq(t.imod(y, 100), 0)), t.c_eq(t.imod(y, 400), 0)])])
    feb = t.iite(leap, 29, 28)
    return t.iite(t.c_in(m, t.ISet.rng(2, 2)), feb,
                  t.iite(t.c_in(m, t.ISet.of([4, 6, 9, 11])), 30, 31))


def days_from_civil(y, m, d):
    early = t.c_le(m, 2)
    yy = t.iadd(y, t.iite(early, -1, 0))
    mp = t.iadd(m, t.iite(early, 9, -3))
    doy = t.iadd(t.idiv(t.iadd(t.imul(mp, 153), 2), 5), t.iadd(d, -1))
    s = t.imul(yy, 365)
    s = t.iadd(s, t.idiv(yy, 4))
    s = t.isub(s, t.idiv(yy, 100))
    s = t.iadd(s, t.idiv(yy, 400))
    return t.iadd(t.iadd(s, doy), -719468)


def _two(e, w):
    ch = []
    for i in range(w - 1, -1, -1):
        q = t.idiv(e, 10 ** i)
        ch.append(t.iadd(t.imod(q, 10), 48))
    return v.mkstr(ch)


class timedelta(_d.timedelta):
    def __new__(cls, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
        parts = (days, seconds, microseconds, milliseconds, minutes, hours, weeks)
        if any(is_sym(p) for p in parts):
            us = 0
            for p, k in zip(parts, (DAY, 10 ** 6, 1, 1000, 60 * 10 ** 6, 3600 * 10 ** 6, 7 * DAY)):
                x = p * k
                if type(x) is SymReal:
                    x = x.__round__()
                elif isinstance(x, float):
                    x = round(x)
                us = x + us
            if isinstance(us, int) and type(us) is int:
                return _d.timedelta(microseconds=us)
            return SymTD(us)
        return _d.timedelta(days, seconds, microseconds, milliseconds, minutes, hours, weeks)


def _td_us(x):
    if type(x) is SymTD:
        return x.us
    return (x.days * 86400 + x.seconds) * 10 ** 6 + x.microseconds


class SymTD:
    __slots__ = ("us",)

    def __init__(self, us):
        self.us = us

    @property
    def __class__(self):
        return _d.timedelta

    def total_seconds(self):
        return self.us / 10 ** 6

    @property
    def days(self):
        return self.us // DAY

    @property
    def seconds(self):
        return self.us % DAY // 10 ** 6

    @property
    def microseconds(self):
        return self.us % 10 ** 6

    def __add__(self, o):
        if isinstance(o, _d.timedelta):
            return SymTD(self.us + _td_us(o))
        if isinstance(o, _d.datetime):
            return SymDT.of(o) + self
        if isinstance(o, _d.date):
            return SymDate(_days(o) + self.days)
        return NotImplemented

    __radd__ = __add__

    def __neg__(self):
        return SymTD(-self.us)

    def __sub__(self, o):
        return SymTD(self.us - _td_us(o))

    def __rsub__(self, o):
        if isinstance(o, _d.datetime):
            return SymDT.of(o) + (-self)
        return SymTD(_td_us(o) - self.us)

    def __floordiv__(self, o):
        if isinstance(o, _d.timedelta):
            return self.us // _td_us(o)
        return SymTD(self.us // o)

    def __mul__(self, o):
        return SymTD(self.us * o)

    __rmul__ = __mul__


def _days(d):
    if type(d) is SymDate:
        return d.days
    return d.toordinal() - 719163


class SymDate:
    __slots__ = ("days",)

    def __init__(self, days):
        E = _e.ENG
        if not E.decide(t.c_and([t.c_le(-719162, _ie(days)), t.c_le(_ie(days), 2932896)])):
            raise OverflowError("date value out of range")
        self.days = days

    @property
    def __class__(self):
        return _d.date

    def _ymd(self):
        return _civil(_ie(self.days))

    year = property(lambda s: SymInt.of(s._ymd()[0]))
    month = property(lambda s: SymInt.of(s._ymd()[1]))
    day = property(lambda s: SymInt.of(s._ymd()[2]))

    def isoformat(self):
        y, m, d = self._ymd()
        return v.cat(_two(y, 4), "-", _two(m, 2), "-", _two(d, 2))

    __str__ = lambda self: self.isoformat()

    def strftime(self, f):
        return _strftime(self, f)

    def __format__(self, spec):
        return self.strftime(spec) if spec else self.isoformat()

    def toordinal(self):
        return self.days + 719163

    def weekday(self):
        return (self.days + 3) % 7

    def isoweekday(self):
        return self.weekday() + 1

    def __add__(self, o):
        return SymDate(self.days + _td_us(o) // DAY)

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, _d.timedelta):
            return SymDate(self.days - _td_us(o) // DAY)
        return SymTD((self.days - _days(o)) * DAY)

    def __rsub__(self, o):
        return SymTD((_days(o) - self.days) * DAY)

    def __eq__(self, o):
        return self.days == _days(o)

    def __hash__(self):
        return hash(int(self.days))


class SymDT:
    """wall clock ``us`` (microseconds since the epoch in its own zone) and a concrete tzinfo or None"""
    __slots__ = ("us", "tzinfo")

    def __init__(self, us, tz):
        E = _e.ENG
        lo, hi = -719162 * DAY, 2932897 * DAY - 1
        if not E.decide(t.c_and([t.c_le(lo, _ie(us)), t.c_le(_ie(us), hi)])):
            raise ValueError("year is out of range")
        self.us, self.tzinfo = us, tz

    @staticmethod
    def of(x):
        if type(x) is SymDT:
            return x
        n = x.replace(tzinfo=None) - _d.datetime(1970, 1, 1)
        return SymDT(_td_us(n), x.tzinfo)

    @property
    def __class__(self):
        return _d.datetime

    def _off(self):
        if self.tzinfo is None:
            return LOCAL_OFFSET * 10 ** 6
        return _td_us(self.tzinfo.utcoffset(None))

    def date(self):
        return SymDate(self.us // DAY)

    def _ymd(self):
        return _civil(_ie(self.us // DAY))

    year = property(lambda s: SymInt.of(s._ymd()[0]))
    month = property(lambda s: SymInt.of(s._ymd()[1]))
    day = property(lambda s: SymInt.of(s._ymd()[2]))
    hour = property(lambda s: s.us % DAY // (3600 * 10 ** 6))
    minute = property(lambda s: s.us % (3600 * 10 ** 6) // (60 * 10 ** 6))
    second = property(lambda s: s.us % (60 * 10 ** 6) // 10 ** 6)
    microsecond = property(lambda s: s.us % 10 ** 6)

    def isoformat(self, sep="T", timespec="auto"):
        us = _ie(self.us)
        sod = t.idiv(t.imod(us, DAY), 10 ** 6)
        parts = [self.date().isoformat(), sep, _two(t.idiv(sod, 3600), 2), ":",
                 _two(t.imod(t.idiv(sod, 60), 60), 2), ":", _two(t.imod(sod, 60), 2)]
        frac = t.imod(us, 10 ** 6)
        if timespec == "milliseconds":
            parts += [".", _two(t.idiv(frac, 1000), 3)]
        elif timespec == "microseconds" or (timespec == "auto" and
                                            not _e.ENG.decide(t.c_eq(frac, 0))):
            parts += [".", _two(frac, 6)]
        if self.tzinfo is not None:
            off = self._off() // (60 * 10 ** 6)
            parts.append("%s%02d:%02d" % ("-" if off < 0 else "+", abs(off) // 60, abs(off) % 60))
        return v.cat(*parts)

    def __str__(self):
        return self.isoformat(" ")

    def strftime(self, f):
        return _strftime(self, f)

    def __format__(self, spec):
        return self.strftime(spec) if spec else self.isoformat(" ")

    def timestamp(self):
        return (self.us - self._off()) / 10 ** 6

    def astimezone(self, tz=None):
        utc = self.us - self._off()
        if tz is None:
            tz = timezone(_d.timedelta(seconds=LOCAL_OFFSET))
        return SymDT(utc + _td_us(tz.utcoffset(None)), tz)

    def replace(self, **k):
        tz = k.pop("tzinfo", self.tzinfo)
        us = self.us
        if k.pop("microsecond", None) == 0:
            us = us - us % 10 ** 6
        if k:
            if set(k) <= {"hour", "minute", "second"} and all(x == 0 for x in k.values()):
                for n, size, top in (("second", 10 ** 6, 60), ("minute", 60 * 10 ** 6, 60),
                                     ("hour", 3600 * 10 ** 6, 24)):
                    if n in k:
                        us = us - (us // size % top) * size
            else:
                raise _e.Unsupported("datetime.replace(%s)" % sorted(k))
        return SymDT(us, tz)

    def utcoffset(self):
        return None if self.tzinfo is None else self.tzinfo.utcoffset(None)

    def __add__(self, o):
        return SymDT(self.us + _td_us(o), self.tzinfo)

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, _d.timedelta):
            return SymDT(self.us - _td_us(o), self.tzinfo)
        o = SymDT.of(o)
        if (self.tzinfo is None) != (o.tzinfo is None):
            raise TypeError("can't subtract offset-naive and offset-aware datetimes")
        a = self.us - (self._off() if self.tzinfo else 0)
        b = o.us - (o._off() if o.tzinfo else 0)
        return SymTD(a - b)

    def timetuple(self):
        return SymST(self)

    def utctimetuple(self):
        return SymST(self if self.tzinfo is None else self.astimezone(timezone.utc))

    def toordinal(self):
        return self.us // DAY + 719163

    def weekday(self):
        return (self.us // DAY + 3) % 7


class SymST(tuple):
    """time.struct_time of a symbolic instant (day of the year left out)"""

    def __new__(cls, dt):
        r = tuple.__new__(cls, (dt.year, dt.month, dt.day, dt.hour, dt.minute, dt.second, dt.weekday(), 0, -1))
        r.dt = dt
        return r

    tm_year = property(lambda s: s[0])
    tm_mon = property(lambda s: s[1])
    tm_mday = property(lambda s: s[2])
    tm_hour = property(lambda s: s[3])
    tm_min = property(lambda s: s[4])
    tm_sec = property(lambda s: s[5])
    tm_wday = property(lambda s: s[6])

    @property
    def tm_yday(self):
        raise _e.Unsupported("struct_time.tm_yday")


def _strftime(x, f):
    if v.is_symstr(f):
        f = f._concrete("strftime format")
    out, i = [], 0
    us = _ie(x.us) if type(x) is SymDT else t.imul(_ie(x.days), DAY)
    sod = t.idiv(t.imod(us, DAY), 10 ** 6)
    while i < len(f):
        c = f[i]
        if c != "%":
            out.append(c)
            i += 1
            continue
        k = f[i + 1]
        i += 2
        y, m, d = x._ymd() if k in "YmdFyDjbBeGu" else (None, None, None)
        if k == "%":
            out.append("%")
        elif k == "Y":
            out.append(SymInt.of(y).dec() if not isinstance(y, int) else str(y))   # glibc: no padding
        elif k == "m":
            out.append(_two(m, 2))
        elif k == "d":
            out.append(_two(d, 2))
        elif k == "F":
            out += [SymInt.of(y).dec() if not isinstance(y, int) else str(y), "-", _two(m, 2), "-", _two(d, 2)]
        elif k == "H":
            out.append(_two(t.idiv(sod, 3600), 2))
        elif k == "M":
            out.append(_two(t.imod(t.idiv(sod, 60), 60), 2))
        elif k == "S":
            out.append(_two(t.imod(sod, 60), 2))
        elif k == "f":
            out.append(_two(t.imod(us, 10 ** 6), 6))
        elif k == "y":
            out.append(_two(t.imod(y, 100), 2))
        else:
            raise _e.Unsupported("strftime %%%s" % k)
    return v.cat(*out)


class _DTMeta(type(_d.datetime)):
    def __instancecheck__(cls, x):
        return isinstance(x, _d.datetime)


class datetime(_d.datetime, metaclass=_DTMeta):
    def __new__(cls, *a, **k):
        if any(is_sym(x) for x in a) or any(is_sym(x) for x in k.values()):
            names = ("year", "month", "day", "hour", "minute", "second", "microsecond", "tzinfo")
            d = dict(zip(names, a), **k)
            y, m, dd = (_ie(d[n]) for n in names[:3])
            E = _e.ENG
            if not E.decide(t.c_and([t.c_le(1, y), t.c_le(y, 9999), t.c_le(1, m), t.c_le(m, 12), t.c_le(1, dd),
                                     t.c_le(dd, days_in_month(y, m))])):
                raise ValueError("day is out of range for month")
            us = SymInt.of(days_from_civil(y, m, dd)) * DAY
            for n, sz in (("hour", 3600 * 10 ** 6), ("minute", 60 * 10 ** 6), ("second", 10 ** 6), ("microsecond", 1)):
                us = us + d.get(n, 0) * sz
            return SymDT(us, d.get("tzinfo"))
        return _d.datetime(*a, **k)

    @classmethod
    def fromtimestamp(cls, x, tz=None):
        if is_sym(x):
            us = _us_from_seconds(x)
            off = LOCAL_OFFSET * 10 ** 6 if tz is None else _td_us(tz.utcoffset(None))
            return SymDT(us + off, tz)
        return _d.datetime.fromtimestamp(x, tz)

    @classmethod
    def utcfromtimestamp(cls, x):
        if is_sym(x):
            return SymDT(_us_from_seconds(x), None)
        return _d.datetime.utcfromtimestamp(x)

    @classmethod
    def fromordinal(cls, n):
        if is_sym(n):
            return SymDT((n - 719163) * DAY, None)
        return _d.datetime.fromordinal(n)

    @classmethod
    def combine(cls, d, tm, *a):
        if type(d) is SymDate:
            us = ((tm.hour * 60 + tm.minute) * 60 + tm.second) * 10 ** 6 + tm.microsecond
            return SymDT(d.days * DAY + us, a[0] if a else tm.tzinfo)
        return _d.datetime.combine(d, tm, *a)

    @classmethod
    def fromisoformat(cls, s):
        return _d.datetime.fromisoformat(s._concrete("fromisoformat") if v.is_symstr(s) else s)

    @classmethod
    def strptime(cls, s, f):
        return _d.datetime.strptime(s._concrete("strptime") if v.is_symstr(s) else s, f)


class _DateMeta(type(_d.date)):
    def __instancecheck__(cls, x):
        return isinstance(x, _d.date)


class date(_d.date, metaclass=_DateMeta):
    def __new__(cls, *a, **k):
        if any(is_sym(x) for x in a):
            d = datetime(*a, **k)
            return d.date()
        return _d.date(*a, **k)

    @classmethod
    def fromtimestamp(cls, x):
        if is_sym(x):
            return datetime.fromtimestamp(x).date()
        return _d.date.fromtimestamp(x)

    @classmethod
    def fromordinal(cls, n):
        if is_sym(n):
            return SymDate(n - 719163)
        return _d.date.fromordinal(n)
