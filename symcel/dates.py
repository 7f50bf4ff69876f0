"""Stand-in for `datetime` over symbolic values: a date keeps its calendar
fields and, apart from them, the fraction of a day since their midnight."""
import types
from datetime import timezone, tzinfo

from .core import Sym, SymError

UNITS = {"days": 1, "seconds": 86400, "microseconds": 86400 * 10 ** 6, "milliseconds": 86400 * 10 ** 3,
         "minutes": 1440, "hours": 24}


def _number(x, what):
    import numpy as np
    if isinstance(x, (Sym, int, float, np.integer, np.floating)):
        return x
    if isinstance(x, (str, type(None), list, tuple)):
        raise TypeError("unsupported type for timedelta %s component: %s" % (what, type(x).__name__))
    raise SymError("timedelta of %s" % type(x).__name__)


def _whole(x):
    """An integer, as `datetime` asks for."""
    import numpy as np
    if isinstance(x, Sym):
        from .loader import s_isinstance
        if not s_isinstance(x, (int, np.integer)):
            raise TypeError("'float' object cannot be interpreted as an integer")
        return x
    if isinstance(x, (int, np.integer)):
        return int(x)
    raise TypeError("%r object cannot be interpreted as an integer" % type(x).__name__)


def _dunder(name):
    if name.startswith("__"):
        raise AttributeError(name)


class timedelta:
    def __init__(self, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
        t = _number(days, "days")
        for name, v in (("seconds", seconds), ("microseconds", microseconds), ("milliseconds", milliseconds),
                        ("minutes", minutes), ("hours", hours)):
            if isinstance(v, Sym) or v != 0:
                t = t + _number(v, name) / UNITS[name]
        if isinstance(weeks, Sym) or weeks != 0:
            t = t + _number(weeks, "weeks") * 7
        self._t = t

    def total_seconds(self):
        return self._t * 86400

    def __add__(self, o):
        return timedelta(self._t + o._t) if isinstance(o, timedelta) else NotImplemented

    def __sub__(self, o):
        return timedelta(self._t - o._t) if isinstance(o, timedelta) else NotImplemented

    def __mul__(self, o):
        return timedelta(self._t * o) if isinstance(o, (Sym, int, float)) else NotImplemented

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, timedelta):
            return self._t / o._t
        return timedelta(self._t / o) if isinstance(o, (Sym, int, float)) else NotImplemented

    def __neg__(self):
        return timedelta(-self._t)

    def __getattr__(self, name):
        _dunder(name)
        raise SymError("timedelta.%s" % name)


class _Refuse(type):
    def __getattr__(cls, name):
        _dunder(name)
        raise SymError("%s.%s" % (cls.__name__, name))


class datetime(metaclass=_Refuse):
    def __init__(self, year, month=None, day=None, hour=0, minute=0, second=0, microsecond=0, tzinfo=None):
        self.f = tuple(_whole(x) for x in (year, month, day))
        t = 0
        for v, top, n in ((hour, 24, 24), (minute, 60, 1440), (second, 60, 86400), (microsecond, 10 ** 6, 86400 * 10 ** 6)):
            v = _whole(v)
            if isinstance(v, Sym) or v != 0:
                if not ((v >= 0) & (v < top)):
                    raise ValueError("hour, minute, second or microsecond is out of range")
                t = t + v / n
        self.t = t
        if tzinfo is not None:
            raise SymError("datetime with a time zone")

    def __add__(self, o):
        if not isinstance(o, timedelta):
            return NotImplemented
        r = type(self)(*self.f)
        r.t = self.t + o._t
        return r

    __radd__ = __add__

    def __sub__(self, o):
        return self + -o if isinstance(o, timedelta) else NotImplemented

    def __getattr__(self, name):
        _dunder(name)
        raise SymError("datetime.%s" % name)


def module():
    m = types.ModuleType("datetime")
    m.datetime, m.timedelta, m.timezone, m.tzinfo = datetime, timedelta, timezone, tzinfo
    return m


MODULE = module()


def parts(d):
    """Calendar fields and fraction of the day of either kind of date."""
    if isinstance(d, datetime):
        return d.f, d.t
    if not all(hasattr(d, a) for a in ("year", "month", "day", "hour", "microsecond")):
        return None
    s = (d.hour * 60 + d.minute) * 60 + d.second
    return (d.year, d.month, d.day), (s + d.microsecond * 1e-6) / 86400
