"""A clock owned by the check: install() before the code under test is imported."""
import datetime
import time

NOW = [datetime.datetime(2024, 7, 1, 12, 0, 0)]
_real_dt, _real_d = datetime.datetime, datetime.date


class _MetaDT(type):
    def __instancecheck__(cls, o):
        return isinstance(o, _real_dt)

    def __subclasscheck__(cls, c):
        return issubclass(c, _real_dt)


class _MetaD(type):
    def __instancecheck__(cls, o):
        return isinstance(o, _real_d)

    def __subclasscheck__(cls, c):
        return issubclass(c, _real_d)


class FixedDT(_real_dt, metaclass=_MetaDT):
    @classmethod
    def now(cls, tz=None):
        return NOW[0] if tz is None else NOW[0].replace(tzinfo=tz)

    @classmethod
    def today(cls):
        return NOW[0]

    @classmethod
    def utcnow(cls):
        return NOW[0]


class FixedD(_real_d, metaclass=_MetaD):
    @classmethod
    def today(cls):
        return NOW[0].date()


def install():
    datetime.datetime = FixedDT
    datetime.date = FixedD
    real_local, real_gm, real_time = time.localtime, time.gmtime, time.time
    time.localtime = lambda s=None: NOW[0].timetuple() if s is None else real_local(s)
    time.gmtime = lambda s=None: NOW[0].timetuple() if s is None else real_gm(s)
    return real_time


def set_now(*fields):
    NOW[0] = _real_dt(*fields)
