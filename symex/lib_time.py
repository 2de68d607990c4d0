"""``time`` for the instrumented code: calendar functions of symbolic instants; the rest passes through
(no property depends on the clock)."""
import time as _t
from time import *                 # noqa: F401,F403

from . import engine as _e
from . import lib_datetime as _dt
from .values import is_sym, SymReal


def _whole(x):
    return x.floor() if type(x) is SymReal else x          # gmtime and localtime drop the fraction


def gmtime(*a):
    if a and is_sym(a[0]):
        return _dt.SymST(_dt.SymDT(_whole(a[0]) * 10 ** 6, None))
    return _t.gmtime(*a)


def localtime(*a):
    if a and is_sym(a[0]):
        return _dt.SymST(_dt.SymDT((_whole(a[0]) + _dt.LOCAL_OFFSET) * 10 ** 6, None))
    return _t.localtime(*a)


def strftime(f, *a):
    if a and type(a[0]) is _dt.SymST:
        return a[0].dt.strftime(f)
    return _t.strftime(f, *a)


def mktime(x):
    if type(x) is _dt.SymST:
        return x.dt.timestamp()
    return _t.mktime(x)
