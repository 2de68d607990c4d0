"""``functools`` whose caches compare keys symbolically instead of hashing them."""
from functools import *            # noqa: F401,F403
import functools as _f
from . import engine as _e
from . import hooks
from .values import is_sym

_caches = []


def _same(a, b):
    if a is b:
        return True
    if type(a) is not type(b) and not (is_sym(a) or is_sym(b)):
        return False
    if isinstance(a, tuple):
        return len(a) == len(b) and all(_same(x, y) for x, y in zip(a, b))
    return bool(a == b)


def _info(hits, misses, maxsize, n):
    return (hits, misses, maxsize, n)


def lru_cache(maxsize=128, typed=False):
    if callable(maxsize):
        return _wrap(maxsize)
    return lambda f: _wrap(f)


def cache(f):
    return _wrap(f)


def _wrap(f):
    store = []
    _caches.append(store)

    @_f.wraps(f)
    def g(*a, **k):
        for x in a:
            if isinstance(x, (list, dict, set)):
                raise TypeError("unhashable type: %r" % type(x).__name__)
        kk = tuple(sorted(k.items()))
        for ka, kv, r in store:
            if _same(ka, a) and _same(kv, kk):
                return r
        r = f(*a, **k)
        store.append((a, kk, r))
        return r
    g.cache_clear = store.clear
    g.cache_info = lambda: _info(0, 0, None, len(store))
    g.__module__ = "symex.lib_functools"
    return g


def partial(f, /, *a0, **k0):
    def g(*a, **k):
        return hooks.sx_call(f, *a0, *a, **{**k0, **k})
    return g


def reduce(f, it, *init):
    return _f.reduce(hooks.wrap_callable(f), it, *init)


def reset():
    for c in _caches:
        c.clear()
