"""Run-time hooks the AST rewriter inserts around calls, f-strings, ``in``, ``%``, ``is`` and subscripts."""
import builtins
import collections
import enum
import functools
import io
import math
import operator
import types

from . import engine as _e
from . import terms as t
from . import values as v
from .values import SymStr, SymInt, SymBool, SymReal, SymKey, is_sym, is_symstr

_BUILTIN = types.BuiltinFunctionType
_PYFUNC = types.FunctionType
_METHOD = types.MethodType
_METHDESC = types.MethodDescriptorType
_WRAPDESC = types.WrapperDescriptorType
_METHWRAP = types.MethodWrapperType

# Python-level library code that only uses operations the proxies implement
SAFE_MODULES = {
    "copy", "dataclasses", "logging", "func_args", "html", "enum", "abc", "contextlib", "functools",
    "typing", "types", "collections", "warnings", "inspect", "_weakrefset", "threading", "weakref",
    "reprlib", "operator", "string", "keyword", "itertools", "fractions", "numbers", "z3", "symex", "datetime",
}
INSTRUMENTED = set()      # names of instrumented modules


def has_sym(x, depth=6):
    ty = type(x)
    if ty is SymStr or ty is SymInt or ty is SymBool or ty is SymReal or ty is SymKey:
        return True
    if depth and (ty is list or ty is tuple or ty is set or ty is frozenset):
        return any(has_sym(i, depth - 1) for i in x)
    if depth and ty is dict:
        return any(has_sym(k, 0) or has_sym(i, depth - 1) for k, i in x.items())
    return False


def concretise(x, why):
    ty = type(x)
    if is_symstr(x):
        return x._concrete(why)
    if ty is SymInt:
        return _e.ENG.value(x.e) if x.e.dom is not None and x.e.dom.size() <= 64 else _e.ENG.sample((x.e,), why)[0]
    if ty is SymBool:
        return bool(x)
    if ty is SymReal:
        return x.concrete(why)
    if ty is list:
        return [concretise(i, why) for i in x]
    if ty is tuple:
        return tuple(concretise(i, why) for i in x)
    if ty is dict:
        return {concretise(k, why): concretise(i, why) for k, i in x.items()}
    if ty is set or ty is frozenset:
        return ty(concretise(i, why) for i in x)
    return x


def is_obj(x):
    """an instance of a dataclass that hashes and compares by its fields"""
    ty = type(x)
    return hasattr(ty, "__dataclass_fields__") and ty.__hash__ is not None and ty.__hash__ is not object.__hash__


def is_comp(k, depth=6):
    """a key made of parts, of which some are symbolic?"""
    ty = type(k)
    if ty is tuple:
        return any([is_sym(x) or is_comp(x, depth - 1) for x in k]) if depth else False
    if depth and is_obj(k):
        return any([is_sym(x) or is_comp(x, depth - 1) for x in vars(k).values()])
    return False


def is_part(k):
    return type(k) is tuple or is_obj(k)


def key_sym(k):
    return is_sym(k) or is_part(k) and is_comp(k)


def sym_keys(x):
    return any([key_sym(k) for k in x])


def store_key(k):
    """the key as it is stored: it hashes without a choice of its value"""
    if is_symstr(k):
        return SymKey(k.ch) if type(k) is not SymKey else k
    if type(k) is tuple:
        return tuple([store_key(x) for x in k])
    if type(k) is SymInt:
        return _e.ENG.value(k.e)
    if type(k) is SymBool:
        return bool(k)
    if is_obj(k) and is_comp(k):
        n = object.__new__(type(k))
        vars(n).update({a: store_key(x) for a, x in vars(k).items()})
        return n
    return k


def check_hashable(k):
    if isinstance(k, (list, dict, set)):
        raise TypeError("unhashable type: %r" % type(k).__name__)
    if type(k) is tuple:
        for x in k:
            check_hashable(x)
    elif is_obj(k):
        for x in vars(k).values():
            check_hashable(x)


def resolve_key(keys, k):
    """which concrete key equals the symbolic key k (forks)? returns (found, key)"""
    if type(k) is SymBool:
        k = bool(k)
        return (k in keys, k)
    if type(k) is SymReal:
        k = k.concrete("dict key")
        return (k in keys, k)
    if is_part(k):
        check_hashable(k)
        for c in list(keys):
            if c is k or type(c) is type(k) and (type(c) is not tuple or len(c) == len(k)) and bool(k == c):
                return True, c
        return False, None
    for c in list(keys):
        if c is k:
            return True, c
        if is_symstr(k) or type(k) is str:
            if not isinstance(c, str):
                continue
        elif not isinstance(c, (int, float)):
            continue
        if bool(k == c):
            return True, c
    return False, None


def _key_needs(d, k):
    """does looking k up in mapping d need symbolic comparison?"""
    ty = type(k)
    if ty is SymKey:
        return k not in d if False else True
    return ty is SymStr or ty is SymInt or ty is SymReal


def wrap_callable(f):
    """a callable handed to C code (map, sorted, ...) must go through the call hook"""
    if f is None:
        return None
    ty = type(f)
    if ty is _PYFUNC or ty is _METHOD:
        return f
    return lambda *a, **k: sx_call(f, *a, **k)


def wrap_c(x):
    """callables implemented in C, as arguments of C code that will call them with proxies"""
    ty = type(x)
    if ty is _BUILTIN or ty is _METHDESC or ty is _WRAPDESC or ty is _METHWRAP or isinstance(x, type) and x.__module__ == "builtins":
        return wrap_callable(x)
    return x


def _fromkeys(cls, it, val=None):
    d = cls()
    for key in it:
        sx_setitem(d, key, val)
    return d


def _sym_keyed(d):
    for c in d:
        if type(c) is SymKey or is_part(c) and is_comp(c):
            return True
    return False


def needs_scan(d, k):
    """must the key be compared with those of ``d`` one by one?"""
    ty = type(k)
    if ty is str:
        return k not in d and _sym_keyed(d)
    if is_sym(k):
        return True
    if is_part(k):
        return is_comp(k) or _sym_keyed(d)
    return False


def _dict_method(d, name, a, k):
    key = a[0]
    found, real = resolve_key(d, key)
    if name == "__contains__":
        return found
    if name == "__getitem__":
        if found:
            return d[real]
        if getattr(d, "default_factory", None) is not None:
            val = sx_call(d.default_factory)
            sx_setitem_new(d, key, val)
            return val
        if isinstance(d, collections.Counter):
            return 0
        raise KeyError(key)
    if name == "get":
        if found:
            return d[real]
        return a[1] if len(a) > 1 else None
    if name == "pop":
        if found:
            return d.pop(real)
        if len(a) > 1:
            return a[1]
        raise KeyError(key)
    if name == "setdefault":
        if found:
            return d[real]
        sx_setitem_new(d, key, a[1] if len(a) > 1 else None)
        return a[1] if len(a) > 1 else None
    raise AssertionError(name)


def sx_setitem_new(d, key, val):
    d[store_key(key)] = val


def _str_call(self_, name, a, k):
    if name == "join":
        items = list(a[0]) if not isinstance(a[0], (list, tuple)) else a[0]
        if any(is_symstr(i) for i in items):
            return SymStr.of(self_).join(items)
        return self_.join(items)
    if name == "format":
        if has_sym(a) or has_sym(k) or _has_custom(a) or _has_custom(k.values()):
            return v.str_format(self_, a, k)
        return self_.format(*a, **k)
    if name == "format_map":
        return v.str_format(self_, (), a[0])
    if has_sym(a) or has_sym(k):
        if name in ("maketrans",):
            return str.maketrans(*concretise(a, "str.maketrans"))
        if name == "translate":
            return _translate(self_, a[0])
        return getattr(SymStr.of(self_), name)(*a, **k)
    return getattr(self_, name)(*a, **k)


def _translate(s, table):
    return SymStr.of(s).translate(table)


def _has_custom(vals):
    for x in vals:
        ty = type(x)
        if ty in (str, int, float, bool, type(None)):
            continue
        return True
    return False


def _int(*a, **k):
    x = a[0] if a else 0
    ty = type(x)
    if is_symstr(x):
        return v.parse_int(x, *a[1:], **k)
    if ty is SymInt:
        return x
    if ty is SymBool:
        return int(bool(x))
    if ty is SymReal:
        return x.trunc()
    return int(*a, **k)


def _float(*a):
    x = a[0] if a else 0.0
    ty = type(x)
    if is_symstr(x):
        s = SymStr.of(x).strip(v.NUMBER_BLANKS)
        ch = v.chars_of(s)
        dig = t.ISet.rng(48, 57)
        # plain [sign]digits[.digits] is modelled exactly, anything else is concretised
        body = ch
        sign = 1
        if ch and _e.ENG.decide(t.c_in(ch[0], t.ISet.of([43, 45]))):
            if _e.ENG.decide(t.c_eq(ch[0], 45)):
                sign = -1
            body = ch[1:]
        if not body:
            raise ValueError("could not convert string to float")
        total, scale, dot = 0, 1, False
        for c in body:
            if _e.ENG.decide(t.c_in(c, dig)):
                total = t.iadd(t.imul(total, 10), v._digit(c))
                if dot:
                    scale *= 10
            elif not dot and _e.ENG.decide(t.c_eq(c, 46)):
                dot = True
            else:
                return float(concretise(x, "float(str)"))
        if len(body) == 1 and dot:
            raise ValueError("could not convert string to float")
        return SymReal(t.imul(total, sign), scale)
    if ty is SymInt:
        return SymReal(x.e, 1)
    if ty is SymReal:
        return x
    return float(*a)


def _type(*a, **k):
    if len(a) == 1:
        ty = type(a[0])
        if ty is SymStr or ty is SymKey:
            return str
        if ty is SymInt:
            return int
        if ty is SymBool:
            return bool
        if ty is SymReal:
            return float
        return ty
    return type(*a, **k)


def _ord(c):
    if is_symstr(c):
        if len(c.ch) != 1:
            raise TypeError("ord() expected a character, but string of length %d found" % len(c.ch))
        return SymInt.of(c.ch[0])
    return ord(c)


def _chr(i):
    if type(i) is SymInt:
        e = i.e
        if e.dom is None or not (e.dom - t.ALLCH) == t.ISet(()):
            if not _e.ENG.decide(t.c_and([t.c_le(0, e), t.c_le(e, t.MAXC)])):
                raise ValueError("chr() arg not in range(0x110000)")
        return v.mkstr((e,))
    return chr(i)


def _getattr(o, name, *d):
    if is_symstr(name):
        for n in dir(o):
            if bool(name == n):
                return getattr(o, n, *d)
        if d:
            return d[0]
        raise AttributeError("no attribute")
    return getattr(o, name, *d)


def _hasattr(o, name):
    if is_symstr(name):
        return any(bool(name == n) for n in dir(o))
    return hasattr(o, name)


def _sorted(it, *, key=None, reverse=False):
    return sorted(it, key=wrap_callable(key), reverse=reverse)


def _minmax(f):
    def g(*a, key=None, **k):
        if key is not None:
            k["key"] = wrap_callable(key)
        return f(*a, **k)
    return g


def _print(*a, sep=" ", end="\n", file=None, flush=False):
    if file is not None:
        parts = [p for i, x in enumerate(a) for p in ((sep if sep is not None else " ") if i else "", v.sx_str(x))]
        file.write(v.cat(*parts, end if end is not None else "\n"))


def _sum(it, start=0):
    for x in it:
        start = start + x
    return start


def _round(x, *a):
    return round(x, *a)


def _divmod(a, b):
    if type(a) in (SymInt, SymReal):
        return a.__divmod__(b)
    return divmod(a, b)


def _index(x):
    if type(x) is SymInt:
        return x
    return operator.index(x)


def _isinstance(x, c):
    # a SymBool result of a comparison is a bool, which is also an int
    if type(x) is SymBool:
        cs = c if isinstance(c, tuple) else (c,)
        return any(k in (bool, int, object) for k in cs)
    return isinstance(x, c)


def _set(*a):
    if a and not isinstance(a[0], (dict, set, frozenset)):
        items = list(a[0])
        if any(is_symstr(i) or is_part(i) and is_comp(i) for i in items):
            return sym_set(items)
        return set(items)
    return set(*a)


def _counter(*a, **k):
    if len(a) != 1 or k or isinstance(a[0], dict):
        return collections.Counter(*a, **k)
    n = collections.Counter()
    for i in a[0]:
        if key_sym(i):
            sx_setitem(n, i, _dict_method(n, "__getitem__", (i,), {}) + 1)
        else:
            if needs_scan(n, i):
                found, c = resolve_key(n, i)
                i = c if found else i
            n[i] = n[i] + 1
    return n


def sym_set(items):
    out = []
    for i in items:
        if not any((i is j) or bool(i == j) for j in out):
            out.append(i)
    return {store_key(i) if is_symstr(i) or is_part(i) else i for i in out}


def _dict(*a, **k):
    if a and not isinstance(a[0], (dict, types.MappingProxyType)) and not hasattr(a[0], "keys"):
        ps = [tuple(p) for p in a[0]]
        if all(len(p) == 2 for p in ps) and any(key_sym(p[0]) for p in ps):
            return sx_dict(ps + list(k.items()))
        return dict(ps, **k)
    return dict(*a, **k)


def _vars(*a):
    return vars(*a)


def _filter(f, it):
    return filter(wrap_callable(f), it)


def _map(f, *its):
    return map(wrap_callable(f), *its)


def _reduce(f, *a):
    return functools.reduce(wrap_callable(f), *a)


SPECIAL = {
    str: lambda *a, **k: v.sx_str(a[0]) if len(a) == 1 and not k else str(*a, **k),
    int: _int, float: _float, type: _type, repr: lambda x: v.sx_repr(x), ord: _ord, chr: _chr,
    format: lambda x, spec="": v.sx_format(x, spec), getattr: _getattr, hasattr: _hasattr,
    sorted: _sorted, min: _minmax(min), max: _minmax(max), map: _map, filter: _filter, print: _print,
    sum: _sum, divmod: _divmod, operator.index: _index, isinstance: _isinstance, set: _set, dict: _dict,
    frozenset: lambda *a: frozenset(_set(*a)),
    functools.reduce: _reduce, collections.Counter: lambda *a, **k: _counter(*a, **k),
    operator.contains: lambda a, b: sx_in(b, a),
    math.floor: lambda x: x.__floor__() if is_sym(x) else math.floor(x),
    math.ceil: lambda x: x.__ceil__() if is_sym(x) else math.ceil(x),
    math.trunc: lambda x: x.__trunc__() if is_sym(x) else math.trunc(x),
    operator.mod: lambda a, b: sx_mod(a, b),
    operator.getitem: lambda a, b: sx_getitem(a, b),
}
# C functions that are fine with proxies as arguments
OK_BUILTINS = {
    len, isinstance, issubclass, callable, iter, next, any, all, id, abs, setattr, delattr, hash, pow,
    round, dir, vars, builtins.__build_class__, object.__setattr__,
}
OK_TYPES = {list, tuple, dict, bool, zip, enumerate, reversed, range, slice, object, super, property,
            staticmethod, classmethod, BaseException}


def sx_call(f, *a, **k):
    ty = type(f)
    if ty is _PYFUNC:
        if f.__module__ in INSTRUMENTED:
            return f(*a, **k)
        return _pycall(f, f, a, k)
    if ty is _METHOD:
        g = f.__func__
        if type(g) is not _PYFUNC or g.__module__ in INSTRUMENTED:
            return f(*a, **k)
        return _pycall(f, g, a, k)
    if isinstance(f, type):
        sp = SPECIAL.get(f)
        if sp is not None:
            return sp(*a, **k)
        if a and isinstance(f, enum.EnumMeta) and is_sym(a[0]):
            found, val = resolve_key([m.value for m in f], a[0])
            if found:
                return f(val)
            raise ValueError("%s is not a valid %s" % ("value", f.__name__))
        if f in OK_TYPES or f.__module__ in INSTRUMENTED or f.__module__.startswith("symex"):
            return f(*a, **k)
        if f.__module__ in ("itertools", "functools"):
            return f(*[wrap_c(x) for x in a], **{n: wrap_c(x) for n, x in k.items()})
        if issubclass(f, BaseException):
            return f(*a, **k)
        if (has_sym(a) or has_sym(k)) and type(f.__init__) is not _PYFUNC and type(f.__new__) is not _PYFUNC \
                and f.__module__ not in ("itertools", "collections", "functools", "types", "symex.lib_datetime"):
            return f(*concretise(a, "type " + f.__qualname__), **concretise(k, "type " + f.__qualname__))
        return f(*a, **k)
    if ty is _BUILTIN:
        sp = SPECIAL.get(f)
        if sp is not None:
            return sp(*a, **k)
        s = f.__self__
        if s is None or isinstance(s, types.ModuleType):
            if f in OK_BUILTINS or not (has_sym(a) or has_sym(k)):
                return f(*a, **k)
            mod = f.__module__ or ""
            if mod in ("_functools", "itertools", "_operator", "operator", "_abc", "_weakref", "_thread", "_logging"):
                return f(*a, **k)
            why = "C function %s.%s" % (mod, f.__qualname__)
            return f(*concretise(list(a), why), **concretise(k, why))
        st = type(s)
        if st is str or (isinstance(s, str) and not is_symstr(s)):
            return _str_call(s, f.__name__, a, k)
        if isinstance(s, dict):
            n = f.__name__
            if n in ("get", "pop", "setdefault", "__contains__", "__getitem__") and a and is_sym(a[0]) \
                    or n in ("get", "pop", "setdefault", "__contains__", "__getitem__") and a and needs_scan(s, a[0]):
                return _dict_method(s, n, a, k)
            return f(*a, **k)
        if isinstance(s, (set, frozenset)):
            n = f.__name__
            if a and n in ("__contains__", "add", "discard", "remove") and needs_scan(s, a[0]):
                if n == "__contains__":
                    return resolve_key(s, a[0])[0]
                if n == "add":
                    if not resolve_key(s, a[0])[0]:
                        s.add(store_key(a[0]) if is_symstr(a[0]) or is_part(a[0]) else a[0])
                    return None
                if n == "discard":
                    found, key = resolve_key(s, a[0])
                    if found:
                        s.discard(key)
                    return None
                if n == "remove":
                    found, key = resolve_key(s, a[0])
                    if not found:
                        raise KeyError(a[0])
                    s.remove(key)
                    return None
            if n in _SET_METHODS and a:
                a = [x if type(x) in _SETS or isinstance(x, (list, tuple, str)) else list(x) for x in a]
                if sym_keys(s) or any(sym_keys(x) for x in a):
                    return _set_method(s, n, a)
            return f(*a, **k)
        if st is list:
            if f.__name__ == "sort" and k.get("key") is not None:
                k["key"] = wrap_callable(k["key"])
            return f(*a, **k)
        if st is type or isinstance(s, type):
            # class methods of C types: dict.fromkeys, str.maketrans, int.from_bytes, object.__new__ ...
            if f.__name__ == "fromkeys" and isinstance(s, type) and issubclass(s, dict):
                return _fromkeys(s, *a)
            if isinstance(s, type) and s.__module__ == "itertools":
                return f(*a, **k)
            if f.__name__ in ("__new__", "__init_subclass__", "__subclasshook__"):
                return f(*a, **k)
            if has_sym(a) or has_sym(k):
                if s is str and f.__name__ == "maketrans":
                    return f(*concretise(list(a), "str.maketrans"))
                why = "C function %s" % f.__qualname__
                return f(*concretise(list(a), why), **concretise(k, why))
            return f(*a, **k)
        if st is types.MappingProxyType and f.__name__ == "get" and a and is_sym(a[0]):
            found, key = resolve_key(s, a[0])
            return s[key] if found else a[1] if len(a) > 1 else None
        if st in (tuple, range) or st.__module__ in ("collections", "itertools", "types", "functools", "symex"):
            return f(*a, **k)
        if has_sym(a) or has_sym(k):
            if isinstance(s, io.StringIO):
                raise _e.Unsupported("io.StringIO with symbolic text")
            why = "C method %s" % f.__qualname__
            return f(*concretise(list(a), why), **concretise(k, why))
        return f(*a, **k)
    if ty is _METHWRAP and isinstance(f.__self__, str) and has_sym(a):
        return getattr(SymStr.of(f.__self__), f.__name__)(*a, **k)
    if ty is _METHDESC or ty is _WRAPDESC:
        if a and is_sym(a[0]) or f.__objclass__ is str and has_sym(a):
            if f.__objclass__ is str:
                return _str_call(a[0], f.__name__, a[1:], k) if not is_symstr(a[0]) \
                    else getattr(a[0], f.__name__)(*a[1:], **k)
            if f.__objclass__ in (int, float, bool):
                return getattr(a[0], f.__name__)(*a[1:], **k)
        if f.__objclass__ is dict and len(a) > 1 and f.__name__ in ("__contains__", "__getitem__", "get", "pop", "setdefault") \
                and needs_scan(a[0], a[1]):
            return _dict_method(a[0], f.__name__, a[1:], k)
        return f(*a, **k)
    return f(*a, **k)


def _pycall(f, g, a, k):
    mod = (g.__module__ or "").split(".")[0]
    if mod in SAFE_MODULES or not (has_sym(a) or has_sym(k)):
        return f(*a, **k)
    why = "library function %s.%s" % (g.__module__, g.__qualname__)
    return f(*concretise(list(a), why), **concretise(k, why))


def sx_fstr(*parts):
    out = []
    for p in parts:
        if type(p) is str:
            out.append(p)
            continue
        val, conv, spec = p
        if conv != -1:
            val = v.convert(val, conv)
        ty = type(val)
        if ty is str and not spec:
            out.append(val)
        else:
            out.append(v.sx_format(val, spec))
    for p in out:
        if type(p) is not str:
            return v.cat(*out)
    return "".join(out)


def sx_in(a, b):
    if is_symstr(b):
        return b.contains(a)
    if is_sym(a):
        if type(b) is str:
            return SymStr.of(b).contains(a)
        if isinstance(b, (dict, set, frozenset)) or type(b) in (type({}.keys()),):
            if type(a) is SymBool:
                a = bool(a)
                return a in b
            return v.mkbool(t.c_or([v.cond_of(a == c) if (is_symstr(a) == isinstance(c, str)) else False
                                    for c in b]))
        if isinstance(b, enum.EnumMeta):
            return resolve_key([m.value for m in b], a)[0]
        if isinstance(b, (list, tuple)):
            return v.mkbool(t.c_or([True if a is c else v.cond_of(a == c) for c in b]))
    elif isinstance(b, (dict, set, frozenset)) or type(b) in _SETS:
        if type(a) is str:
            for c in b:
                if type(c) is SymKey and bool(c == a):
                    return True
        elif is_part(a) and needs_scan(b, a):
            return resolve_key(b, a)[0]
    return a in b


def sx_not_in(a, b):
    r = sx_in(a, b)
    if type(r) is SymBool:
        return v.mkbool(t.c_not(r.c))
    return not r


_SETS = (set, frozenset, type({}.keys()))


def sx_dict(pairs):
    """dict displays and comprehensions with computed keys; ``(None, d)`` stands for ``**d``"""
    d = {}
    for key, val in pairs:
        if type(val) is _Star:
            for k2 in val.d.keys():
                sx_setitem(d, k2, val.d[k2])
        else:
            sx_setitem(d, key, val)
    return d


class _Star:
    def __init__(self, d):
        self.d = d


def sx_setdisplay(items):
    return _set(list(items))


def _without(x, y):
    return {i for i in x if not (resolve_key(y, i)[0] if key_sym(i) else sx_in(i, y))}


def sx_setop(op, a, b):
    if op is operator.sub:
        return _without(a, b)
    if op is operator.and_:
        return _without(a, _without(a, b))
    if op is operator.or_:
        return set(a) | _without(b, a)
    return _without(a, b) | _without(b, a)


def _binop(op):
    def f(a, b):
        if type(a) in _SETS and type(b) in _SETS and (sym_keys(a) or sym_keys(b)):
            r = sx_setop(op, a, b)
            return frozenset(r) if type(a) is frozenset else r
        if op is operator.or_ and isinstance(a, dict) and isinstance(b, dict) and (sym_keys(a) or sym_keys(b)):
            return sx_dict([(None, _Star(a)), (None, _Star(b))])
        return op(a, b)
    return f


sx_sub, sx_and, sx_or, sx_xor = map(_binop, (operator.sub, operator.and_, operator.or_, operator.xor))


def _set_method(s, name, a):
    others = [x if type(x) in _SETS else sym_set(list(x)) for x in a]
    if name in ("issubset", "issuperset", "isdisjoint"):
        o = others[0]
        if name == "issubset":
            return not _without(s, o)
        if name == "issuperset":
            return not _without(o, s)
        return len(_without(s, o)) == len(s)
    op = {"union": operator.or_, "update": operator.or_, "difference": operator.sub, "difference_update": operator.sub,
          "intersection": operator.and_, "intersection_update": operator.and_, "symmetric_difference": operator.xor}[name]
    r = set(s)
    for o in others:
        r = sx_setop(op, r, o)
    if name in ("update", "difference_update", "intersection_update"):
        s.clear()
        for i in r:
            s.add(i)
        return None
    return frozenset(r) if type(s) is frozenset else r


_SET_METHODS = {"issubset", "issuperset", "isdisjoint", "union", "update", "difference", "difference_update", "intersection",
                "intersection_update", "symmetric_difference"}


def sx_cmp(op, a, b):
    """comparisons of sets whose elements are symbolic; everything else goes to the operator"""
    if type(a) in _SETS and type(b) in _SETS and (sym_keys(a) or sym_keys(b)):
        def sub(x, y):
            return all(resolve_key(y, i)[0] if key_sym(i) else sx_in(i, y) for i in x)
        if op is operator.eq:
            return sub(a, b) and sub(b, a)
        if op is operator.ne:
            return not (sub(a, b) and sub(b, a))
        if op is operator.le:
            return sub(a, b)
        if op is operator.ge:
            return sub(b, a)
        if op is operator.lt:
            return sub(a, b) and not sub(b, a)
        if op is operator.gt:
            return sub(b, a) and not sub(a, b)
    return op(a, b)


def _dict_eq(a, b):
    if len(a) != len(b):
        return False
    cs = []
    for k in a:
        found, real = resolve_key(b, k) if key_sym(k) or is_part(k) else (True, k) if sx_in(k, b) else (False, None)
        if not found:
            return False
        cs.append(v.cond_of(sx_eq(a[k], sx_getitem(b, real))))
    return v.mkbool(t.c_and(cs))


def sx_eq(a, b):
    ty = type(a)
    if ty in _SETS:
        return sx_cmp(operator.eq, a, b)
    if ty is dict and type(b) is dict and (sym_keys(a) or sym_keys(b)):
        return _dict_eq(a, b)
    return a == b


def sx_ne(a, b):
    if type(a) in _SETS:
        return sx_cmp(operator.ne, a, b)
    if type(a) is dict and type(b) is dict:
        return v.mkbool(t.c_not(v.cond_of(sx_eq(a, b))))
    return a != b


def sx_le(a, b):
    return sx_cmp(operator.le, a, b) if type(a) in _SETS else a <= b


def sx_ge(a, b):
    return sx_cmp(operator.ge, a, b) if type(a) in _SETS else a >= b


def sx_is(a, b):
    if type(a) is SymBool:
        a = bool(a)
    if type(b) is SymBool:
        b = bool(b)
    return a is b


def sx_is_not(a, b):
    return not sx_is(a, b)


def sx_mod(a, b):
    if isinstance(a, str):
        if is_symstr(a) or has_sym(b) or (isinstance(b, tuple) and _has_custom(b)) or _has_custom((b,)):
            return v.percent_format(a, b)
    return a % b


def sx_getitem(o, i):
    if is_sym(i):
        if isinstance(o, dict):
            return _dict_method(o, "__getitem__", (i,), {})
        if isinstance(o, enum.EnumMeta):
            found, name = resolve_key(list(o.__members__), i)
            if found:
                return o[name]
            raise KeyError(i)
        if isinstance(o, types.MappingProxyType):
            found, key = resolve_key(o, i)
            if found:
                return o[key]
            raise KeyError(i)
    elif type(i) is str and isinstance(o, dict):
        if type(o) is not dict:
            for c in o:
                if type(c) is SymKey and bool(c == i):
                    return o[c]
        try:
            return o[i]
        except KeyError:
            for c in o:
                if type(c) is SymKey and bool(c == i):
                    return o[c]
            raise
    elif is_part(i) and isinstance(o, dict) and needs_scan(o, i):
        return _dict_method(o, "__getitem__", (i,), {})
    return o[i]


def sx_setitem(o, i, val):
    if isinstance(o, dict) and (is_sym(i) or needs_scan(o, i)):
        found, key = resolve_key(o, i)
        if found:
            o[key] = val
        else:
            sx_setitem_new(o, i, val)
        return
    o[i] = val


def sx_assign(val, o, i):
    sx_setitem(o, i, val)


def sx_delitem(o, i):
    if isinstance(o, dict) and needs_scan(o, i):
        found, key = resolve_key(o, i)
        if not found:
            raise KeyError(i)
        i = key
    del o[i]


def sx_augitem(op, o, i, val):
    x = sx_getitem(o, i)
    sx_setitem(o, i, sx_iset(op, x, val()))


def sx_iset(op, a, b):
    if type(a) is set and type(b) in _SETS and (sym_keys(a) or sym_keys(b)):
        r = sx_setop({"ior": operator.or_, "iand": operator.and_, "isub": operator.sub, "ixor": operator.xor}[op], a, b)
        a.clear()
        for x in r:
            a.add(x)
        return a
    if op == "ior" and isinstance(a, dict) and isinstance(b, dict) and (sym_keys(a) or sym_keys(b)):
        for k in b.keys():
            sx_setitem(a, k, b[k])
        return a
    return getattr(operator, op)(a, b)
