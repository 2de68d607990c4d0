"""Symbolic values: proxies that stand for str / int / float / bool while the real code runs."""
import math
import re as _re
import string as _string
import sys
import unicodedata
from fractions import Fraction

from . import engine as _e
from . import terms as t
from .terms import ISet


def E():
    return _e.ENG


# ----------------------------------------------------------------- character classes
_class_cache = {}


def char_class(name):
    """interval set of the code points c with getattr(chr(c), name)() (e.g. 'isspace')"""
    s = _class_cache.get(name)
    if s is None:
        if name == "isspace":
            pts = [c for c in list(range(0x3100)) if chr(c).isspace()]
            s = ISet.of(pts)
        elif name == "isascii":
            s = ISet.rng(0, 127)
        else:
            # "cased": as str.title() sees it
            f = getattr(str, name) if name != "cased" else (lambda x: (x + "A").title()[-1] == "a")
            iv, start = [], None
            for c in range(t.MAXC + 1):
                if f(chr(c)):
                    if start is None:
                        start = c
                elif start is not None:
                    iv.append((start, c - 1))
                    start = None
            if start is not None:
                iv.append((start, t.MAXC))
            s = ISet(tuple(iv))
        _class_cache[name] = s
    return s


def _case_tables(kind):
    """(sets by delta, special code points) of str.upper/lower/... over single characters"""
    key = ("case", kind)
    r = _class_cache.get(key)
    if r is None:
        f = getattr(str, kind)
        by, special, same = {}, {}, []
        for c in range(t.MAXC + 1):
            if 0xD800 <= c <= 0xDFFF:
                continue
            o = f(chr(c))
            if len(o) == 1:
                d = ord(o) - c
                if d:
                    by.setdefault(d, []).append(c)
            else:
                special[c] = o
        r = ({d: ISet.of(v) for d, v in by.items()}, special, ISet.of(special))
        _class_cache[key] = r
    return r


LINESEP = ISet.of([10, 11, 12, 13, 0x1C, 0x1D, 0x1E, 0x85, 0x2028, 0x2029])


# ----------------------------------------------------------------- SymBool
class SymBool:
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c

    def __bool__(self):
        return E().decide(self.c)

    @property
    def __class__(self):
        return bool

    def __eq__(self, o):
        return bool(self) == o

    def __ne__(self, o):
        return bool(self) != o

    def __hash__(self):
        return hash(bool(self))

    def __and__(self, o):
        if isinstance(o, bool):
            return mkbool(t.c_and([self.c, cond_of(o)]))
        return NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, bool):
            return mkbool(t.c_or([self.c, cond_of(o)]))
        return NotImplemented

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, bool):
            c = cond_of(o)
            return mkbool(t.c_or([t.c_and([self.c, t.c_not(c)]), t.c_and([t.c_not(self.c), c])]))
        return NotImplemented

    __rxor__ = __xor__

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __add__(self, o):
        return SymInt.of(t.iite(self.c, 1, 0)) + o

    __radd__ = __add__

    def __mul__(self, o):
        return int(bool(self)) * o

    __rmul__ = __mul__

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return "<SymBool>"


def mkbool(c):
    return c if c is True or c is False else SymBool(c)


def cond_of(b):
    if type(b) is SymBool:
        return b.c
    if b is True or b is False:
        return b
    return bool(b)


# ----------------------------------------------------------------- SymInt
class SymInt:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @staticmethod
    def of(e):
        return e if isinstance(e, int) else SymInt(e)

    @property
    def __class__(self):
        return int

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __index__(self):
        return E().value(self.e)

    def __int__(self):
        return E().value(self.e)

    def __hash__(self):
        return hash(E().value(self.e))

    def __float__(self):
        return float(E().value(self.e))

    def __bool__(self):
        return E().decide(t.c_not(t.c_eq(self.e, 0)))

    def __eq__(self, o):
        x = _ie(o)
        if x is None:
            if type(o) is SymReal:
                return o == self
            if type(o) is float:
                return SymReal(self.e, 1) == o
            return NotImplemented if not isinstance(o, (str, list, dict, tuple)) else False
        return mkbool(t.c_eq(self.e, x))

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return mkbool(t.c_not(cond_of(r)))

    def _cmp(self, o, f):
        x = _ie(o)
        if x is None:
            if type(o) is float or type(o) is SymReal:
                return None
            raise TypeError("'<' not supported between instances of 'int' and %r" % type(o).__name__)
        return mkbool(f(self.e, x))

    def __le__(self, o):
        r = self._cmp(o, t.c_le)
        return SymReal(self.e, 1) <= o if r is None else r

    def __lt__(self, o):
        r = self._cmp(o, t.c_lt)
        return SymReal(self.e, 1) < o if r is None else r

    def __ge__(self, o):
        r = self._cmp(o, lambda a, b: t.c_le(b, a))
        return SymReal(self.e, 1) >= o if r is None else r

    def __gt__(self, o):
        r = self._cmp(o, lambda a, b: t.c_lt(b, a))
        return SymReal(self.e, 1) > o if r is None else r

    def __add__(self, o):
        x = _ie(o)
        if x is None:
            if type(o) in (float, SymReal):
                return SymReal(self.e, 1) + o
            return NotImplemented
        return SymInt.of(t.iadd(self.e, x))

    __radd__ = __add__

    def __neg__(self):
        return SymInt.of(t.ineg(self.e))

    def __pos__(self):
        return self

    def __abs__(self):
        return -self if bool(self < 0) else self

    def __sub__(self, o):
        x = _ie(o)
        if x is None:
            if type(o) in (float, SymReal):
                return SymReal(self.e, 1) - o
            return NotImplemented
        return SymInt.of(t.isub(self.e, x))

    def __rsub__(self, o):
        x = _ie(o)
        if x is None:
            if type(o) in (float, SymReal):
                return o - SymReal(self.e, 1)
            return NotImplemented
        return SymInt.of(t.isub(x, self.e))

    def __mul__(self, o):
        if isinstance(o, (str, list, tuple, bytes)):
            n = E().value(self.e)
            return o * n
        x = _ie(o)
        if x is None:
            if type(o) in (float, SymReal):
                return SymReal(self.e, 1) * o
            return NotImplemented
        if not isinstance(x, int):
            x = E().value(x)
        return SymInt.of(t.imul(self.e, x))

    __rmul__ = __mul__

    def _divisor(self, o):
        x = _ie(o)
        if x is None:
            return None
        if not isinstance(x, int):
            x = E().value(x)
        if x == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        return x

    def __floordiv__(self, o):
        if type(o) in (float, SymReal):
            return SymReal(self.e, 1) // o
        x = self._divisor(o)
        if x is None:
            return NotImplemented
        if x < 0:
            return (-self) // (-x)
        return SymInt.of(t.idiv(self.e, x))

    def __mod__(self, o):
        if type(o) in (float, SymReal):
            return SymReal(self.e, 1) % o
        x = self._divisor(o)
        if x is None:
            return NotImplemented
        if x < 0:
            return -((-self) % (-x))
        return SymInt.of(t.imod(self.e, x))

    def __rfloordiv__(self, o):
        return o // E().value(self.e)

    def __rmod__(self, o):
        return o % E().value(self.e)

    def __divmod__(self, o):
        return (self // o, self % o)

    def __rdivmod__(self, o):
        return divmod(o, E().value(self.e))

    def __truediv__(self, o):
        return SymReal(self.e, 1) / o

    def __rtruediv__(self, o):
        return o / E().value(self.e)

    def __pow__(self, o, mod=None):
        if isinstance(o, int) and type(o) is int and o == 2:
            pass
        return pow(E().value(self.e), int(o), mod)

    def __rpow__(self, o):
        return o ** E().value(self.e)

    def __and__(self, o):
        if type(o) is int and o >= 0 and (o & (o + 1)) == 0:
            return self % (o + 1)
        return E().value(self.e) & int(o)

    __rand__ = __and__

    def __or__(self, o):
        return E().value(self.e) | int(o)

    __ror__ = __or__

    def __xor__(self, o):
        return E().value(self.e) ^ int(o)

    __rxor__ = __xor__

    def __lshift__(self, o):
        return self * (1 << int(o))

    def __rshift__(self, o):
        return self // (1 << int(o))

    def __round__(self, nd=None):
        if nd is None or nd >= 0:
            return self
        return round(E().value(self.e), nd)

    def __trunc__(self):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    def is_integer(self):
        return True

    def bit_length(self):
        return E().value(self.e).bit_length()

    def __str__(self):
        return str(E().value(self.e))

    def __repr__(self):
        return "<SymInt>"

    def __format__(self, spec):
        r = format_int(self, spec)
        return r if type(r) is str else r._concrete("format(int)")

    def dec(self):
        """decimal digits as a SymStr (forks over sign and number of digits)"""
        e = self.e
        neg = E().decide(t.c_lt(e, 0))
        if neg:
            e = t.ineg(e)
        n = 1
        while not E().decide(t.c_lt(e, 10 ** n)):
            n += 1
        chars = []
        for i in range(n - 1, -1, -1):
            d = t.idiv(e, 10 ** i)
            if i != n - 1:
                d = t.imod(d, 10)
            if not isinstance(d, int):
                # digits are 0..9 on this path: give the term that domain
                d = t.imod(d, 10)
            chars.append(t.iadd(d, 48))
        return mkstr(([45] if neg else []) + chars)


def _ie(o):
    if type(o) is SymInt:
        return o.e
    if type(o) is bool or type(o) is SymBool:
        return int(bool(o))
    if isinstance(o, int):
        return o
    return None


# ----------------------------------------------------------------- SymReal (exact rational e/d)
class SymReal:
    """Exact rational (integer expression over a constant); floats are treated as reals."""
    __slots__ = ("e", "d")

    def __init__(self, e, d):
        self.e, self.d = e, d

    @property
    def __class__(self):
        return float

    def __deepcopy__(self, memo):
        return self

    @staticmethod
    def parts(o):
        if type(o) is SymReal:
            return o.e, o.d
        x = _ie(o)
        if x is not None:
            return x, 1
        if isinstance(o, float):
            f = Fraction(o)
            return f.numerator, f.denominator
        if isinstance(o, Fraction):
            return o.numerator, o.denominator
        return None

    def _common(self, o):
        p = SymReal.parts(o)
        if p is None:
            return None
        l = math.lcm(self.d, p[1])
        return t.imul(self.e, l // self.d), t.imul(p[0], l // p[1]), l

    def __add__(self, o):
        c = self._common(o)
        return NotImplemented if c is None else SymReal(t.iadd(c[0], c[1]), c[2])

    __radd__ = __add__

    def __sub__(self, o):
        c = self._common(o)
        return NotImplemented if c is None else SymReal(t.isub(c[0], c[1]), c[2])

    def __rsub__(self, o):
        c = self._common(o)
        return NotImplemented if c is None else SymReal(t.isub(c[1], c[0]), c[2])

    def __neg__(self):
        return SymReal(t.ineg(self.e), self.d)

    def __abs__(self):
        return -self if bool(self < 0) else self

    def __mul__(self, o):
        p = SymReal.parts(o)
        if p is None:
            return NotImplemented
        n = p[0] if isinstance(p[0], int) else E().value(p[0])
        f = Fraction(n, self.d * p[1])
        return SymReal(t.imul(self.e, f.numerator), f.denominator)

    __rmul__ = __mul__

    def __truediv__(self, o):
        p = SymReal.parts(o)
        if p is None:
            return NotImplemented
        n = p[0] if isinstance(p[0], int) else E().value(p[0])
        if n == 0:
            raise ZeroDivisionError("division by zero")
        f = Fraction(p[1], self.d * n)
        return SymReal(t.imul(self.e, f.numerator), f.denominator)

    def floor(self):
        return SymInt.of(t.idiv(self.e, self.d))

    def trunc(self):
        if bool(self < 0):
            return -((-self).floor())
        return self.floor()

    def ceil(self):
        return -((-self).floor())

    def __floordiv__(self, o):
        q = self / o
        return SymReal(q.floor().e if type(q.floor()) is SymInt else q.floor(), 1)

    def __mod__(self, o):
        return self - (self // o) * o

    def __divmod__(self, o):
        return (self // o, self % o)

    def __floor__(self):
        return self.floor()

    def __ceil__(self):
        return self.ceil()

    def __trunc__(self):
        return self.trunc()

    def __round__(self, nd=None):
        if nd is None or nd == 0:
            two = SymReal(t.imul(self.e, 2), self.d)
            r = (self + Fraction(1, 2)).floor()
            # half to even
            if bool(SymReal(_ie(r), 1) - Fraction(1, 2) == self) and bool(r % 2 == 1):
                r = r - 1
            return r if nd is None else SymReal(_ie(r), 1)
        return (self * (10 ** nd)).__round__() / (10 ** nd)

    def is_integer(self):
        return mkbool(t.c_eq(t.imod(self.e, self.d), 0))

    def __bool__(self):
        return E().decide(t.c_not(t.c_eq(self.e, 0)))

    def _c(self, o, f):
        c = self._common(o)
        if c is None:
            return NotImplemented
        return mkbool(f(c[0], c[1]))

    def __eq__(self, o):
        return self._c(o, t.c_eq)

    def __ne__(self, o):
        return self._c(o, lambda a, b: t.c_not(t.c_eq(a, b)))

    def __le__(self, o):
        return self._c(o, t.c_le)

    def __lt__(self, o):
        return self._c(o, t.c_lt)

    def __ge__(self, o):
        return self._c(o, lambda a, b: t.c_le(b, a))

    def __gt__(self, o):
        return self._c(o, lambda a, b: t.c_lt(b, a))

    def concrete(self, why="float"):
        if isinstance(self.e, int):
            return self.e / self.d
        return E().sample((self.e,), why)[0] / self.d

    def __hash__(self):
        return hash(self.concrete("hash(float)"))

    def __float__(self):
        return self.concrete("float()")

    def __int__(self):
        return int(self.trunc())

    def __str__(self):
        return str(self.concrete("str(float)"))

    def __repr__(self):
        return "<SymReal>"


# ----------------------------------------------------------------- SymStr
def mkstr(chars):
    """plain str if every character is concrete, else SymStr"""
    for c in chars:
        if type(c) is not int:
            return SymStr(tuple(chars))
    return "".join(map(chr, chars))


def chars_of(s):
    if type(s) is SymStr or type(s) is SymKey:
        return s.ch
    return tuple(map(ord, s))


def is_sym(x):
    ty = type(x)
    return ty is SymStr or ty is SymInt or ty is SymBool or ty is SymReal or ty is SymKey


def is_symstr(x):
    ty = type(x)
    return ty is SymStr or ty is SymKey


def eq_cond(a, b):
    """condition that two character sequences are equal"""
    if len(a) != len(b):
        return False
    cs = []
    for x, y in zip(a, b):
        if x is y:
            continue
        c = t.c_eq(x, y)
        if c is False:
            return False
        if c is not True:
            cs.append(c)
    return t.c_and(cs)


def _need_str(o, what="must be str"):
    if not (type(o) is str or is_symstr(o) or isinstance(o, str)):
        raise TypeError("%s, not %s" % (what, type(o).__name__))
    return o


class SymStr:
    __slots__ = ("ch",)

    def __init__(self, ch):
        self.ch = ch

    @staticmethod
    def of(s):
        return s if is_symstr(s) else SymStr(chars_of(s))

    @property
    def __class__(self):
        return str

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __len__(self):
        return len(self.ch)

    def __bool__(self):
        return len(self.ch) > 0

    def __hash__(self):
        return hash(self._concrete("hash(str)"))

    def __str__(self):
        return self._concrete("str() in C code")

    def __repr__(self):
        return "<SymStr %d>" % len(self.ch)

    def __format__(self, spec):
        r = format_str(self, spec)
        return r if type(r) is str else r._concrete("format() in C code")

    def _concrete(self, why):
        idx = [i for i, c in enumerate(self.ch) if type(c) is not int]
        vals = E().sample(tuple(self.ch[i] for i in idx), why)
        ch = list(self.ch)
        for i, v in zip(idx, vals):
            ch[i] = v
        return "".join(map(chr, ch))

    def __getattr__(self, name):
        if name.startswith("__") or not hasattr(str, name):
            raise AttributeError("'str' object has no attribute %r" % name)

        def call(*a, **k):
            return getattr(self._concrete("str.%s" % name), name)(
                *[x._concrete("str.%s" % name) if is_symstr(x) else x for x in a], **k)
        return call

    # ---- comparison
    def __eq__(self, o):
        if type(o) is str or is_symstr(o) or isinstance(o, str):
            return mkbool(eq_cond(self.ch, chars_of(o)))
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return mkbool(t.c_not(cond_of(r)))

    def _less(self, o, strict):
        a, b = self.ch, chars_of(_need_str(o))
        for x, y in zip(a, b):
            if x is y:
                continue
            if E().decide(t.c_eq(x, y)):
                continue
            return E().decide(t.c_lt(x, y))
        return len(a) < len(b) if strict else len(a) <= len(b)

    def __lt__(self, o):
        return self._less(o, True)

    def __le__(self, o):
        return self._less(o, False)

    def __gt__(self, o):
        return not self._less(o, False)

    def __ge__(self, o):
        return not self._less(o, True)

    # ---- sequence
    def __add__(self, o):
        if not (type(o) is str or is_symstr(o) or isinstance(o, str)):
            return NotImplemented
        return mkstr(self.ch + chars_of(o))

    def __radd__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return mkstr(chars_of(o) + self.ch)

    def __mul__(self, n):
        if not hasattr(type(n), "__index__"):
            raise TypeError("can't multiply sequence by non-int of type %r" % getattr(n, "__class__", type(n)).__name__)
        return mkstr(self.ch * n.__index__())

    __rmul__ = __mul__

    def __mod__(self, o):
        return percent_format(self, o)

    def __rmod__(self, o):
        return percent_format(o, self)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mkstr(self.ch[i])
        return mkstr((self.ch[i.__index__()],))

    def __iter__(self):
        for c in self.ch:
            yield mkstr((c,))

    def __contains__(self, o):
        return bool(self.contains(o))

    def contains(self, o):
        n = chars_of(_need_str(o, "'in <string>' requires string as left operand"))
        k = len(n)
        if k == 0:
            return True
        return mkbool(t.c_or([eq_cond(self.ch[i:i + k], n) for i in range(len(self.ch) - k + 1)]))

    def _at(self, i, n):
        c = eq_cond(self.ch[i:i + len(n)], n)
        return E().decide(c)

    def _range(self, start, end):
        return slice(start, end).indices(len(self.ch))[:2]

    def find(self, sub, start=None, end=None):
        n = chars_of(_need_str(sub))
        a, b = self._range(start, end)
        for i in range(a, b - len(n) + 1):
            if self._at(i, n):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        n = chars_of(_need_str(sub))
        a, b = self._range(start, end)
        for i in range(b - len(n), a - 1, -1):
            if self._at(i, n):
                return i
        return -1

    def index(self, sub, start=None, end=None):
        r = self.find(sub, start, end)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rindex(self, sub, start=None, end=None):
        r = self.rfind(sub, start, end)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def count(self, sub, start=None, end=None):
        n = chars_of(_need_str(sub))
        a, b = self._range(start, end)
        if not n:
            return b - a + 1
        i, k = a, 0
        while i <= b - len(n):
            if self._at(i, n):
                k += 1
                i += len(n)
            else:
                i += 1
        return k

    def startswith(self, p, start=None, end=None):
        a, b = self._range(start, end)
        if isinstance(p, tuple):
            return mkbool(t.c_or([cond_of(self.startswith(x, start, end)) for x in p]))
        n = chars_of(_need_str(p))
        if b - a < len(n):
            return False
        return mkbool(eq_cond(self.ch[a:a + len(n)], n))

    def endswith(self, p, start=None, end=None):
        a, b = self._range(start, end)
        if isinstance(p, tuple):
            return mkbool(t.c_or([cond_of(self.endswith(x, start, end)) for x in p]))
        n = chars_of(_need_str(p))
        if b - a < len(n):
            return False
        return mkbool(eq_cond(self.ch[b - len(n):b], n))

    def removeprefix(self, p):
        return mkstr(self.ch[len(p):]) if p and bool(self.startswith(p)) else mkstr(self.ch)

    def removesuffix(self, p):
        return mkstr(self.ch[:len(self.ch) - len(p)]) if p and bool(self.endswith(p)) else mkstr(self.ch)

    # ---- stripping
    @staticmethod
    def _member(c, chars):
        """condition: character c belongs to the strip set"""
        if chars is None:
            return t.c_in(c, char_class("isspace"))
        conc = [x for x in chars if type(x) is int]
        sy = [x for x in chars if type(x) is not int]
        return t.c_or([t.c_in(c, ISet.of(conc))] + [t.c_eq(c, x) for x in sy])

    def lstrip(self, chars=None):
        cs = None if chars is None else chars_of(_need_str(chars))
        i, n = 0, len(self.ch)
        while i < n and E().decide(self._member(self.ch[i], cs)):
            i += 1
        return mkstr(self.ch[i:])

    def rstrip(self, chars=None):
        cs = None if chars is None else chars_of(_need_str(chars))
        n = len(self.ch)
        while n > 0 and E().decide(self._member(self.ch[n - 1], cs)):
            n -= 1
        return mkstr(self.ch[:n])

    def strip(self, chars=None):
        r = self.rstrip(chars)
        return r.lstrip(chars)

    # ---- splitting / joining
    def split(self, sep=None, maxsplit=-1):
        if maxsplit is not None and is_sym(maxsplit):
            maxsplit = int(maxsplit)
        if sep is None:
            sp = char_class("isspace")
            out, cur, i, n = [], None, 0, len(self.ch)
            while i < n:
                c = self.ch[i]
                if E().decide(t.c_in(c, sp)):
                    if cur is not None:
                        out.append(mkstr(self.ch[cur:i]))
                        cur = None
                elif cur is None:
                    if maxsplit >= 0 and len(out) >= maxsplit:
                        rest = SymStr(self.ch[i:]).rstrip()
                        out.append(rest)
                        return out
                    cur = i
                i += 1
            if cur is not None:
                out.append(mkstr(self.ch[cur:]))
            return out
        n = chars_of(_need_str(sep))
        if not n:
            raise ValueError("empty separator")
        out, last, i = [], 0, 0
        while i <= len(self.ch) - len(n):
            if maxsplit >= 0 and len(out) >= maxsplit:
                break
            if self._at(i, n):
                out.append(mkstr(self.ch[last:i]))
                i += len(n)
                last = i
            else:
                i += 1
        out.append(mkstr(self.ch[last:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            r = SymStr(tuple(reversed(self.ch))).split(None, maxsplit)
            return [mkstr(tuple(reversed(chars_of(x)))) for x in reversed(r)]
        n = chars_of(sep)
        if not n:
            raise ValueError("empty separator")
        out, last, i = [], len(self.ch), len(self.ch) - len(n)
        while i >= 0 and len(out) < maxsplit:
            if i + len(n) <= last and self._at(i, n):
                out.append(mkstr(self.ch[i + len(n):last]))
                last = i
                i -= len(n)
            else:
                i -= 1
        out.append(mkstr(self.ch[:last]))
        return out[::-1]

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (mkstr(self.ch), "", "")
        return (mkstr(self.ch[:i]), sep, mkstr(self.ch[i + len(sep):]))

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return ("", "", mkstr(self.ch))
        return (mkstr(self.ch[:i]), sep, mkstr(self.ch[i + len(sep):]))

    def splitlines(self, keepends=False):
        out, last, i, n = [], 0, 0, len(self.ch)
        while i < n:
            if E().decide(t.c_in(self.ch[i], LINESEP)):
                end = i + 1
                if end < n and E().decide(t.c_in(self.ch[i], ISet.rng(13, 13))) \
                        and E().decide(t.c_eq(self.ch[end], 10)):
                    end += 1
                out.append(mkstr(self.ch[last:end] if keepends else self.ch[last:i]))
                i = last = end
            else:
                i += 1
        if last < n:
            out.append(mkstr(self.ch[last:]))
        return out

    def join(self, it):
        out = []
        for k, s in enumerate(it):
            if not (type(s) is str or is_symstr(s) or isinstance(s, str)):
                raise TypeError("sequence item %d: expected str instance, %s found" % (k, type(s).__name__))
            if k:
                out.extend(self.ch)
            out.extend(chars_of(s))
        return mkstr(out)

    def replace(self, old, new, count=-1):
        o, n = chars_of(_need_str(old)), chars_of(_need_str(new))
        out, i, k = [], 0, 0
        if not o:
            for c in self.ch:
                if count < 0 or k < count:
                    out.extend(n)
                    k += 1
                out.append(c)
            if count < 0 or k < count:
                out.extend(n)
            return mkstr(out)
        while i < len(self.ch):
            if (count < 0 or k < count) and i + len(o) <= len(self.ch) and self._at(i, o):
                out.extend(n)
                i += len(o)
                k += 1
            else:
                out.append(self.ch[i])
                i += 1
        return mkstr(out)

    def translate(self, table):
        out = []
        if not isinstance(table, dict):
            return getattr(self._concrete("str.translate"), "translate")(table)
        for c in self.ch:
            if type(c) is int:
                out.extend(chars_of(chr(c).translate(table)))
                continue
            for k, v in table.items():
                if E().decide(t.c_eq(c, k)):
                    if v is None:
                        pass
                    elif isinstance(v, int):
                        out.append(_ie(v))
                    else:
                        out.extend(chars_of(v))
                    break
            else:
                out.append(c)
        return mkstr(out)

    # ---- case
    def _plain_case(self, kind):
        """whether each character is ASCII or has no other case (one decision for the whole string)"""
        key = ("plaincase", kind)
        s = _class_cache.get(key)
        if s is None:
            by, special, spset = _case_tables(kind)
            s = t.ISet.rng(0, t.MAXC) - spset
            for d in by.values():
                s = s - d
            # ASCII and the largest of the other ranges are enough, and short
            big = sorted(s.iv, key=lambda p: p[0] - p[1])[:10]
            s = t.ISet.rng(0, 127)
            for lo, hi in big:
                s = s | t.ISet.rng(lo, hi)
            _class_cache[key] = s
        cs = [t.c_in(c, s) for c in self.ch if type(c) is not int]
        return bool(cs) and E().decide(t.c_and(cs))

    def _case(self, kind):
        out = []
        if not self._plain_case(kind) and len([c for c in self.ch if type(c) is not int]) > 2:
            return getattr(self._concrete("%s of a long text outside ASCII" % kind), kind)()
        for c in self.ch:
            if type(c) is int:
                out.extend(map(ord, getattr(chr(c), kind)()))
                continue
            by, special, spset = _case_tables(kind)
            dom = c.dom
            if c.isvar:
                dom = E().pdom.get(c, dom)
            hit = dom & spset
            if hit and E().decide(t.c_in(c, spset)):
                v = E().value(c)
                out.extend(map(ord, special[v]))
                continue
            rel = [(d, s) for d, s in by.items() if dom & s]
            if len(rel) <= 6 or len(self.ch) > 1:
                r = c
                for d, s in rel:
                    r = t.iite(t.c_in(c, s), t.iadd(c, d), r)
                out.append(r)
            else:
                # fork by delta class
                for d, s in rel:
                    if E().decide(t.c_in(c, s)):
                        out.append(t.iadd(c, d))
                        break
                else:
                    out.append(c)
        return mkstr(out)

    def upper(self):
        return self._case("upper")

    def _sigma(self):
        """the capital sigma is the one letter whose lower case depends on its neighbours"""
        if self._plain_case("lower"):
            return False
        if len([c for c in self.ch if type(c) is not int]) > 2:
            return True
        for c in self.ch:
            if c == 0x3A3 if type(c) is int else 0x3A3 in c.dom and E().decide(t.c_eq(c, 0x3A3)):
                return True
        return False

    def lower(self):
        if self._sigma():
            return self._concrete("lower of a long text or a sigma").lower()
        return self._case("lower")

    def casefold(self):
        return self._case("casefold")

    def swapcase(self):
        if self._sigma():
            return self._concrete("swapcase of a long text or a sigma").swapcase()
        return self._case("swapcase")

    def capitalize(self):
        if not self.ch:
            return ""
        if self._sigma():
            return self._concrete("capitalize of a long text or a sigma").capitalize()
        return _cat(SymStr(self.ch[:1])._case("title"), SymStr(self.ch[1:])._case("lower"))

    def title(self):
        if self._sigma():
            return self._concrete("title of a long text or a sigma").title()
        out, prev = "", False
        for c in self.ch:
            s = SymStr((c,))
            out = _cat(out, s._case("lower") if prev else s._case("title"))
            prev = E().decide(t.c_in(c, char_class("cased")))
        return out

    # ---- predicates
    def _all(self, name):
        if not self.ch:
            return name == "isascii" or name == "isprintable"
        s = char_class(name)
        return mkbool(t.c_and([t.c_in(c, s) for c in self.ch]))

    def isspace(self):
        return self._all("isspace")

    def isdigit(self):
        return self._all("isdigit")

    def isdecimal(self):
        return self._all("isdecimal")

    def isnumeric(self):
        return self._all("isnumeric")

    def isalpha(self):
        return self._all("isalpha")

    def isalnum(self):
        return self._all("isalnum")

    def isprintable(self):
        return self._all("isprintable")

    def isascii(self):
        return self._all("isascii")

    def isupper(self):
        if not self.ch:
            return False
        up, lo = char_class("isupper"), char_class("islower")
        return mkbool(t.c_and([t.c_or([t.c_in(c, up) for c in self.ch])] +
                              [t.c_not(t.c_in(c, lo)) for c in self.ch]))

    def islower(self):
        if not self.ch:
            return False
        up, lo = char_class("isupper"), char_class("islower")
        return mkbool(t.c_and([t.c_or([t.c_in(c, lo) for c in self.ch])] +
                              [t.c_not(t.c_in(c, up)) for c in self.ch]))

    # ---- padding
    def ljust(self, w, fill=" "):
        return mkstr(self.ch + chars_of(fill) * max(0, int(w) - len(self.ch)))

    def rjust(self, w, fill=" "):
        return mkstr(chars_of(fill) * max(0, int(w) - len(self.ch)) + self.ch)

    def center(self, w, fill=" "):
        pad = max(0, int(w) - len(self.ch))
        left = pad // 2 + (pad & int(w) & 1)
        return mkstr(chars_of(fill) * left + self.ch + chars_of(fill) * (pad - left))

    def zfill(self, w):
        pad = max(0, int(w) - len(self.ch))
        if pad and self.ch and E().decide(t.c_in(self.ch[0], ISet.of([43, 45]))):
            return mkstr(self.ch[:1] + (48,) * pad + self.ch[1:])
        return mkstr((48,) * pad + self.ch)

    def expandtabs(self, tabsize=8):
        out, col = [], 0
        for c in self.ch:
            if E().decide(t.c_eq(c, 9)):
                n = (tabsize - col % tabsize) if tabsize > 0 else 0
                out.extend([32] * n)
                col += n
            else:
                out.append(c)
                col = 0 if E().decide(t.c_in(c, ISet.of([10, 13]))) else col + 1
        return mkstr(out)

    # ---- formatting
    def format(self, *a, **k):
        return str_format(self._concrete("str.format template") if not isinstance(self, str) or is_symstr(self) else self, a, k)


class SymKey(SymStr):
    """a symbolic dictionary key known to differ from every concrete key the code uses"""
    __slots__ = ()

    def __hash__(self):
        # the same on every path, so that sets are iterated in the same order when a path is re-executed
        return 0x5EED00 + t._keytab.setdefault(self.ch, len(t._keytab))

    def __eq__(self, o):
        if o is self:
            return True
        return SymStr.__eq__(self, o)


def _cat(a, b):
    if type(a) is str and type(b) is str:
        return a + b
    return mkstr(chars_of(a) + chars_of(b))


def cat(*parts):
    out = []
    for p in parts:
        out.extend(chars_of(p))
    return mkstr(out)


# ----------------------------------------------------------------- conversions
def sx_str(x):
    ty = type(x)
    if ty is str:
        return x
    if ty is SymStr or ty is SymKey:
        return x
    if ty is SymInt:
        return x.dec()
    if ty is SymBool:
        return "True" if bool(x) else "False"
    if ty is SymReal:
        return str(x.concrete("str(float)"))
    f = ty.__str__
    if f is BaseException.__str__ and isinstance(x, BaseException):
        a = x.args
        if len(a) == 1 and is_sym(a[0]):
            return sx_str(a[0])
        return str(x)
    if isinstance(x, (list, tuple, dict, set, frozenset)):
        return sx_repr(x)
    if callable(f) and type(f).__name__ == "function":
        return f(x)
    if f is object.__str__ and type(ty.__repr__).__name__ == "function":
        return ty.__repr__(x)
    return str(x)


def sx_repr(x):
    ty = type(x)
    if is_symstr(x):
        ch = x.ch
        ascii_safe = ISet.rng(32, 126) - ISet.of([39, 92])
        if all(type(c) is int or E().decide(t.c_in(c, ascii_safe)) for c in ch) and 39 not in ch and 92 not in ch:
            if all(type(c) is not int or c in ascii_safe for c in ch):
                return mkstr((39,) + tuple(ch) + (39,))
        return repr(x._concrete("repr(str)"))
    if ty is SymInt or ty is SymBool or ty is SymReal:
        return sx_str(x)
    if ty is list:
        return cat("[", SymStr(()).of(", ").join([sx_repr(v) for v in x]), "]") if x else "[]"
    if ty is tuple:
        if len(x) == 1:
            return cat("(", sx_repr(x[0]), ",)")
        return cat("(", SymStr.of(", ").join([sx_repr(v) for v in x]), ")")
    if ty is dict:
        return cat("{", SymStr.of(", ").join([cat(sx_repr(k), ": ", sx_repr(v)) for k, v in x.items()]), "}")
    return repr(x)


_SPEC = _re.compile(r"(?:(.)?([<>=^]))?([+\- ])?(#)?(0)?(\d+)?([,_])?(?:\.(\d+))?([a-zA-Z%])?$", _re.S)


def format_str(s, spec):
    if not spec:
        return s
    spec = spec if type(spec) is str else spec._concrete("format spec")
    m = _SPEC.match(spec)
    if not m or m.group(9) not in (None, "s"):
        raise ValueError("Unknown format code for object of type 'str'")
    fill, al, w, prec = m.group(1) or " ", m.group(2) or "<", m.group(6), m.group(8)
    s = SymStr.of(s)
    if prec:
        s = SymStr.of(s[:int(prec)])
    if w:
        w = int(w)
        pad = max(0, w - len(s))
        if al == ">":
            return s.rjust(w, fill)
        if al == "^":
            left = pad // 2
            return cat(fill * left, s, fill * (pad - left))
        return s.ljust(w, fill)
    return mkstr(s.ch)


def format_int(x, spec):
    if not spec:
        return x.dec()
    m = _SPEC.match(spec)
    if not m or m.group(9) not in (None, "d") or m.group(7) or m.group(4) or m.group(8):
        return format(E().value(x.e), spec)
    fill, al, sign, zero, w = m.group(1), m.group(2), m.group(3), m.group(5), int(m.group(6) or 0)
    if zero and w and not sign and al in (None, "=") and fill in (None, "0"):
        lo, hi = t.bounds(x.e)
        if lo is not None and hi is not None and 0 <= lo and hi < 10 ** w:      # no need to fork over the number of digits
            return mkstr([t.iadd(t.imod(t.idiv(x.e, 10 ** i), 10), 48) for i in range(w - 1, -1, -1)])
    s = SymStr.of(x.dec())
    neg = len(s.ch) > 0 and s.ch[0] == 45
    if not neg and sign in ("+", " "):
        s = SymStr(chars_of(sign) + s.ch)
        neg = True
    if zero and not al:
        fill, al = "0", "="
    fill = fill or " "
    al = al or ">"
    pad = max(0, w - len(s.ch))
    if al == "=":
        return mkstr((s.ch[:1] if neg else ()) + chars_of(fill) * pad + (s.ch[1:] if neg else s.ch))
    return format_str(s, "%s%s%d" % (fill, al, w)) if w else mkstr(s.ch)


def sx_format(x, spec=""):
    ty = type(x)
    if ty is SymStr or ty is SymKey:
        return format_str(x, spec)
    if ty is SymInt:
        return format_int(x, spec if type(spec) is str else spec._concrete("format spec"))
    if ty is SymReal:
        return format(x.concrete("format(float)"), spec)
    if ty is SymBool:
        return format(bool(x), spec)
    if not spec and type(ty.__format__).__name__ != "function":
        return sx_str(x)
    if is_symstr(spec):
        spec = spec._concrete("format spec")
    if type(ty.__format__).__name__ == "function":
        return ty.__format__(x, spec)
    return format(x, spec)


def convert(x, conv):
    if conv in ("s", 115):
        return sx_str(x)
    if conv in ("r", 114):
        return sx_repr(x)
    if conv in ("a", 97):
        return ascii(x)
    return x


_fmt = _string.Formatter()


def str_format(tmpl, args, kw):
    auto = [0]

    def expand(s, depth):
        out = []
        for lit, field, spec, conv in _fmt.parse(s):
            if lit:
                out.append(lit)
            if field is None:
                continue
            first = _re.match(r"[^.\[]*", field).group(0)
            if first == "":
                field = str(auto[0]) + field
                auto[0] += 1
            obj, _ = _fmt.get_field(field, args, kw)
            if conv:
                obj = convert(obj, conv)
            sp = expand(spec, depth - 1) if spec and "{" in spec else (spec or "")
            out.append(sx_format(obj, sp))
        return cat(*out)
    return expand(tmpl, 2)


_PCT = _re.compile(r"%(?:\((\w+)\))?([#0\- +]*)(\d+|\*)?(?:\.(\d+|\*))?([diouxXeEfFgGcrsa%])")


def percent_format(tmpl, o):
    if is_symstr(tmpl):
        tmpl = tmpl._concrete("% template")
    args = o if isinstance(o, tuple) else (o,)
    out, pos, ai = [], 0, 0
    for m in _PCT.finditer(tmpl):
        out.append(tmpl[pos:m.start()])
        pos = m.end()
        key, flags, w, prec, kind = m.groups()
        if kind == "%":
            out.append("%")
            continue
        if key is not None:
            v = o[key]
        else:
            if w == "*":
                w = str(int(args[ai]))
                ai += 1
            if ai >= len(args):
                raise TypeError("not enough arguments for format string")
            v = args[ai]
            ai += 1
        if kind == "s":
            r = sx_str(v)
        elif kind in "ra":
            r = sx_repr(v)
        elif kind in "di":
            if type(v) is SymReal:
                v = v.trunc()
            if type(v) is SymInt:
                out.append(format_int(v, ("0" if "0" in flags and "-" not in flags else
                                          "<" if "-" in flags else "") + (w or "")))
                continue
            if is_symstr(v) or isinstance(v, str):
                raise TypeError("%%%s format: a real number is required, not str" % kind)
            r = ("%" + flags + (w or "") + kind) % v
            out.append(r)
            continue
        else:
            if is_sym(v):
                v = v.concrete() if type(v) is SymReal else (int(v) if type(v) is SymInt else v)
            out.append(("%" + flags + (w or "") + ("." + prec if prec else "") + kind) % v)
            continue
        if prec:
            r = r[:int(prec)]
        if w:
            r = SymStr.of(r).ljust(int(w)) if "-" in flags else SymStr.of(r).rjust(int(w))
        out.append(r)
    if "%" in tmpl[pos:]:
        raise ValueError("incomplete format")
    out.append(tmpl[pos:])
    if not isinstance(o, dict) and ai < len(args) and not (len(args) == 1 and isinstance(o, dict)):
        raise TypeError("not all arguments converted during string formatting")
    return cat(*out)


NUMBER_BLANKS = "".join([chr(c) for c in range(0x3001) if chr(c).isspace() and not 0x1C <= c <= 0x1F])


def parse_int(s, base=10):
    """int(str) for base 10; decimal digits of every script, underscores, surrounding blanks"""
    if is_sym(base):
        base = int(base)
    if base != 10:
        return int(s._concrete("int(str, base)"), base)
    s0 = s
    s = SymStr.of(s).strip(NUMBER_BLANKS)
    ch = list(chars_of(s))

    def bad():
        raise ValueError("invalid literal for int() with base 10")
    if not ch:
        bad()
    neg = False
    if E().decide(t.c_in(ch[0], ISet.of([43, 45]))):
        neg = E().decide(t.c_eq(ch[0], 45))
        ch = ch[1:]
    if not ch:
        bad()
    total, prev_digit = 0, False
    n = len(ch)
    dig = char_class("isdecimal")
    for i, c in enumerate(ch):
        if E().decide(t.c_eq(c, 95)):
            if not prev_digit or i == n - 1:
                bad()
            prev_digit = False
            continue
        if not E().decide(t.c_in(c, dig)):
            bad()
        prev_digit = True
        if type(c) is int:
            d = unicodedata.decimal(chr(c))
        elif E().decide(t.c_in(c, ISet.rng(48, 57))):
            d = t.iadd(c, -48) if c.dom is not None else c
            d = _digit(c)
        else:
            # another script: digit runs of ten, find the run
            for lo, hi in dig.iv:
                if lo == 48:
                    continue
                if E().decide(t.c_in(c, ISet.rng(lo, hi))):
                    base0 = lo
                    # runs may be adjacent (mathematical digits)
                    d = t.imod(t.iadd(c, -base0), 10)
                    break
        total = t.iadd(t.imul(total, 10), d)
    if neg:
        total = t.ineg(total)
    return SymInt.of(total)


def _digit(c):
    """value of an ASCII digit character; on this path c is in 48..57"""
    if isinstance(c, int):
        return c - 48
    if c.dom is not None and c.dom.lo >= 48 and c.dom.hi <= 57:
        return t.iadd(c, -48)
    return t.imod(t.iadd(c, -48), 10)
