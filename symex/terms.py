"""Hash-consed terms: interval sets, integer expressions and Boolean conditions.

Every term knows how to become a z3 expression (``z()``, memoised) and how to be
evaluated under a concrete assignment (``ev(m)``), so that a model returned by the
solver can be reused without another query.
"""
import bisect
try:
    import z3
except ImportError:          # the replay worker needs no solver
    z3 = None

MAXC = 0x10FFFF


# ----------------------------------------------------------------- interval sets
class ISet:
    __slots__ = ("iv", "los", "_z")
    _tab = {}

    def __new__(cls, iv):
        iv = tuple(iv)
        s = cls._tab.get(iv)
        if s is None:
            s = object.__new__(cls)
            s.iv = iv
            s.los = [a for a, _ in iv]
            s._z = {}
            cls._tab[iv] = s
        return s

    @staticmethod
    def of(points):
        iv = []
        for p in sorted(set(points)):
            if iv and iv[-1][1] == p - 1:
                iv[-1][1] = p
            else:
                iv.append([p, p])
        return ISet(tuple(map(tuple, iv)))

    @staticmethod
    def rng(lo, hi):
        return ISet(((lo, hi),)) if lo <= hi else ISet(())

    def __contains__(self, x):
        i = bisect.bisect_right(self.los, x) - 1
        return i >= 0 and x <= self.iv[i][1]

    def __and__(self, o):
        out, i, j = [], 0, 0
        a, b = self.iv, o.iv
        while i < len(a) and j < len(b):
            lo, hi = max(a[i][0], b[j][0]), min(a[i][1], b[j][1])
            if lo <= hi:
                out.append((lo, hi))
            if a[i][1] < b[j][1]:
                i += 1
            else:
                j += 1
        return ISet(tuple(out))

    def __sub__(self, o):
        out = []
        for lo, hi in self.iv:
            cur = lo
            k = max(0, bisect.bisect_right(o.los, lo) - 1)
            while k < len(o.iv) and o.iv[k][0] <= hi:
                a, b = o.iv[k]
                if b >= cur:
                    if a > cur:
                        out.append((cur, a - 1))
                    cur = max(cur, b + 1)
                k += 1
            if cur <= hi:
                out.append((cur, hi))
        return ISet(tuple(out))

    def __or__(self, o):
        ivs = sorted(self.iv + o.iv)
        out = []
        for lo, hi in ivs:
            if out and lo <= out[-1][1] + 1:
                out[-1] = (out[-1][0], max(out[-1][1], hi))
            else:
                out.append((lo, hi))
        return ISet(tuple(out))

    def __bool__(self):
        return bool(self.iv)

    @property
    def lo(self):
        return self.iv[0][0]

    @property
    def hi(self):
        return self.iv[-1][1]

    def size(self):
        return sum(b - a + 1 for a, b in self.iv)

    def __repr__(self):
        return "ISet" + repr(self.iv[:6])


SURR = ISet.rng(0xD800, 0xDFFF)
ALLCH = ISet.rng(0, MAXC) - SURR


# ------------------------------------------------------------ integer expressions
class IExpr:
    __slots__ = ("dom", "_zz", "isvar")

    def z(self):
        r = self._zz
        if r is None:
            r = self._zz = self._mkz()
        return r


class IVar(IExpr):
    __slots__ = ("name",)

    def __init__(self, name, dom):
        self.name, self.dom, self._zz, self.isvar = name, dom, None, True

    def _mkz(self):
        return z3.Int(self.name)

    def ev(self, m):
        return m[self.name]

    def __repr__(self):
        return self.name


_optab = {}


class IOp(IExpr):
    """op in add(a,b) mul(a,const) div(a,const>0) mod(a,const>0) ite(cond,a,b)"""
    __slots__ = ("op", "args", "__weakref__")

    def __new__(cls, op, *args):
        key = (op,) + tuple(a if isinstance(a, int) else ("o", id(a)) for a in args)
        r = _optab.get(key)
        if r is not None:
            return r
        r = object.__new__(cls)
        r.op, r.args, r._zz, r.isvar = op, args, None, False
        r.dom = _opdom(op, args)
        _optab[key] = r
        return r

    def _mkz(self):
        a = self.args
        if self.op == "add":
            return zi(a[0]) + zi(a[1])
        if self.op == "mul":
            return zi(a[0]) * zi(a[1])
        if self.op == "div":
            return zi(a[0]) / zi(a[1])
        if self.op == "mod":
            return zi(a[0]) % zi(a[1])
        if self.op == "ite":
            return z3.If(a[0].z(), zi(a[1]), zi(a[2]))
        raise AssertionError(self.op)

    def ev(self, m):
        a = self.args
        if self.op == "ite":
            return ievl(a[1], m) if a[0].ev(m) else ievl(a[2], m)
        x, y = ievl(a[0], m), ievl(a[1], m)
        if self.op == "add":
            return x + y
        if self.op == "mul":
            return x * y
        if self.op == "div":
            return x // y
        return x % y

    def __repr__(self):
        return "%s%r" % (self.op, self.args)


def zi(a):
    return z3.IntVal(a) if isinstance(a, int) else a.z()


def ievl(a, m):
    return a if isinstance(a, int) else a.ev(m)


def bounds(a):
    if isinstance(a, int):
        return a, a
    if a.dom is None or not a.dom.iv:
        return None, None
    return a.dom.lo, a.dom.hi


def _opdom(op, args):
    if op == "ite":
        a, b = args[1], args[2]
        da = ISet.rng(a, a) if isinstance(a, int) else a.dom
        db = ISet.rng(b, b) if isinstance(b, int) else b.dom
        return (da | db) if da is not None and db is not None else None
    (al, ah), (bl, bh) = bounds(args[0]), bounds(args[1])
    if op == "mod":
        if al is not None and al >= 0 and ah < bl:
            return ISet.rng(al, ah)
        return ISet.rng(0, bl - 1)
    if al is None or bl is None:
        return None
    if op == "add":
        if isinstance(args[1], int) and not isinstance(args[0], int) and len(args[0].dom.iv) < 40:
            return ISet(tuple((x + bl, y + bl) for x, y in args[0].dom.iv))
        return ISet.rng(al + bl, ah + bh)
    if op == "mul":
        c = (al * bl, al * bh, ah * bl, ah * bh)
        return ISet.rng(min(c), max(c))
    if op == "div":
        return ISet.rng(al // bl, ah // bl)
    return None


def iadd(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    if isinstance(a, int):
        a, b = b, a
    if b == 0 and isinstance(b, int):
        return a
    if isinstance(b, int) and isinstance(a, IOp) and a.op == "add" and isinstance(a.args[1], int):
        return iadd(a.args[0], a.args[1] + b)
    r = _recompose(a, b)
    if r is None:
        r = _recompose(b, a)
    if r is not None:
        return r
    return IOp("add", a, b)


def _divof(x):
    """x as (numerator, divisor)"""
    return x.args if isinstance(x, IOp) and x.op == "div" else (x, 1)


def _recompose(a, b):
    """(x // kc) * c + (x // k) % c == x // k, and the same modulo m * c  (digits put together again)"""
    if not (isinstance(a, IOp) and a.op == "mul" and isinstance(b, IOp) and b.op == "mod" and a.args[1] == b.args[1]):
        return None
    q, c, m = a.args[0], b.args[1], None
    if isinstance(q, IOp) and q.op == "mod":
        q, m = q.args
    x, k = _divof(b.args[0])
    y, l = _divof(q)
    if y is x and l == k * c:
        return b.args[0] if m is None else imod(b.args[0], m * c)
    return None


def imul(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a * b
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        if b == 0:
            return 0
        if b == 1:
            return a
        if isinstance(a, IOp) and a.op == "mul" and isinstance(a.args[1], int):
            return imul(a.args[0], a.args[1] * b)
    return IOp("mul", a, b)


def ineg(a):
    return imul(a, -1)


def isub(a, b):
    if a is b:
        return 0
    return iadd(a, ineg(b))


def idiv(a, c):
    assert isinstance(c, int) and c > 0
    if isinstance(a, int):
        return a // c
    if c == 1:
        return a
    lo, hi = bounds(a)
    if lo is not None and lo // c == hi // c:
        return lo // c
    if isinstance(a, IOp) and a.op == "div":
        return idiv(a.args[0], a.args[1] * c)
    return IOp("div", a, c)


def imod(a, c):
    assert isinstance(c, int) and c > 0
    if isinstance(a, int):
        return a % c
    lo, hi = bounds(a)
    if lo is not None and lo // c == hi // c:
        return iadd(a, -(lo // c) * c)
    return IOp("mod", a, c)


def iite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b or (isinstance(a, int) and isinstance(b, int) and a == b):
        return a
    return IOp("ite", c, a, b)


# ----------------------------------------------------------------- conditions
_ctab = {}


class Cond:
    __slots__ = ("k", "a", "b", "_zz")

    def __new__(cls, k, a, b=None):
        key = (k,
               tuple(id(x) for x in a) if k in ("and", "or") else (a if isinstance(a, int) else ("o", id(a))),
               b if isinstance(b, int) else ("o", id(b)))
        r = _ctab.get(key)
        if r is None:
            r = object.__new__(cls)
            r.k, r.a, r.b, r._zz = k, a, b, None
            _ctab[key] = r
        return r

    def z(self):
        r = self._zz
        if r is None:
            r = self._zz = self._mkz()
        return r

    def _mkz(self):
        k, a, b = self.k, self.a, self.b
        if k == "in":
            x = a.z()
            alt = []
            for lo, hi in b.iv:
                if lo == hi:
                    alt.append(x == lo)
                else:
                    alt.append(z3.And(x >= lo, x <= hi))
            return alt[0] if len(alt) == 1 else z3.Or(*alt)
        if k == "eq":
            return zi(a) == zi(b)
        if k == "le":
            return zi(a) <= zi(b)
        if k == "not":
            return z3.Not(a.z())
        if k == "and":
            return z3.And(*[c.z() for c in a])
        if k == "or":
            return z3.Or(*[c.z() for c in a])
        raise AssertionError(k)

    def ev(self, m):
        k, a, b = self.k, self.a, self.b
        if k == "in":
            return a.ev(m) in b
        if k == "eq":
            return ievl(a, m) == ievl(b, m)
        if k == "le":
            return ievl(a, m) <= ievl(b, m)
        if k == "not":
            return not a.ev(m)
        if k == "and":
            return all(c.ev(m) for c in a)
        return any(c.ev(m) for c in a)

    def __repr__(self):
        return "(%s %r %r)" % (self.k, self.a, self.b)


def c_in(e, s):
    """e (int or IExpr) is a member of interval set s."""
    if isinstance(e, int):
        return e in s
    d = e.dom
    if d is not None:
        s = s & d
        if not s:
            return False
        if s is d:
            return True
    elif not s:
        return False
    return Cond("in", e, s)


def c_eq(a, b):
    if isinstance(a, int):
        if isinstance(b, int):
            return a == b
        a, b = b, a
    if a is b:
        return True
    if isinstance(b, int):
        return c_in(a, ISet.rng(b, b))
    if a.dom is not None and b.dom is not None and not (a.dom & b.dom):
        return False
    if id(a) > id(b) and False:
        a, b = b, a
    r = _ctab.get(("eq", ("o", id(b)), ("o", id(a))))
    return r if r is not None else Cond("eq", a, b)


def c_le(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a <= b
    (al, ah), (bl, bh) = bounds(a), bounds(b)
    if ah is not None and bl is not None and ah <= bl:
        return True
    if al is not None and bh is not None and al > bh:
        return False
    if isinstance(b, int) and a.dom is not None:
        return c_in(a, ISet.rng(a.dom.lo, b))
    if isinstance(a, int) and b.dom is not None:
        return c_in(b, ISet.rng(a, b.dom.hi))
    return Cond("le", a, b)


def c_lt(a, b):
    return c_not(c_le(b, a))


def c_not(c):
    if c is True:
        return False
    if c is False:
        return True
    if c.k == "not":
        return c.a
    return Cond("not", c)


def c_and(cs):
    out = []
    for c in cs:
        if c is False:
            return False
        if c is True:
            continue
        out.append(c)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return Cond("and", tuple(out))


def c_or(cs):
    out = []
    for c in cs:
        if c is True:
            return True
        if c is False:
            continue
        out.append(c)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return Cond("or", tuple(out))


_keytab = {}        # symbolic dictionary keys, numbered


def reset_tables():
    _keytab.clear()
    _optab.clear()
    _ctab.clear()
