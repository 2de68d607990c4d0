"""The harness API.  One harness text runs symbolically (inputs are solver variables, ``check`` is a
query) and concretely (inputs come from a model, ``check`` evaluates), the latter against the
unmodified code in a separate process."""

WORD = "word"          # not white space, not a character Markdown rendering rewrites
TOKEN_LO = 0xE000      # private-use code points reserved for harness sentinels
TOKEN_HI = 0xE0FF


class Missing(Exception):
    pass


class Outcome:
    """result of running a callable: ``ok`` with ``value`` or a raised ``exc``"""

    def __init__(self, ok, value, exc):
        self.ok, self.value, self.exc = ok, value, exc

    @property
    def kind(self):
        return "value" if self.ok else type(self.exc).__name__


class BaseCtx:
    tier = "quick"

    def run(self, fn, *a, **k):
        try:
            return Outcome(True, fn(*a, **k), None)
        except Exception as e:
            return Outcome(False, None, e)

    def word(self, name, n=1):
        if n < 3:
            return self.chars(name, n, WORD)
        return self.chars(name + ".first", 1, WORD) + self.chars(name, n - 2, "phrase") + self.chars(name + ".last", 1, WORD)

    def flag(self, name):
        return self.choose(name, 2) == 1

    def pick(self, name, options):
        return options[self.choose(name, len(options))]

    def text(self, name, lo, hi, dom=None):
        """string whose length is chosen in lo..hi"""
        n = lo if lo == hi else lo + self.choose(name + ".len", hi - lo + 1)
        return self.chars(name, n, dom)


class ConcreteCtx(BaseCtx):
    symbolic = False

    def __init__(self, values, tier="quick"):
        self.values = values
        self.failed = []
        self.obs = []
        self.nchecks = 0
        self.tier = tier

    def chars(self, name, n, dom=None):
        s = self.values.get(name)
        if s is None:
            raise Missing(name)
        return s

    def key(self, name, n, dom=None, differs=()):
        return self.chars(name, n, dom)

    def int(self, name, lo, hi):
        if name not in self.values:
            raise Missing(name)
        return self.values[name]

    def choose(self, name, n):
        if n <= 1:
            return 0
        if name not in self.values:
            raise Missing(name)
        return self.values[name]

    def assume(self, c):
        if not c:
            raise Missing("assumption")

    def check(self, c, key, detail=""):
        self.nchecks += 1
        if not c:
            self.failed.append([key, str(detail)])

    def observe(self, label, value):
        self.obs.append([label, plain(value)])

    def eq(self, a, b):
        return a == b

    def all(self, cs):
        return all(cs)

    def any(self, cs):
        return any(cs)

    def isin(self, c, dom):
        return ord(c) in domain(dom)

    def no(self, c):
        return not c


def plain(x, m=None, depth=12):
    """JSON-able picture of a value (model m resolves symbolic parts)"""
    from . import values as v
    from . import terms as t
    ty = type(x)
    if v is not None and v.is_symstr(x):
        return "".join(chr(t.ievl(c, m)) for c in x.ch)
    if ty is v.SymInt:
        return x.e.ev(m)
    if ty is v.SymBool:
        return bool(x.c.ev(m))
    if ty is v.SymReal:
        from fractions import Fraction
        return "%r" % float(Fraction(t.ievl(x.e, m), x.d))
    if x is None or ty in (bool, int, str):
        return x
    if ty is float:
        return "%r" % x
    if depth == 0:
        return "..."
    if isinstance(x, dict):
        return {"{}": [[plain(k, m, depth - 1), plain(y, m, depth - 1)] for k, y in x.items()]}
    if isinstance(x, (list, tuple)):
        return [plain(y, m, depth - 1) for y in x]
    if isinstance(x, Outcome):
        return ["value", plain(x.value, m, depth - 1)] if x.ok else ["raised", type(x.exc).__name__]
    return "<%s>" % ty.__name__


_doms = {}


def domain(dom):
    """named character domains (interval sets)"""
    from .terms import ISet, ALLCH
    if isinstance(dom, ISet):
        return dom
    r = _doms.get(dom)
    if r is not None:
        return r
    from .values import char_class
    tok = ISet.rng(TOKEN_LO, TOKEN_HI)
    if dom is None or dom == "any":
        r = ALLCH - tok
    elif dom == WORD:
        r = ALLCH - tok - char_class("isspace") - ISet.of(
            [0x1C, 0x1D, 0x1E, 0x1F, 0x85, 0x2028, 0x2029, ord("|"), ord("`")])
    elif dom == "phrase":             # inside a word or between words
        r = domain(WORD) | ISet.of([32])
    elif dom == "nonspace":
        r = ALLCH - tok - char_class("isspace")
    elif dom == "markup":             # every character that markup written by the library may hold
        r = ISet.of([c for c in range(33, 127) if c != 34])
    elif dom == "plain":
        r = ALLCH - tok - domain("markup")
    elif dom == "plainword":
        r = domain(WORD) - domain("markup")
    elif dom == "space":
        r = char_class("isspace")
    elif dom == "line":
        r = ALLCH - tok - ISet.of([10, 11, 12, 13, 0x1C, 0x1D, 0x1E, 0x85, 0x2028, 0x2029])
    elif dom == "nonl":
        r = ALLCH - tok - ISet.of([10])
    elif dom == "digit":
        r = ISet.rng(48, 57)
    elif dom == "ascii":
        r = ISet.rng(32, 126)
    elif dom == "lower":
        r = ISet.rng(97, 122)
    elif dom == "wsmix":
        r = ISet.of([ord("x"), 32, 10])
    elif isinstance(dom, str) and dom.startswith("set:"):
        r = ISet.of(map(ord, dom[4:]))
    elif isinstance(dom, str) and dom.startswith("not:"):
        r = ALLCH - tok - ISet.of(map(ord, dom[4:]))
    else:
        raise KeyError(dom)
    _doms[dom] = r
    return r
