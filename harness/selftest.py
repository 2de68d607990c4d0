"""Engine self-test (not a property): Python operations run on solver variables must agree with CPython.

``check.py SELFTEST --strict``: every explored path is re-executed natively and its observations compared."""
import re
import io
import datetime as dt
import textwrap
import functools
import itertools
import string
import enum
import operator
import collections
import contextlib
import dataclasses
import html
import sys
import types
import typing
import warnings
import collections.abc
from datetime import datetime, timezone, timedelta, date
from collections import defaultdict, OrderedDict, deque
from itertools import chain, groupby, takewhile, dropwhile, accumulate, zip_longest, islice, count
from .reg import case

CASES = {}


class Color(enum.Enum):
    A = "a"
    B = "b"


class ColorS(str, enum.Enum):
    A = "a"
    NL = "\n"


def gen_words(s):
    w = ""
    for c in s:
        if c == " ":
            if w:
                yield w
            w = ""
        else:
            w += c
    if w:
        yield w


def match_stmt(s):
    match s:
        case "":
            return 0
        case "a" | "b":
            return 1
        case str() if s.startswith(" "):
            return 2
        case _:
            return 3


def match_seq(s):
    match s.split(" "):
        case [x]:
            return ["one", x]
        case [x, y]:
            return ["two", y, x]
        case [x, *rest]:
            return ["many", rest]


def match_dict(s):
    match {"k": s, "z": 1}:
        case {"k": "a"}:
            return "a"
        case {"k": v, **rest}:
            return [v, rest]


def while_replace(s):
    while "  " in s:
        s = s.replace("  ", " ")
    return s


def state_machine(s):
    out, run = [], 0
    for i, c in enumerate(s):
        if c == "\n":
            run += 1
            if run > 1:
                continue
        else:
            run = 0
        out.append(c)
    return "".join(out)


def lru(s):
    @functools.lru_cache(maxsize=None)
    def f(x):
        return x + "!"
    return f(s) + f(s)


def swallow(s):
    with contextlib.suppress(ValueError):
        s.index("a")
        return "found"
    return "none"


def try_finally(s):
    log = []
    try:
        log.append(s.index(" "))
    except ValueError as e:
        log.append("no")
    else:
        log.append("yes")
    finally:
        log.append("end")
    return log


def sio(s):
    f = io.StringIO()
    f.write(s)
    f.write("|")
    print(s, file=f) if False else None
    return f.getvalue()


def dd(s):
    d = defaultdict(list)
    for c in s:
        d[c == " "].append(c)
    return [d[True], d[False]]


def counter(s):
    n = collections.Counter([c == "\n" for c in s])
    return [n[True], n[False]]


def nonlocal_(s):
    n = 0

    def bump(c):
        nonlocal n
        n += c == " "
        return n
    return [bump(c) for c in s]


def walrus(s):
    return y if (y := s.strip()) else "empty"


def chain_cmp(s):
    return [0 < len(s) < 2, "a" <= s < "c", s == s.strip() != ""]


def dict_dispatch(s):
    return {"a": lambda: 1, "b": lambda: 2, " ": lambda: 3}.get(s, lambda: 9)()


def dict_ops(s):
    d = {"a": 1}
    d[s] = 2
    return [len(d), d.get("a"), s in d, "b" in d, sorted(d.values())]


def set_ops(s):
    return [s in {"a", "b"}, s in frozenset("xyz"), s in ("a", " "), s in "abc"]


def slices(s):
    return [s[1:], s[:-1], s[::-1], s[::2], s[-1:], s[:1], s[len(s) // 2:]]


def indexer(s):
    i = 0
    while i < len(s) and s[i] == " ":
        i += 1
    return [i, s[i:], s[:i]]


def enum_use(s):
    try:
        return Color(s).name
    except ValueError as e:
        return "bad"


def enum_cmp(s):
    return [s == ColorS.A, s in [ColorS.A, ColorS.NL], s in (x.value for x in Color), Color.A.value + s, ColorS.A + s]


def partial_(s):
    return functools.partial(str.replace, s, " ")("_")


def unpack(s):
    a, *b = s + "xy"
    return [a, b]


def ternary(s):
    return "-" if not s else s if s != "a" else "A"


def conv(s):
    return [f"{s!r}" if s.isalnum() else "", f"{s:>4}", f"{s:<3}|", f"{s:^5}", "%s-%5s" % (s, s), "{0}{0}{x}".format(s, x=s), "{}".format(s)]


def template(s):
    return string.Template("[$x]").substitute(x=s)


def trans(s):
    return [s.translate({32: "_", 10: None}), s.translate(str.maketrans({" ": "__", "a": "b"})), s.translate(str.maketrans("ab", "ba"))]


def bytesy(s):
    return s.encode("utf-8").decode("utf-8")


def inher(s):
    class P:
        def f(self, x):
            return x + "p"

    class Q(P):
        def f(self, x):
            return super().f(x) + "q"
    return Q().f(s)


def prop(s):
    class P:
        def __init__(self, x):
            self._x = x

        @property
        def x(self):
            return self._x.strip()

        @staticmethod
        def y(z):
            return z + z

        @classmethod
        def w(cls, z):
            return cls(z)
    return [P(s).x, P.y(s), P.w(s).x]


OPS = [
    lambda s: s.strip(), lambda s: s.lstrip(" "), lambda s: s.rstrip("\n "), lambda s: s.split(), lambda s: s.split(" "),
    lambda s: s.split("\n", 1), lambda s: s.rsplit(" ", 1), lambda s: s.splitlines(), lambda s: s.splitlines(True),
    lambda s: s.partition(" "), lambda s: s.rpartition("a"), lambda s: s.replace(" ", "&nbsp;"), lambda s: s.replace("a", "", 1),
    lambda s: s.replace("", "-"), lambda s: s.find("a"), lambda s: s.rfind(" "), lambda s: s.count(" "), lambda s: s.count(""),
    lambda s: s.startswith("a"), lambda s: s.endswith((" ", "\n")), lambda s: s.removeprefix("a"), lambda s: s.removesuffix(" "),
    lambda s: [s.isspace(), s.isdigit(), s.isalpha(), s.isalnum(), s.isupper(), s.islower()], lambda s: s.upper(), lambda s: s.lower(),
    lambda s: s.title(), lambda s: s.capitalize(), lambda s: s.swapcase(), lambda s: s.casefold(),
    lambda s: s.ljust(4, "."), lambda s: s.zfill(4), lambda s: s.center(5), lambda s: s.expandtabs(4), lambda s: s * 3, lambda s: s + "x" + s,
    lambda s: "".join(reversed(s)), lambda s: ",".join(s), lambda s: s.join(["a", "b", "c"]), lambda s: "".join(c for c in s if c != " "),
    lambda s: [c == "\n" for c in s], lambda s: any(c == " " for c in s), lambda s: all(c != "a" for c in s), lambda s: sum(1 for c in s if c == "a"),
    lambda s: max(len(x) for x in s.split(" ")), lambda s: sorted([s, "a", "b"]), lambda s: min([s, "b"]), lambda s: list(map(str.strip, s.split("a"))),
    lambda s: list(filter(None, s.split(" "))), lambda s: [(k, len(list(g))) for k, g in groupby(s, key=lambda c: c == " ")],
    lambda s: "".join(takewhile(lambda c: c == " ", s)), lambda s: "".join(dropwhile(str.isspace, s)), lambda s: list(chain(s, "x")),
    lambda s: list(accumulate(s)), lambda s: list(zip_longest(s, "ab", fillvalue="-")), lambda s: list(islice(s, 1)), lambda s: list(zip(count(), s)),
    lambda s: list(enumerate(s, 1)), lambda s: next((i for i, c in enumerate(s) if c == " "), -1), lambda s: list(gen_words(s)),
    match_stmt, match_seq, match_dict, while_replace, state_machine, lru, swallow, try_finally, sio, dd, counter, nonlocal_, walrus, chain_cmp,
    dict_dispatch, dict_ops, set_ops, slices, indexer, enum_use, enum_cmp, partial_, unpack, ternary, conv, trans, inher, prop, template, bytesy,
    lambda s: textwrap.indent(s, "> "), lambda s: textwrap.indent(s, "> ", lambda l: True), lambda s: textwrap.dedent(s),
    lambda s: re.sub(r"\n{2,}", "\n", s), lambda s: re.sub(r"^ +", lambda m: "&nbsp;" * len(m.group()), s, flags=re.M),
    lambda s: re.split(r"\s+", s), lambda s: re.findall(r"[ab]+", s), lambda s: bool(re.match(r"\s*$", s)), lambda s: re.sub(r"(?<!\\)a", r"\\a", s),
    lambda s: [m.span() for m in re.finditer("a|\n", s)], lambda s: re.sub("(a)(b)?", r"<\1\2>", s), lambda s: re.fullmatch(r"\S*", s) is not None,
    lambda s: re.compile(r"`+").sub("'", s), lambda s: re.search(r"\bab\b", s) is None, lambda s: max(map(len, re.findall("`+", s)), default=0),
    lambda s: re.sub(r"[ \t]+$", "", s, flags=re.MULTILINE), lambda s: re.escape("a b") + s, lambda s: re.sub(r"\s", "", s), lambda s: re.subn("a", "b", s),
    lambda s: functools.reduce(lambda x, y: y + x, s, ""), lambda s: operator.add(s, "x"), lambda s: operator.eq(s, "a"), lambda s: list(deque(s)),
    lambda s: OrderedDict(a=s)["a"], lambda s: {**{"a": s}, "b": 1}, lambda s: {"a": s} | {"b": s}, lambda s: [*s, *"xy"], lambda s: dict(zip(["p", "q"], [s, 1])),
    lambda s: {k: s for k in "ab"}, lambda s: (lambda *a, **k: [a, k])(s, x=s), lambda s: isinstance(s, str), lambda s: type(s) is str, lambda s: str(s) == s,
    lambda s: s if s else "e", lambda s: s or "e", lambda s: s and "x", lambda s: not s, lambda s: bool(s), lambda s: s is None, lambda s: len(s),
    lambda s: ord(s[0]) if s else -1, lambda s: chr(ord(s[0]) + 1) if s and ord(s[0]) < 1000 else "", lambda s: hash(s) == hash(s + ""),
    lambda s: s.__len__(), lambda s: str.upper(s), lambda s: str.join("-", [s, s]), lambda s: getattr(s, "strip")(), lambda s: str(s).strip(),
    lambda s: [x for x in (s, None, "") if x], lambda s: "\n".join(["    " + l for l in s.split("\n")]), lambda s: "\n".join(l.rstrip() for l in s.splitlines()),
    lambda s: "".join(["<br>" if c == "\n" else c for c in s]), lambda s: list(reversed(s.split(" "))), lambda s: s.split("a")[-1], lambda s: (s, s) == (s, s + ""),
    lambda s: [s] == ["a"], lambda s: {"k": s} == {"k": "a"}, lambda s: s != "a", lambda s: s < "b", lambda s: [s].count("a"), lambda s: ["a", "b"].index(s) if s in ["a", "b"] else -1,
    lambda s: "%s" % s, lambda s: "%(x)s" % {"x": s}, lambda s: "%d%%|%s" % (len(s), s), lambda s: "a" "b" + s, lambda s: f"{s}{len(s)}{s.strip()!s}",
    lambda s: f"{len(s):03d}{s}", lambda s: ("x" if s == "a" else "y") + s, lambda s: s[0] == s[-1] if s else None, lambda s: s.encode() == b"a",
    lambda s: s.index("a") if "a" in s else None, lambda s: s.isidentifier(), lambda s: s.isprintable(), lambda s: s.isascii(),
    lambda s: tuple(s), lambda s: set(s) == {"a"}, lambda s: len(set(s)), lambda s: len(dict.fromkeys(s)), lambda s: list(dict.fromkeys(s.split(" "))),
    lambda s: any(map(str.isspace, s)), lambda s: "".join(sorted(s)), lambda s: s.strip().startswith("a") and not s.endswith(" "),
    lambda s: s.splitlines() == s.split("\n"), lambda s: [l for l in s.split("\n") if l.strip()], lambda s: " ".join(s.split()), lambda s: s.lstrip().rstrip("a"),
    lambda s: s.rstrip() + "\n" * (len(s) - len(s.rstrip())), lambda s: (len(s) - len(s.lstrip(" "))) * "&nbsp;" + s.lstrip(" "), lambda s: s[:0] + s[0:1] + s[1:],
    lambda s: int(s) if s.isdecimal() and s.isascii() else None, lambda s: s.__contains__("a"), lambda s: s.__add__("x"), lambda s: s.__eq__("a"),
    lambda s: next(iter(s), "none"), lambda s: iter(s).__next__() if s else 0, lambda s: [a + b for a, b in zip(s, s[1:])], lambda s: list(range(len(s))), lambda s: s.count("a") * s,
    lambda s: ("\n" in s, "\n\n" in s, " " not in s), lambda s: collections.ChainMap({"a": s})["a"], lambda s: s.rjust(3)[1:], lambda s: repr(s) if s.isalpha() and s.isascii() else 0,
    lambda s: s.format() if "{" not in s and "}" not in s else 0, lambda s: operator.itemgetter(0)(s) if s else 0, lambda s: operator.methodcaller("strip")(s),
    lambda s: [s.startswith(" ", 1), s.find("a", 1), s.count("a", 0, 1)], lambda s: s.split(None, 1), lambda s: s.splitlines()[0] if s.splitlines() else "",
    lambda s: list(s.strip(" a")), lambda s: "".join(map(lambda c: c * 2, s)), lambda s: sum(map(len, s.split(" "))), lambda s: sum(c == "a" for c in s),
    lambda s: set(s) <= {"a", "b"}, lambda s: {"a"} | set(s) == {"a"}, lambda s: len(set(s) & {"a"}), lambda s: sorted(set(s) - {" "}),
    lambda s: [x for x in itertools.filterfalse(str.isspace, s)], lambda s: list(itertools.starmap(str.replace, [(s, "a", "b")])), lambda s: list(accumulate(s, operator.add)),
    lambda s: set(s).issubset("ab"), lambda s: not set(s).isdisjoint({" "}), lambda s: set(s).union("a") == {"a"}, lambda s: [k for k in {s: 1}], lambda s: {s: 1} == {"a": 1},
    lambda s: {s, "a"} == {"a"}, lambda s: collections.Counter(s)["a"], lambda s: collections.Counter(s).most_common(1)[0][1] if s else 0, lambda s: list(itertools.pairwise(s)),
    lambda s: [list(g) for _, g in groupby(s, str.isspace)], lambda s: list(itertools.product(s, "x")), lambda s: list(itertools.chain.from_iterable([s, "a"])), lambda s: list(itertools.repeat(s, 2)),
    lambda s: list(itertools.compress(s, [1, 0, 1])), lambda s: "".join(filter(str.isalpha, s)), lambda s: list(filter(lambda c: c not in " \n", s)), lambda s: sorted(s, key=ord), lambda s: max(s, default=""),
    lambda s: sorted(s.split(" "), key=len), lambda s: min(s.split("a"), key=len), lambda s: s.split("a", maxsplit=1), lambda s: "".join(f"{c}" for c in s), lambda s: [c for c in s if c.strip()],
    lambda s: s.replace("\n", " ").strip() or None, lambda s: list(map(lambda p: p[0] + str(p[1]), zip(s, range(5)))), lambda s: dict(enumerate(s)), lambda s: {i: c for i, c in enumerate(s)}.get(0, "-"),
]


@case(CASES, quick=list(range(len(OPS))))
def strings(ctx, i):
    dom, n = [("set:ab \n`", 3), ("any", 2 if i not in (23, 24, 25, 26, 27, 28, 133) else 1), ("set:aA1é_\t \\", 2), ("digit", 2)][ctx.choose("dom", 4)]
    s = ctx.text("s", 0, n, dom)
    ctx.observe("r", ctx.run(OPS[i], s))
    ctx.check(True, "ok")


MS = [
    lambda n: str(datetime.fromtimestamp(n / 1000, tz=timezone.utc).date()), lambda n: (datetime(1970, 1, 1) + timedelta(milliseconds=n)).strftime("%Y-%m-%d"),
    lambda n: datetime.fromtimestamp(n // 1000, timezone.utc).strftime("%Y-%m-%d"), lambda n: (date(1970, 1, 1) + timedelta(days=n // 86400000)).isoformat(),
    lambda n: datetime.fromtimestamp(n / 1000, dt.timezone.utc).isoformat()[:10], lambda n: f"{datetime.fromtimestamp(n / 1000, tz=timezone.utc):%Y-%m-%d}",
    lambda n: date.fromordinal(719163 + n // 86400000).isoformat(), lambda n: datetime.fromtimestamp(n // 1000, tz=timezone.utc).date().isoformat(),
    lambda n: "{0.year:04d}-{0.month:02d}-{0.day:02d}".format(datetime.fromtimestamp(n / 1000, tz=timezone.utc)),
    lambda n: divmod(n, 1000), lambda n: n % 7, lambda n: n // 86400000, lambda n: -n, lambda n: str(n), lambda n: abs(n), lambda n: n > 0, lambda n: "%d" % n,
    lambda n: datetime.fromtimestamp(int(n / 1000), timezone.utc).date() == date(1970, 1, 1), lambda n: round(n / 1000), lambda n: int(str(n)), lambda n: int(n / 1000), lambda n: int(float(n)),
    lambda n: datetime.utcfromtimestamp(n / 1000).strftime("%F"), lambda n: (datetime(1970, 1, 1, tzinfo=timezone.utc) + timedelta(seconds=n / 1000)).date().strftime("%Y-%m-%d"),
]


@case(CASES, quick=list(range(len(MS))))
def numbers(ctx, i):
    lo, hi = [(-100000000000, -99990000000), (0, 90000000), (951782400000, 951955200000), (-1000, 1000)][ctx.choose("range", 4)]
    n = ctx.int("n", lo, hi)
    ctx.observe("r", ctx.run(MS[i], n))
    ctx.check(True, "ok")


INTS = [
    lambda n: "#" * n, lambda n: "    " * n + "x", lambda n: [i for i in range(n)], lambda n: "abcdef"[n:], lambda n: "abcdef"[n], lambda n: f"{n}.", lambda n: f"{n:02d}", lambda n: n + 1,
    lambda n: n in (1, 2), lambda n: {1: "a", 2: "b"}.get(n), lambda n: ["p", "q", "r", "s", "t", "u", "v"][n], lambda n: n == 1.0, lambda n: n or 5, lambda n: bool(n), lambda n: min(n, 3), lambda n: max(2, n),
    lambda n: list(range(n, n + 3)), lambda n: [i + n for i in range(2)], lambda n: n * 2.5, lambda n: n / 2, lambda n: n ** 2, lambda n: isinstance(n, int), lambda n: str(n) + "x", lambda n: [*range(6)][n:],
    lambda n: "x".rjust(n), lambda n: list(islice(count(n), 2)), lambda n: list(enumerate("ab", n)), lambda n: sum([n, 1]), lambda n: n & 1, lambda n: n.bit_length(), lambda n: sorted([n, 2, 1]), lambda n: "%03d" % n,
    lambda n: list(zip(count(start=n), "ab")), lambda n: next(x for x in count(n)), lambda n: n if 1 <= n <= 3 else 0, lambda n: not n, lambda n: len("a" * n), lambda n: textwrap.indent("a\nb", " " * n), lambda n: str(n).zfill(3),
    lambda n: n is True, lambda n: [1, 2, 3].index(n) if n in [1, 2, 3] else -1, lambda n: "".join(["#"] * n), lambda n: "".join("#" for _ in range(n)), lambda n: format(n, "d"), lambda n: repr(n), lambda n: n.__index__(), lambda n: operator.index(n),
]


@case(CASES, quick=list(range(len(INTS))))
def small_ints(ctx, i):
    n = ctx.int("n", 0, 6)
    ctx.observe("r", ctx.run(INTS[i], n))
    ctx.check(True, "ok")


@dataclasses.dataclass(frozen=True)
class Pt:
    x: str
    y: typing.Optional[str] = None
    z: list = dataclasses.field(default_factory=list)


@dataclasses.dataclass
class Acc:
    parts: list = dataclasses.field(default_factory=list)

    def add(self, s):
        self.parts.append(s)
        return self

    def __str__(self):
        return "".join(self.parts)

    def __bool__(self):
        return bool(str(self))


class Nt(typing.NamedTuple):
    a: str
    b: int = 0

    @property
    def both(self):
        return self.a + "!" * self.b


class Registry:
    known = {}

    def __init_subclass__(cls, key=None, **k):
        super().__init_subclass__(**k)
        Registry.known[key] = cls

    def __call__(self, s):
        return self.run(s)


class RegA(Registry, key="a"):
    def run(self, s):
        return s + "A"


class RegSp(Registry, key=" "):
    def run(self, s):
        return "_" + s


class Slots:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Slots) and self.v == o.v

    def __iter__(self):
        yield from self.v

    def __len__(self):
        return len(self.v)

    def __getitem__(self, i):
        return self.v[i]

    def __contains__(self, c):
        return c in self.v


class Lazy:
    def __init__(self, s):
        self.s = s

    @functools.cached_property
    def up(self):
        return self.s.strip()


@functools.singledispatch
def disp(x):
    return "other"


@disp.register(str)
def _(x):
    return "str" + x


@disp.register(list)
def _(x):
    return [disp(y) for y in x]


@contextlib.contextmanager
def guard(log):
    log.append("in")
    try:
        yield log
    except ValueError as e:
        log.append("err")
    finally:
        log.append("out")


def use_guard(s):
    log = []
    with guard(log) as g:
        g.append(s.index("a"))
    return log


def recurse(s):
    if not s:
        return ""
    head, tail = s[0], s[1:]
    return ("<" + head + ">" if head == "a" else head) + recurse(tail)


def push_pop(s):
    st, out = [], []
    for c in s:
        if c == "a":
            st.append(c)
        elif st:
            out.append(st.pop())
    return [st, out]


def while_true(s):
    i = 0
    while True:
        j = s.find("a", i)
        if j == -1:
            return s[i:]
        i = j + 1


def for_else(s):
    for i, c in enumerate(s):
        if c == "\n":
            break
    else:
        return "no break"
    return i


def chained_gen(s):
    def lines():
        for l in s.split("\n"):
            yield l
            if not l:
                return

    def prefixed(it):
        for l in it:
            yield "> " + l
    return "\n".join(prefixed(lines()))


def kwonly(s, *, sep=" ", **kw):
    return sep.join([s, s]) + str(sorted(kw))


def deco(f):
    @functools.wraps(f)
    def g(*a, **k):
        return "[" + f(*a, **k) + "]"
    return g


@deco
def decorated(s):
    return s.upper() if s == "a" else s


def reraise(s):
    try:
        try:
            return s.index("a")
        except ValueError as e:
            raise KeyError(s) from e
    except KeyError as e:
        return [type(e.__cause__).__name__, e.args]


def closures(s):
    fs = [lambda x, i=i: x * i for i in range(3)]
    return [f(s) for f in fs]


def del_items(s):
    xs = list(s)
    while xs and xs[-1] == " ":
        del xs[-1]
    while xs and xs[0] == " ":
        xs.pop(0)
    return xs


def slice_assign(s):
    xs = list(s)
    xs[0:1] = ["<", ">"]
    xs.insert(1, "i")
    xs.extend("z")
    return xs


def replace_dc(s):
    p = Pt(s)
    q = dataclasses.replace(p, y=s)
    return [p == q, q == Pt(s, s), dataclasses.asdict(q), dataclasses.astuple(p), [f.name for f in dataclasses.fields(p)], hash(p.x) == hash(q.y)]


def frozen(s):
    p = Pt(s)
    try:
        p.x = "k"
    except dataclasses.FrozenInstanceError:
        return "frozen"
    return "no"


def groups(s):
    return ["\n".join(g) if k else len(list(g)) for k, g in groupby(s.split("\n"), key=bool)]


def min_runs(s):
    n = best = 0
    for c in s:
        n = n + 1 if c == "`" else 0
        best = max(best, n)
    return "`" * (best + 1)


def match_class(s):
    match Pt(s):
        case Pt(x="a"):
            return 1
        case Pt(x=v) if v.isspace():
            return 2
        case Pt(x=str(v), y=None):
            return v
    return 0


def match_guard(s):
    match (s, len(s)):
        case ("", _):
            return "empty"
        case (("a" | " ") as c, 1):
            return "one" + c
        case (_, n) if n > 1:
            return n
        case _:
            return None


def logger_(s):
    import logging
    logging.getLogger("nowhere").debug("x %s", s)
    return s


def deep(s):
    import copy
    d = {"a": [s, {"b": s}], "p": Pt(s, z=[s])}
    e = copy.deepcopy(d)
    f = copy.copy(d)
    e["a"][1]["b"] = "q"
    return [d == e, d == f, e["p"] == d["p"], d["a"]]


def js(s):
    import json
    return json.loads(json.dumps({"k": "x"}))["k"] + s


OPS2 = [
    lambda s: str(Acc().add(s).add("|")), lambda s: bool(Acc().add(s)), lambda s: f"{Acc([s])}", lambda s: "%s" % Acc([s]), lambda s: "{}".format(Acc([s])), lambda s: Nt(s, 2).both, lambda s: list(Nt(s)), lambda s: Nt(s)._replace(b=3)._asdict(),
    lambda s: Registry.known[s]()(s) if s in Registry.known else "none", lambda s: Registry.known.get(s, RegA)()(s), lambda s: Slots(s) == Slots("a"), lambda s: list(Slots(s)), lambda s: len(Slots(s)), lambda s: "a" in Slots(s),
    lambda s: Slots(s)[0] if s else 0, lambda s: [Lazy(s).up], lambda s: disp(s), lambda s: disp([s, 1]), use_guard, recurse, push_pop, while_true, for_else, chained_gen, lambda s: kwonly(s, sep="-", **{"k": 1}), decorated, reraise, closures,
    del_items, slice_assign, replace_dc, frozen, groups, min_runs, match_class, match_guard, logger_, deep, js,
    lambda s: "\n".join(itertools.chain([s], ["x"])), lambda s: list(map(operator.itemgetter(0), [(s, 1)])), lambda s: list(map(operator.attrgetter("x"), [Pt(s)])), lambda s: sorted([Pt(s), Pt("a")], key=lambda p: p.x)[0].x,
    lambda s: [p for p in [Pt(s), Pt("a")] if p == Pt("a")], lambda s: Pt(s) in [Pt("a")], lambda s: {Pt: s}[Pt], lambda s: isinstance(s, (int, str)), lambda s: isinstance(s, collections.abc.Iterable), lambda s: isinstance(s, collections.abc.Sequence), lambda s: isinstance(s, collections.abc.Hashable),
    lambda s: s.__class__ is str, lambda s: type(s).__name__, lambda s: issubclass(type(s), str), lambda s: callable(s), lambda s: s is s, lambda s: [*map(str, [s])], lambda s: "".join([*s]), lambda s: dict(a=s, **{"b": s}), lambda s: (lambda a, /, b: a + b)(s, b=s),
    lambda s: "a" if s.strip() == "" else s.strip()[0], lambda s: (s.strip() or "-").join("xy"), lambda s: s.strip() and f"**{s.strip()}**", lambda s: f"{s[:len(s) - len(s.lstrip())]}|{s.strip()}|{s[len(s.rstrip()):]}", lambda s: f"{'`' * 2}{s}{'`' * 2}",
    lambda s: f"{s=}" if s.isalpha() and s.isascii() else 0, lambda s: f"{s:{len(s) + 1}}|", lambda s: "{:>{w}}".format(s, w=3), lambda s: "{0[0]}".format([s]), lambda s: "{p.x}".format(p=Pt(s)), lambda s: "{!s:<4}|".format(s), lambda s: string.Formatter().format("{}", s),
    lambda s: re.sub(r"(\s*)(.*?)(\s*)", r"\1|\2|\3", s, count=1, flags=re.S), lambda s: re.match(r"(\s*)(.*?)(\s*)\Z", s, re.S).groups(), lambda s: re.match(r"(?P<lead>\s*)", s)["lead"], lambda s: re.sub("[ab]", lambda m: {"a": "1"}.get(m[0], "2"), s), lambda s: re.compile("a").search(s) and 1,
    lambda s: re.split("(a)", s), lambda s: re.sub(r"\n(?=\n)", "", s), lambda s: re.sub(r"\\", r"\\\\", s), lambda s: [m.group(0) for m in re.finditer(r"\S+", s)], lambda s: re.sub(r"(?m)^", "> ", s), lambda s: re.sub(r"(?m)^(?=.)", "> ", s), lambda s: re.match("a{1,2}$", s) is not None, lambda s: re.sub(r"([\\`|])", r"\\\1", s),
    lambda s: next(filter(None, [s, "d"])), lambda s: next((x for x in [s] if x), None), lambda s: any((x == "a") for x in [s]), lambda s: not any(c in s for c in "ab"), lambda s: all(map(str.isalpha, s)), lambda s: [i for i, c in enumerate(s) if c == "a"], lambda s: sum(len(x) for x in s.split()), lambda s: bool([c for c in s if c == "a"]),
    lambda s: (s,) + ("a",), lambda s: [s] + [s] * 2, lambda s: [s] > ["a"], lambda s: (s, 1) < ("a", 2), lambda s: {"a": 1}.keys() & {s}, lambda s: "a" in {s: 1}, lambda s: {s: 1}.get("a"), lambda s: list({s: 1, "a": 2}.items()), lambda s: {"a": 1, "b": 2}.pop(s, None), lambda s: {"a": [1]}.setdefault(s, []),
    lambda s: collections.OrderedDict([(s, 1)]) == {"a": 1}, lambda s: collections.defaultdict(int, a=1)[s], lambda s: types.MappingProxyType({"a": 1}).get(s), lambda s: types.SimpleNamespace(x=s).x, lambda s: functools.reduce(lambda a, b: a + "\n" + b, [s, "x"]), lambda s: functools.reduce(lambda t, p: t.replace(*p), [("a", "b"), (" ", "")], s),
    lambda s: list(zip(*[iter(s)] * 2)), lambda s: list(zip(s, itertools.cycle("xy"))), lambda s: list(itertools.combinations(s, 2)), lambda s: "".join(itertools.chain.from_iterable((c, "-") for c in s)), lambda s: list(map("{}!".format, s)), lambda s: list(map("|".__add__, s)), lambda s: list(map(s.count, "ab")), lambda s: list(map(s.replace, "ab", "xy")),
    lambda s: "\n".join(filter(str.strip, s.split("\n"))), lambda s: list(map(len, s.split("a"))), lambda s: max(s.split("a"), key=len), lambda s: sorted(s.split("a"), reverse=True), lambda s: s.splitlines(keepends=True)[-1:] , lambda s: s.endswith("\n") and s[:-1] or s, lambda s: s.rstrip("\n") + "\n", lambda s: s.lstrip("\n").count("\n"), lambda s: s.strip("\n").replace("\n\n", "\n"),
    lambda s: s.translate({ord("a"): "x", ord(" "): "&nbsp;"}), lambda s: s.translate({ord(c): "\\" + c for c in "ab"}), lambda s: html.escape(s), lambda s: textwrap.indent(s, "    ")[4:], lambda s: "\n".join(textwrap.indent(l, "- ") for l in s.split("\n")), lambda s: textwrap.dedent("    " + s) if s.strip() else 0,
    lambda s: [x.strip() for x in s.split(",")], lambda s: s.split("\n")[0], lambda s: s.split("\n", 1)[-1], lambda s: s.rsplit("\n", 1)[0], lambda s: s.partition("\n")[2], lambda s: "".join(s.partition("a")), lambda s: s.rpartition("\n")[::2], lambda s: s.replace("a", "\\a").replace("\\", "/"), lambda s: "a".join(s.split("a")) == s,
    lambda s: ("a" in s) + ("b" in s), lambda s: [False, True][s == "a"], lambda s: ("no", "yes")[bool(s)], lambda s: (s == "a") is True, lambda s: (s == "a") == True, lambda s: 1 if s == "a" else 0 if s == "b" else -1, lambda s: int(s == "a"), lambda s: {True: "t", False: "f"}[s == "a"], lambda s: (s == "a") & (len(s) == 1), lambda s: (s == "a") | (s == "b"), lambda s: (s == "a") ^ True, lambda s: not (s == "a"), lambda s: str(s == "a"), lambda s: bool(s == "a") and s,
    lambda s: io.StringIO(s).read(), lambda s: (f := io.StringIO(s), f.write("xy"), f.getvalue())[1:], lambda s: (f := io.StringIO(s), f.readline(), f.read())[1:],
    lambda s: (f := io.StringIO(), f.write(s), f.seek(0), f.readlines())[1:], lambda s: (f := io.StringIO(), print(s, "b", file=f), f.tell(), f.getvalue())[1:],
lambda s: list(io.StringIO(s)), lambda s: sys.intern("x") + s, lambda s: eval("s + 'x'", {"s": s}), lambda s: getattr(Pt(s), "nope", s), lambda s: hasattr(Pt(s), "x"), lambda s: vars(Acc([s])), lambda s: Pt(s).__dict__["x"], lambda s: repr([1]) + s, lambda s: object.__getattribute__(Pt(s), "x"), lambda s: setattr(a := Acc(), "parts", [s]) or str(a),
    lambda s: typing.cast(str, s), lambda s: list(typing.get_type_hints(Nt)), lambda s: warnings.warn("x " + s) and 0 if False else s, lambda s: uuid_free(s), lambda s: operator.concat(s, "x"), lambda s: operator.not_(s), lambda s: operator.truth(s), lambda s: operator.is_(s, s), lambda s: operator.ne(s, "a"), lambda s: operator.mul(s, 2), lambda s: operator.length_hint(s),
    lambda s: [s.find(c) for c in "ab"], lambda s: s[s.find("a") + 1:], lambda s: s[-2:] == "\n\n", lambda s: s[-1:] not in ("", "\n"), lambda s: s[:2].strip(), lambda s: s[slice(0, 1)], lambda s: s[None:None], lambda s: s[::-1].lstrip()[::-1] == s.rstrip(), lambda s: [s[i:i + 2] for i in range(0, len(s), 2)], lambda s: [s[i] for i in range(len(s) - 1, -1, -1)],
]


def uuid_free(s):
    return s


@case(CASES, quick=list(range(len(OPS2))))
def strings2(ctx, i):
    dom, n = [("set:ab \n`", 3), ("any", 2 if i not in (25,) else 1), ("set:aA1é_\t \\", 2)][ctx.choose("dom", 3)]
    s = ctx.text("s", 0, n, dom)
    ctx.observe("r", ctx.run(OPS2[i], s))
    ctx.check(True, "ok")


@dataclasses.dataclass(frozen=True)
class FPt:
    x: object
    y: object = None


def memo(s):
    c = {}
    out = []
    for x in [s, "a", s + "", "b", s]:
        k = (len(x), x)
        if k not in c:
            c[k] = len(c)
        out.append(c[k])
    return out, len(c)


def memo_try(s):
    c, n = {}, 0
    for x in [s, "a", s.strip(), "ab"]:
        try:
            c[x, "k"]
        except KeyError:
            n += 1
            c[x, "k"] = n
    return n, list(c.values())


def memo_obj(s):
    c = {}
    for x in [FPt(s), FPt("a"), FPt(s, None), FPt(s, 1)]:
        c.setdefault(x, []).append(x.x)
    return list(c.values()), FPt("a") in c, FPt("a", 1) in c, c.get(FPt("b"), "-")


def seen_parts(s):
    seen = set()
    n = 0
    for x in [(s, 1), ("a", 1), (s, 2), ("a", 2), ((s, "a"), 0), (("b", "a"), 0)]:
        if x in seen:
            n += 1
            continue
        seen.add(x)
    seen.discard(("a", 1))
    return n, len(seen), ("a", 1) in seen


def unhashable(s):
    try:
        return {}[([s], 1)]
    except TypeError:
        return "unhashable"


def unhashable_obj(s):
    try:
        return {FPt([s]): 1}
    except TypeError:
        return "unhashable"


def counts(s):
    c = {}
    for x in s:
        if x not in c:
            c[x] = 0
        c[x] += 1
    n = collections.Counter()
    n[s, 1] += 2
    n["a", 1] += 1
    d = e = {}
    f = d[s] = e["a"] = [s]
    d[s] += ["k"]
    if ("a", 1) in n:
        del n["a", 1]
    return sorted(c.values()), dict(n), len(d), f


def grow(s):
    seen = {"a"}
    other = seen
    seen |= {s}
    seen |= {"b", s}
    n = len(seen)
    seen -= {"a"}
    seen ^= {s}
    seen &= {"b", "a"}
    d = {"a": 1}
    d |= {s: 2}
    k = 7
    k -= 2
    k |= 8
    xs = [1, [2]]
    xs[0] += k
    xs[1] += [s]
    xs[-1] *= 2
    return n, len(seen), other is seen, d, k, xs


def order():
    log = []

    def f(x):
        log.append(x)
        return x
    d = {"k": [0]}
    {}[f("key")] = f("value")
    d[f("k")] += [f("v")]
    a = d[f("j")] = f("w")
    return log, d, a


OPS3 = [
    counts, grow, lambda s: (order(), s), lambda s: dict([(s, 1), ("a", 2)]), lambda s: dict(zip(s, "xyz")), lambda s: collections.Counter([s, "a", ("a",), (s,)]).most_common(1),
    memo, memo_try, memo_obj, seen_parts, unhashable, unhashable_obj,
    lambda s: len({(s, 1), ("a", 1)}), lambda s: {(s, 1): 2} == {("a", 1): 2}, lambda s: {("a", 1): 3}.get((s, 1)), lambda s: ("a", s) in {("a", "b"), ("a", " ")},
    lambda s: len(set([(c, 0) for c in s])), lambda s: dict([((s, 0), 1)]).get(("a", 0)), lambda s: {(c, 0) for c in s} == {("a", 0)}, lambda s: collections.Counter([(s,), ("a",)])[("a",)],
    lambda s: collections.defaultdict(list, {("a",): [1]})[(s,)], lambda s: {("a", "b"): 1}.pop((s, "b"), None), lambda s: (s,) in {("a",): 1}.keys(), lambda s: {FPt(s), FPt("a")} == {FPt("a")},
    lambda s: FPt(s) in {FPt("a"): 1}, lambda s: {FPt("a"): 1}[FPt(s)] if s == "a" else 0, lambda s: {(1, 2): "x"}[1, 2] + s, lambda s: len({**{(s,): 1}, **{("a",): 2}}),
]


@case(CASES, quick=list(range(len(OPS3))))
def keys(ctx, i):
    dom, n = [("set:ab \n`", 3), ("any", 2)][ctx.choose("dom", 2)]
    s = ctx.text("s", 0, n, dom)
    ctx.observe("r", ctx.run(OPS3[i], s))
    ctx.check(True, "ok")
