"""``re`` for symbolic subjects: a backtracking matcher over the parse tree of the standard library.

Concrete subjects go to the real module.
"""
import re as _re
import re._constants as C
import re._parser as _parser

from . import engine as _e
from . import terms as t
from . import values as v
from .terms import ISet

error = _re.error
for _n in ("A ASCII I IGNORECASE L LOCALE M MULTILINE S DOTALL X VERBOSE U UNICODE NOFLAG RegexFlag "
           "DEBUG T TEMPLATE").split():
    if hasattr(_re, _n):
        globals()[_n] = getattr(_re, _n)
escape_real = _re.escape
NL = ISet.rng(10, 10)


def escape(s):
    if v.is_symstr(s):
        return _re.escape(s._concrete("re.escape"))
    return _re.escape(s)


def _cat(cat, ascii_):
    name = str(cat).rsplit("_", 1)[-1].lower()
    neg = "_NOT_" in str(cat)
    if name == "digit":
        s = v.char_class("isdecimal")
    elif name == "space":
        s = v.char_class("isspace")
    elif name == "word":
        s = v.char_class("isalnum") | ISet.of([95])
    elif name == "linebreak":
        s = NL
    else:
        raise _e.Unsupported("regex category %s" % cat)
    if ascii_:
        s = s & ISet.rng(0, 127)
        if name == "space":
            s = ISet.of([9, 10, 11, 12, 13, 32])
    return (ISet.rng(0, t.MAXC) - s) if neg else s


def _in_set(items, flags):
    neg, s = False, ISet(())
    for op, av in items:
        if op is C.NEGATE:
            neg = True
        elif op is C.LITERAL:
            s = s | ISet.rng(av, av)
        elif op is C.RANGE:
            s = s | ISet.rng(*av)
        elif op is C.CATEGORY:
            s = s | _cat(av, flags & _re.A)
        else:
            raise _e.Unsupported("regex set item %s" % op)
    if flags & _re.I:
        s = _fold(s)
    return (ISet.rng(0, t.MAXC) - s) if neg else s


def _fold(s):
    if s.size() > 5000:
        return s
    pts = set()
    for lo, hi in s.iv:
        for c in range(lo, hi + 1):
            pts.add(c)
            for x in (chr(c).lower(), chr(c).upper()):
                if len(x) == 1:
                    pts.add(ord(x))
    return ISet.of(pts)


class Matcher:
    def __init__(self, ch, flags, start_of_string=0):
        self.ch, self.flags = ch, flags

    def test(self, i, s):
        return i < len(self.ch) and _e.ENG.decide(t.c_in(self.ch[i], s))

    def single(self, op, av, flags):
        """interval set of a one-character node, or None"""
        if op is C.LITERAL:
            s = ISet.rng(av, av)
            return _fold(s) if flags & _re.I else s
        if op is C.NOT_LITERAL:
            s = ISet.rng(av, av)
            if flags & _re.I:
                s = _fold(s)
            return ISet.rng(0, t.MAXC) - s
        if op is C.ANY:
            s = ISet.rng(0, t.MAXC)
            return s if flags & _re.S else s - NL
        if op is C.IN:
            return _in_set(av, flags)
        return None

    def seq(self, nodes, k, pos, g, flags, cont):
        """match nodes[k:] at pos; cont(pos, groups) -> result or None"""
        if k == len(nodes):
            return cont(pos, g)
        op, av = nodes[k]
        s = self.single(op, av, flags)
        if s is not None:
            if self.test(pos, s):
                return self.seq(nodes, k + 1, pos + 1, g, flags, cont)
            return None
        nxt = lambda p, gg: self.seq(nodes, k + 1, p, gg, flags, cont)
        if op is C.BRANCH:
            for alt in av[1]:
                r = self.seq(alt, 0, pos, g, flags, nxt)
                if r is not None:
                    return r
            return None
        if op is C.SUBPATTERN:
            gid, add, rem, sub = av
            f2 = (flags | add) & ~rem
            if gid is None:
                return self.seq(sub, 0, pos, g, f2, nxt)

            def close(p, gg):
                gg = dict(gg)
                gg[gid] = (pos, p)
                gg["last"] = gid
                return nxt(p, gg)
            return self.seq(sub, 0, pos, g, f2, close)
        if op is C.MAX_REPEAT or op is C.MIN_REPEAT:
            return self.repeat(av, pos, g, flags, nxt, op is C.MAX_REPEAT)
        if op is C.POSSESSIVE_REPEAT:
            r = self.repeat(av, pos, g, flags, lambda p, gg: (p, gg), True)
            return None if r is None else nxt(*r)
        if op is C.ATOMIC_GROUP:
            r = self.seq(av, 0, pos, g, flags, lambda p, gg: (p, gg))
            return None if r is None else nxt(*r)
        if op is C.AT:
            return nxt(pos, g) if self.at(av, pos, flags) else None
        if op is C.ASSERT or op is C.ASSERT_NOT:
            d, sub = av
            if d >= 0:
                r = self.seq(sub, 0, pos, g, flags, lambda p, gg: (p, gg))
            else:
                lo, hi = sub.getwidth()
                p0 = pos - lo
                r = None
                if p0 >= 0:
                    r = self.seq(sub, 0, p0, g, flags, lambda p, gg: (p, gg) if p == pos else None)
            if op is C.ASSERT:
                return None if r is None else nxt(pos, r[1])
            return nxt(pos, g) if r is None else None
        if op is C.GROUPREF:
            sp = g.get(av)
            if sp is None:
                return None
            w = self.ch[sp[0]:sp[1]]
            if len(self.ch) - pos < len(w):
                return None
            if _e.ENG.decide(v.eq_cond(self.ch[pos:pos + len(w)], w)):
                return nxt(pos + len(w), g)
            return None
        if op is C.GROUPREF_EXISTS:
            gid, yes, no = av
            sub = yes if g.get(gid) is not None else no
            return nxt(pos, g) if sub is None else self.seq(sub, 0, pos, g, flags, nxt)
        raise _e.Unsupported("regex operator %s" % op)

    def repeat(self, av, pos, g, flags, nxt, greedy):
        lo, hi, sub = av
        hi = 1 << 30 if hi is C.MAXREPEAT else hi
        if len(sub) == 1:
            s = self.single(sub[0][0], sub[0][1], flags)
            if s is not None:
                if greedy:
                    n = 0
                    while n < hi and self.test(pos + n, s):
                        n += 1
                    while n >= lo:
                        r = nxt(pos + n, g)
                        if r is not None:
                            return r
                        n -= 1
                    return None
                n = 0
                while n < lo:
                    if not self.test(pos + n, s):
                        return None
                    n += 1
                while True:
                    r = nxt(pos + n, g)
                    if r is not None:
                        return r
                    if n >= hi or not self.test(pos + n, s):
                        return None
                    n += 1

        def step(p, gg, n):
            def more():
                if n >= hi:
                    return None
                return self.seq(sub, 0, p, gg, flags,
                                lambda q, g2: step(q, g2, n + 1) if (q > p or n < lo) else None)
            if n < lo:
                return more()
            if greedy:
                r = more()
                return r if r is not None else nxt(p, gg)
            r = nxt(p, gg)
            return r if r is not None else more()
        return step(pos, g, 0)

    def at(self, a, pos, flags):
        n = len(self.ch)
        if a is C.AT_BEGINNING:
            if pos == 0:
                return True
            return bool(flags & _re.M) and self.test(pos - 1, NL)
        if a is C.AT_BEGINNING_STRING:
            return pos == 0
        if a is C.AT_END:
            if pos == n:
                return True
            if flags & _re.M:
                return self.test(pos, NL)
            return pos == n - 1 and self.test(pos, NL)
        if a is C.AT_END_STRING:
            return pos == n
        if a in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
            w = v.char_class("isalnum") | ISet.of([95])
            if flags & _re.A:
                w = w & ISet.rng(0, 127)
            x = pos > 0 and self.test(pos - 1, w)
            y = pos < n and self.test(pos, w)
            return (x != y) == (a is C.AT_BOUNDARY)
        raise _e.Unsupported("regex anchor %s" % a)


class Match:
    def __init__(self, pat, s, span, g, pos=0, endpos=None):
        self.re, self.string, self._span, self._g = pat, s, span, g
        self.pos, self.endpos = pos, len(s) if endpos is None else endpos
        self.lastindex = g.get("last")

    def _sp(self, k):
        if k == 0:
            return self._span
        if isinstance(k, str):
            k = self.re.groupindex[k]
        if k > self.re.groups:
            raise IndexError("no such group")
        return self._g.get(k)

    def group(self, *ks):
        if not ks:
            ks = (0,)
        out = []
        for k in ks:
            sp = self._sp(k)
            out.append(None if sp is None else self.string[sp[0]:sp[1]])
        return out[0] if len(out) == 1 else tuple(out)

    __getitem__ = lambda self, k: self.group(k)

    def groups(self, default=None):
        return tuple(self.group(i) if self._g.get(i) is not None else default
                     for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {n: (self.group(i) if self._g.get(i) is not None else default)
                for n, i in self.re.groupindex.items()}

    def span(self, k=0):
        return self._sp(k) or (-1, -1)

    def start(self, k=0):
        return self.span(k)[0]

    def end(self, k=0):
        return self.span(k)[1]

    def expand(self, template):
        return _expand(self.re, template, self)


def _expand(pat, template, m):
    if v.is_symstr(template):
        # a template with a symbolic backslash could hold escapes
        for c in template.ch:
            if _e.ENG.decide(t.c_eq(c, 92)):
                template = template._concrete("regex template")
                break
        else:
            return template
    parts = _parser.parse_template(template, pat._real)
    out = []
    for p in parts:
        if isinstance(p, int):
            x = m.group(p)
            out.append("" if x is None else x)
        else:
            out.append(p)
    return v.cat(*out)


class Pattern:
    def __init__(self, pattern, flags=0):
        self._real = _re.compile(pattern, flags)
        self.pattern = pattern
        self.flags = self._real.flags
        self.groups = self._real.groups
        self.groupindex = dict(self._real.groupindex)
        self._tree = None

    def __deepcopy__(self, memo):
        return self

    def tree(self):
        if self._tree is None:
            self._tree = _parser.parse(self.pattern, self._real.flags & ~_re.U if False else self._real.flags)
        return self._tree

    def _try(self, s, i, full=False, endpos=None):
        ch = v.chars_of(s) if endpos is None else v.chars_of(s)[:endpos]
        m = Matcher(ch, self.flags)
        n = len(ch)
        r = m.seq(self.tree(), 0, i, {}, self.flags,
                  lambda p, g: (p, g) if (not full or p == n) else None)
        if r is None:
            return None
        return Match(self, s, (i, r[0]), r[1])

    def match(self, s, pos=0, endpos=None):
        if not v.is_symstr(s):
            return self._real.match(s, pos, *([] if endpos is None else [endpos]))
        return self._try(s, pos, endpos=endpos)

    def fullmatch(self, s, pos=0, endpos=None):
        if not v.is_symstr(s):
            return self._real.fullmatch(s, pos, *([] if endpos is None else [endpos]))
        return self._try(s, pos, True, endpos)

    def search(self, s, pos=0, endpos=None):
        if not v.is_symstr(s):
            return self._real.search(s, pos, *([] if endpos is None else [endpos]))
        for i in range(pos, len(s) + 1):
            m = self._try(s, i, endpos=endpos)
            if m is not None:
                return m
        return None

    def _iter(self, s):
        i, n = 0, len(s)
        last_end = -1
        while i <= n:
            found = None
            for j in range(i, n + 1):
                m = self._try(s, j)
                if m is not None:
                    if m.end() == m.start() and m.start() == last_end and False:
                        continue
                    found = m
                    break
            if found is None:
                return
            yield found
            if found.end() > found.start():
                i = found.end()
                last_end = i
                # an empty match adjacent to a previous match is allowed since 3.7
            else:
                i = found.end() + 1
                # a non-empty match may still start at the same position
                m2 = self._nonempty(s, found.end())
                if m2 is not None:
                    yield m2
                    i = m2.end()

    def _nonempty(self, s, j):
        ch = v.chars_of(s)
        m = Matcher(ch, self.flags)
        r = m.seq(self.tree(), 0, j, {}, self.flags, lambda p, g: (p, g) if p > j else None)
        return None if r is None else Match(self, s, (j, r[0]), r[1])

    def finditer(self, s, *a):
        if not v.is_symstr(s):
            return self._real.finditer(s, *a)
        return self._iter(s)

    def findall(self, s, *a):
        if not v.is_symstr(s):
            return self._real.findall(s, *a)
        out = []
        for m in self._iter(s):
            if self.groups == 0:
                out.append(m.group())
            elif self.groups == 1:
                out.append(m.group(1) or "")
            else:
                out.append(m.groups(""))
        return out

    def subn(self, repl, s, count=0):
        if not v.is_symstr(s) and not v.is_symstr(repl) and not callable(repl):
            return self._real.subn(repl, s, count)
        out, last, n = [], 0, 0
        it = self._iter(s) if v.is_symstr(s) else self._real.finditer(s)
        for m in it:
            if count and n >= count:
                break
            out.append(s[last:m.start()])
            if callable(repl):
                out.append(repl(m))
            else:
                out.append(_expand(self, repl, m))
            last = m.end()
            n += 1
        out.append(s[last:])
        return v.cat(*out), n

    def sub(self, repl, s, count=0):
        return self.subn(repl, s, count)[0]

    def split(self, s, maxsplit=0):
        if not v.is_symstr(s):
            return self._real.split(s, maxsplit)
        out, last, n = [], 0, 0
        for m in self._iter(s):
            if maxsplit and n >= maxsplit:
                break
            out.append(s[last:m.start()])
            out.extend(m.groups())
            last = m.end()
            n += 1
        out.append(s[last:])
        return out


_cache = {}


def compile(pattern, flags=0):
    if isinstance(pattern, Pattern):
        return pattern
    if v.is_symstr(pattern):
        pattern = pattern._concrete("regex pattern")
    key = (pattern, int(flags))
    p = _cache.get(key)
    if p is None:
        p = _cache[key] = Pattern(pattern, flags)
    return p


def match(p, s, flags=0):
    return compile(p, flags).match(s)


def fullmatch(p, s, flags=0):
    return compile(p, flags).fullmatch(s)


def search(p, s, flags=0):
    return compile(p, flags).search(s)


def sub(p, r, s, count=0, flags=0):
    return compile(p, flags).sub(r, s, count)


def subn(p, r, s, count=0, flags=0):
    return compile(p, flags).subn(r, s, count)


def split(p, s, maxsplit=0, flags=0):
    return compile(p, flags).split(s, maxsplit)


def findall(p, s, flags=0):
    return compile(p, flags).findall(s)


def finditer(p, s, flags=0):
    return compile(p, flags).finditer(s)


def purge():
    _cache.clear()
