"""C09: inline formatting wraps the text as Markdown defines it."""
from atlas_doc_parser import api
from .reg import case
from . import adf as a
from . import spec as s

CASES = {}
BOUNDS = ("text of 0..3 unconstrained characters under 0, 1 or 2 marks of every type and 3 of the formatting ones; link targets "
          "and titles of 0..2 unconstrained characters; indentation of level 1..6; code on texts of up to 6 characters out of "
          "backtick, space and letter and on single runs of up to 8 backticks; the mark applied directly, on a text element and "
          "on a text element in a paragraph, heading, task and decision; one mark, alone or with another, on words of 1..16 "
          "unconstrained characters")

FMT = ["strong", "em", "strike", "code", "link", "indentation", "underline"]
WRAP = {"strong": "**", "em": "*", "strike": "~~"}


def make(ctx, typ, name):
    d = s.mark(typ)
    if typ == "link":
        d["attrs"] = {"href": ctx.chars(name + "h", 2)}
        n = ctx.choose(name + "title", 3)
        if n:
            d["attrs"]["title"] = "" if n == 1 else ctx.chars(name + "t", 1)
    elif typ == "indentation":
        d["attrs"] = {"level": 1 + ctx.choose(name + "l", 6)}
    elif typ == "subsup":
        d["attrs"] = {"type": ["sub", "sup"][ctx.choose(name + "s", 2)]}
    return d


def blank(text):
    return not text.strip()


def peel(ctx, md, text, ms):
    """take the marks off from the outside; what is left must be the text"""
    white = []
    b = blank(text)
    for m in ms:
        white.append(b)
        if m["type"] == "link":
            b = False
    for m, b in zip(reversed(ms), reversed(white)):
        typ, at = m["type"], m.get("attrs", {})
        if typ == "indentation":
            n = at["level"]
            ctx.check(md[:n] == "\t" * n, "indentation puts tabs before the text")
            md = md[n:]
        elif typ == "link":
            tail = "](" + at["href"] + ")"
            ctx.check(md[:1] == "[" and md.endswith(tail), "link shape")
            md = md[1:len(md) - len(tail)]
            if at.get("title"):
                ctx.check(md == at["title"], "a link shows its title")
                return
        elif typ in WRAP and not b:
            w = WRAP[typ]
            n = len(w)
            ctx.check(len(md) > 2 * n and md[:n] == w and md[len(md) - n:] == w, "wrapped in its delimiter")
            md = md[n:len(md) - n]
        elif typ == "code" and not b:
            md = uncode(ctx, md)
    ctx.check(len(md) == len(text) and md == text, "the text itself")


def uncode(ctx, md):
    """content of an inline code span, read as Markdown does: up to the next run of equally many backticks"""
    n = 0
    while n < len(md) and md[n] == "`":
        n += 1
    ctx.check(n > 0, "a code span starts with backticks")
    runs = []
    i = n
    while i < len(md):
        j = i
        while j < len(md) and md[j] == "`":
            j += 1
        if j > i:
            runs.append((i, j - i))
            i = j
        else:
            i += 1
    close = [p for p, k in runs if k == n]
    ctx.check(bool(close) and close[0] == len(md) - n, "the code span ends where its text ends")
    inner = md[n:len(md) - n]
    if inner[:1] == " " and inner[-1:] == " " and not blank(inner):
        inner = inner[1:-1]
    return inner


def check(ctx, text, ms, how=None):
    raises = False
    b = blank(text)
    now = "\n" in text
    for m in ms:
        if m["type"] == "code" and now:
            raises = True
        if m["type"] == "link":
            t = m["attrs"].get("title")
            now = "\n" in (t if t else "x" if not now else "\n") or "\n" in m["attrs"]["href"]
    if raises:
        ctx.assume(False)
    how = ctx.choose("how", 2) if how is None else how
    d = a.text(text, *ms) if ms else ({"type": "text", "text": text, "marks": []} if how else a.text(text))
    if how == 1:
        md = api.parse_node(a.para(d)).to_markdown()
        ctx.check(md[-1:] == "\n", "paragraph ends its line")
        md = md[:-1]
    else:
        md = api.parse_node(d).to_markdown()
    ctx.observe("md", md)
    peel(ctx, md, text, ms)


@case(CASES, quick=list(s.MARKS), thorough=list(s.MARKS))
def single(ctx, typ):
    """one mark of every type on any text, also called directly"""
    text = ctx.text("x", 0, 3)
    m = make(ctx, typ, "m")
    if ctx.flag("direct"):
        if typ == "code" and "\n" in text:
            return
        md = api.parse_mark(m).to_markdown(text)
        ctx.observe("md", md)
        peel(ctx, md, text, [m])
    else:
        check(ctx, text, [m])


@case(CASES, quick=list(s.MARKS), cost=3)
def pairs(ctx, typ):
    """two marks, in both orders, equal ones included"""
    text = ctx.text("x", 0, 2, None)
    names = list(s.MARKS)
    m = s.mark(typ) if typ != "link" else make(ctx, typ, "m")
    o = names[ctx.choose("o", len(names))]
    o = s.mark(o) if o != "link" else {"type": "link", "attrs": {"href": ctx.chars("oh", 1)}}
    check(ctx, text, [m, o])


@case(CASES, quick=FMT, cost=3)
def triples(ctx, typ):
    text = ctx.chars("x", 2)
    ms = []
    for i, t in enumerate([typ, FMT[ctx.choose("b", len(FMT))], FMT[ctx.choose("c", len(FMT))]]):
        ms.append({"type": "link", "attrs": {"href": "h%d" % i}} if t == "link" else s.mark(t))
    check(ctx, text, ms, 0)


@case(CASES, quick=[4, 5], thorough=[4, 5, 7], cost=3)
def code_spans(ctx, n):
    """texts of backticks, spaces and letters: the span ends where its text ends"""
    text = ctx.text("x", n - 1, n, "set:` a")
    ms = [[a.CODE], [a.CODE, a.STRONG], [a.EM, a.CODE], [a.CODE, a.link("u`")]][ctx.choose("marks", 4)]
    check(ctx, text, ms, 0)


@case(CASES, quick=[8], thorough=[8, 20])
def long_runs(ctx, n):
    """a run of 1..n backticks between unconstrained characters"""
    k = 1 + ctx.choose("k", n)
    text = ctx.text("x", 0, 1, "line") + "`" * k + ctx.text("y", 0, 1, "line") + "`" * ctx.choose("j", 4)
    check(ctx, text, [a.CODE], 0)


@case(CASES, quick=["heading", "taskItem", "decisionItem", "paragraph"], cost=2)
def neighbours(ctx, holder):
    """texts next to each other: each has exactly its own delimiters"""
    x, y, z = ctx.word("x"), ctx.word("y"), ctx.word("z")
    kinds = ["strong", "em", "strike", "underline", "textColor"]
    ms = [kinds[ctx.choose("m%d" % i, len(kinds))] for i in range(3)]
    d = s.node(holder, content=[a.text(t, s.mark(m)) for t, m in zip([x, y, z], ms)])
    md = api.parse_node(d).to_markdown()
    ctx.observe("md", md)
    want = "".join([WRAP.get(m, "") + t + WRAP.get(m, "") for t, m in zip([x, y, z], ms)])
    i = md.find(want)
    ctx.check(i >= 0, "each text in its own delimiters")
    rest = md[:i] + md[i + len(want):]
    ctx.check("*" not in rest and "~" not in rest, "no other delimiters")


@case(CASES, quick=list(s.MARKS), cost=2)
def holders(ctx, typ):
    """marks of a paragraph apply to its whole content"""
    x, y = ctx.chars("x", 1, "line"), ctx.chars("y", 1, "line")
    m = make(ctx, typ, "m")
    md = api.parse_node(a.para(a.text(x), a.text(y), marks=[m])).to_markdown()
    ctx.observe("md", md)
    ctx.check(md[-1:] == "\n", "ends its line")
    peel(ctx, md[:-1], x + y, [m])


@case(CASES, quick=list(s.MARKS), cost=2)
def holders_many(ctx, typ):
    """a paragraph of 0..3 inline elements with up to two marks of its own"""
    pool = [lambda i: (a.text(x[i]), x[i]), lambda i: (a.emoji(":s:", "s"), "s"), lambda i: (a.text(""), ""),
            lambda i: (a.text("b", a.STRONG), "**b**")]
    x = ctx.chars("x", 3, "line")
    kids = [pool[ctx.choose("k%d" % i, len(pool))](i) for i in range(ctx.choose("n", 4))]
    ms = [s.mark(typ)]
    if ctx.flag("second"):
        ms.insert(ctx.choose("where", 2), {"type": "indentation", "attrs": {"level": 2}})
    d = a.para(*[k for k, _ in kids], marks=ms)
    if not kids and ctx.flag("no content"):
        del d["content"]
    md = api.parse_node(d).to_markdown()
    ctx.observe("md", md)
    ctx.check(md[-1:] == "\n", "ends its line")
    peel(ctx, md[:-1], "".join([t for _, t in kids]), ms)


@case(CASES, quick=[None])
def repeated(ctx, _):
    """the same mark object applied to several texts keeps no state"""
    x, y = ctx.chars("x", 2, "line"), ctx.chars("y", 1, "line")
    for typ in FMT:
        d = s.mark(typ)
        m = api.parse_mark(d)
        for t in (x, y, x):
            peel(ctx, m.to_markdown(t), t, [d])
    ctx.observe("x", x)


@case(CASES, quick=list(s.MARKS), cost=2)
def spelled(ctx, typ):
    """one mark on a word of any letters and any length up to 16, and on two"""
    n = 1 + ctx.choose("n", 16)
    x = ctx.word("x", n)
    if ctx.flag("two"):
        x = x + " " + ctx.word("y", 3)
    m = s.mark(typ)
    if typ == "link":
        k = ctx.choose("link", 3)
        m["attrs"] = {"href": "h"} if k == 0 else {"href": ctx.word("href", n)} if k == 1 else {"href": "h", "title": ctx.word("ti", n)}
    check(ctx, x, [[m], [m, a.EM], [a.STRONG, m]][ctx.choose("more", 3)])
