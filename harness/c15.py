"""C15: headings and rules keep their level and stand alone."""
from atlas_doc_parser import api
from .reg import case
from . import adf as a
from . import util as u
from . import trees

CASES = {}
BOUNDS = ("levels 1..6; heading texts of 0..3 unconstrained characters without line breaks, 0..3 inline elements of every kind, "
          "with marks; before and after every block kind in documents, expands, nested expands, panels and quotes; consecutive "
          "headings and rules; headings of 12..300 characters; headings of one or two words of 1..16 unconstrained characters")
TEXT = "line"
TOPS = ["doc", "expand", "nestedExpand", "panel", "quote"]


def lines_of(top, blocks):
    if top in ("doc", "expand", "nestedExpand"):
        d = {"doc": a.doc, "expand": a.expand, "nestedExpand": a.nested_expand}[top](*blocks)
        return api.parse_node(d).to_markdown().split("\n")
    d = a.panel("note", *blocks) if top == "panel" else a.quote(*blocks)
    ls = api.parse_node(d).to_markdown().split("\n")
    while ls and ls[-1] == "":
        ls.pop()
    return [x[2:] if x[:2] == "> " else x[1:] for x in ls]


def alone(ctx, ls, want, count=1):
    """exactly ``count`` lines equal ``want``; the lines around them are empty"""
    at = [i for i in range(len(ls)) if ls[i] == want or ls[i].rstrip() == want.rstrip()]
    ctx.check(len(at) == count, "on a line of its own")
    for i in at:
        ctx.check(i == 0 or ls[i - 1].strip() == "", "an empty line before")
        ctx.check(i == len(ls) - 1 or ls[i + 1].strip() == "", "an empty line after")


@case(CASES, quick=[[t, n] for t in TOPS for n in range(1, 7)], cost=2)
def level(ctx, p):
    """every level with any text, between paragraphs"""
    top, n = p
    t = "\ue000" + ctx.text("t", 0, 3, TEXT)
    blocks = [a.heading(n, a.text(t))]
    k = ctx.choose("around", 4)
    if k & 1:
        blocks.insert(0, a.pt(ctx.word("b")))
    if k & 2:
        blocks.append(a.pt(ctx.word("c")))
    ls = lines_of(top, blocks)
    ctx.observe("ls", ls)
    alone(ctx, ls, "#" * n + " " + t)


@case(CASES, quick=[1, 3, 6])
def exact(ctx, n):
    """any text, compared to the last character"""
    t = ctx.text("t", 0, 3, TEXT)
    md = api.parse_node(a.heading(n, a.text(t))).to_markdown()
    ctx.observe("md", md)
    ls = md.split("\n")
    want = "#" * n + " " + t
    ctx.check(ctx.any([x == want for x in ls if len(x) == len(want)]), "the heading line")
    ctx.check("".join(ls) == want, "nothing else")
    ctx.check(ls[0] == "" and ls[-1] == "", "empty lines around")


BLOCKS = trees.KINDS + ["rule", "card", "embed", "media", "extension", "empty", "heading1"]


def some(ctx, kind, x):
    if kind in trees.LEAVES:
        return trees.block(kind, [a.text(x)])
    if kind in trees.WRAPS:
        return trees.block(kind, [a.pt(x), a.pt("z")])
    return {"rule": lambda: a.rule(), "card": lambda: a.block_card("http://" + x), "embed": lambda: a.embed_card("u" + x),
            "media": lambda: a.media_single(a.media("external", url="http://m", alt=x)),
            "extension": lambda: a.extension(text=x), "empty": lambda: a.para(),
            "heading1": lambda: a.heading(1, a.text(x))}[kind]()


@case(CASES, quick=[[t, b] for t in TOPS for b in BLOCKS], cost=2)
def neighbours(ctx, p):
    """after and before every block kind"""
    top, b = p
    c = BLOCKS[ctx.choose("after", len(BLOCKS))]
    n = 1 + ctx.choose("n", 3) * 2
    t = "\ue000" + ctx.word("t")
    ls = lines_of(top, [some(ctx, b, ctx.word("x")), a.heading(n, a.text(t)), some(ctx, c, ctx.word("y"))])
    ctx.observe("ls", ls)
    alone(ctx, ls, "#" * n + " " + t)


@case(CASES, quick=[[t, b] for t in TOPS for b in BLOCKS if b != "rule"], cost=2)
def rules(ctx, p):
    """a rule after and before every block kind"""
    top, b = p
    pool = [k for k in BLOCKS if k not in ("rule", "cell", "header", "bare")]
    c = pool[ctx.choose("after", len(pool))]
    ls = lines_of(top, [some(ctx, b, "\ue000" + ctx.word("x")), a.rule(), some(ctx, c, "\ue001" + ctx.word("y"))])
    ctx.observe("ls", ls)
    alone(ctx, ls, "---")


@case(CASES, quick=[[t, b] for t in TOPS for b in BLOCKS if b != "rule"], cost=2)
def first_or_last(ctx, p):
    """a heading or rule at the start or end of its container, next to every block kind"""
    top, b = p
    other = some(ctx, b, "\ue000" + ctx.word("x"))
    t = "\ue001" + ctx.word("t")
    n = 1 + ctx.choose("n", 6)
    own, want = (a.rule(), "---") if ctx.flag("rule") else (a.heading(n, a.text(t)), "#" * n + " " + t)
    blocks = [[own, other], [other, own], [own], [own, other, other], [own, a.para(), other], [other, a.para(), own]][
        ctx.choose("place", 6)]
    if want == "---" and b in ("cell", "header", "bare"):
        return
    ls = lines_of(top, blocks)
    ctx.observe("ls", ls)
    alone(ctx, ls, want)


@case(CASES, quick=TOPS)
def bare_heading(ctx, top):
    """headings without content or with nothing in it, every level"""
    n = 1 + ctx.choose("n", 6)
    h = a.heading(n, *[[], [a.text("")], [a.text(""), {"type": "mediaInline", "attrs": {"id": "i", "collection": "c"}}]][ctx.choose("kids", 3)])
    if not h["content"] and ctx.flag("absent"):
        del h["content"]
    if ctx.flag("marks"):
        h["marks"] = []
    if ctx.flag("id"):
        h["attrs"]["localId"] = "x"
    x = [[], [a.pt("\ue000" + ctx.word("w"))]][ctx.choose("before", 2)]
    ls = lines_of(top, x + [h, a.pt("v")])
    ctx.observe("ls", ls)
    alone(ctx, ls, "#" * n + " ")


@case(CASES, quick=TOPS)
def heading_marks(ctx, top):
    """marks and other attributes of a heading change nothing"""
    n = 1 + ctx.choose("n", 6)
    t = "\ue001" + ctx.word("t")
    h = a.heading(n, a.text(t))
    k = ctx.choose("marks", 4)
    if k:
        h["marks"] = [[], [a.mark("alignment", align="end")], [a.mark("indentation", level=3)]][k - 1]
    if ctx.flag("localId"):
        h["attrs"]["localId"] = ctx.chars("id", 2)
    kids = [[h], [a.pt("w"), h], [h, a.pt("w")], [a.pt("w"), h, a.pt("v")]][ctx.choose("place", 4)]
    ls = lines_of(top, kids)
    ctx.observe("ls", ls)
    alone(ctx, ls, "#" * n + " " + t)


@case(CASES, quick=TOPS)
def sequences(ctx, top):
    """headings and rules after each other, first and last"""
    kinds = [ctx.choose("k%d" % i, 7) for i in range(3)]
    blocks, want = [], []
    for i, k in enumerate(kinds):
        t = chr(0xE000 + i) + ctx.word("t%d" % i)
        blocks.append(a.rule() if k == 0 else a.heading(k, a.text(t)))
        want.append("---" if k == 0 else "#" * k + " " + t)
    ls = lines_of(top, blocks)
    ctx.observe("ls", ls)
    solid = [x for x in ls if x.strip() != ""]
    if top == "panel":
        solid = solid[1:]
    ctx.check(len(solid) == 3, "one line each")
    if len(solid) == 3:
        for x, w in zip(solid, want):
            ctx.check(x == w, "in order")
    for w in want:
        alone(ctx, ls, w, len([x for x in want if x == "---"]) if w == "---" else 1)


INLINE = ["text", "strong", "code", "link", "emoji", "mention", "status", "date", "card"]


def inline(ctx, kind, x):
    return {"text": lambda: a.text(x), "strong": lambda: a.text(x, a.STRONG, a.EM), "code": lambda: a.text(x, a.CODE),
            "link": lambda: a.text(x, a.link("u")), "emoji": lambda: a.emoji(":s:", x), "mention": lambda: a.mention("i", x),
            "status": lambda: a.status(x), "date": lambda: a.date("0"), "card": lambda: a.inline_card("http://" + x)}[kind]()


@case(CASES, quick=[1, 2, 5], cost=2)
def inline_content(ctx, n):
    """0..3 inline elements of every kind, on one line"""
    k = ctx.choose("count", 4)
    kids = []
    for i in range(k):
        kids.append(inline(ctx, INLINE[ctx.choose("i%d" % i, len(INLINE))], ctx.word("x%d" % i)))
    d = a.heading(n, *kids)
    if k == 0 and ctx.flag("absent"):
        del d["content"]
    if ctx.flag("marks"):
        d["marks"] = [{"type": "alignment", "attrs": {"align": "center"}}]
    want = "#" * n + " " + api.parse_node(a.para(*kids)).to_markdown()[:-1]
    ls = api.parse_node(a.doc(a.pt("before"), d, a.pt("after"))).to_markdown().split("\n")
    ctx.observe("ls", ls)
    alone(ctx, ls, want)


@case(CASES, quick=[[t, n] for t in TOPS for n in (12, 80, 300)], thorough=[[t, n] for t in TOPS for n in (12, 33, 65, 80, 101, 130, 257, 300, 600)])
def long_heading(ctx, p):
    """long headings"""
    top, n = p
    t = "\ue000" + u.long(ctx, "b", n)
    lv = 1 + ctx.choose("n", 6)
    ls = lines_of(top, [a.pt("v"), a.heading(lv, a.text(t)), a.pt("w")])
    ctx.observe("ls", ls)
    alone(ctx, ls, "#" * lv + " " + t)


@case(CASES, quick=[[t, n] for t in TOPS for n in (1, 2, 3, 6)])
def spelled(ctx, p):
    """a heading that is a word or two of any letters and any length up to 16"""
    top, n = p
    w = ctx.word("w", 1 + ctx.choose("n", 16))
    t = [w, w + " x", "a " + w][ctx.choose("shape", 3)]
    ls = lines_of(top, [a.pt("before"), a.heading(n, a.text(t)), a.pt("after")])
    ctx.observe("ls", ls)
    alone(ctx, ls, "#" * n + " " + t)
