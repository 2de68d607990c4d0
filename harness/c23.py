"""C23: rendering is compositional: what a block shows does not depend on its neighbours."""
from atlas_doc_parser import api
from .reg import case
from . import adf as a
from . import trees

CASES = {}
BOUNDS = ("every triple of block kinds (texts of 1..2 unconstrained characters, also equal ones) in documents, expands, nested expands, "
          "panels and quotes, pairs in list items and cells; 1..3 inline elements of every kind in paragraphs, headings, task and "
          "decision items; 2..3 items, rows and cells per list and table; 12 and 40 blocks in one document; blocks of words of 1..16 unconstrained characters")
ASSUMPTIONS = ("lines that hold white space only are not compared, and neither is white space at line ends of list items and decisions",)
TEXT = "not:\x0b\x0c\r\x1c\x1d\x1e\x85\u2028\u2029"
BLOCKS = trees.KINDS + ["rule", "card", "embed", "media", "extension", "empty", "absent", "group", "tasks2", "code2", "spaces"]


def some(ctx, kind, x):
    if kind in trees.LEAVES:
        return trees.block(kind, [a.text(x)])
    if kind in trees.WRAPS:
        return trees.block(kind, [a.pt(x), a.pt("z")])
    return {"rule": lambda: a.rule(), "card": lambda: a.block_card("http://" + x), "embed": lambda: a.embed_card("u" + x),
            "media": lambda: a.media_single(a.media("external", url="http://m", alt=x)),
            "extension": lambda: a.extension(text=x), "empty": lambda: a.para(), "absent": lambda: {"type": "paragraph"},
            "group": lambda: {"type": "mediaGroup", "content": []},
            "tasks2": lambda: a.tasks(a.task("TODO", a.text(x)), a.tasks(a.task("DONE", a.text("s")))),
            "code2": lambda: a.code("  " + x + "\n\n> y\n- k", "none"), "spaces": lambda: a.pt("  ")}[kind]()


def solid(ls, ends=False):
    return [x.rstrip() if ends else x for x in ls if x.strip()]


def alone(b, ends=False):
    return solid(api.parse_node(b).to_markdown().split("\n"), ends)


def compare(ctx, got, want):
    ctx.check(len(got) == len(want), "as many lines as the parts have")
    if len(got) == len(want):
        for x, y in zip(got, want):
            ctx.check(x == y, "the lines the parts have alone")


def lines_in(top, blocks):
    d = {"doc": lambda: a.doc(*blocks), "expand": lambda: a.expand(*blocks), "nestedExpand": lambda: a.nested_expand(*blocks),
         "panel": lambda: a.panel("info", *blocks), "quote": lambda: a.quote(*blocks)}[top]()
    ls = api.parse_node(d).to_markdown().split("\n")
    if top in ("panel", "quote"):
        ls = [x[2:] if x[:2] == "> " else x[1:] for x in ls]
    return ls[1:] if top == "panel" else ls


TOPS = ["doc", "expand", "nestedExpand", "panel", "quote"]


@case(CASES, quick=[[t, b] for t in TOPS for b in BLOCKS], cost=2)
def pairs(ctx, p):
    """every pair of block kinds, also of equal texts"""
    top, b = p
    c = BLOCKS[ctx.choose("second", len(BLOCKS))]
    x = ctx.chars("x", 2 if b in ("para", "heading", "extension", "card") else 1, TEXT)
    y = x if ctx.flag("equal") else ctx.chars("y", 1, TEXT)
    blocks = [some(ctx, b, x), some(ctx, c, y)]
    ls = lines_in(top, blocks)
    ctx.observe("ls", ls)
    compare(ctx, solid(ls), [z for q in blocks for z in alone(q)])


@case(CASES, quick=BLOCKS, cost=3)
def triples(ctx, b):
    """every block kind between every two others in a document"""
    c, d = BLOCKS[ctx.choose("before", len(BLOCKS))], BLOCKS[ctx.choose("after", len(BLOCKS))]
    blocks = [some(ctx, c, ctx.word("x")), some(ctx, b, ctx.word("y")), some(ctx, d, ctx.word("z"))]
    ls = lines_in("doc", blocks)
    ctx.observe("ls", ls)
    compare(ctx, solid(ls), [z for q in blocks for z in alone(q)])


NOLIST = [k for k in BLOCKS if k not in ("bullet", "ordered", "task", "tasks2")]
TABLES = ("cell", "header", "bare")     # a table within a cell escapes its separators twice: see C12


@case(CASES, quick=[[t, b] for t in ("bullet", "ordered", "cell", "header") for b in NOLIST if t in ("bullet", "ordered") or b not in TABLES], cost=2)
def in_items(ctx, p):
    """two blocks in a list item or a cell (nested lists: C10)"""
    top, b = p
    kinds = [k for k in NOLIST if top in ("bullet", "ordered") or k not in TABLES]
    c = kinds[ctx.choose("second", len(kinds))]
    dom = "not:<&\x0b\x0c\r\x1c\x1d\x1e\x85\u2028\u2029 \n" if top in ("cell", "header") else TEXT
    blocks = [a.pt("f"), some(ctx, b, ctx.chars("x", 1, dom)), some(ctx, c, ctx.word("y") if top in ("bullet", "ordered") else "y")]
    want = [z for q in blocks for z in alone(q, True)]
    if top in ("bullet", "ordered"):
        el = api.parse_node((a.bullets if top == "bullet" else a.ordered)(a.item(*blocks)))
        ls = el.to_markdown().split("\n")
        ctx.observe("ls", ls)
        mark = "- " if top == "bullet" else "1. "
        ctx.check(ls[0][:len(mark)] == mark, "the marker")
        ls[0] = ls[0][len(mark):]
        got = solid(ls, True)
    else:
        md = api.parse_node((a.cell if top == "cell" else a.hcell)(*blocks)).to_markdown()
        ctx.observe("md", md)
        got = solid([x.replace("&nbsp;", " ").replace("\\|", "|") for x in md.split("<br>")], True)
    compare(ctx, got, want)


INLINE = ["text", "strong", "code", "link", "emoji", "mention", "status", "break", "date", "card", "empty", "media"]


def inline(ctx, kind, x):
    return {"text": lambda: a.text(x), "strong": lambda: a.text(x, a.STRONG, a.EM), "code": lambda: a.text(x, a.CODE),
            "link": lambda: a.text(x, a.link("u")), "emoji": lambda: a.emoji(":s:", x), "mention": lambda: a.mention("i", x),
            "status": lambda: a.status(x), "break": lambda: a.br(), "date": lambda: a.date("0"),
            "card": lambda: a.inline_card("http://" + x), "empty": lambda: a.text(""),
            "media": lambda: {"type": "mediaInline", "attrs": {"id": "i", "collection": "c"}}}[kind]()


@case(CASES, quick=[[t, i] for t in ("paragraph", "heading", "task", "decision", "code") for i in INLINE], cost=2)
def inlines(ctx, p):
    """inline elements are rendered next to each other as they are alone"""
    top, i = p
    n = 1 + ctx.choose("n", 3)
    dom = "not:\n\x0b\x0c\r\x1c\x1d\x1e\x85\u2028\u2029"
    kids = [inline(ctx, i, ctx.chars("x", 1, dom))]
    for k in range(1, n):
        pool = INLINE if k == 1 or ctx.tier == "thorough" else [i, "text", "break"]
        kids.append(inline(ctx, pool[ctx.choose("k%d" % k, len(pool))], ctx.chars("y%d" % k, 1, dom)))
    if n > 1 and ctx.flag("reverse"):
        kids.reverse()
    want = "".join([api.parse_node(c).to_markdown() for c in kids])
    d = {"paragraph": lambda: a.para(*kids), "heading": lambda: a.heading(2, *kids), "task": lambda: a.tasks(a.task("DONE", *kids)),
         "decision": lambda: a.decisions(a.decision(*kids)), "code": lambda: {"type": "codeBlock", "content": kids}}[top]()
    md = api.parse_node(d).to_markdown()
    ctx.observe("md", md)
    if top == "paragraph":
        ctx.check(md == want + "\n", "a paragraph is its elements in a row")
    elif top == "heading":
        ctx.check(md.strip("\n") == ("## " + want).strip("\n"), "a heading is its elements in a row")
    elif top == "task":
        ctx.check(md.rstrip() == ("- [x] " + want).rstrip(), "a task is its elements in a row")
    elif top == "code":
        ctx.check(("\n" + want + "\n") in md, "code is its elements in a row")
    else:
        got = solid([x[2:] for x in md.split("\n")], True)
        compare(ctx, got, solid(want.split("\n"), True))


@case(CASES, quick=["bullet", "ordered", "task", "decision", "rows", "cells", "headers"], cost=4)
def parts(ctx, kind):
    """items, rows and cells are rendered as in a list or table of their own"""
    n = 2 + ctx.choose("n", 2)
    ts = [ctx.chars("t%d" % i, 1, "not:<&\x0b\x0c\r\x1c\x1d\x1e\x85\u2028\u2029") for i in range(n)]
    shape = ctx.choose("shape", 4)

    def body(i):
        if i == 0 and shape == 1:
            return []
        if i == 0 and shape == 2:
            return [a.pt(ts[0]), a.code("k\n\n" + ts[0])]
        if i == n - 1 and shape == 3:
            return [a.panel("tip", a.pt(ts[i]))]
        return [a.pt(ts[i])]

    def text_body(i):
        return [] if i == 0 and shape == 1 else [a.text(ts[i]), a.br(), a.text("k")] if shape == 2 else [a.text(ts[i])]
    if kind in ("bullet", "ordered"):
        items = [a.item(*body(i)) for i in range(n)]
        whole = (a.bullets if kind == "bullet" else a.ordered)(*items)
        ones = [a.bullets(it) if kind == "bullet" else a.ordered(it, order=1 + i) for i, it in enumerate(items)]
        sep = "\n"
    elif kind in ("task", "decision"):
        items = [(a.decision(*text_body(i)) if kind == "decision" else a.task(["DONE", "TODO"][i % 2], *text_body(i))) for i in range(n)]
        mk = a.tasks if kind == "task" else a.decisions
        whole, ones = mk(*items), [mk(it) for it in items]
        sep = "\n" if kind == "task" else "\n\n"
    elif kind == "rows":
        items = [a.row(a.cell(*body(i)), a.cell(a.pt("w"))) for i in range(n)]
        whole, ones, sep = a.table(*items), [a.table(it) for it in items], "\n"
    else:
        mk = a.cell if kind == "cells" else a.hcell
        items = [mk(*body(i)) for i in range(n)]
        md = api.parse_node(a.row(*items)).to_markdown()
        ctx.observe("md", md)
        want = "| " + " | ".join([api.parse_node(c).to_markdown() for c in items]) + " |"
        ctx.check(md == want, "a row is its cells")
        return
    md = api.parse_node(whole).to_markdown()
    ctx.observe("md", md)
    want = sep.join([api.parse_node(o).to_markdown() for o in ones])
    ctx.check(md == want, "the parts in a row")


@case(CASES, quick=[12, 40], thorough=[12, 40, 150])
def many(ctx, n):
    """long documents"""
    k = ctx.choose("step", 5)
    blocks = [some(ctx, BLOCKS[(i * (2 * k + 1)) % len(BLOCKS)], ctx.word("x%d" % i) if i % 5 == 0 else "w%d" % i) for i in range(n)]
    ls = lines_in(TOPS[ctx.choose("top", len(TOPS))], blocks)
    ctx.observe("ls", ls)
    compare(ctx, solid(ls), [z for q in blocks for z in alone(q)])


@case(CASES, quick=BLOCKS, cost=3)
def spelled(ctx, b):
    """blocks of words of any letters and any length up to 16, next to others and to equal ones"""
    n = ctx.choose("n", 16)
    w = ctx.word("w", 1 + n)
    x = some(ctx, b, w)
    o = some(ctx, ["para", "bullet", "card", "code2"][ctx.choose("other", 4)], ["y", w][ctx.choose("equal", 2)])
    k = ctx.choose("order", 3)
    top = TOPS[(n + k + BLOCKS.index(b)) % 5]
    blocks = [[x, o], [o, x], [x, x]][k]
    ls = lines_in(top, blocks)
    ctx.observe("ls", ls)
    compare(ctx, solid(ls), [z for q in blocks for z in alone(q)])
