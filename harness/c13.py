"""C13: at most one blank line in a row, and only newlines are removed."""
from atlas_doc_parser import api
from .reg import case
from . import adf as a
from . import trees

CASES = {}
BOUNDS = ("documents, expands, nested expands, panels and quotes of 1..3 blocks of every kind; block texts of up to 9 characters "
          "out of letter, space and line break in every arrangement, of 2 unconstrained characters, and with runs of up to 60 "
          "line breaks, empty paragraphs, headings or rules; up to 12 runs in one text; 40 blocks concretely; containers nested to depth 3; "
          "words of 1..16 unconstrained characters around the runs")
TEXT = "not:\x0b\x0c\r\x1c\x1d\x1e\x85\u2028\u2029"
TOPS = ["doc", "expand", "nestedExpand", "panel", "quote"]


def content_of(top, blocks):
    """the Markdown of a container, prefixes and panel title taken off, as the lines it contributes"""
    if top == "doc":
        return api.parse_node(a.doc(*blocks)).to_markdown()
    if top == "expand":
        return api.parse_node(a.expand(*blocks)).to_markdown()
    if top == "nestedExpand":
        return api.parse_node(a.nested_expand(*blocks)).to_markdown()
    node = a.panel("note", *blocks) if top == "panel" else a.quote(*blocks)
    lines = api.parse_node(node).to_markdown().split("\n")
    while lines and lines[-1] == "":
        lines.pop()
    return "\n".join([x[2:] if x[:2] == "> " else x[1:] for x in lines])


def collapse(s):
    """runs of three or more line breaks become two"""
    out, run = [], 0
    for c in s:
        if c == "\n":
            run += 1
            if run > 2:
                continue
        else:
            run = 0
        out.append(c)
    return "".join(out)


def trim(s):
    i, j = 0, len(s)
    while i < j and s[i] == "\n":
        i += 1
    while j > i and s[j - 1] == "\n":
        j -= 1
    return s[i:j]


def judge(ctx, top, blocks):
    md = content_of(top, blocks)
    ctx.observe("md", md)
    n = len(md)
    run = 0
    for c in md:
        run = run + 1 if c == "\n" else 0
        ctx.check(run < 3, "no two empty lines in a row")
        if run >= 3:
            return
    parts = ["**NOTE**"] if top == "panel" else []
    for b in blocks:
        parts.append(api.parse_node(b).to_markdown())
    i = 0
    for p in parts:
        c = trim(collapse(p))
        if not c:
            continue
        while i < n and md[i] == "\n":
            i += 1
        ctx.check(i + len(c) <= n and md[i:i + len(c)] == c, "only line breaks are removed")
        i += len(c)
    ctx.check(trim(md[i:]) == "", "nothing is added")


@case(CASES, quick=[[t, 7] for t in TOPS], thorough=[[t, 9] for t in TOPS], cost=3)
def code_text(ctx, p):
    """one text of line breaks, spaces and letters"""
    top, n = p
    t = ctx.text("t", n - 2, n, "wsmix")
    judge(ctx, top, [a.code(t) if ctx.flag("code") else a.pt(t)])


@case(CASES, quick=[[t, 3] for t in TOPS], thorough=[[t, 4] for t in TOPS], cost=3)
def two_texts(ctx, p):
    """two paragraphs of any arrangement"""
    top, n = p
    judge(ctx, top, [a.pt(ctx.text("x", n, n, "wsmix")), a.pt(ctx.text("y", n, n, "wsmix"))])


@case(CASES, quick=TOPS, cost=2)
def any_text(ctx, top):
    """unconstrained characters around a line break"""
    judge(ctx, top, [a.pt(ctx.chars("x", 2, TEXT) + "\n" + ctx.chars("y", 1, TEXT)), a.pt("w")])


BLOCKS = trees.KINDS + ["rule", "card", "embed", "media", "extension", "empty", "blank", "group"]


def some(ctx, kind, x):
    if kind in trees.LEAVES:
        return trees.block(kind, [a.text(x)])
    if kind in trees.WRAPS:
        return trees.block(kind, [a.pt(x), a.pt("z")])
    return {"rule": lambda: a.rule(), "card": lambda: a.block_card("http://" + x), "embed": lambda: a.embed_card("u" + x),
            "media": lambda: a.media_single(a.media("external", url="http://m", alt=x)),
            "extension": lambda: a.extension(text=x), "empty": lambda: a.para(), "blank": lambda: a.pt("\n"),
            "group": lambda: {"type": "mediaGroup", "content": []}}[kind]()


@case(CASES, quick=[[t, b] for t in TOPS for b in BLOCKS], cost=2)
def pairs(ctx, p):
    """two blocks of every kind, the text of the first with line breaks at its ends"""
    top, k = p
    x = ["", "\n"][ctx.choose("lead", 2)] + ctx.word("x") + ["", "\n\n"][ctx.choose("trail", 2)]
    judge(ctx, top, [some(ctx, k, x), some(ctx, BLOCKS[ctx.choose("second", len(BLOCKS))], ctx.word("y"))])


@case(CASES, quick=[12, 60], thorough=[12, 60, 200])
def long_runs(ctx, n):
    """runs of 1..n line breaks, however they come about"""
    how = ctx.choose("how", 6)
    k = 1 + ctx.choose("k", n) if n < 20 else n - ctx.choose("k", 4)
    x, y = ctx.word("x"), ctx.word("y")
    mid = {0: [a.pt(x + "\n" * k + y)], 1: [a.pt(x)] + [a.para()] * k + [a.pt(y)], 2: [a.code(x + "\n" * k + y)],
           3: [a.pt(x)] + [a.heading(1)] * (k // 4) + [a.pt(y)], 4: [a.pt(x)] + [a.rule()] * (k // 4) + [a.pt(y)],
           5: [a.pt(x + "\n" * k), a.pt("\n" * (k // 2) + y)]}[how]
    judge(ctx, ["doc", "expand", "panel", "quote"][ctx.choose("top", 4)], mid)


@case(CASES, quick=["para", "code"], cost=2)
def several_runs(ctx, how):
    """1..12 runs of 2..5 line breaks in one text, lines of letters or white space between them"""
    n = [1, 2, 3, 4, 5, 6, 8, 12][ctx.choose("n", 8)]
    r = 2 + ctx.choose("r", 4)
    t = ctx.chars("a", 1, "wsmix") + "\n" + ctx.chars("b", 1, "wsmix") + "\n" * r + ctx.chars("c", 1, "wsmix")
    t += "".join(["\n" * (r + i % 2) + ["x", " ", "\t"][i % 3] for i in range(n)])
    judge(ctx, TOPS[ctx.choose("top", len(TOPS))], [a.code(t + "w") if how == "code" else a.pt(t + "w")])


@case(CASES, quick=TOPS, cost=2)
def nested(ctx, top):
    """containers in each other, line breaks at every level"""
    x = a.pt(ctx.word("x") + "\n" * (1 + ctx.choose("n", 3)) + ctx.word("y"))
    for i in range(2):
        k = ctx.choose("k%d" % i, 6)
        s = "\n\n" * ctx.choose("s%d" % i, 2)
        x = [lambda: a.expand(a.pt("e" + s), x), lambda: a.panel("note", x, a.pt(s + "p")), lambda: a.quote(a.pt(s), x),
             lambda: a.nested_expand(x, a.pt(s)), lambda: a.bullets(a.item(x), a.item(a.pt("i" + s))),
             lambda: a.table(a.row(a.cell(x, a.pt("c" + s))))][k]()
    judge(ctx, top, [x, a.pt("end")])


@case(CASES, quick=TOPS)
def many(ctx, top):
    """40 blocks of all kinds"""
    kids = []
    for i in range(40):
        kids.append(some(ctx, BLOCKS[(i * 7) % len(BLOCKS)], (ctx.word("x%d" % i) if i % 4 == 0 else "w") + "\n" * (i % 5)))
    judge(ctx, top, kids)


@case(CASES, quick=TOPS, cost=2)
def spelled(ctx, top):
    """runs of line breaks next to words of any letters and any length up to 16"""
    w = ctx.word("w", 1 + ctx.choose("n", 16))
    r = "\n" * (2 + ctx.choose("r", 3))
    blocks = [[a.pt(w + r + "x")], [a.pt("x" + r + w), a.pt(w)], [a.pt("x"), a.code(w + r + w)], [a.heading(1, a.text(w)), a.rule(), a.pt(w)]]
    judge(ctx, top, blocks[ctx.choose("shape", 4)])
