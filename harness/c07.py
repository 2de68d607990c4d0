"""C07: no text is lost, repeated or reordered in Markdown."""
from atlas_doc_parser import api
from .reg import case
from . import adf as a
from . import spec as s
from . import trees

CASES = {}
BOUNDS = ("every nesting of paragraph, heading, code block, task, decision, bullet and ordered item, panel, quote, expand, "
          "nested expand, table cell and header cell to depth 3 (two children per level at depth 2; chains of 8 levels); text "
          "elements of 0..7 unconstrained characters (white space inside, before and after; equal texts included); 0..2 marks "
          "of every type, 3 of the formatting ones; 1..3 text elements per block next to every other inline kind; 12, 40 and 120 "
          "siblings in every container; texts of 12..300 characters; one or "
          "two words of 1..16 unconstrained characters with and without marks, alone and among others")

T0 = 0xE000
FMT = ["strong", "em", "strike", "code", "link", "underline", "subsup"]


class Texts:
    """text elements marked by sentinel characters of their own: ``x C y`` or ``x C m C' y``"""

    def __init__(self, ctx, dom="not:|\t\n\x0b\x0c\r\x1c\x1d\x1e\x1f \x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005"
                 "\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000"):
        self.ctx, self.dom, self.pieces, self.next = ctx, dom, [], 0

    def new(self, before=1, after=1, inner=None):
        """a text; ``before``/``after``: number of characters around the sentinel, ``inner``: (n, domain)"""
        i = self.next
        self.next += 1
        x = self.ctx.chars("x%d" % i, before, self.dom) if before else ""
        y = self.ctx.chars("y%d" % i, after, self.dom) if after else ""
        c = chr(T0 + len(self.pieces))
        if inner is None:
            self.pieces.append((x, c, y, True))
            return x + c + y
        m = self.ctx.chars("m%d" % i, inner[0], inner[1])
        self.pieces.append((x, c, m, False))
        d = chr(T0 + len(self.pieces))
        self.pieces.append((m, d, y, True))
        return x + c + m + d + y

    def check(self, md):
        """each sentinel once, in order, with its own characters on both sides"""
        ctx = self.ctx
        last = -1
        for x, c, y, end in self.pieces:
            ctx.check(md.count(c) == 1, "every text once")
            p = md.find(c)
            ctx.check(p > last, "in document order")
            if p <= last:
                return
            ctx.check(ctx.all([ctx.eq(md[max(0, p - len(x)):p], x), ctx.eq(md[p + 1:p + 1 + len(y)], y)]), "unchanged")
            if not end:
                ctx.check(md[p + 1 + len(y):p + 2 + len(y)] == chr(ord(c) + 1), "in one piece")
            last = p


def render(ctx, *blocks):
    md = api.parse_node(a.doc(*blocks)).to_markdown()
    ctx.observe("md", md)
    return md


@case(CASES, quick=trees.WRAPS, cost=4)
def nested(ctx, top):
    """three levels of wrapping"""
    t = Texts(ctx)
    b = trees.grow(ctx, "k", 3, lambda kind: [a.text(t.new())], 1, top)
    t.check(render(ctx, b, a.pt(t.new())))


@case(CASES, quick=trees.WRAPS, cost=3)
def siblings(ctx, top):
    """two children of every kind"""
    t = Texts(ctx)
    first = a.pt(t.new())
    b = trees.grow(ctx, "k", 1, lambda kind: [a.text(t.new())], 2, top)
    t.check(render(ctx, first, b, a.pt(t.new())))


def tree2(ctx, name, t, top):
    kids = []
    for i in range(2):
        kind = trees.KINDS[ctx.choose(name + str(i), len(trees.KINDS))]
        if kind in trees.LEAVES:
            kids.append(trees.block(kind, [a.text(t.new(1, 0))]))
        else:
            kids.append(trees.block(kind, [a.pt(t.new(1, 0)), a.pt(t.new(0, 1))]))
    return trees.block(top, kids)


@case(CASES, quick=trees.WRAPS, cost=4)
def siblings2(ctx, top):
    """two children of every kind, each holding two paragraphs"""
    t = Texts(ctx)
    t.check(render(ctx, tree2(ctx, "k", t, top)))


@case(CASES, quick=[8], thorough=[8, 16], cost=2)
def deep(ctx, n):
    """chains of alternating wrappers"""
    t = Texts(ctx)
    w = [ctx.pick("w0", trees.WRAPS), ctx.pick("w1", trees.WRAPS)]
    inner = a.pt(t.new())
    for i in range(n):
        inner = trees.block(w[i % 2], [inner])
    t.check(render(ctx, inner))


def leaf(kind, *inline):
    if kind == "item":
        return a.ordered(a.item(a.para(*inline)))
    if kind == "cell":
        return a.table(a.row(a.hcell(a.para(*inline)), a.hcell(a.pt("w"))))
    if kind == "quote":
        return a.quote(a.para(*inline))
    return trees.block(kind, list(inline))


LEAFS = trees.LEAVES + ["item", "cell", "quote"]


def mk(typ, full):
    d = s.mark(typ)
    if typ == "link" and full:
        d["attrs"] = {"href": "http://h", "title": "", "id": "i"}
    return d


@case(CASES, quick=LEAFS, cost=3)
def marks(ctx, kind):
    """0..2 marks of every type; formatting ones also in threes"""
    t = Texts(ctx)
    names = list(s.MARKS)
    n = ctx.choose("n", 4)
    if n < 3:
        ms = [mk(names[ctx.choose("m%d" % i, len(names))], i) for i in range(n)]
    else:
        ms = [mk(FMT[ctx.choose("f%d" % i, len(FMT))], i) for i in range(3)]
    t.check(render(ctx, leaf(kind, a.text(t.new(), *ms))))


S = chr(T0 + 99)


@case(CASES, quick=LEAFS, cost=3)
def any_words(ctx, kind):
    """a text of one word or two, of any letters and any length up to 16, stands where a sentinel would stand"""
    n = 1 + ctx.choose("n", 16)
    x = ctx.word("x", n)
    if ctx.flag("two"):
        x = x + " " + ctx.word("y", 1 + (n * 7) % 5)
    ms = [[], [a.EM], [a.STRONG], [a.link("http://h")], [s.mark("underline")], [a.EM, a.link("h")], [s.mark("strike")]][ctx.choose("marks", 7)]
    if kind == "code":
        ms = []
    k = ctx.choose("place", 3)

    def doc(w):
        d = leaf(kind, *([a.text(w, *ms)] if k == 0 else [a.text("head "), a.text(w, *ms), a.br(), a.text("tail")]))
        return [d] if k < 2 else [a.pt("first"), a.panel("info", a.quote(d) if kind != "quote" else d), a.pt("last")]
    md = render(ctx, *doc(x))
    ref = api.parse_node(a.doc(*doc(S))).to_markdown()
    ctx.check(ref.count(S) == 1, "shown once")
    ctx.check(md == ref.replace(S, x), "the text in its place")


@case(CASES, quick=LEAFS, cost=3)
def words_kept_apart(ctx, kind):
    """white space between words stays as it is, and none appears inside a word"""
    t = Texts(ctx)
    n = ctx.choose("marks", 4)
    ms = [[], [a.STRONG], [a.CODE, a.EM], [a.link("u")]][n]
    k = 1 + ctx.choose("len", 2)
    t.check(render(ctx, leaf(kind, a.text(t.new(0, 0, (k, "not:|\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029")), *ms))))


# characters that no markup of the library holds
PLAIN = "plain"


def project(ctx, md):
    """the characters of the output that are neither white space nor markup"""
    return "".join([c for c in md if not ctx.isin(c, "space") and not ctx.isin(c, "markup")])


@case(CASES, quick=LEAFS, thorough=LEAFS, cost=3)
def several_texts(ctx, kind):
    """texts of 0..2 characters next to each other, white space and equal texts included"""
    x = ctx.text("x", 0, 2, PLAIN)
    y = ctx.text("y", 0, 1, PLAIN)
    ms = [[], [a.STRONG], [a.CODE]][ctx.choose("marks", 3)]
    if kind == "heading" or "code" in [m["type"] for m in ms]:
        for c in x + y:
            ctx.assume(c != "\n")
    d = [a.text(x), a.text(y, *ms), a.text(x, a.EM)]
    md = render(ctx, leaf(kind, *d), leaf(kind, *d[::2]))
    ctx.check(project(ctx, md) == project(ctx, x + y + x + x + x), "each text once, in order")


@case(CASES, quick=trees.WRAPS + ["doc"], cost=2)
def equal_texts(ctx, top):
    """the same text may occur several times; every occurrence is rendered"""
    x, y, z = [ctx.chars(n, 2, "plainword") for n in "xyz"]
    leafs = ["para", "heading", "bullet", "task", "code", "decision"]
    kids = []
    for i, w in enumerate([x, y, z]):
        k = leafs[ctx.choose("k%d" % i, len(leafs))]
        kids.append(trees.block(k, [a.pt(w)] if k == "bullet" else [a.text(w)]))
    if top == "doc":
        md = render(ctx, *kids)
    else:
        md = render(ctx, trees.block(top, kids))
    ctx.check(project(ctx, md) == x + y + z, "each text once, in order")


@case(CASES, quick=trees.WRAPS + ["doc"], cost=3)
def equal_subtrees(ctx, top):
    """subtrees with equal texts (or not): none is taken for a repetition of another"""
    n = [0]

    def w():
        n[0] += 1
        return [ctx.chars("w%d" % n[0], 1, "plainword")]

    def child(kind, ws):
        if kind in trees.LEAVES:
            return trees.block(kind, [a.text(x) for x in ws])
        return trees.block(kind, [a.pt(x) for x in ws])
    kinds = [trees.KINDS[ctx.choose("k%d" % i, len(trees.KINDS))] for i in range(2)]
    order = []
    kids = []
    for i in range(2):
        ws = w() + w()
        order += ws
        kids.append(child(kinds[i], ws))
        if ctx.flag("para%d" % i):
            ws = w()
            order += ws
            kids.append(a.pt(ws[0]))
    if top == "bullet":
        md = render(ctx, a.bullets(*[a.item(x) for x in kids]))
    elif top == "ordered":
        md = render(ctx, a.ordered(*[a.item(x) for x in kids]))
    elif top == "cell":
        md = render(ctx, a.table(*[a.row(a.hcell(), a.cell(x)) for x in kids]))
    elif top == "header":
        md = render(ctx, a.table(a.row(*[a.hcell(x) for x in kids])))
    elif top == "doc":
        md = render(ctx, *kids)
    else:
        md = render(ctx, trees.block(top, kids))
    ctx.check(project(ctx, md) == "".join(order), "each text once, in order")


@case(CASES, quick=["panel", "code", "expand", "nestedExpand", "heading", "task", "link", "link2", "mention", "status", "emoji", "ids"])
def like_attributes(ctx, how):
    """texts that may equal an attribute value of an element around or next to them"""
    w = lambda n, k: ctx.chars(n, k, "ascii")
    x = ctx.word("x")
    if how == "panel":
        k = ctx.pick("type", ["info", "note", "tip", "warning", "error", "success", "custom"])
        t = w("t", len(k))
        kids = [[a.pt(t), a.pt(x)], [a.pt(x), a.heading(2, a.text(t))], [a.pt(t)]][ctx.choose("k", 3)]
        d, title = a.panel(k, *kids), k.upper()
        want = [t for q in kids for t in [q["content"][0]["text"]]]
        md = render(ctx, d)
        ls = md.split("\n")
        ctx.check(title in ls[0], "the title")
        md = "\n".join(ls[1:])
    else:
        t, v = w("t", 2), w("v", 2)
        for c in (t, v):
            ctx.assume(c.strip() == c and "`" not in c)
        inl = {"link": lambda: [a.text(t, a.link(v)), a.text(x)], "link2": lambda: [a.text(x), a.text(v, a.link(t, ""))],
               "mention": lambda: [a.mention(v, "@m"), a.text(t)], "status": lambda: [a.status(v), a.text(t)],
               "emoji": lambda: [a.emoji(v, "e"), a.text(t)]}.get(how)
        d = inl and a.para(*inl()) or {
            "code": lambda: a.code(t, v), "expand": lambda: a.expand(a.pt(t), a.pt(x), title=v),
            "nestedExpand": lambda: {"type": "nestedExpand", "attrs": {"title": v}, "content": [a.pt(t), a.pt(x)]},
            "heading": lambda: dict(a.heading(2, a.text(t)), attrs={"level": 2, "localId": v}),
            "task": lambda: a.tasks(dict(a.task("DONE", a.text(t)), attrs={"localId": v, "state": "DONE"})),
            "ids": lambda: a.doc(a.bullets(a.item(dict(a.pt(t), attrs={"localId": v}), dict(a.pt(x), attrs={"localId": t}))))["content"][0]}[how]()
        want = []
        texts_of(d, want)
        md = render(ctx, d)
    i = 0
    for t in want:
        j = md.find(t, i)
        ctx.check(j >= 0, "every text, in order")
        if j < 0:
            return
        i = j + len(t)


@case(CASES, quick=["bullet", "ordered", "mixed", "task", "decision"], cost=2)
def equal_items(ctx, kind):
    """list items whose texts, further paragraphs and nested lists may be equal"""
    ws = [ctx.chars("w%d" % i, 1, "plainword") for i in range(6)]
    lists = {"bullet": [a.bullets] * 2, "ordered": [a.ordered] * 2, "mixed": [a.bullets, a.ordered]}.get(kind)
    if kind == "task":
        md = render(ctx, a.tasks(a.task("DONE", a.text(ws[0])), a.tasks(a.task("TODO", a.text(ws[1]), a.br(),
            a.text(ws[2]))), a.task("DONE", a.text(ws[3])), a.tasks(a.task("TODO", a.text(ws[4]), a.br(), a.text(ws[5])))))
    elif kind == "decision":
        md = render(ctx, a.decisions(*[a.decision(*[y for x in ws[i:i + 3] for y in (a.text(x), a.br())])
                                       for i in (0, 3)]))
    else:
        def it(x, y, z):
            return a.item(a.pt(x), *[lambda: [lists[1](a.item(a.pt(y)), a.item(a.pt(z)))],
                                     lambda: [a.pt(y), a.pt(z)], lambda: [a.para(a.text(y), a.br(), a.text(z))],
                                     lambda: [a.code(y + "\n" + z)],
                                     lambda: [lists[1](a.item(a.pt(y), lists[0](a.item(a.pt(z)))))]][shape]())
        shape = ctx.choose("shape", 5)
        md = render(ctx, lists[0](it(*ws[:3]), it(*ws[3:])))
    ctx.check(project(ctx, md) == "".join(ws), "each text once, in order")


INLINE = ["emoji", "mention", "status", "break", "date", "card", "tasktext"]


def inline(kind):
    return {"emoji": a.emoji(":s:"), "mention": a.mention("i", "@m"), "status": a.status("st"), "break": a.br(),
            "date": a.date("0"), "card": a.inline_card("http://u"), "tasktext": a.text("t")}[kind]


@case(CASES, quick=LEAFS)
def between_inlines(ctx, kind):
    """texts before, between and after every other inline kind"""
    t = Texts(ctx)
    i, j = ctx.pick("i", INLINE), ctx.pick("j", INLINE)
    t.check(render(ctx, leaf(kind, a.text(t.new()), inline(i), a.text(t.new()), inline(j), a.text(t.new()))))


@case(CASES, quick=[12, 40, 120], thorough=[12, 40, 120, 300])
def wide(ctx, n):
    """many siblings in every container"""
    t = Texts(ctx)
    kind = ctx.pick("kind", ["doc", "bullet", "ordered", "task", "decision", "rows", "cells", "paras", "texts", "panel",
                             "quote", "expand", "item", "oitem", "cell", "hcell", "tables", "lists"])

    def p():
        i = t.next
        return a.text(t.new(1 if i % 4 == 0 else 0, 0))
    paras = [a.para(p()) for i in range(n)]
    d = {"doc": lambda: paras, "bullet": lambda: [a.bullets(*[a.item(x) for x in paras])],
         "ordered": lambda: [a.ordered(*[a.item(x) for x in paras])],
         "task": lambda: [a.tasks(*[a.task("TODO", *x["content"]) for x in paras])],
         "decision": lambda: [a.decisions(*[a.decision(*x["content"]) for x in paras])],
         "rows": lambda: [a.table(*[a.row(a.hcell(x)) for x in paras])],
         "cells": lambda: [a.table(a.row(*[a.cell(x) for x in paras]))],
         "paras": lambda: [a.nested_expand(*paras)],
         "texts": lambda: [a.para(*[x["content"][0] for x in paras])],
         "panel": lambda: [a.panel("info", *paras)], "quote": lambda: [a.quote(*paras)],
         "expand": lambda: [a.expand(*paras)], "item": lambda: [a.bullets(a.item(*paras))],
         "cell": lambda: [a.table(a.row(a.cell(*paras)))], "hcell": lambda: [a.table(a.row(a.hcell(*paras)))],
         "oitem": lambda: [a.ordered(a.item(*paras), a.item())],
         "tables": lambda: [a.table(a.row(a.hcell(x))) for x in paras],
         "lists": lambda: [a.bullets(a.item(x)) for x in paras]}[kind]()
    t.check(render(ctx, *d))


@case(CASES, quick=[3])
def mixed_lists(ctx, n):
    """lists of different kinds nested in each other, every item with a text before and after the nested list"""
    t = Texts(ctx)

    def build(level, name):
        kind = ctx.choose(name, 4)
        first = a.pt(t.new())
        inner = [build(level - 1, name + "i")] if level > 1 else []
        if kind == 2:
            if inner and inner[0]["type"] != "taskList":
                inner = []                     # only task lists may be nested in task lists
                ctx.assume(False)
            return a.tasks(a.task("DONE", *first["content"]), *(inner + [a.task("TODO", a.text(t.new()))]))
        if kind == 3:
            return (a.bullets if level % 2 else a.ordered)(a.item(*inner) if inner else a.item(first))
        return (a.bullets if kind == 0 else a.ordered)(
            a.item(first, *(inner + [a.pt(t.new())])), a.item(a.pt(t.new())))
    b = build(n, "k")
    md = render(ctx, b)
    order = []
    texts_of(b, order)
    t.pieces = [[q for q in t.pieces if q[1] in tx][0] for tx in order]
    t.check(md)


def texts_of(d, out):
    if d.get("type") == "text":
        out.append(d["text"])
    for x in d.get("content", ()):
        texts_of(x, out)


@case(CASES, quick=[12, 80, 300], thorough=[12, 33, 65, 80, 101, 130, 257, 300, 600, 1200], cost=2)
def long_texts(ctx, n):
    """long texts with and without marks in every block kind"""
    t = Texts(ctx)
    kind = ctx.pick("kind", LEAFS)
    ms = [[], [a.STRONG], [a.CODE, a.EM], [a.link("u")], [s.mark("indentation")], [s.mark("subsup")]][ctx.choose("marks", 6)]
    body = "the quick brown fox jumps over it "
    body = (body * (n // len(body) + 1))[:n]
    x, y = t.new(), t.new()
    # one text: both pieces around the filler
    d = leaf(kind, a.text(x + body + y, *ms))
    md = render(ctx, d, a.pt(t.new()))
    t.check(md)
    i = md.find(t.pieces[0][1])
    j = md.find(t.pieces[1][1])
    ctx.check(md[i + 2:j - 1] == body, "what is between as well")
