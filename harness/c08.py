"""C08: ignore_error skips exactly what fails; without it errors surface."""
from atlas_doc_parser import api
from .reg import case
from . import adf as a
from . import spec as s
from . import trees

CASES = {}
BOUNDS = ("every nesting of the block kinds to depth 3 (6 levels in chains); elements that cannot be rendered: inline and block "
          "cards without URL, dates without a number, media of no known kind, code on text with a line break (the line break at "
          "any place of a text of 0..2 unconstrained characters); one or two of them at every place among the inline elements "
          "or blocks, alone or between others; 12 of them concretely; next to words of 1..16 unconstrained characters; the same documents without them")

BAD_INLINE = ["card", "card data", "date", "code", "media"]
BAD_BLOCK = ["blockCard", "single", "blockCard data", "group date"]


def bad_inline(kind):
    return {"card": lambda: a.inline_card(), "card data": lambda: a.inline_card(data={"url": "http://x"}),
            "date": lambda: a.date("soon"), "code": lambda: a.text("p\nq", a.CODE),
            "media": lambda: a.media("external", alt="z")}[kind]()


def bad_block(kind):
    """(block, the part of it that cannot be rendered)"""
    if kind == "blockCard":
        x = a.block_card()
        return x, x
    if kind == "blockCard data":
        x = {"type": "blockCard", "attrs": {"data": {"k": 1}, "layout": "wide"}}
        return x, x
    if kind == "single":
        x = a.media("nope", id="i")
        return a.media_single(x), x
    x = a.date("")
    return a.para(x), x


def prune(d, bad):
    """the document without the elements listed in ``bad`` (by identity)"""
    if "content" not in d:
        return d
    out = dict(d)
    out["content"] = [prune(x, bad) for x in d["content"] if not any([x is b for b in bad])]
    return out


def judge(ctx, d, bad, fails=None):
    el = api.parse_node(d)
    good = api.parse_node(prune(d, bad))
    want = good.to_markdown()
    got = ctx.run(el.to_markdown, ignore_error=True)
    ctx.observe("got", got)
    ctx.check(got.ok, "ignore_error never raises")
    if not got.ok:
        return
    ctx.check(got.value == want, "only what fails is left out")
    plain = ctx.run(el.to_markdown)
    ctx.check(plain.ok == (not bad), "without the flag the error surfaces")
    ctx.check(good.to_markdown(ignore_error=True) == want, "the flag changes nothing where nothing fails")
    again = ctx.run(el.to_markdown, ignore_error=True)
    ctx.check(again.ok and again.value == want, "the same after an error")


def mixed_leaf(ctx, bads, name, kinds=("card", "code"), places=4):
    """inline nodes with one element that fails, at any place"""
    b = bad_inline(kinds[ctx.choose(name + "b", len(kinds))])
    bads.append(b)
    x, y = a.text(ctx.word(name + "x")), a.text("w", a.EM)
    return [[x, b, y], [b], [b, x], [x, b]][ctx.choose(name + "p", places)]


@case(CASES, quick=trees.WRAPS, cost=4)
def nested(ctx, top):
    """one failing inline element under three levels of wrapping"""
    bads = []
    b = trees.grow(ctx, "k", 2, lambda kind: mixed_leaf(ctx, bads, "l", BAD_INLINE), 1, top)
    judge(ctx, a.doc(a.pt("before"), b, a.pt("after")), bads)


@case(CASES, quick=[[t, 2] for t in trees.WRAPS], thorough=[[t, 4] for t in trees.WRAPS], cost=3)
def nested3(ctx, p):
    top, places = p
    bads = []
    b = trees.grow(ctx, "k", 3, lambda kind: mixed_leaf(ctx, bads, "l", ["card"], places), 1, top)
    judge(ctx, a.doc(b), bads)


@case(CASES, quick=trees.WRAPS + ["doc"], cost=3)
def block_level(ctx, top):
    """a failing card or media among the blocks of every container, inside one more wrapper"""
    kind = BAD_BLOCK[ctx.choose("bad", len(BAD_BLOCK))]
    blk, b = bad_block(kind)
    inner = ctx.pick("inner", ["none"] + trees.WRAPS)
    x = a.pt(ctx.word("x"))
    n = ctx.choose("place", 4)
    other = trees.block(trees.KINDS[ctx.choose("sib", len(trees.KINDS))], [a.text("w")]) if inner == "none" else x
    if other["type"] in ("bulletList", "orderedList", "panel", "blockquote", "expand", "nestedExpand"):
        other = a.bullets(a.item(a.pt("w")))
    kids = [[blk], [blk, other], [other, blk], [x, blk, other]][n]
    if inner != "none":
        kids = [trees.block(inner, kids)]
    d = a.doc(*kids) if top == "doc" else a.doc(trees.block(top, kids))
    judge(ctx, d, [b])


LEAFS = trees.LEAVES + ["bullet", "cell", "quote"]


def leaf(kind, inl):
    return trees.block(kind, inl if kind in trees.LEAVES else [a.para(*inl)])


@case(CASES, quick=LEAFS, cost=3)
def two_failures(ctx, kind):
    """two failing elements in one block or in two neighbouring blocks"""
    bads = [bad_inline(BAD_INLINE[ctx.choose("a", len(BAD_INLINE))]),
            bad_inline(BAD_INLINE[ctx.choose("b", len(BAD_INLINE))])]
    x, y = a.text(ctx.word("x")), a.text(ctx.word("y"))
    n = ctx.choose("shape", 5)
    if n < 3:
        inl = [[bads[0], bads[1]], [bads[0], x, bads[1]], [x, bads[0], bads[1], y]][n]
        d = a.doc(leaf(kind, inl))
    elif n == 3:
        d = a.doc(leaf(kind, [x, bads[0]]), leaf(kind, [bads[1], y]))
    else:
        d = a.doc(leaf(kind, [bads[0]]), a.pt("m"), leaf(kind, [bads[1]]))
    judge(ctx, d, bads)


@case(CASES, quick=LEAFS, cost=3)
def code_text(ctx, kind):
    """code on a text of any characters fails exactly when the text holds a line break"""
    t = ctx.text("t", 0, 2)
    m = [[a.CODE], [a.EM, a.CODE], [a.CODE, a.link("u")], [a.STRONG]][ctx.choose("marks", 4)]
    node = a.text(t, *m)
    bad = [node] if "\n" in t and m[0] is not a.STRONG else []
    judge(ctx, a.doc(leaf(kind, [a.text("w"), node, a.text("v")])), bad)


@case(CASES, quick=LEAFS, cost=2)
def card_url(ctx, kind):
    """a card with any URL never fails, one without always does"""
    n = ctx.choose("n", 4)
    url = ctx.text("u", 0, 2, "line")
    node = [a.inline_card(url), a.inline_card(), a.inline_card(data={}), a.inline_card(url, {"a": 1})][n]
    judge(ctx, a.doc(leaf(kind, [node, a.text("v")])), [node] if n in (1, 2) else [])


@case(CASES, quick=[6], thorough=[6, 12])
def deep(ctx, n):
    w = [ctx.pick("w0", trees.WRAPS), ctx.pick("w1", trees.WRAPS)]
    bads = []
    inner = a.para(*mixed_leaf(ctx, bads, "l"))
    for i in range(n):
        inner = trees.block(w[i % 2], [inner])
    judge(ctx, a.doc(inner), bads)


@case(CASES, quick=[12], thorough=[12, 40])
def many(ctx, n):
    """many failing elements between others"""
    kind = ctx.pick("kind", ["items", "tasks", "rows", "cells", "inline", "blocks", "decisions"])
    bads, inl = [], []
    for i in range(n):
        if i % 3:
            inl.append(a.text(ctx.word("x%d" % i)))
        else:
            b = bad_inline(BAD_INLINE[i // 3 % len(BAD_INLINE)])
            bads.append(b)
            inl.append(b)
    d = {"items": lambda: a.bullets(*[a.item(a.para(x)) for x in inl]),
         "tasks": lambda: a.tasks(*[a.task("DONE", x) for x in inl]),
         "rows": lambda: a.table(*[a.row(a.hcell(a.para(x))) for x in inl]),
         "cells": lambda: a.table(a.row(*[a.cell(a.para(x)) for x in inl])),
         "inline": lambda: a.para(*inl),
         "blocks": lambda: a.panel("info", *[a.para(x) for x in inl]),
         "decisions": lambda: a.decisions(*[a.decision(x) for x in inl])}[kind]()
    judge(ctx, a.doc(d, a.pt("end")), bads)


@case(CASES, quick=[None], cost=2)
def nothing_fails(ctx, _):
    """every implemented element in a document: the flag changes nothing"""
    names = list(s.NODES)
    t = names[ctx.choose("t", len(names))]
    d = s.node(t, optional=ctx.flag("full"), text=ctx.chars("x", 2))
    if t in ("inlineCard", "blockCard"):
        d["attrs"]["url"] = ctx.chars("u", 2)
    if s.NODES[t][4] is not None:
        d["content"] = [a.text(ctx.chars("y", 1))] if t not in (
            "table", "tableRow", "bulletList", "orderedList", "taskList", "decisionList") else []
    el = api.parse_node(d)
    r = ctx.run(el.to_markdown)
    q = ctx.run(el.to_markdown, ignore_error=True)
    ctx.observe("r", [r, q])
    ctx.check(r.kind == q.kind, "the flag changes nothing")
    if r.ok and q.ok:
        ctx.check(r.value == q.value, "the flag changes nothing")


@case(CASES, quick=LEAFS, cost=2)
def spelled(ctx, kind):
    """next to words of any letters and any length up to 16"""
    w = ctx.word("w", 1 + ctx.choose("n", 16))
    b = bad_inline(BAD_INLINE[ctx.choose("bad", len(BAD_INLINE))])
    x = a.text(w, *[[], [a.EM], [a.link("h")]][ctx.choose("mark", 3)])
    k = ctx.choose("place", 4)
    judge(ctx, a.doc(a.pt(w), leaf(kind, [[x, b, x], [b, x], [x, b, a.text("y")], [a.text("y"), x]][k])), [b] if k < 3 else [])


ROOTS = ["paragraph", "heading", "taskItem", "decisionItem", "taskList", "decisionList", "listItem", "bulletList", "orderedList", "tableRow",
         "tableCell", "tableHeader", "table", "panel", "blockquote", "expand", "nestedExpand", "doc", "mediaSingle"]
OF_INLINE = ["paragraph", "heading", "taskItem", "decisionItem"]


@case(CASES, quick=ROOTS, cost=2)
def by_itself(ctx, typ):
    """each kind of element rendered on its own: with the flag, with the flag off, and without a word about it"""
    b = a.media("external", alt="z") if typ == "mediaSingle" else bad_inline(BAD_INLINE[ctx.choose("bad", len(BAD_INLINE))])
    x = a.text(ctx.word("w"))
    inl = [[b], [x, b], [b, x]][ctx.choose("place", 3)]
    if typ == "mediaSingle":
        kids = [b]
    elif typ in OF_INLINE:
        kids = inl
    elif typ == "taskList":
        kids = [a.task("DONE", *inl)]
    elif typ == "decisionList":
        kids = [a.decision(*inl)]
    else:
        blk = a.para(*inl)
        k = ctx.choose("block", 1 + len(BAD_BLOCK))
        if k:
            blk, b = bad_block(BAD_BLOCK[k - 1])
        kids = [blk]
        if typ in ("bulletList", "orderedList"):
            kids = [a.item(*kids)]
        elif typ == "tableRow":
            kids = [a.cell(*kids), a.cell(a.pt("c"))]
        elif typ == "table":
            kids = [a.row(a.cell(*kids))]
    d = s.node(typ, content=kids)
    judge(ctx, d, [b])
    el = api.parse_node(d)
    ctx.check(not ctx.run(el.to_markdown, ignore_error=False).ok, "with the flag off the error surfaces")
