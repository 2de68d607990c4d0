"""C06: parsing, serializing and rendering are pure and independent of history."""
from atlas_doc_parser import api, settings
from .reg import case
from . import spec as s
from . import adf as a
from .util import same, copy_of, vandalise, ids_of

CASES = {}
BOUNDS = ("every implemented type alone and every container with every child type; texts and attribute values of 1..2 "
          "unconstrained characters (equal texts and equal ids across documents included), words of 1..16; later changes of every mutable "
          "object of the input or of a returned dictionary; histories of up to 5 calls (parse, serialize, render, failing "
          "parse, failing render) on the same and on other documents, compared with the same call in a fresh process state; every "
          "part of a document rendered on its own before and after the document")


def rich(ctx, typ, tag, symbolic=True):
    """a full element; strings become unconstrained when symbolic"""
    d = s.node(typ, optional=True, text=ctx.chars(tag + "text.", 2) if symbolic else "w")
    if symbolic and "attrs" in d:
        for k in list(d["attrs"]):
            v = d["attrs"][k]
            if isinstance(v, str) and k not in ("type", "timestamp", "state", "panelType"):
                d["attrs"][k] = ctx.chars(tag + k, 1)
    if s.NODES[typ][4] is not None:
        d["content"] = [s.node("text", text="ab"), s.node("mention", optional=True)]
    if s.NODES[typ][5]:
        d["marks"] = [s.mark("link", True), s.mark("dataConsumer"), s.mark("strong")]
    return d


def shape(ctx, d):
    """a document holding element d where its type allows"""
    t = d["type"]
    if t == "doc":
        return d
    if t == "listItem":
        return a.doc(a.bullets(d))
    if t in ("taskItem", "decisionItem"):
        return a.doc(a.tasks(d) if t == "taskItem" else a.decisions(d))
    if t in ("tableCell", "tableHeader"):
        return a.doc(a.table(a.row(d)))
    if t == "tableRow":
        d = dict(d, content=[a.cell(a.pt("x"))])
        return a.doc(a.table(d))
    if t == "table":
        return a.doc(dict(d, content=[a.row(a.hcell(a.pt("x")))]))
    if t in ("bulletList", "orderedList"):
        return a.doc(dict(d, content=[a.item(a.pt("x")), a.item(a.pt("y"))]))
    if t == "taskList":
        return a.doc(dict(d, content=[a.task("DONE", a.text("x"))]))
    if t == "decisionList":
        return a.doc(dict(d, content=[a.decision(a.text("x"))]))
    if t == "media":
        return a.doc(a.media_single(d))
    if s.NODES[t][4] is None and t not in ("blockCard", "embedCard", "extension", "rule"):
        return a.doc(a.para(d))
    return a.doc(d)


def results(ctx, el):
    before = el.to_dict()
    m = ctx.run(el.to_markdown)
    i = ctx.run(el.to_markdown, ignore_error=True)
    ctx.check(same(ctx, el.to_dict(), before), "rendering does not change the serialized form")
    return [before, m.value if m.ok else ["raised", type(m.exc).__name__],
            i.value if i.ok else ["raised", type(i.exc).__name__]]


@case(CASES, quick=list(s.NODES))
def input_untouched(ctx, typ):
    """parsing, serializing and rendering leave the input as it was; nothing mutable is shared"""
    d = rich(ctx, typ, "r")
    if ctx.flag("in doc"):
        d = shape(ctx, d)
    before = copy_of(d)
    el = api.parse_node(d)
    ctx.check(same(ctx, d, before), "parsing does not change its input")
    want = results(ctx, el)
    ctx.observe("first", want)
    ctx.check(same(ctx, d, before), "serializing and rendering do not change the input")
    ctx.check(not (ids_of(want[0]) & ids_of(d)), "the serialized form shares no object with the input")
    keep = copy_of(want)
    vandalise(d)
    ctx.check(same(ctx, results(ctx, el), keep), "changing the input later changes nothing")
    out = el.to_dict()
    vandalise(out)
    ctx.check(same(ctx, results(ctx, el), keep), "changing a serialized form changes nothing")
    vandalise(want[0])
    ctx.check(same(ctx, results(ctx, el), keep), "changing the first serialized form changes nothing")


@case(CASES, quick=list(s.MARKS))
def mark_pure(ctx, typ):
    d = s.mark(typ, True)
    if "attrs" in d:
        k = sorted(d["attrs"])[0]
        if isinstance(d["attrs"][k], str) and typ != "subsup":
            d["attrs"][k] = ctx.chars("v", 2)
        if typ == "dataConsumer":
            d["attrs"]["sources"] = ["a", ["b"], {"c": 1}]
    before = copy_of(d)
    el = api.parse_mark(d)
    x = ctx.chars("x", 2, "line")

    def res():
        before = el.to_dict()
        m = ctx.run(el.to_markdown, x)
        ctx.check(same(ctx, el.to_dict(), before), "rendering does not change the serialized form")
        return [before, m.value if m.ok else "raised"]
    first = res()
    ctx.observe("first", first)
    ctx.check(same(ctx, d, before), "input unchanged")
    ctx.check(not (ids_of(first[0]) & ids_of(d)), "nothing shared")
    keep = copy_of(first)
    vandalise(d)
    vandalise(first[0])
    ctx.check(same(ctx, res(), keep), "later changes have no effect")
    ctx.check(same(ctx, res(), keep), "repeatable")


@case(CASES, quick=s.containers(), cost=2)
def children_pure(ctx, typ):
    """the same for every child type in every container"""
    kinds = list(s.NODES)
    c = kinds[ctx.choose("child", len(kinds))]
    child = rich(ctx, c, "c", False) if ctx.flag("full") else s.node(c)
    t = s.node("text", text=ctx.chars("t", 1))
    kids = [[child, t], [t, child], [child], [t, child, copy_of(child)], [copy_of(child), t, child]]
    d = s.node(typ, content=kids[ctx.choose("place", len(kids))], optional=True)
    before = copy_of(d)
    el = api.parse_node(d)
    keep = results(ctx, el)
    ctx.observe("first", keep)
    ctx.check(same(ctx, d, before), "input unchanged")
    ctx.check(not (ids_of(keep[0]) & ids_of(d)), "nothing shared")
    keep = copy_of(keep)
    vandalise(d)
    ctx.check(same(ctx, results(ctx, el), keep), "later changes of the input have no effect")
    out = el.to_dict()
    vandalise(out)
    ctx.check(same(ctx, results(ctx, el), keep), "changes of the output have no effect")
    x = el.to_dict()
    y = el.to_dict()
    ctx.check(not (ids_of(x) & ids_of(y)), "two serialized forms share nothing")


@case(CASES, quick=list(s.MARKS), cost=2)
def mark_lists_pure(ctx, typ):
    """up to three marks on a text or a block, equal types included: rendering leaves them all in place"""
    names = list(s.MARKS)
    ms = [s.mark(typ, ctx.flag("full"))]
    o = names[ctx.choose("o", len(names))]
    ms.insert(ctx.choose("where", 2), s.mark(o))
    if ctx.flag("third"):
        ms.append(s.mark(typ))
        if typ == "link":
            ms[-1]["attrs"]["href"] = ctx.chars("href", 2)
    holder = ctx.pick("holder", ["text", "media", "paragraph", "heading", "extension"])
    t = ctx.chars("t", 1)
    d = s.node(holder, marks=ms, text=t)
    if holder == "media":
        d["attrs"] = {"type": "external", "url": "u"}
    elif holder in ("paragraph", "heading"):
        d["content"] = [s.node("text", text=t)]
    before = copy_of(d)
    el = api.parse_node(d)
    first = results(ctx, el)
    ctx.observe("first", first)
    ctx.check(same(ctx, d, before) and same(ctx, first[0], before), "input unchanged, all marks serialized")
    ctx.check(same(ctx, results(ctx, el), first), "the same again")


OPS = ["parse", "serialize", "render", "bad parse", "bad render", "render ignoring", "unknown"]


def do(ctx, op, tag, el):
    """one step of a history on some other document"""
    if op == "bad parse":
        ctx.run(api.parse_node, a.doc(a.para({"type": "mention", "attrs": {"text": ctx.chars(tag, 1)}})))
        ctx.run(api.parse_node, {"type": "zzNope"})
    elif op == "bad render":
        bad = api.parse_node(a.doc(a.para(a.text("x"), a.inline_card())))
        ctx.run(bad.to_markdown)
    elif op == "unknown":
        api.parse_node(a.doc({"type": "zzNope"}, a.para(a.text("x", {"type": "zzMark"}))))
    elif op == "parse":
        api.parse_node(other(ctx, tag))
    elif op == "serialize":
        el.to_dict()
    elif op == "render":
        ctx.run(api.parse_node(other(ctx, tag)).to_markdown)
    else:
        el.to_markdown(ignore_error=True)


def other(ctx, tag):
    """same structure, same ids, other texts"""
    x, y = ctx.chars(tag + "x", 1, "word"), ctx.chars(tag + "y", 1, "word")
    return a.doc(a.pt(x, a.STRONG), a.ordered(a.item(a.pt(y)), order=5), a.panel("note", a.pt(x)),
                 a.table(a.row(a.hcell(a.pt(y)))), a.tasks(a.task("DONE", a.text(x))))


@case(CASES, quick=[2, 3], thorough=[2, 3, 4], cost=4)
def history(ctx, n):
    """after any history, a document gives what it gives in a fresh state"""
    d = other(ctx, "d")
    el = api.parse_node(copy_of(d))
    want = results(ctx, el)
    ctx.fresh()
    el = api.parse_node(copy_of(d))
    for i in range(n):
        do(ctx, ctx.pick("op%d" % i, OPS), "h%d" % i, el)
    ctx.check(settings.WARN_UNIMPLEMENTED_TYPE is True, "settings are not changed")
    got = results(ctx, el)
    ctx.observe("got", got)
    ctx.check(same(ctx, got, want), "the parsed element gives the same results")
    el2 = api.parse_node(copy_of(d))
    ctx.check(same(ctx, results(ctx, el2), want), "parsing again gives the same results")
    ctx.check(same(ctx, results(ctx, el), want), "and so does the first element afterwards")


@case(CASES, quick=list(s.NODES), cost=2)
def history_same_type(ctx, typ):
    """another element of the same type, possibly with equal attributes, was handled before"""
    d1 = shape(ctx, rich(ctx, typ, "p"))
    d2 = rich(ctx, typ, "q", False)
    # the first attribute may or may not coincide
    if "attrs" in d2:
        for k in list(d2["attrs"]):
            if isinstance(d2["attrs"][k], str) and k in ("localId", "id", "url", "text", "shortName"):
                d2["attrs"][k] = "z"
    d2 = shape(ctx, d2)
    want = results(ctx, api.parse_node(copy_of(d2)))
    ctx.fresh()
    results(ctx, api.parse_node(copy_of(d1)))
    got = results(ctx, api.parse_node(copy_of(d2)))
    ctx.observe("got", got)
    ctx.check(same(ctx, got, want), "unaffected by the earlier element")


def leaves(x, path, out):
    """paths of all strings and numbers but the type names"""
    if isinstance(x, dict):
        for k in sorted(x):
            if k != "type" or path[-1:] == ["attrs"]:
                leaves(x[k], path + [k], out)
    elif isinstance(x, list):
        for i in range(len(x)):
            leaves(x[i], path + [i], out)
    elif isinstance(x, (str, int, float)):
        out.append(path)


def changed(ctx, d, path):
    """d with another value at path, or without it"""
    d = copy_of(d)
    at, owner = d, d
    for k in path[:-1]:
        if k == "attrs":
            owner = at
        at = at[k]
    old = at[path[-1]]
    k = path[-1]
    opt = []
    if path[-2:-1] == ["attrs"]:
        opt = (s.MARKS.get(owner["type"]) or s.NODES[owner["type"]])[2]
    if k in opt and ctx.flag("removed"):
        del at[k]
    elif k == "timestamp":
        at[k] = "86400000"
    elif k == "panelType":
        at[k] = "tip"
    elif k == "state":
        at[k] = "TODO"
    elif k == "type":
        at[k] = "sup" if old == "sub" else "external"
    elif isinstance(old, bool):
        at[k] = not old
    elif isinstance(old, str):
        at[k] = ctx.chars("v", 1, "nonspace")
    else:
        at[k] = old + 1
    return d


def variants(ctx, small, big, wrap=None):
    """after an element that differs in one field (either way), an element gives what it gives in a fresh state"""
    d = big if ctx.flag("full") else small
    out = []
    leaves(d, [], out)
    if not out:
        return
    e = changed(ctx, d, out[ctx.choose("path", len(out))])
    if ctx.flag("swap"):
        d, e = e, d
    if wrap:
        d, e = wrap(d), wrap(e)
    want = results(ctx, api.parse_node(copy_of(d)))
    ctx.fresh()
    x = api.parse_node(copy_of(e))
    y = api.parse_node(copy_of(d)) if ctx.flag("parsed before") else None
    other = results(ctx, x)
    y = y or api.parse_node(copy_of(d))
    got = results(ctx, y)
    ctx.observe("got", got)
    ctx.check(same(ctx, got, want), "unaffected by the similar element")
    ctx.check(same(ctx, results(ctx, x), other), "and the similar one is unaffected too")


@case(CASES, quick=list(s.NODES), cost=2)
def history_similar(ctx, typ):
    variants(ctx, shape(ctx, s.node(typ)), shape(ctx, rich(ctx, typ, "p", False)))


@case(CASES, quick=[m for m in s.MARKS if s.MARKS[m][1]])
def history_similar_mark(ctx, typ):
    variants(ctx, s.mark(typ), s.mark(typ, True), lambda m: a.para(a.text("tx", m), a.text("ty", m)))


@case(CASES, quick=[None], cost=3)
def history_similar_blocks(ctx, _):
    """the same for a text anywhere in a larger document"""
    d = a.doc(a.heading(2, a.text("h", a.link("u", "t")), a.emoji(":s:", "s")), a.bullets(a.item(a.pt("b"), a.ordered(
        a.item(a.pt("c")), order=3))), a.panel("note", a.pt("p")), a.quote(a.pt("q")), a.expand(a.pt("e")),
        a.code("k", "py"), a.tasks(a.task("DONE", a.text("t")), a.tasks(a.task("TODO", a.text("n")))),
        a.decisions(a.decision(a.text("d"), a.br())), a.table(a.row(a.hcell(a.pt("1"))), a.row(a.cell(a.pt("2")))),
        a.media_single(a.media("external", url="m", alt="l")), a.para(a.date("0"), a.inline_card("c"), a.status("s")))
    variants(ctx, d, d)


@case(CASES, quick=[None])
def absent_after_present(ctx, _):
    """optional fields given once do not leak into elements that lack them"""
    kinds = list(s.NODES)
    typ = kinds[ctx.choose("typ", len(kinds))]
    small, big = shape(ctx, s.node(typ)), shape(ctx, rich(ctx, typ, "b", False))
    want = results(ctx, api.parse_node(copy_of(small)))
    ctx.fresh()
    for i in range(3):
        results(ctx, api.parse_node(copy_of(big)))
    got = results(ctx, api.parse_node(copy_of(small)))
    ctx.observe("got", got)
    ctx.check(same(ctx, got, want), "unaffected")


@case(CASES, quick=[5, 40])
def repeat(ctx, n):
    """many repetitions of the same calls"""
    d = other(ctx, "d")
    el = api.parse_node(d)
    want = results(ctx, el)
    ctx.observe("want", want)
    for i in range(n):
        if i % 2:
            ctx.check(same(ctx, results(ctx, el), want), "same result every time")
        else:
            ctx.check(same(ctx, results(ctx, api.parse_node(copy_of(d))), want), "same result after parsing again")
    ctx.check(ctx.eq(el.to_markdown(ignore_error=True), want[1]), "ignore_error does not matter here")
    ctx.check(ctx.eq(el.to_markdown(), want[1]), "and leaves no trace")


@case(CASES, quick=list(s.NODES))
def frozen(ctx, typ):
    """elements and their attributes cannot be reassigned"""
    el = api.parse_node(rich(ctx, typ, "r", False))
    before = el.to_dict()
    names = ["type", "attrs", "content", "marks", "text", "version", "zz"]
    for k in names:
        r = ctx.run(setattr, el, k, "changed")
        ctx.check(not r.ok, "assigning to the element raises")
    if "attrs" in before:
        for k in list(before["attrs"]) + ["zz"]:
            r = ctx.run(setattr, el.attrs, k, "changed")
            ctx.check(not r.ok, "assigning to the attributes raises")
    ctx.check(same(ctx, el.to_dict(), before), "nothing changed")
    for m in s.MARKS:
        x = api.parse_mark(s.mark(m, True))
        ctx.check(not ctx.run(setattr, x, "type", "changed").ok, "assigning to a mark raises")
        if "attrs" in s.mark(m, True):
            ctx.check(not ctx.run(setattr, x, "attrs", None).ok, "assigning to a mark raises")
            ctx.check(not ctx.run(setattr, x.attrs, sorted(s.mark(m)["attrs"])[0], None).ok, "mark attributes")


def walk(el, out):
    """an element and everything in it"""
    out.append(el)
    c = getattr(el, "content", None)
    if isinstance(c, list):
        for x in c:
            walk(x, out)
    return out


def structures(ctx):
    """documents whose parts can be rendered on their own"""
    x, y = ctx.chars("x", 1, "word"), ctx.chars("y", 1, "word")
    return {
        "lists": lambda: a.bullets(a.item(a.pt(x), a.ordered(a.item(a.pt(y), a.bullets(a.item(a.pt("c"), a.pt("e")))), order=3), a.pt("d"))),
        "ordered": lambda: a.ordered(a.item(a.pt(x)), a.item(a.pt(y), a.ordered(a.item(a.pt("c"))), a.tasks(a.task("DONE", a.text("t"))))),
        "tasks": lambda: a.tasks(a.task("DONE", a.text(x)), a.tasks(a.task("TODO", a.text(y)), a.tasks(a.task("DONE", a.text("z")))), a.task("TODO", a.text("w"))),
        "table": lambda: a.table(a.row(a.hcell(a.pt(x)), a.hcell(a.pt(" " + y))), a.row(a.cell(a.bullets(a.item(a.pt("i|i"), a.bullets(a.item(a.pt("j")))))), a.cell(a.code("k\n k")))),
        "panel": lambda: a.panel("info", a.pt(x), a.quote(a.pt(y)), a.bullets(a.item(a.panel("tip", a.heading(2, a.text("h")))))),
        "decisions": lambda: a.decisions(a.decision(a.text(x), a.br(), a.text(y)), a.decision(a.emoji(":s:"), a.status("s"))),
        "expand": lambda: a.expand(a.rule(), a.nested_expand(a.pt(x), a.code("`" + y)), a.media_single(a.media("external", url="u", alt="l"))),
        "inline": lambda: a.para(a.text(x, a.STRONG, a.link("u", "t")), a.date("0"), a.mention("i"), a.inline_card("c"), a.text(y, a.CODE)),
    }


@case(CASES, quick=["lists", "ordered", "tasks", "table", "panel", "decisions", "expand", "inline"], cost=2)
def parts(ctx, kind):
    """rendering a document changes nothing for its parts, nor the other way round"""
    d = structures(ctx)[kind]()
    if ctx.flag("doc"):
        d = a.doc(a.pt("p"), d, a.pt("q"))
    n = len(walk(api.parse_node(copy_of(d)), []))
    whole = results(ctx, api.parse_node(copy_of(d)))
    want = []
    for i in range(n):
        ctx.fresh()
        want.append(results(ctx, walk(api.parse_node(copy_of(d)), [])[i]))
    ctx.fresh()
    el = api.parse_node(copy_of(d))
    els = walk(el, [])
    order = ctx.choose("order", 3)
    if order:
        if order == 2:
            els.reverse()
            want.reverse()
        ctx.check(same(ctx, results(ctx, el), whole), "the whole")
    ctx.observe("whole", whole)
    for x, w in zip(els, want):
        ctx.check(same(ctx, results(ctx, x), w), "a part gives what it gives when the rest was never rendered")
    ctx.check(same(ctx, results(ctx, el), whole), "the whole, after its parts")
    for x, w in zip(els, want):
        ctx.check(same(ctx, results(ctx, x), w), "a part again")


@case(CASES, quick=["text", "heading", "code", "link", "emoji", "status", "card", "media", "cell", "task", "panel"], cost=3)
def spelled(ctx, kind):
    """two documents that differ in one word of any letters and any length up to 16: each as if it were the only one"""
    n = 1 + ctx.choose("n", 16)
    x = ctx.word("x", n)
    y = ctx.word("y", [n, 2, n + 1][ctx.choose("m", 3)])

    def doc(w):
        return a.doc({"text": lambda: a.pt(w, a.STRONG), "heading": lambda: a.heading(2, a.text(w)), "code": lambda: a.code("c", w),
                      "link": lambda: a.pt("l", a.link("http://" + w, w)), "emoji": lambda: a.para(a.emoji(w), a.emoji(":s:", w)),
                      "status": lambda: a.para(a.status(w)), "card": lambda: a.para(a.inline_card(w)),
                      "media": lambda: a.media_single(a.media("external", url=w, alt=w)), "cell": lambda: a.table(a.row(a.hcell(a.pt(w)), a.cell(a.pt(w)))),
                      "task": lambda: a.tasks(a.task(w, a.text(w)), a.task("DONE", a.text(w))), "panel": lambda: a.panel("info", a.pt(w))}[kind]())
    d, e = doc(x), doc(y)
    ctx.fresh()
    want = copy_of(results(ctx, api.parse_node(copy_of(e))))
    ctx.fresh()
    p = api.parse_node(d)
    first = copy_of(results(ctx, p))
    q = api.parse_node(e)
    if ctx.flag("late"):
        results(ctx, p)
    ctx.observe("want", want)
    ctx.check(same(ctx, results(ctx, q), want), "as in a fresh process")
    ctx.check(same(ctx, results(ctx, p), first), "the first one as before")
