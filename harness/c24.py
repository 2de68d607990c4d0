"""C24: presentation data never changes the Markdown."""
from atlas_doc_parser import api
from .reg import case
from . import adf as a
from . import spec as s
from . import c21
from .util import copy_of

CASES = {}
BOUNDS = ("every attribute without content of every node type and mark: absent, a string of 1..20 unconstrained characters, an integer "
          "-10..10^6, and every other JSON shape; every pair and subset of them; every form that the element has in Markdown; the element alone, first, between, last in every container it may "
          "stand in, up to the document; each mark without Markdown form at every place among 0..2 other marks on every type that takes "
          "marks; two and three elements whose ids are equal or differ; whole documents of 14 blocks with ids throughout")

# attributes that are shown or decide what is shown
SHOWN = {"blockCard": ["url"], "inlineCard": ["url"], "embedCard": ["url"], "codeBlock": ["language"], "date": ["timestamp"],
         "emoji": ["shortName", "text"], "extension": ["extensionKey", "extensionType", "text"], "heading": ["level"],
         "media": ["type", "id", "url", "alt"], "mention": ["text"], "orderedList": ["order"], "panel": ["panelType"],
         "status": ["text"], "taskItem": ["state"]}
PLAIN_MARKS = ["alignment", "annotation", "backgroundColor", "border", "breakout", "dataConsumer", "fragment", "subsup", "textColor",
               "underline"]


def quiet(typ):
    _, req, opt = s.NODES[typ][:3]
    return [k for k in list(req or []) + opt if k not in SHOWN.get(typ, [])]


KINDS = ["str", "int", "null", "empty", "false", "true", "list", "object", "float", "zero"]


def value(ctx, name, kind):
    if kind == "str":
        return ctx.text(name, 1, 2)
    if kind == "int":
        return ctx.int(name, 0, 2000)
    return {"empty": "", "false": False, "true": True, "null": None, "list": ["w", 7], "object": {"url": "q", "text": "w"}, "zero": 0,
            "float": 33.5}[kind]


class _Fixed:
    """stands in for a context where nothing is to be chosen"""

    def choose(self, name, n):
        return 0


def filled(ctx, typ, t):
    """the element with content whose text is ``t``, and what it shows"""
    d = s.node(typ, text=t)
    at = d.get("attrs", {})
    for k in ("text", "shortName", "extensionKey"):
        if k in at:
            at[k] = t
    if typ == "media":
        at.update([{"type": "external", "url": "http://u"}, {"type": "file", "id": "i", "alt": t}][ctx.choose("media", 2)])
    if typ in ("inlineCard", "blockCard"):
        at["url"] = "http://u"
    if typ == "codeBlock":
        at["language"] = "py"
    if at:
        d["attrs"] = at
    if s.NODES[typ][4] is not None:
        c = c21.INLINE_KIDS(t) if typ in ("paragraph", "heading", "taskItem", "decisionItem", "caption") else {
            "codeBlock": [a.text(t)], "bulletList": [a.item(a.pt(t)), a.item(a.pt("m"))], "orderedList": [a.item(a.pt(t)), a.item(a.pt("m"))],
            "taskList": [a.task("TODO", a.text(t)), a.task("DONE", a.text("m"))], "decisionList": [a.decision(a.text(t))],
            "table": [a.row(a.hcell(a.pt(t)), a.hcell()), a.row(a.cell(a.pt("m")), a.cell(a.pt(t)))],
            "tableRow": [a.cell(a.pt(t)), a.hcell(a.pt("m"))], "mediaSingle": [a.media("external", url="http://u", alt=t)],
            "mediaGroup": [a.media("file", id="m", collection="c")]}.get(typ, [a.pt(t), a.bullets(a.item(a.pt("m")))])
        d["content"] = c
    return d


def placed(ctx, typ, d):
    """``d`` in a container of a chosen kind and place, up to the document"""
    ps = c21.PARENTS[typ]
    if not ps:
        return d
    parent = ps[ctx.choose("parent", len(ps))]
    return grown(parent, c21.put(parent, d, ctx.choose("place", 4)))


def grown(parent, d):
    for t in c21.up(parent)[1:]:
        d = c21.put(t, d, 2)
    return d


def alike(ctx, d, e):
    x, y = api.parse_node(d), api.parse_node(e)
    p, q = ctx.run(x.to_markdown), ctx.run(y.to_markdown)
    ctx.observe("p", p)
    ctx.check(p.ok == q.ok, "both render or neither")
    if p.ok and q.ok:
        ctx.check(p.value == q.value, "to the same Markdown")
    p, q = ctx.run(x.to_markdown, ignore_error=True), ctx.run(y.to_markdown, ignore_error=True)
    ctx.check(p.ok == q.ok, "both render or neither when errors are ignored")
    if p.ok and q.ok:
        ctx.check(p.value == q.value, "to the same Markdown when errors are ignored")


TYPES = [t for t in s.NODES if quiet(t)]


@case(CASES, quick=[[t, k] for t in TYPES for k in quiet(t)], cost=2)
def one(ctx, p):
    """one attribute, any value against a usual one or none"""
    typ, k = p
    t = ctx.word("t")
    d = filled(ctx, typ, t)
    e = copy_of(d)
    kind = KINDS[ctx.choose("kind", len(KINDS))]
    v = value(ctx, "v", kind)
    if ctx.flag("full"):
        for q in s.NODES[typ][2]:
            if q in quiet(typ) and q != k:
                d.setdefault("attrs", {})[q] = s.VALUES[q]
                e.setdefault("attrs", {})[q] = s.VALUES[q]
    d.setdefault("attrs", {})[k] = v
    ps = c21.PARENTS[typ]
    if ps:
        parent = ps[ctx.choose("parent", len(ps))] if kind in ("str", "int", "null") else ps[0]
        place = ctx.choose("place", 4) if kind in ("str", "int") and len(ps) < 6 else 3
        d, e = [grown(parent, c21.put(parent, x, place)) for x in (d, e)]
    alike(ctx, d, e)


@case(CASES, quick=TYPES, cost=2)
def subsets(ctx, typ):
    """every subset of the attributes"""
    t = ctx.word("t")
    d = filled(ctx, typ, t)
    e = copy_of(d)
    for k in quiet(typ):
        if k in s.NODES[typ][2] and ctx.flag("has." + k):
            d.setdefault("attrs", {})[k] = ctx.chars("v." + k, 1) if isinstance(s.VALUES[k], str) else s.VALUES[k]
        elif k in s.NODES[typ][1]:
            d["attrs"][k] = ctx.chars("v." + k, 1)
    alike(ctx, d, e)


VARIANTS = {"panel": [{"panelType": x} for x in ("info", "custom", "error", "warning")],
            "heading": [{"level": x} for x in (1, 4, 6)], "codeBlock": [{"language": "py"}, {"language": ""}, {}],
            "mention": [{"text": 1}, {"text": "@bob"}, {}], "emoji": [{"text": 1}, {}], "extension": [{"text": 1}, {}],
            "orderedList": [{"order": 0}, {"order": 7}, {}], "taskItem": [{"state": "TODO"}, {"state": "DONE"}],
            "date": [{"timestamp": x} for x in ("0", "1582152559000")],
            "media": [{"type": "external", "url": "http://u"}, {"type": "file", "id": "i"}, {"type": "external", "url": "http://u", "alt": 1},
                      {"type": "file", "id": "i", "alt": 1}, {"type": "link", "id": "i"}]}


def variant(ctx, typ, t):
    """the element in each of the forms that it has in Markdown"""
    d = filled(_Fixed(), typ, t)
    vs = VARIANTS.get(typ)
    if vs:
        v = vs[ctx.choose("variant", len(vs))]
        for x in vs:
            for k in x:
                d.setdefault("attrs", {}).pop(k, None)
        d["attrs"].update({k: t if x == 1 else x for k, x in v.items()})
    return d


@case(CASES, quick=[[t, k] for t in TYPES for k in quiet(t)], cost=3)
def values(ctx, p):
    """one attribute, any string of up to 20 characters or any number, on every form of the element"""
    typ, k = p
    t = ctx.word("t")
    d = variant(ctx, typ, t)
    e = copy_of(d)
    m = ctx.choose("m", 23)
    if m == 0:
        v = ctx.int("v", -10, 10 ** 6)
    elif m == 1:
        v = ctx.int("v", 0, 4000) / 4
    elif m == 2:
        v = fields(typ)
    else:
        v = ctx.chars("v", m - 2)
    d.setdefault("attrs", {})[k] = v
    alike(ctx, d, e)


def fields(typ):
    """an object with a key for every attribute that the type models"""
    o = {x: "q" for x in (s.NODES[typ][1] or []) + s.NODES[typ][2]}
    o.update({"type": "text", "attrs": {"text": "q"}, "content": [a.text("q")], "marks": [a.STRONG], "version": 1})
    return o


PAIRS = [[t, quiet(t)[i], quiet(t)[j]] for t in TYPES for i in range(len(quiet(t))) for j in range(i)]


@case(CASES, quick=PAIRS, cost=2)
def pairs(ctx, p):
    """two attributes, both numbers or strings"""
    typ, k, l = p
    t = ctx.word("t")
    d = variant(ctx, typ, t)
    e = copy_of(d)
    m = ctx.choose("m", 4)
    at = d.setdefault("attrs", {})
    if m == 0:
        at[k], at[l] = ctx.int("v", 0, 2000), ctx.int("w", 0, 2000)
    elif m == 1:
        at[k], at[l] = ctx.chars("v", 1), ctx.int("w", 0, 2000)
    elif m == 2:
        at[k], at[l] = ctx.int("v", 0, 2000), ctx.chars("w", 1)
    else:
        n = 1 + 3 * ctx.choose("n", 3)
        at[k], at[l] = ctx.chars("v", n), ctx.chars("w", n)
    alike(ctx, d, e)


IDS = [t for t in TYPES if "localId" in quiet(t) or "id" in quiet(t)]


@case(CASES, quick=IDS, cost=2)
def ids(ctx, typ):
    """neighbours with equal or different ids"""
    k = "localId" if "localId" in quiet(typ) else "id"
    t = ctx.word("t")
    n = 2 + ctx.choose("n", 2)
    equal = ctx.flag("equal")
    kids = []
    for i in range(n):
        kids.append(filled(ctx, typ, t) if i == 0 else copy_of(kids[0]) if equal else filled(_Fixed(), typ, "other%d" % i))
    plain = copy_of(kids)
    for i, x in enumerate(kids):
        x.setdefault("attrs", {})[k] = ctx.chars("id%d" % i, 1)
    for i, x in enumerate(plain):
        if k in s.NODES[typ][1]:
            x["attrs"][k] = "fix%d" % i
    ps = c21.PARENTS[typ]
    if not ps:
        alike(ctx, kids[0], plain[0])
        return
    parent = ps[ctx.choose("parent", len(ps))]
    mk = lambda c: grown(parent, a.tasks(*c) if parent == "inTaskList" else s.node(parent, content=c))
    alike(ctx, mk(kids), mk(plain))


@case(CASES, quick=["doc", "expand", "panel", "listItem", "tableCell"], cost=2)
def ids_mixed(ctx, parent):
    """two blocks of different kinds with equal or different ids"""
    pool = [t for t in c21.BLOCKS if "localId" in quiet(t)]
    t = ctx.word("t")
    k = [pool[ctx.choose("k%d" % i, len(pool))] for i in range(2)]
    kids = [filled(_Fixed(), x, t) for x in k]
    plain = copy_of(kids)
    for i, x in enumerate(kids):
        x.setdefault("attrs", {})["localId"] = ctx.chars("id%d" % i, 1)
    for i, x in enumerate(plain):
        if "localId" in s.NODES[k[i]][1]:
            x["attrs"]["localId"] = "fix%d" % i
    alike(ctx, grown(parent, s.node(parent, content=kids)), grown(parent, s.node(parent, content=plain)))


def plain_mark(ctx, name, typ):
    _, req, opt = s.MARKS[typ]
    if req is None:
        return {"type": typ}
    at = {}
    for k in req:
        at[k] = ctx.chars(name + k, 1)
    for k in opt:
        if ctx.flag(name + "has." + k):
            at[k] = ctx.chars(name + k, 1)
    return {"type": typ, "attrs": at}


@case(CASES, quick=PLAIN_MARKS, cost=2)
def marks(ctx, typ):
    """a mark without Markdown form, anywhere among other marks, on every holder"""
    holders = [t for t in s.NODES if s.NODES[t][5]]
    h = ctx.pick("holder", holders)
    t = ctx.word("t")
    others = [s.mark(FORM[ctx.choose("f%d" % i, len(FORM))]) for i in range(ctx.choose("n", 3))]
    d = filled(_Fixed(), h, t)
    e = copy_of(d)
    if others or ctx.flag("empty list"):
        e["marks"] = copy_of(others)
    at = ctx.choose("at", len(others) + 1)
    m = plain_mark(ctx, "m.", typ)
    d["marks"] = others[:at] + [m] + others[at:]
    parent = c21.PARENTS[h][0] if c21.PARENTS[h] else None
    alike(ctx, grown(parent, c21.put(parent, d, 3)), grown(parent, c21.put(parent, e, 3)))


FORM = ["strong", "em", "strike", "code", "link", "underline", "indentation"]


@case(CASES, quick=PLAIN_MARKS)
def mark_values(ctx, typ):
    """a mark's attributes take every JSON shape"""
    _, req, opt = s.MARKS[typ]
    t = ctx.word("t")
    m = s.mark(typ, ctx.flag("full"))
    if req:
        k = ctx.pick("field", req + opt)
        m["attrs"][k] = value(ctx, "v", ctx.pick("kind", KINDS))
    two = ctx.flag("two")
    x = a.text(t, a.STRONG, m, *([s.mark(typ, True)] if two else []))
    alike(ctx, a.doc(a.para(a.text("k"), x, a.text("k"))), a.doc(a.para(a.text("k"), a.text(t, a.STRONG), a.text("k"))))


@case(CASES, quick=["link", "text"])
def link_ids(ctx, how):
    """the ids of a link mark change nothing"""
    t, h = ctx.word("t"), ctx.chars("h", 1, "line")
    m = a.link(h)
    e = a.link(h)
    for k in ("id", "collection", "occurrenceKey"):
        if ctx.flag("has." + k):
            m["attrs"][k] = value(ctx, "v." + k, ctx.pick("kind." + k, KINDS[:4]))
    holder = a.text(t, m) if how == "text" else a.text("w", a.EM, m, a.STRONG)
    other = a.text(t, e) if how == "text" else a.text("w", a.EM, e, a.STRONG)
    alike(ctx, a.para(holder, a.text("k")), a.para(other, a.text("k")))


def strip_ids(d):
    if isinstance(d, dict):
        out = {k: strip_ids(v) for k, v in d.items()}
        if isinstance(out.get("attrs"), dict) and "localId" in out["attrs"] and d.get("type") not in (
                "taskList", "taskItem", "decisionList", "decisionItem"):
            del out["attrs"]["localId"]
        return out
    if isinstance(d, list):
        return [strip_ids(x) for x in d]
    return d


@case(CASES, quick=["same", "own"], cost=2)
def documents(ctx, how):
    """ids throughout a document"""
    t = ctx.word("t")
    v = ctx.chars("id", 1)
    kids = [filled(_Fixed(), x, t) for x in c21.BLOCKS if "localId" in quiet(x)]
    n = [0]

    def mark_all(d):
        if isinstance(d, dict):
            for x in d.get("content", ()):
                mark_all(x)
            if d.get("type") in s.NODES and "localId" in (s.NODES[d["type"]][1] or []) + s.NODES[d["type"]][2]:
                n[0] += 1
                d.setdefault("attrs", {})["localId"] = v if how == "same" or n[0] % 3 == 0 else "id%d" % (n[0] % 7)
    d = a.doc(*kids)
    k = ctx.choose("wrap", 3)
    if k:
        d = a.doc([a.expand, lambda *c: a.panel("info", *c)][k - 1](*kids), a.pt("w"))
    e = strip_ids(copy_of(d))
    mark_all(d)
    alike(ctx, d, e)
