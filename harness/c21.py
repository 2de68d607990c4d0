"""C21: every schema-valid document renders."""
from atlas_doc_parser import api
from .reg import case
from . import adf as a
from . import spec as s
from . import trees

CASES = {}
BOUNDS = ("every implemented node type with every subset of its optional attributes, attrs and content absent, empty or filled, "
          "marks absent, empty or any one (text: any two) of the implemented marks; text values of 0..2 unconstrained "
          "characters; each of them alone and in every container it may stand in, at every place among 1..3 siblings, with and "
          "without ignore_error; every nesting of the containers to depth 3 with empty, absent and filled content; one text attribute at a time of 0..12 "
          "characters, with content empty and filled")

INLINE = ["text", "emoji", "mention", "status", "date", "hardBreak", "inlineCard", "mediaInline"]
BLOCKS = ["paragraph", "heading", "codeBlock", "blockquote", "bulletList", "orderedList", "taskList", "decisionList", "panel",
          "expand", "nestedExpand", "rule", "table", "blockCard", "embedCard", "mediaSingle", "mediaGroup", "extension"]
PARENTS = {}
for _t in INLINE:
    PARENTS[_t] = ["paragraph", "heading", "taskItem", "decisionItem", "caption"]
PARENTS["text"] = PARENTS["text"] + ["codeBlock"]
for _t in BLOCKS:
    PARENTS[_t] = ["doc", "expand", "nestedExpand", "panel", "blockquote", "listItem", "tableCell", "tableHeader"]
PARENTS["taskList"] = PARENTS["taskList"] + ["inTaskList"]
PARENTS.update({"listItem": ["bulletList", "orderedList"], "taskItem": ["taskList"], "decisionItem": ["decisionList"],
                "tableRow": ["table"], "tableCell": ["tableRow"], "tableHeader": ["tableRow"], "caption": ["mediaSingle"],
                "media": ["mediaSingle", "mediaGroup"], "doc": []})

# values for attributes that are no free text
FIXED = {
    "level": [1, 2, 3, 4, 5, 6], "timestamp": ["0", "1700000000000", "-1", "253402300799999"], "state": ["DONE", "TODO", "DECIDED", ""],
    "layout": ["default", "wide", "full-width", "center", "align-start"], "width": [0, 7, 33.3], "height": [0, 9], "order": [0, 1, 12],
    "datasource": [{"id": "d", "views": []}, {}], "data": [{}, {"k": None}], "parameters": [{}, {"m": [1]}, None],
    "isNumberColumnEnabled": [True, False], "colspan": [0, 1, 3], "rowspan": [1, 2], "colwidth": [[], [0], [5, 6]],
    "displayMode": ["fixed"], "originalHeight": [1], "originalWidth": [2.5], "widthType": ["pixel", "percentage"],
    "panelType": ["info", "note", "tip", "warning", "error", "success", "custom"],
    "color": ["neutral", "purple", "blue", "red", "yellow", "green"], "accessLevel": ["NONE"], "userType": ["DEFAULT", "APP"],
}
MARK_FIXED = {"align": ["center", "end"], "annotationType": ["inlineComment"], "size": [1, 2, 3], "mode": ["wide", "full-width"],
              "sources": [[], ["a"]], "level": [1, 2, 6], "type": ["sub", "sup"], "width": [1]}


def value(ctx, name, k):
    if k in FIXED:
        return ctx.pick(name, FIXED[k])
    return ctx.text(name, 0, 1)


def attrs(ctx, typ, wide):
    """the required attributes and any subset of the optional ones"""
    _, req, opt, need = s.NODES[typ][:4]
    if req is None:
        return None
    if not need and ctx.flag("no attrs"):
        return None
    at = {}
    for k in req:
        if typ == "media" and k == "type":
            at[k] = ctx.pick("media type", ["file", "link", "external"])
            if at[k] == "external":
                at["url"] = ctx.text("url", 0, 2, "line")
            else:
                at["id"], at["collection"] = ctx.chars("id", 2), ctx.text("co", 0, 1)
        elif typ == "codeBlock":
            at[k] = value(ctx, "r." + k, k)
        else:
            at[k] = value(ctx, "r." + k, k)
    if typ in ("inlineCard", "blockCard"):
        at["url"] = ctx.text("url", 0, 2, "line")
    if not wide:
        if ctx.flag("full"):
            for k in opt:
                if k not in at:
                    at[k] = s.VALUES[k]
        return at
    many = len(opt) > 5
    for k in opt:
        if k in at:
            continue
        if ctx.flag("has." + k):
            at[k] = ctx.pick("o." + k, FIXED[k][:1 if many else 2]) if k in FIXED else ctx.chars("o." + k, 1)
    return at


def INLINE_KIDS(t):
    return [a.text(t), a.br(), a.emoji(":s:"), a.mention("i"), a.status("st"), a.date("0"), a.inline_card("u"), a.text("", a.EM)]


def kids(ctx, typ):
    """content: children the type may have, one of each"""
    if typ in ("paragraph", "heading", "taskItem", "decisionItem", "caption"):
        return [a.text(ctx.chars("c", 1)), a.br(), a.emoji(":s:"), a.mention("i"), a.status("st"), a.date("0"), a.inline_card("u"),
                {"type": "mediaInline", "attrs": {"id": "i", "collection": "c"}}, a.text("")]
    return {
        "codeBlock": lambda: [a.text(ctx.chars("c", 1)), a.text("")],
        "bulletList": lambda: [a.item(), a.item(a.para()), a.item(a.pt(ctx.chars("c", 1)))],
        "orderedList": lambda: [a.item(), a.item({"type": "paragraph"}), a.item(a.pt(ctx.chars("c", 1)))],
        "taskList": lambda: [s.node("taskItem"), a.task("TODO", a.text(ctx.chars("c", 1))), a.tasks(s.node("taskItem"))],
        "decisionList": lambda: [s.node("decisionItem"), a.decision(a.text(ctx.chars("c", 1))), a.decision()],
        "table": lambda: [a.row(), a.row(a.cell()), a.row(a.hcell(), a.hcell({"type": "paragraph"})), a.row(a.cell(a.pt(ctx.chars("c", 1))))],
        "tableRow": lambda: [a.cell(), a.hcell(), {"type": "tableCell", "content": []}, a.cell(a.pt(ctx.chars("c", 1)))],
        "mediaSingle": lambda: [a.media("file", id="i", collection=""), s.node("caption")],
        "mediaGroup": lambda: [a.media("file", id="i", collection="c"), a.media("link", id="i", collection="c")],
    }.get(typ, lambda: [a.para(), {"type": "paragraph"}, {"type": "codeBlock"}, s.node("heading"), a.pt(ctx.chars("c", 1)),
                        a.bullets(a.item()), {"type": "mediaSingle"}, a.tasks(s.node("taskItem"))])()


def make(ctx, typ, wide=True):
    d = {"type": typ}
    if typ == "doc":
        d["version"] = 1
    if typ == "text":
        d["text"] = ctx.text("text", 0, 2)
    at = attrs(ctx, typ, wide)
    if at is not None:
        d["attrs"] = at
    cont = s.NODES[typ][4]
    if cont is not None:
        n = ctx.choose("content", 2 if cont == "req" else 3)
        if n == 0:
            d["content"] = []
        elif n == 1:
            d["content"] = kids(ctx, typ)
    return d


def put(parent, d, place):
    """in a container of the given type, first, in the middle, last or alone among siblings"""
    sib = {"paragraph": a.text("k"), "heading": a.text("k"), "taskItem": a.text("k"), "decisionItem": a.text("k"),
           "caption": a.text("k"), "codeBlock": a.text("k"), "bulletList": a.item(a.pt("k")), "orderedList": a.item(a.pt("k")),
           "taskList": a.task("DONE"), "decisionList": a.decision(a.text("k")), "table": a.row(a.cell(a.pt("k"))),
           "tableRow": a.cell(a.pt("k")), "mediaSingle": a.media("file", id="k", collection="c"),
           "mediaGroup": a.media("file", id="k", collection="c"), "inTaskList": a.task("TODO", a.text("k"))}.get(parent, a.pt("k"))
    c = [[d], [d, sib], [sib, d], [sib, d, sib]][place]
    if parent == "inTaskList":
        return a.tasks(*c)
    return s.node(parent, content=c)


def up(parent):
    """a chain of containers from the document down to the given one"""
    way = [parent]
    while way[-1] != "doc":
        t = "taskList" if way[-1] == "inTaskList" else way[-1]
        way.append(PARENTS[t][0])
    return way


def renders(ctx, d):
    el = api.parse_node(d)
    r = ctx.run(el.to_markdown)
    q = ctx.run(el.to_markdown, ignore_error=True)
    ctx.observe("r", r)
    ctx.check(r.ok, "renders")
    ctx.check(q.ok, "renders when errors are ignored")
    if r.ok and q.ok:
        ctx.check(isinstance(r.value, str), "to text")
        ctx.check(r.value == q.value, "alike")


@case(CASES, quick=list(s.NODES), cost=3)
def alone(ctx, typ):
    """every subset of the optional fields"""
    renders(ctx, make(ctx, typ))


@case(CASES, quick=[t for t in s.NODES if t != "doc"], cost=4)
def placed(ctx, typ):
    """in every container, up to the document"""
    d = make(ctx, typ, wide=False)
    ps = PARENTS[typ]
    parent = ps[ctx.choose("parent", len(ps))]
    d = put(parent, d, ctx.choose("place", 4))
    for t in up(parent)[1:]:
        d = put(t, d, 3)
    renders(ctx, d)


def marked(ctx, name, typ):
    _, req, opt = s.MARKS[typ]
    if req is None:
        return {"type": typ}
    at = {}
    for k in req:
        at[k] = ctx.pick(name + k, MARK_FIXED[k]) if k in MARK_FIXED else ctx.text(name + k, 0, 1)
    for k in opt:
        if ctx.flag(name + "has." + k):
            at[k] = MARK_FIXED[k][0] if k in MARK_FIXED else ctx.text(name + k, 0, 1)
    return {"type": typ, "attrs": at}


def fails(marks, x):
    """a code mark cannot take a text with a line break"""
    return "code" in [m["type"] for m in marks] and "\n" in x


@case(CASES, quick=list(s.MARKS), cost=2)
def one_mark(ctx, typ):
    x = ctx.text("x", 0, 3)
    m = [marked(ctx, "m", typ)]
    d = a.text(x, *m)
    if fails(m, x):
        el = api.parse_node(d)
        ctx.check(not ctx.run(el.to_markdown).ok, "code on a line break is the exception")
        return
    renders(ctx, a.doc(a.para(d, a.text("k"))))


@case(CASES, quick=list(s.MARKS), cost=3)
def two_marks(ctx, typ):
    x = ctx.text("x", 0, 1, "not:\n")
    names = list(s.MARKS)
    other = s.mark(names[ctx.choose("other", len(names))], ctx.flag("other full"))
    first = s.mark(typ, ctx.flag("first full"))
    ms = [first, other]
    holder = ctx.pick("holder", ["paragraph", "heading", "codeBlock", "decisionItem", "taskItem"])
    put_in = put(holder, a.text(x, *ms), 3)
    for t in up(holder)[1:]:
        put_in = put(t, put_in, 0)
    renders(ctx, put_in)


@case(CASES, quick=[t for t in s.NODES if s.NODES[t][5]], cost=3)
def marks_field(ctx, typ):
    """marks absent, empty or any one, on every node type that has them"""
    d = make(ctx, typ, wide=False)
    names = list(s.MARKS)
    n = ctx.choose("marks", len(names) + 1)
    if n == len(names):
        d["marks"] = []
    else:
        d["marks"] = [s.mark(names[n], ctx.flag("mark full"))]
    bad = False
    if "code" in [m["type"] for m in d["marks"]]:
        # whatever the element renders to must not hold a line break for the code mark
        el = api.parse_node({k: v for k, v in d.items() if k != "marks"})
        bad = typ != "heading" and "\n" in el.to_markdown()
    if bad:
        return
    renders(ctx, d)


EMPTY = ["paragraph", "heading", "codeBlock", "bulletList", "orderedList", "taskList", "decisionList", "table", "blockquote", "panel",
         "expand", "nestedExpand", "mediaSingle", "mediaGroup"]
HOLD = ["doc", "expand", "nestedExpand", "panel", "blockquote", "listItem", "tableCell", "tableHeader"]


def hollow(ctx, name, typ):
    """a container with nothing in it, in every way that is allowed"""
    d = s.node(typ)
    opts = [[]]
    if typ in ("bulletList", "orderedList"):
        opts += [[a.item()], [a.item(), a.item(a.para())], [a.item(a.bullets())], [a.item(a.ordered(attrs=False))], [a.item(a.code(""))],
                 [a.item({"type": "codeBlock"})], [a.item(a.tasks(s.node("taskItem")))], [a.item(a.rule())]]
    elif typ == "taskList":
        opts += [[s.node("taskItem")], [a.task("DONE")], [a.tasks()], [s.node("taskItem"), a.tasks(s.node("taskItem"))]]
    elif typ == "decisionList":
        opts += [[s.node("decisionItem")], [a.decision()], [a.decision(a.br())], [s.node("decisionItem"), a.decision(a.text(""))]]
    elif typ == "table":
        opts += [[a.row()], [a.row(), a.row()], [a.row(a.cell())], [a.row(a.hcell()), a.row()], [a.row(), a.row(a.hcell(), a.cell())],
                 [a.row(a.cell({"type": "paragraph"}))], [{"type": "tableRow", "content": [{"type": "tableCell", "content": []}]}]]
    elif typ in ("paragraph", "heading"):
        opts += [[a.text("")], [a.br()], None]
    elif typ == "codeBlock":
        opts += [[a.text("")], None]
    elif typ == "mediaSingle":
        opts += [None, [s.node("caption")], [a.media("file", id="i", collection="c"), s.node("caption", [a.text("x")])]]
    elif typ != "mediaGroup":
        opts += [[a.para()], [{"type": "paragraph"}], [{"type": "codeBlock"}], [a.rule()], [{"type": "mediaSingle"}]]
    c = ctx.pick(name, opts)
    if c is None:
        d.pop("content", None)
    else:
        d["content"] = c
    return d


@case(CASES, quick=HOLD, thorough=HOLD, cost=4)
def hollow_in(ctx, where):
    """empty containers in every container and next to each other"""
    k1 = ctx.pick("k1", EMPTY)
    d1 = hollow(ctx, "h1", k1)
    d2 = [None, a.pt("k"), a.bullets(a.item()), a.table(a.row()), {"type": "paragraph"}, a.decisions(s.node("decisionItem"))][ctx.choose("k2", 6)]
    blocks = [d1] if d2 is None else [d1, d2] if ctx.flag("order") else [d2, d1]
    d = s.node(where, content=blocks)
    for t in up(where)[1:]:
        d = put(t, d, 0)
    renders(ctx, d)


@case(CASES, quick=["doc", "tableCell"], thorough=HOLD, cost=4)
def hollow_deep(ctx, where):
    """empty containers under two more containers of any kind"""
    d = hollow(ctx, "h", ctx.pick("k", EMPTY))
    for i in range(2):
        h = ctx.pick("w%d" % i, trees.WRAPS)
        d = trees.block(h, [d])
    d = s.node(where, content=[d])
    for t in up(where)[1:]:
        d = put(t, d, 0)
    renders(ctx, d)


@case(CASES, quick=[8], thorough=[8, 25])
def deep(ctx, n):
    w = [ctx.pick("w0", trees.WRAPS), ctx.pick("w1", trees.WRAPS)]
    d = ctx.pick("d", [{"type": "paragraph"}, {"type": "codeBlock"}, {"type": "mediaSingle"}, a.bullets(), a.bullets(a.item()),
                       a.ordered(a.item(), attrs=False), a.tasks(s.node("taskItem")), a.decisions(s.node("decisionItem")), a.table(),
                       a.table(a.row()), a.table(a.row(a.cell())), a.panel("info"), a.quote(), a.expand(), a.para(a.br())])
    for i in range(n):
        d = trees.block(w[i % 2], [d])
    renders(ctx, a.doc(d))


@case(CASES, quick=["inlineCard", "blockCard"])
def no_url(ctx, typ):
    """the documented exception"""
    d = {"type": typ, "attrs": [{}, {"data": {"k": 1}}, {"localId": "l"}][ctx.choose("at", 3)]}
    if typ == "inlineCard":
        d = a.para(d)
    el = api.parse_node(a.doc(d))
    r = ctx.run(el.to_markdown)
    ctx.observe("r", r)
    ctx.check(not r.ok, "a card without a URL is the exception")


TEXTUAL = {t: [k for k in list(s.NODES[t][1] or []) + list(s.NODES[t][2] or []) if k not in FIXED and not (t == "media" and k == "type")]
           for t in s.NODES}


@case(CASES, quick=[t for t in s.NODES if TEXTUAL[t]], cost=2)
def attr_lengths(ctx, typ):
    """one text attribute at a time, of every length"""
    _, req, opt = s.NODES[typ][:3]
    k = ctx.pick("attribute", TEXTUAL[typ])
    d = s.node(typ)
    if typ == "media":
        d = a.media("file", id="i", collection="c")
    if typ in ("inlineCard", "blockCard"):
        d["attrs"] = {"url": "u"}
    d.setdefault("attrs", {})
    kind = "line" if k == "url" else "any"
    n = ctx.choose("length", 13)
    d["attrs"][k] = ctx.chars("v", n, kind) if n < 4 else ctx.chars("v", 2, kind) + "abcdefghijklm"[:n - 3] + ctx.chars("w", 1, kind)
    cont = s.NODES[typ][4]
    if cont is not None:
        n = ctx.choose("content", 2 if cont == "req" else 3)
        if n < 2:
            d["content"] = [kids(ctx, typ), []][n]
        else:
            d.pop("content", None)
    if typ != "doc" and ctx.flag("placed"):
        parent = PARENTS[typ][0]
        d = put(parent, d, 3)
        for t in up(parent)[1:]:
            d = put(t, d, 0)
    renders(ctx, d)


KNOWN = {"language": ["none", "text", "plaintext", "json", "python", "c++", "mermaid", "sh", "diff", "yaml", "html", "sql"],
         "panelType": FIXED["panelType"] + ["", "x", "INFO"], "state": ["DONE", "TODO", "DECIDED", "UNDECIDED", "", "done"],
         "color": FIXED["color"] + ["", "#fff"], "timestamp": ["0", "-1", "1582152244000", 0, 1582152244000, "253402300799999"],
         "order": [0, 1, 2, 9, 10, 99, 100, 1000000], "level": [1, 2, 3, 4, 5, 6], "layout": ["default", "wide", "full-width", ""]}


@case(CASES, quick=["codeBlock", "panel", "taskItem", "decisionItem", "status", "date", "orderedList", "heading", "table"], cost=2)
def known_values(ctx, typ):
    """values that are likely to be told apart, with empty, absent and filled content"""
    k = ctx.pick("attribute", [k for k in list(s.NODES[typ][1]) + list(s.NODES[typ][2]) if k in KNOWN])
    d = s.node(typ)
    d.setdefault("attrs", {})
    d["attrs"][k] = ctx.pick("value", KNOWN[k])
    cont = s.NODES[typ][4]
    if cont is not None:
        n = ctx.choose("content", 3 if cont == "req" else 4)
        if n == 0:
            d["content"] = []
        elif n == 1:
            d["content"] = kids(ctx, typ)
        elif n == 2:
            d["content"] = kids(ctx, typ)[:1]
        else:
            d.pop("content", None)
    renders(ctx, d)
