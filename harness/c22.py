"""C22: an element built in code is the parsed one."""
from atlas_doc_parser import api
from .reg import case
from . import adf as a
from . import spec as s
from .util import same, copy_of

CASES = {}
BOUNDS = ("every implemented type built from its classes with every subset of its optional attributes (strings of 1..2 unconstrained "
          "characters), one attribute at a time taking every JSON shape (also strings of 1..16 unconstrained characters, null, 0, false, empty, and numbers 0..20), with and without content and marks, every mark on every type that takes marks, every child type in every "
          "container and documents of every container to depth 4; every single field changed, removed or added for equality; "
          "every required field left out")


def cls_of(d, mark=False):
    return getattr(api, (s.MARKS if mark else s.NODES)[d["type"]][0])


def build(d, mark=False, with_type=False):
    """the element made by calling the classes, without from_dict"""
    cls = cls_of(d, mark)
    kw = {}
    for k in d:
        if k == "type":
            if with_type:
                kw["type"] = d["type"]
        elif k == "attrs":
            kw["attrs"] = getattr(api, cls.__name__ + "Attrs")(**copy_of(d["attrs"]))
        elif k == "content":
            kw["content"] = [build(x, False, with_type) for x in d["content"]]
        elif k == "marks":
            kw["marks"] = [build(x, True, with_type) for x in d["marks"]]
        else:
            kw[k] = d[k]
    return cls(**kw)


def md_of(ctx, el, mark=False):
    r = ctx.run(el.to_markdown, "tx") if mark else ctx.run(el.to_markdown)
    q = ctx.run(el.to_markdown, "") if mark else ctx.run(el.to_markdown, ignore_error=True)
    return [r.value if r.ok else "raised " + type(r.exc).__name__, q.value if q.ok else "raised " + type(q.exc).__name__]


def judge(ctx, d, mark=False):
    x = build(d, mark, ctx.flag("with type"))
    y = (api.parse_mark if mark else api.parse_node)(copy_of(d))
    z = cls_of(d, mark).from_dict(copy_of(d))
    ctx.check(type(x) is type(y) and type(x) is type(z), "the same class")
    dx = x.to_dict()
    ctx.observe("dx", dx)
    ctx.check(same(ctx, dx, d), "serializes to its fields")
    ctx.check(same(ctx, dx, y.to_dict()) and same(ctx, dx, z.to_dict()), "serializes like the parsed one")
    mx = md_of(ctx, x, mark)
    ctx.observe("mx", mx)
    ctx.check(same(ctx, mx, md_of(ctx, y, mark)) and same(ctx, mx, md_of(ctx, z, mark)), "renders like the parsed one")
    ctx.check(x == y and y == z and z == x, "equals the parsed one")
    ctx.check(not (x != y), "equals the parsed one")
    ctx.check(same(ctx, x.to_kwargs(), d) and same(ctx, y.to_kwargs(), d), "and so are its keyword arguments")
    if "attrs" in d:
        ctx.check(same(ctx, x.attrs.to_dict(), d["attrs"]) and same(ctx, y.attrs.to_dict(), d["attrs"]), "its attributes")
        ctx.check(same(ctx, x.attrs.to_kwargs(), d["attrs"]) and same(ctx, y.attrs.to_kwargs(), d["attrs"]), "their keyword arguments")


def wide(ctx, typ, mark=False):
    """required attributes and any subset of the optional ones"""
    _, req, opt = (s.MARKS if mark else s.NODES)[typ][:3]
    d = s.mark(typ) if mark else s.node(typ, text="tx")
    if req is None:
        return d
    at = dict(d.get("attrs", {}))
    for k in list(at):
        if isinstance(at[k], str) and k not in ("timestamp", "type", "state", "panelType"):
            at[k] = ctx.chars("r." + k, 1)
    for k in opt:
        if ctx.flag("has." + k):
            v = s.VALUES[k]
            at[k] = ctx.chars("o." + k, 1) if isinstance(v, str) and k not in ("type", "layout", "widthType") else v
    if at or mark or not ctx.flag("no attrs"):
        d["attrs"] = at
    return d


@case(CASES, quick=list(s.NODES), cost=2)
def nodes(ctx, typ):
    """every subset of the fields"""
    d = wide(ctx, typ)
    if s.NODES[typ][4] is not None:
        k = ctx.choose("content", 2)
        if k:
            d["content"] = [s.node("text", text=ctx.chars("t", 2)), s.node("emoji", optional=True)]
    if s.NODES[typ][5] and ctx.flag("marks"):
        d["marks"] = [s.mark("strong"), s.mark("link", True)]
    judge(ctx, d)


@case(CASES, quick=list(s.MARKS))
def marks(ctx, typ):
    d = wide(ctx, typ, True)
    if ctx.flag("alone"):
        judge(ctx, d, True)
    else:
        holder = ctx.pick("holder", [t for t in s.NODES if s.NODES[t][5]])
        judge(ctx, s.node(holder, marks=[[d], [d, s.mark("em")], [s.mark("link"), d]][ctx.choose("place", 3)], text=ctx.chars("t", 1)))


KINDS = ["str", "long", "int", "empty", "false", "true", "null", "list", "object", "nested", "float", "zero"]


def value(ctx, name, kind, dom=None):
    if kind == "str":
        return ctx.text(name, 1, 2, dom)
    if kind == "long":
        return ctx.chars(name, 3 + ctx.choose(name + ".n", 14) if dom != "digit" else 10, dom or "not:`")
    if kind == "int":
        return ctx.int(name, 0, 20)
    return {"empty": "", "false": False, "true": True, "null": None, "list": [], "object": {}, "zero": 0, "float": 0.5,
            "nested": {"a": [{"b": None}, [], {}, 0, ""], "c": {"attrs": {"type": "x"}, "content": []}}}[kind]


@case(CASES, quick=[t for t in s.NODES if s.NODES[t][1] or s.NODES[t][2]] + ["mark:" + m for m in s.MARKS if s.MARKS[m][1]])
def values(ctx, typ):
    """one field takes every JSON shape, the others absent or all present"""
    mark = typ.startswith("mark:")
    t = typ[5:] if mark else typ
    _, req, opt = (s.MARKS if mark else s.NODES)[t][:3]
    full = ctx.flag("full")
    d = s.mark(t, full) if mark else s.node(t, optional=full)
    f = ctx.pick("field", req + opt)
    d.setdefault("attrs", {})[f] = value(ctx, "v", ctx.pick("kind", KINDS), {"panelType": "lower", "timestamp": "digit"}.get(f))
    judge(ctx, d, mark)


@case(CASES, quick=s.containers(), cost=2)
def children(ctx, typ):
    """every child type in every container"""
    kinds = list(s.NODES)
    c = s.node(kinds[ctx.choose("child", len(kinds))], optional=ctx.flag("full"))
    t = s.node("text", text=ctx.chars("t", 1))
    judge(ctx, s.node(typ, content=[[c], [t, c], [c, t, copy_of(c)]][ctx.choose("place", 3)]))


@case(CASES, quick=[None], cost=2)
def documents(ctx, _):
    x, y = ctx.chars("x", 2), ctx.chars("y", 1, "line")
    ds = [lambda: a.bullets(a.item(a.pt(x, a.STRONG), a.ordered(a.item(a.pt(y)), order=0))),
          lambda: a.tasks(a.task("DONE", a.text(x)), a.tasks(a.task("TODO", a.text(y), a.br()))),
          lambda: a.table(a.row(a.hcell(a.pt(x)), a.hcell()), a.row(a.cell(a.panel("info", a.pt(y))), a.cell(a.code(x)))),
          lambda: a.panel("note", a.quote(a.expand(a.pt(x), a.decisions(a.decision(a.text(y)))))),
          lambda: a.para(a.text(y, a.link("u", x)), a.date("0"), a.mention("i", x), a.inline_card(y), a.status(x)),
          lambda: a.media_single(a.media("external", url=y, alt=x), {"type": "caption", "content": [a.text(x)]})]
    d = a.doc(a.heading(2, a.text(y)), ds[ctx.choose("d", len(ds))](), a.rule(), a.pt(x))
    judge(ctx, d)


def leaves(x, path, out):
    if isinstance(x, dict):
        for k in x:
            if k != "type" or path[-1:] == ["attrs"]:
                leaves(x[k], path + [k], out)
    elif isinstance(x, list):
        for i in range(len(x)):
            leaves(x[i], path + [i], out)
    elif isinstance(x, (str, int, float)):
        out.append(path)


def differ(ctx, d, mark=False):
    """an element equals another exactly when their data are equal"""
    out = []
    leaves(d, [], out)
    e = copy_of(d)
    k = ctx.choose("path", len(out) + 1)
    if k < len(out):
        at, owner = e, e
        for p in out[k][:-1]:
            if p == "attrs":
                owner = at
            at = at[p]
        p = out[k][-1]
        opt = (s.MARKS.get(owner["type"]) or s.NODES[owner["type"]])[2] if out[k][-2:-1] == ["attrs"] else []
        if p in opt and ctx.flag("removed"):
            del at[p]
        elif isinstance(at[p], bool):
            at[p] = not at[p]
        elif isinstance(at[p], str):
            at[p] = ctx.chars("v", len(at[p]), "any")
        else:
            at[p] = ctx.int("n", 0, 30) if isinstance(at[p], int) else at[p] + 1
    parse = api.parse_mark if mark else api.parse_node
    x, y = parse(copy_of(d)), parse(copy_of(e))
    want = same(ctx, d, e)
    ctx.observe("e", e)
    ctx.check((x == y) == want, "equal exactly when the data are")
    ctx.check((y == x) == want, "either way round")
    ctx.check((x != y) != want, "and unequal otherwise")
    ctx.check(x == parse(copy_of(d)), "equal to itself parsed again")


@case(CASES, quick=list(s.NODES))
def equal_nodes(ctx, typ):
    d = s.node(typ, optional=ctx.flag("full"), text="w")
    if s.NODES[typ][4] is not None:
        d["content"] = [s.node("text", text="ab"), s.node("mention")]
    if s.NODES[typ][5]:
        d["marks"] = [s.mark("link", True), s.mark("strong")]
    differ(ctx, d)


@case(CASES, quick=[m for m in s.MARKS if s.MARKS[m][1]])
def equal_marks(ctx, typ):
    differ(ctx, s.mark(typ, ctx.flag("full")), True)


@case(CASES, quick=["nodes", "marks", "order", "number"])
def unequal(ctx, how):
    """other types, other order, other number of children or marks: unequal"""
    t = ctx.chars("t", 1)
    if how in ("nodes", "marks"):
        kinds = list(s.NODES if how == "nodes" else s.MARKS)
        i, j = ctx.choose("i", len(kinds)), ctx.choose("j", len(kinds))
        mk, parse = (s.node, api.parse_node) if how == "nodes" else (s.mark, api.parse_mark)
        x, y = parse(mk(kinds[i])), parse(mk(kinds[j]))
        ctx.check((x == y) is (i == j), "equal exactly when of one type")
        return
    c = [a.text(t), a.text("b", a.STRONG), a.br()]
    k = ctx.choose("k", 3)
    if how == "order":
        e = [[c[1], c[0], c[2]], [c[0], c[2], c[1]], [c[2], c[1], c[0]]][k]
    else:
        e = [c[:2], c + [a.br()], c[1:]][k]
    x, y = api.parse_node(a.para(*c)), api.parse_node(a.para(*e))
    ctx.check(x != y and not (x == y), "other children are other elements")
    m = [s.mark("em"), s.mark("strong"), s.mark("link")]
    n = [[m[1], m[0], m[2]], m[:2], m + [m[0]]][k]
    ctx.check(api.parse_node(a.text(t, *m)) != api.parse_node(a.text(t, *n)), "other marks are other elements")


@case(CASES, quick=list(s.NODES) + ["mark:" + m for m in s.MARKS])
def required(ctx, typ):
    """leaving out a required field raises"""
    mark = typ.startswith("mark:")
    t = typ[5:] if mark else typ
    d = s.mark(t) if mark else s.node(t, text=ctx.chars("x", 1))
    req = (s.MARKS if mark else s.NODES)[t][1] or []
    missing = ["attrs." + k for k in req]
    if (mark and req) or (not mark and s.NODES[t][3]):
        missing.append("attrs")
    if not mark and s.NODES[t][4] == "req":
        missing.append("content")
    if t == "text":
        missing.append("text")
    if not missing:
        judge(ctx, d, mark)
        return
    w = ctx.pick("missing", missing)
    if w.startswith("attrs."):
        del d["attrs"][w[6:]]
    else:
        del d[w]
    r = ctx.run(build, d, mark)
    ctx.observe("kind", r.kind)
    ctx.check(not r.ok, "a required field has to be given")
