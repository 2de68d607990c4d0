"""C02: fields the library does not model are ignored."""
from atlas_doc_parser import api
from .reg import case
from . import spec as s
from .util import same, jsonish, copy_of

CASES = {}
BOUNDS = ("every implemented type with minimal and with all attributes; one extra field with any name of 1..12 "
          "characters that is not modelled there (and is not type/attrs/content/marks), plus a list of real ADF and "
          "Python-looking names; value of every JSON shape; placed in the element, in its attrs, in a mark, in a mark's "
          "attrs or in a nested child; up to 12 extra fields at once")

STRUCT = ["type", "attrs", "content", "marks"]
NAMES = ["version", "text", "localId", "from_dict", "to_dict", "to_markdown", "__class__", "self", "cls", "is_type_of",
         "id", "url", "order", "level", "new_field", "data", "dct", "_cls", "0", " ", "key", "kwargs", "fields",
         "breakout", "width", "state", "layout", "title", "style", "color", "language", "OPT", "REQ", "default"]


def outcome(ctx, d, parse):
    r = ctx.run(parse, d)
    if not r.ok:
        return ["parse failed", type(r.exc).__name__]
    out = [r.value.to_dict()]
    m = ctx.run(r.value.to_markdown, "mk") if d["type"] in s.MARKS else ctx.run(r.value.to_markdown)
    if m.ok:
        out.append(["md", m.value])
    else:
        out.append(["raised", type(m.exc).__name__])
    return out


def compare(ctx, plain, extra, parse=None):
    parse = parse or api.parse_node
    want = outcome(ctx, copy_of(plain), parse)
    got = outcome(ctx, extra, parse)
    ctx.observe("got", got)
    ctx.check(want[0] != "parse failed", "the plain element parses")
    ctx.check(got[0] != "parse failed", "the extra field does not make parsing fail")
    if got[0] != "parse failed":
        ctx.check(same(ctx, got[0], want[0]), "serialized form unchanged")
        ctx.check(same(ctx, got[1], want[1]), "Markdown unchanged")


def value(ctx, few=False):
    k = ctx.choose("kind", 8 if ctx.tier == "thorough" else 2 if few else 4)
    return [lambda: ctx.chars("v", 2), lambda: {"type": "nope", "content": [{}]}, lambda: None, lambda: [{"type": "x"}],
            lambda: ctx.int("v", -5, 5), lambda: {}, lambda: [], lambda: True][k]()


def name(ctx, taken, lens):
    """an arbitrary name that is not modelled"""
    n = ctx.pick("len", lens)
    return ctx.key("name", n, None, [t for t in list(taken) + STRUCT if len(t) == n])


def fields_of(typ):
    cls, req, opt, need, cont, has_marks = s.NODES[typ]
    top = list(STRUCT) + (["text"] if typ == "text" else []) + (["version"] if typ == "doc" else [])
    return top, list(req or []) + opt


def full(typ):
    d = s.node(typ, optional=True)
    if s.NODES[typ][4] is not None:
        d["content"] = [s.node("text", text="ab")]
    if typ == "bulletList" or typ == "orderedList":
        d["content"] = [s.node("listItem", content=[s.node("paragraph", content=[s.node("text", text="ab")])])]
    if typ == "table":
        d["content"] = [s.node("tableRow", content=[s.node("tableHeader", content=[])])]
    return d


@case(CASES, quick=list(s.NODES), cost=3)
def node_symbolic_name(ctx, typ):
    top, attrs = fields_of(typ)
    d = full(typ) if ctx.flag("full") else s.node(typ)
    e = copy_of(d)
    lens = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12]
    if "attrs" in d and ctx.flag("in attrs"):
        e["attrs"][name(ctx, attrs, lens)] = value(ctx)
    else:
        e[name(ctx, top, lens)] = value(ctx)
    compare(ctx, d, e)


@case(CASES, quick=list(s.NODES), cost=2)
def node_known_names(ctx, typ):
    """names that exist elsewhere in the format or look like Python"""
    top, attrs = fields_of(typ)
    d = full(typ)
    e = copy_of(d)
    where = ctx.flag("in attrs") if "attrs" in d else False
    taken = attrs if where else top
    names = [n for n in NAMES + list(s.VALUES) if n not in taken]
    n = names[ctx.choose("name", len(names))]
    (e["attrs"] if where else e)[n] = value(ctx, True)
    compare(ctx, d, e)


@case(CASES, quick=list(s.MARKS), cost=2)
def mark_names(ctx, typ):
    cls, req, opt = s.MARKS[typ]
    d = s.mark(typ, optional=ctx.flag("full"))
    e = copy_of(d)
    where = "attrs" in d and ctx.flag("in attrs")
    taken = list(req) + opt if where else ["type", "attrs"]
    if ctx.flag("known"):
        names = [n for n in NAMES + list(s.VALUES) + ["content", "marks"] if n not in taken]
        k = names[ctx.choose("name", len(names))]
    else:
        n = ctx.choose("len", 10) + 1
        k = ctx.key("name", n, None, [t for t in taken if len(t) == n])
    (e["attrs"] if where else e)[k] = value(ctx, True)
    if ctx.flag("on text"):
        compare(ctx, s.node("text", marks=[d]), s.node("text", marks=[e]))
    else:
        compare(ctx, d, e, api.parse_mark)


@case(CASES, quick=s.containers())
def nested(ctx, typ):
    """extra fields in a child, in its attrs, in its marks and in a grandchild"""
    def make(extra):
        leaf = s.node("text", text="ab", marks=[s.mark("link"), s.mark("em")])
        para = s.node("paragraph", content=[leaf], optional=True)
        item = s.node("listItem", content=[para], optional=True)
        d = s.node(typ, content=[s.node("bulletList", content=[item]), s.node("heading", content=[copy_of(leaf)])])
        if extra is not None:
            spots = [d, para, para["attrs"], leaf, leaf["marks"][0], leaf["marks"][0]["attrs"], leaf["marks"][1], item]
            where = ctx.choose("where", len(spots))
            n = ctx.choose("len", 9) + 1
            k = ctx.key("name", n, None, [t for t in STRUCT + ["text", "version", "localId", "href", "title", "id",
                                                               "collection", "occurrenceKey"]
                                          + list(s.VALUES) if len(t) == n])
            spots[where][k] = extra
        return d
    compare(ctx, make(None), make(value(ctx)))


@case(CASES, quick=list(s.NODES))
def unmodelled_structure(ctx, typ):
    """attrs, content or marks on an element that does not model them (well-formed ones, or of another shape)"""
    cls, req, opt, need, cont, has_marks = s.NODES[typ]
    where = [k for k, absent in (("attrs", req is None), ("content", cont is None), ("marks", not has_marks)) if absent]
    d = full(typ) if ctx.flag("full") else s.node(typ)
    e = copy_of(d)
    k = ctx.pick("field", where) if where else "other"
    txt = ctx.chars("t", 1)
    ids = ctx.key("id", 3)
    vals = {"attrs": [{}, {ids: txt}, {"level": 3, "localId": txt, "url": txt, "order": 5}, None, txt],
            "content": [[], [s.node("text", text=txt)], [s.node("paragraph", content=[s.node("text", text="lost")])],
                        None, txt, {}],
            "marks": [[], [s.mark("breakout")], [s.mark("strong"), s.mark("link")], [s.mark("indentation")],
                      [s.mark("border"), s.mark("strong")], [s.mark("code")], None, txt],
            "other": [txt]}[k]
    e[k] = vals[ctx.choose("value", len(vals))]
    if ctx.flag("nested"):
        d, e = s.node("doc", content=[d]), s.node("doc", content=[e])
    compare(ctx, d, e)


@case(CASES, quick=[t for t in s.MARKS])
def mark_unmodelled_structure(ctx, typ):
    cls, req, opt = s.MARKS[typ]
    d = s.mark(typ, optional=ctx.flag("full"))
    e = copy_of(d)
    txt = ctx.chars("t", 1)
    k = ctx.pick("field", ["content", "marks"] + (["attrs"] if req is None else []))
    vals = [[], [s.mark("strong")], {}, {"href": txt, "title": txt, "level": 2}, None, txt, [s.node("text", text=txt)]]
    e[k] = vals[ctx.choose("value", len(vals))]
    compare(ctx, s.node("text", marks=[d]), s.node("text", marks=[e]))


@case(CASES, quick=[12])
def many(ctx, n):
    """many extra fields at once"""
    typ = ctx.pick("typ", list(s.NODES))
    d = full(typ)
    e = copy_of(d)
    for i in range(n):
        e["zz%d" % i] = [i]
        if "attrs" in e:
            e["attrs"]["zz%d" % i] = {"i": i}
    if ctx.flag("reordered"):
        e = {k: e[k] for k in reversed(list(e))}
    compare(ctx, d, e)


@case(CASES, quick=list(s.NODES))
def absent_stays_absent(ctx, typ):
    """an optional attribute that is not given is not materialised by the presence of others"""
    d = s.node(typ, optional=False)
    out = api.parse_node(copy_of(d)).to_dict()
    ctx.observe("out", out)
    ctx.check(same(ctx, out, d), "nothing is added")
    ctx.check(jsonish(out), "plain data")
