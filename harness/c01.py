"""C01: parse, then serialize, gives back the same data."""
from atlas_doc_parser import api
from .reg import case
from . import spec as s
from .util import same, jsonish, copy_of

CASES = {}
BOUNDS = ("every implemented type; every subset of optional attrs; one attribute at a time taking every JSON shape "
          "(string of 0..20 unconstrained characters, any integer in +-10^12, 0, false, true, null, '', [], {}, nested "
          "lists/objects, float); every container with every child type; 0..3 children (12 concretely); nesting to depth 4 "
          "(24 concretely); mark lists of 0..2 of every type with every attribute subset")

KINDS = ["str", "long", "int", "empty", "false", "true", "null", "list", "object", "nested", "float", "zero", "fields"]
# an object with a key of every name that any type models
FIELDS = {k: "q" for _, m in sorted(list(s.NODES.items()) + list(s.MARKS.items())) for k in (m[1] or []) + m[2]}
FIELDS.update({"type": "text", "attrs": {"text": "q"}, "content": [{"type": "text", "text": "q"}], "marks": [{"type": "em"}], "version": 1})


def value(ctx, name, kind):
    if kind == "str":
        return ctx.text(name, 0, 3)
    if kind == "long":
        return ctx.chars(name, 4 + ctx.choose(name + ".n", 17))
    if kind == "int":
        return ctx.int(name, -10 ** 12, 10 ** 12)
    return {"empty": "", "false": False, "true": True, "null": None, "list": [], "object": {}, "zero": 0,
            "nested": {"a": [{"b": None}, [], {}, 0, ""], "c": {"attrs": {"type": "x"}, "content": []}},
            "float": 0.5, "fields": copy_of(FIELDS)}[kind]


def round_trip(ctx, d, parse=None):
    before = copy_of(d)
    el = (parse or api.parse_node)(d)
    out = el.to_dict()
    ctx.observe("out", out)
    ctx.check(jsonish(out), "plain data only")
    ctx.check(same(ctx, out, before), "serialized form equals the input")
    return el


def class_parse(name, d):
    return getattr(api, name).from_dict(d)


@case(CASES, quick=list(s.NODES), cost=3)
def node_optional_subsets(ctx, typ):
    """every subset of the optional attributes, attrs absent or empty, values unconstrained strings"""
    cls, req, opt, need, cont, has_marks = s.NODES[typ]
    d = s.node(typ, text=ctx.chars("text", 2))
    if req is not None:
        if need or req or ctx.flag("attrs"):
            a = {k: ctx.chars("a." + k, 2) for k in req}
            for k in opt:
                if ctx.flag("has." + k):
                    a[k] = ctx.chars("a." + k, 2)
            d["attrs"] = a
    if cont is not None:
        n = ctx.choose("content", 3 if cont == "opt" else 2)
        d.pop("content", None)
        if n < 2:
            d["content"] = [] if n == 0 else [{"type": "text", "text": ctx.chars("t", 2)}]
    if has_marks and typ != "text":
        n = ctx.choose("marks", 3)
        if n:
            d["marks"] = [] if n == 1 else [{"type": "em"}, {"type": "link", "attrs": {"href": ctx.chars("href", 2)}}]
    if ctx.flag("direct"):
        round_trip(ctx, d, lambda x: class_parse(cls, x))
    else:
        round_trip(ctx, d)


@case(CASES, quick=list(s.NODES), cost=2)
def node_attr_values(ctx, typ):
    """one attribute takes every JSON shape, the others absent or all present"""
    cls, req, opt, need, cont, has_marks = s.NODES[typ]
    fields = list(req or []) + opt
    d = s.node(typ, optional=ctx.flag("full"))
    if typ == "text":
        d["text"] = ctx.text("v", 0, 3)
    elif typ == "doc":
        d["version"] = value(ctx, "v", ctx.pick("kind", KINDS))
    elif fields:
        f = ctx.pick("field", fields)
        d.setdefault("attrs", {})[f] = value(ctx, "v", ctx.pick("kind", KINDS))
    round_trip(ctx, d)


@case(CASES, quick=list(s.MARKS))
def mark_attrs(ctx, typ):
    """marks: every attribute subset and JSON shape, alone and on a text"""
    cls, req, opt = s.MARKS[typ]
    d = {"type": typ}
    if req is not None:
        a = {k: ctx.chars("a." + k, 2) for k in req}
        for k in opt:
            if ctx.flag("has." + k):
                a[k] = ctx.chars("a." + k, 2)
        if req + opt and ctx.flag("special"):
            f = ctx.pick("field", req + opt)
            if f in a:
                a[f] = value(ctx, "v", ctx.pick("kind", KINDS))
        d["attrs"] = a
    how = ctx.choose("how", 3)
    if how == 0:
        round_trip(ctx, d, api.parse_mark)
    elif how == 1:
        round_trip(ctx, d, lambda x: class_parse(cls, x))
    else:
        round_trip(ctx, {"type": "text", "text": "w", "marks": [d]})


@case(CASES, quick=[t for t in s.NODES if s.NODES[t][5]], cost=2)
def mark_pairs(ctx, holder):
    """lists of 0..2 marks of every type, order kept, on every node that carries marks"""
    names = list(s.MARKS)
    ms = []
    for i in range(ctx.choose("n", 3)):
        t = names[ctx.choose("m%d" % i, len(names))]
        m = s.mark(t, optional=True)
        if "attrs" in m:
            k = sorted(m["attrs"])[0]
            m["attrs"][k] = ctx.chars("v%d" % i, 2)
        ms.append(m)
    round_trip(ctx, s.node(holder, marks=ms, optional=True))


@case(CASES, quick=s.containers(), cost=2)
def children(ctx, typ):
    """every container with every type of child, the child first, middle or last"""
    kinds = list(s.NODES)
    c = kinds[ctx.choose("child", len(kinds))]
    child = s.node(c, optional=ctx.flag("full"), text=ctx.chars("x", 1))
    if s.NODES[c][4] is not None:
        k = ctx.choose("inside", 3 if s.NODES[c][4] == "opt" else 2)
        child["content"] = [[s.node("text", text=ctx.chars("y", 1))], []][k % 2]
        if k == 2:
            del child["content"]
    elif c == "text" and ctx.flag("empty text"):
        child["text"] = ""
    if s.NODES[c][5] and ctx.flag("marks"):
        child["marks"] = []
    sib = [{"type": "text", "text": ctx.chars("s%d" % i, 1)} for i in range(2)]
    pos = ctx.choose("pos", 6)
    content = [[child], [child] + sib, [sib[0], child, sib[1]], sib + [child], [child, copy_of(child)],
               [copy_of(child), sib[0], child]][pos]
    round_trip(ctx, s.node(typ, content=content, optional=True))


@case(CASES, quick=[3], thorough=[3, 4], cost=3)
def trees(ctx, depth):
    """nested containers, each level any container type with 0..2 further children"""
    pool = ["doc", "paragraph", "tableCell", "bulletList", "panel", "taskItem"]
    leaf = ["text", "hardBreak", "mention"]
    count = [0]

    def make(level, name):
        typ = pool[ctx.choose(name + "t", len(pool))]
        d = s.node(typ, optional=True)
        kids = []
        if level:
            kids.append(make(level - 1, name + "0"))
        n = ctx.choose(name + "n", 2)
        for i in range(n):
            count[0] += 1
            kids.insert(i % 2, s.node(leaf[count[0] % 3], text=ctx.chars(name + "x%d" % i, 1)))
        d["content"] = kids
        return d
    round_trip(ctx, make(depth - 1, "r"))


@case(CASES, quick=[24], thorough=[24, 60])
def deep_and_wide(ctx, n):
    """long sibling lists and deep nesting, equal texts allowed"""
    x = [ctx.chars("x%d" % i, 2) for i in range(3)]
    typ = ctx.pick("typ", ["bulletList", "paragraph", "tableRow", "panel", "doc"])
    if ctx.flag("deep"):
        d = s.node("text", text=x[0])
        for i in range(n):
            d = s.node(typ, content=[d, s.node("text", text=x[i % 3])])
    else:
        d = s.node(typ, content=[s.node("text", text=x[i % 3], marks=[{"type": "strong"}] * (i % 4))
                                 for i in range(n)])
    round_trip(ctx, d)
