"""C05: dispatch by type name."""
from atlas_doc_parser import api
from .reg import case
from . import spec as s

CASES = {}
BOUNDS = ("type names: every string of 0..24 characters (all near misses included), the registered names of both "
          "categories, real unimplemented ADF names; element payload minimal or rich")


def name_checks(ctx, parse, known, other, category, n):
    t = ctx.chars("type", n)
    d = {"type": t}
    if ctx.flag("payload"):
        d = {"attrs": {"level": 1, "href": "h"}, "type": t, "content": [], "text": "w", "marks": []}
    for k in known:
        if len(k) == n:
            ctx.assume(ctx.no(t == k))
    r = ctx.run(parse, d)
    ctx.observe("kind", r.kind)
    ctx.check(not r.ok, "an unknown name is not accepted")
    if not r.ok:
        ctx.check(isinstance(r.exc, api.UnimplementedTypeError), "the unimplemented-type error is raised")
        if isinstance(r.exc, api.UnimplementedTypeError):
            ctx.observe("value", r.exc.type_value)
            ctx.check(ctx.eq(r.exc.type_value, t), "it carries the name")
            ctx.check(r.exc.category == category, "it carries the category")


@case(CASES, quick=list(range(25)), thorough=list(range(41)))
def node_unknown(ctx, n):
    name_checks(ctx, api.parse_node, s.NODES, s.MARKS, "node", n)


@case(CASES, quick=list(range(25)), thorough=list(range(41)))
def mark_unknown(ctx, n):
    name_checks(ctx, api.parse_mark, s.MARKS, s.NODES, "mark", n)


@case(CASES, quick=["node", "mark"])
def listed_unknown(ctx, category):
    """real names that are not implemented in this category"""
    if category == "node":
        names = s.UNIMPLEMENTED_NODES + [m for m in s.MARKS if m not in s.NODES]
        parse = api.parse_node
    else:
        names = s.UNIMPLEMENTED_MARKS + [m for m in s.NODES if m not in s.MARKS]
        parse = api.parse_mark
    t = names[ctx.choose("t", len(names))]
    d = {"type": t}
    extra = ctx.choose("extra", 3)
    if extra == 1:
        d["attrs"] = dict(s.VALUES)
    elif extra == 2:
        d.update(attrs=dict(s.VALUES), content=[{"type": "text", "text": "w"}], marks=[{"type": "em"}], text="w")
    r = ctx.run(parse, d)
    ctx.observe("kind", r.kind)
    ctx.check(not r.ok and isinstance(r.exc, api.UnimplementedTypeError), "the unimplemented-type error is raised")
    if not r.ok and isinstance(r.exc, api.UnimplementedTypeError):
        ctx.check(r.exc.type_value == t and r.exc.category == category, "it carries name and category")


@case(CASES, quick=["node", "mark"])
def known(ctx, category):
    """every registered name yields an element of exactly that type"""
    names = list(s.NODES) if category == "node" else list(s.MARKS)
    t = names[ctx.choose("t", len(names))]
    full = ctx.flag("full")
    if category == "node":
        d, cls, parse = s.node(t, optional=full), s.NODES[t][0], api.parse_node
    else:
        d, cls, parse = s.mark(t, optional=full), s.MARKS[t][0], api.parse_mark
    if ctx.flag("extra"):
        d["zz"] = ctx.chars("zz", 2)
    el = parse(d)
    ctx.observe("type", el.type)
    ctx.check(el.type == t, "type name kept")
    ctx.check(type(el) is getattr(api, cls), "class of the type")
    ctx.check(isinstance(el, api.BaseNode if category == "node" else api.BaseMark), "category")
    for other in names:
        ctx.check(el.is_type_of(api.TypeEnum(other)) == (other == t), "is of exactly that type")


@case(CASES, quick=list(s.NODES))
def in_content(ctx, t):
    """dispatch of children and marks inside a document"""
    child = s.node(t, optional=ctx.flag("full"))
    typ = ctx.pick("in", ["doc", "paragraph", "listItem", "tableCell"])
    el = api.parse_node(s.node(typ, content=[child, s.node("rule"), child]))
    ctx.observe("types", [c.type for c in el.content])
    ctx.check([type(c) for c in el.content] == [getattr(api, s.NODES[t][0]), api.NodeRule, getattr(api, s.NODES[t][0])],
              "children have the classes of their types")
    for m in s.MARKS:
        x = api.parse_node(s.node("text", marks=[s.mark(m), s.mark("em")]))
        ctx.check([type(c) for c in x.marks] == [getattr(api, s.MARKS[m][0]), api.MarkEm], "marks")


@case(CASES, quick=list(range(1, 17)))
def symbolic_known(ctx, n):
    """a symbolic name of n characters: accepted exactly when it is registered"""
    category = ctx.pick("category", ["node", "mark"])
    t = ctx.chars("type", n)
    d = {"type": t, "attrs": dict(s.VALUES), "content": [], "text": "w"}
    reg = s.NODES if category == "node" else s.MARKS
    r = ctx.run(api.parse_node if category == "node" else api.parse_mark, d)
    ctx.observe("kind", r.kind)
    if r.ok:
        hits = [k for k in reg if len(k) == n and bool(t == k)]
        ctx.check(len(hits) == 1, "accepted names are registered names")
        if hits:
            ctx.check(type(r.value) is getattr(api, reg[hits[0]][0]), "class of the type")
    else:
        ctx.check(not any([bool(t == k) for k in reg if len(k) == n]), "registered names are accepted")
