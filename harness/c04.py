"""C04: malformed elements make parsing fail, wherever they are."""
from atlas_doc_parser import api, settings
from .reg import case
from . import spec as s
from .util import copy_of

CASES = {}
BOUNDS = ("every implemented type with a required field, each required field (type, attrs, one attribute, content) removed; "
          "optional attributes absent or present, with unconstrained one-character values, one of them of 1..16 characters; the element alone, in every "
          "container, first/middle/last among up to 3 siblings that may be unimplemented, to depth 5; warnings on and off; attrs that is no object where "
          "attributes are required; two broken elements")


def defects(typ):
    """ways to break an element of this node type: names of what is removed"""
    cls, req, opt, need, cont, has_marks = s.NODES[typ]
    out = ["type"]
    if need:
        out.append("attrs")
    for k in req or []:
        out.append("attrs." + k)
    if cont == "req":
        out.append("content")
    if typ == "text":
        out.append("text")
    return out


def mark_defects(typ):
    cls, req, opt = s.MARKS[typ]
    return ["type"] + (["attrs"] if req else []) + ["attrs." + k for k in req or []]


def break_it(d, what):
    d = copy_of(d)
    if what.startswith("attrs."):
        del d["attrs"][what[6:]]
    else:
        d.pop(what, None)
    return d


def rejected(ctx, d, parse=None):
    settings.WARN_UNIMPLEMENTED_TYPE = ctx.flag("warn") if "quiet" not in ctx.__dict__ else False
    r = ctx.run(parse or api.parse_node, d)
    ctx.observe("outcome", r.kind)
    ctx.check(not r.ok, "parsing raises")


@case(CASES, quick=list(s.NODES))
def node_alone(ctx, typ):
    """the element itself, through the dispatcher and through its class"""
    cls, req, opt, need, cont, has_marks = s.NODES[typ]
    ds = defects(typ)
    what = ds[ctx.choose("what", len(ds))]
    d = s.node(typ, optional=ctx.flag("optional"))
    for k in list(d.get("attrs", {})):
        if "attrs." + k != what:
            d["attrs"][k] = ctx.chars("v." + k, 1)
    if cont is not None and ctx.flag("content"):
        d["content"] = [s.node("text", text="w")]
    d = break_it(d, what)
    if what != "type" and ctx.flag("class"):
        rejected(ctx, d, lambda x: getattr(api, cls).from_dict(x))
    else:
        rejected(ctx, d)


@case(CASES, quick=list(s.MARKS))
def mark_alone(ctx, typ):
    cls, req, opt = s.MARKS[typ]
    ds = mark_defects(typ)
    what = ds[ctx.choose("what", len(ds))]
    d = s.mark(typ, optional=ctx.flag("optional"))
    for k in list(d.get("attrs", {})):
        if "attrs." + k != what:
            d["attrs"][k] = ctx.chars("v." + k, 1)
    d = break_it(d, what)
    how = ctx.choose("how", 3 if what != "type" else 2)
    if how == 0:
        rejected(ctx, d, api.parse_mark)
    elif how == 1:
        holder = ctx.pick("holder", [t for t in s.NODES if s.NODES[t][5]])
        pos = ctx.choose("pos", 3)
        ms = [[d], [d, s.mark("em")], [s.mark("em"), {"type": "zzUnknown"}, d]][pos]
        rejected(ctx, s.node(holder, marks=ms))
    else:
        rejected(ctx, d, lambda x: getattr(api, cls).from_dict(x))


def broken(ctx):
    """any broken node, or a text with a broken mark"""
    options = [(t, w) for t in s.NODES for w in defects(t)] + [("mark:" + t, w) for t in s.MARKS
                                                              for w in mark_defects(t)]
    t, what = options[ctx.choose("which", len(options))]
    if t.startswith("mark:"):
        return s.node("text", text="w", marks=[break_it(s.mark(t[5:]), what)])
    return break_it(s.node(t), what)


@case(CASES, quick=s.containers(), cost=2)
def in_container(ctx, typ):
    """in every container, among good and unimplemented siblings"""
    b = broken(ctx)
    good = s.node("text", text=ctx.chars("g", 1))
    unknown = {"type": "zzUnknown"}
    pos = ctx.choose("pos", 5)
    content = [[b], [b, good, good], [good, b, good], [good, good, b], [unknown, b, unknown]][pos]
    rejected(ctx, s.node(typ, content=content, optional=True))


@case(CASES, quick=[2, 3], thorough=[2, 3, 4], cost=4)
def deep(ctx, depth):
    """every chain of block containers above it"""
    pool = ["doc", "panel", "bulletList", "listItem", "tableCell", "table", "tableRow", "expand", "taskList", "mediaSingle",
            "paragraph", "caption"]
    if ctx.tier == "quick" and depth > 2:
        pool = pool[::2]
    simple = [("heading", "attrs.level"), ("text", "text"), ("text", "type"), ("mention", "attrs"),
              ("listItem", "content")]
    t, what = simple[ctx.choose("which", len(simple))]
    d = break_it(s.node(t), what)
    ctx.quiet = True
    for i in range(depth):
        typ = pool[ctx.choose("c%d" % i, len(pool))]
        d = s.node(typ, content=[s.node("text"), d] if i % 2 else [d, s.node("text")])
    rejected(ctx, d)


@case(CASES, quick=[30])
def among_many(ctx, n):
    """one broken element among many siblings, at any index"""
    b = broken(ctx) if ctx.tier == "thorough" else break_it(s.node("mention"), "attrs.id")
    i = ctx.choose("index", n)
    content = [s.node("text", text="w") for _ in range(n)]
    content[i] = b
    ctx.quiet = True
    rejected(ctx, s.node(ctx.pick("in", ["doc", "paragraph", "taskList"]), content=content))


ODD = [None, "x", "", [], ["id"], 5, True]


@case(CASES, quick=[t for t in s.NODES if s.NODES[t][1]] + ["mark:" + m for m in s.MARKS if s.MARKS[m][1]])
def no_object(ctx, typ):
    """attrs that is no object cannot hold the attributes that are required"""
    v = ODD[ctx.choose("value", len(ODD))]
    if typ.startswith("mark:"):
        d = s.mark(typ[5:])
        d["attrs"] = v
        k = ctx.choose("holder", 3)
        if k == 0:
            rejected(ctx, d, api.parse_mark)
            return
        d = s.node("text", text=ctx.chars("t", 1), marks=[[d], [s.mark("em"), d]][k - 1])
    else:
        d = s.node(typ)
        d["attrs"] = v
    if ctx.flag("inside"):
        holder = ctx.pick("in", ["doc", "paragraph", "listItem", "tableCell", "mediaSingle"])
        d = s.node(holder, content=[s.node("text", text="w"), d])
    rejected(ctx, d)


@case(CASES, quick=s.containers(), cost=2)
def twice_broken(ctx, typ):
    """two broken elements, also the same one twice, do not cancel out"""
    b = broken_few(ctx, "a")
    c = broken_few(ctx, "b") if ctx.flag("other") else copy_of(b)
    content = [[b, c], [b, s.node("text", text="w"), c]][ctx.choose("between", 2)]
    d = s.node(typ, content=content)
    ctx.quiet = True
    rejected(ctx, d)
    rejected(ctx, d)


def broken_few(ctx, name):
    t, what = ctx.pick(name, [("heading", "attrs.level"), ("text", "text"), ("text", "type"), ("mention", "attrs"), ("listItem", "content"),
                              ("emoji", "attrs.shortName"), ("panel", "content"), ("media", "attrs.type")])
    return break_it(s.node(t), what)


@case(CASES, quick=[t for t in s.NODES if s.NODES[t][1] or s.NODES[t][2]], cost=2)
def spelled(ctx, typ):
    """what the element does hold, of any letters and any length up to 16, makes up for nothing that it lacks"""
    cls, req, opt, need, cont, has_marks = s.NODES[typ]
    what = ctx.pick("what", [w for w in defects(typ) if w != "attrs"])
    d = s.node(typ, optional=True)
    k = ctx.pick("field", [k for k in list(req or []) + opt if "attrs." + k != what] or [""])
    if k:
        d["attrs"][k] = ctx.word("v", 1 + ctx.choose("n", 16))
    if cont is not None:
        d["content"] = [s.node("text", text=ctx.word("t", 3))]
    ctx.quiet = True
    d = break_it(d, what)
    if ctx.flag("inside"):
        d = s.node(["doc", "paragraph", "panel"][len(k) % 3], content=[s.node("text", text="w"), d])
    rejected(ctx, d)
