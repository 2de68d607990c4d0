"""C25: serialization is a normal form, and key order does not matter."""
from atlas_doc_parser import api
from .reg import case
from . import adf as a
from . import spec as s
from . import c24
from .util import same, jsonish, copy_of

CASES = {}
BOUNDS = ("every implemented type with all its fields, with extra fields of any name of 1..8 characters, unimplemented children and marks at "
          "every place, and one attribute of every JSON shape, strings of 1..16 unconstrained characters included; the keys of every object in every order (objects of up to 4 keys; reversed "
          "and rotated for larger ones), at one level or all, with 0..6 unknown ones among them; content and marks of which any entries are skipped; every mark on every holder; documents of 18 blocks and of depth 8 with "
          "extra fields and skipped elements throughout")


def md_of(ctx, el, mark=False):
    r = ctx.run(el.to_markdown, "tx") if mark else ctx.run(el.to_markdown)
    return r.value if r.ok else "raised " + type(r.exc).__name__


def fixpoint(ctx, d, mark=False):
    """parse, serialize, parse again"""
    parse = api.parse_mark if mark else api.parse_node
    x = parse(d)
    out = x.to_dict()
    ctx.observe("out", out)
    ctx.check(jsonish(out), "plain data")
    y = parse(copy_of(out))
    ctx.check(x == y and not (x != y), "the same element")
    again = y.to_dict()
    ctx.check(same(ctx, out, again), "the same serialized form")
    m = md_of(ctx, x, mark)
    ctx.observe("md", m)
    ctx.check(same(ctx, m, md_of(ctx, y, mark)), "the same Markdown")
    return x


def reorder(d, how):
    """the same JSON value with the keys of every object in another order"""
    if isinstance(d, dict):
        ks = list(d)
        return {k: reorder(d[k], how) for k in perm(ks, how)}
    if isinstance(d, list):
        return [reorder(x, how) for x in d]
    return d


def perm(ks, how):
    if how == 0:
        return ks[::-1]
    if how == 1:
        return sorted(ks)
    if how == 2:
        return sorted(ks)[::-1]
    k = how - 2
    return ks[k % len(ks):] + ks[:k % len(ks)] if ks else ks


def orders(n):
    """all orders of n things"""
    if n == 0:
        return [[]]
    return [p[:i] + [n - 1] + p[i:] for p in orders(n - 1) for i in range(n)]


def same_element(ctx, d, e, mark=False):
    parse = api.parse_mark if mark else api.parse_node
    r, q = ctx.run(parse, d), ctx.run(parse, e)
    ctx.check(r.ok and q.ok, "both parse")
    if not (r.ok and q.ok):
        return
    x, y = r.value, q.value
    ctx.check(x == y and not (x != y), "equal elements")
    ctx.check(same(ctx, x.to_dict(), y.to_dict()), "equal serialized forms")
    m = md_of(ctx, x, mark)
    ctx.observe("m", m)
    ctx.check(same(ctx, m, md_of(ctx, y, mark)), "equal Markdown")


def whole(ctx, typ, full, t):
    """the element with content, marks and all its attributes"""
    d = c24.filled(c24._Fixed(), typ, t)
    if full:
        for k in s.NODES[typ][2]:
            d.setdefault("attrs", {}).setdefault(k, s.VALUES[k])
    if s.NODES[typ][5] and full:
        d["marks"] = [s.mark("link", True), s.mark("strong")] if typ != "paragraph" else [s.mark("alignment"), s.mark("indentation")]
    return d


@case(CASES, quick=list(s.NODES), cost=2)
def key_order(ctx, typ):
    """the keys of the element, or of every object in it, in any order"""
    d = whole(ctx, typ, ctx.flag("full"), ctx.chars("t", 1))
    k = ctx.choose("how", 30)
    ks = list(d)
    if k >= 24:
        e = reorder(d, k - 24)
    else:
        os = orders(len(ks))
        if k >= len(os):
            return
        e = {ks[i]: d[ks[i]] for i in os[k]}
    same_element(ctx, d, e)


@case(CASES, quick=list(s.MARKS))
def key_order_marks(ctx, typ):
    d = s.mark(typ, ctx.flag("full"))
    if "attrs" in d:
        k = ctx.pick("field", sorted(d["attrs"]))
        d["attrs"][k] = ctx.chars("v", 2)
    n = ctx.choose("extra", 3)
    for i in range(n):
        d["x%d" % i] = {"type": "em"} if i else None
        if "attrs" in d:
            d["attrs"]["y%d" % i] = None
    e = reorder(d, ctx.choose("how", 6))
    if ctx.flag("alone"):
        same_element(ctx, d, e, True)
    else:
        t = ctx.chars("t", 1)
        same_element(ctx, a.text(t, a.EM, d), {"marks": [{"type": "em"}, e], "text": t, "type": "text"})


@case(CASES, quick=list(s.NODES), cost=2)
def extra(ctx, typ):
    """extra fields and skipped elements do not come back, and the rest stays"""
    d = whole(ctx, typ, ctx.flag("full"), ctx.word("t"))
    n = ctx.pick("len", [1, 5, 6, 8])
    names = ["type", "attrs", "content", "marks", "text", "version"] + (s.NODES[typ][1] or []) + s.NODES[typ][2]
    k = ctx.key("name", n, None, [x for x in names if len(x) == n])
    v = [ctx.chars("v", 1), None, {"type": "nope", "attrs": {}}, [{"type": "text", "text": "x"}]][ctx.choose("value", 4)]
    where = ctx.choose("where", 3)
    if where == 0:
        d[k] = v
    elif where == 1:
        d.setdefault("attrs", {})[k] = v
    if d.get("content"):
        c = d["content"]
        i = ctx.choose("at", len(c) + 1)
        c.insert(i, {"type": "unknown" + ctx.chars("u", 1), "attrs": {"q": 1}, "content": [a.pt("gone")]})
        if where == 2:
            c[0][k] = v
    if d.get("marks"):
        d["marks"].insert(ctx.choose("m", 2), {"type": "fontSize", "attrs": {"size": 1}})
    fixpoint(ctx, d)


KINDS = ["str", "long", "int", "empty", "false", "true", "null", "list", "object", "float", "zero"]


@case(CASES, quick=[t for t in s.NODES if s.NODES[t][1] or s.NODES[t][2]] + ["mark:" + m for m in s.MARKS if s.MARKS[m][1]], cost=2)
def shapes(ctx, typ):
    """one attribute takes every JSON shape"""
    mark = typ.startswith("mark:")
    t = typ[5:] if mark else typ
    _, req, opt = (s.MARKS if mark else s.NODES)[t][:3]
    d = s.mark(t, True) if mark else whole(ctx, t, ctx.flag("full"), "tx")
    f = ctx.pick("field", req + opt)
    kind = ctx.pick("kind", KINDS)
    dom = {"panelType": "lower", "timestamp": "digit"}.get(f)
    if kind == "long":
        if typ == "status":
            dom = "not:`"                        # runs of them: C18
        v = ctx.chars("v", 3 + ctx.choose("n", 14) if dom != "digit" else 10, dom)
    else:
        v = ctx.text("v", 1, 2, dom) if kind == "str" else ctx.int("v", 0, 20) if kind == "int" else {
        "empty": "", "false": False, "true": True, "null": None, "list": [None, {"a": []}], "object": c24.fields(t) if not mark else {x: "q" for x in req + opt + ["type", "attrs"]},
        "zero": 0, "float": 0.5}[kind]
    d.setdefault("attrs", {})[f] = v
    fixpoint(ctx, d, mark)


@case(CASES, quick=[t for t in s.NODES if s.NODES[t][5]], cost=2)
def marks(ctx, typ):
    """two marks of every type, one of them skipped or not"""
    names = list(s.MARKS) + ["unsupportedMark", "fontSize"]
    ms = []
    for i in range(2):
        m = names[ctx.choose("m%d" % i, len(names))]
        ms.append(s.mark(m, i) if m in s.MARKS else {"type": m, "attrs": {"x": 1}})
    d = c24.filled(c24._Fixed(), typ, ctx.chars("t", 1))
    d["marks"] = ms
    fixpoint(ctx, d)


@case(CASES, quick=[t for t in s.NODES if s.NODES[t][4] or s.NODES[t][5]], cost=2)
def hollow(ctx, typ):
    """content and marks of which any entries, or all, are skipped"""
    d = whole(ctx, typ, ctx.flag("full"), ctx.chars("t", 1))
    gone = lambda i: {"type": s.UNIMPLEMENTED_NODES[i], "content": [a.text("g")]}
    if "content" in d:
        keep = d["content"][:2]
        c = []
        for i in range(ctx.choose("n", 4)):
            c.append(copy_of(keep[i % len(keep)]) if ctx.flag("keep%d" % i) else gone(i))
        d["content"] = c
    if s.NODES[typ][5]:
        k = ctx.choose("marks", 4)
        d["marks"] = [[], [{"type": "fontSize", "attrs": {"size": 1}}], [{"type": "fontSize"}, s.mark("underline")],
                      [s.mark("underline"), {"type": "unsupportedMark"}]][k]
    fixpoint(ctx, d)


@case(CASES, quick=list(s.NODES), cost=2)
def extra_order(ctx, typ):
    """1..6 unknown fields before, between or after the modelled ones, of the element or of its attributes, in either order"""
    full = ctx.flag("full")
    d = whole(ctx, typ, full, ctx.chars("t", 1))
    if not full and d.get("attrs") is not None and not s.NODES[typ][3] and ctx.flag("no attrs"):
        del d["attrs"]
    inner = "attrs" in d and ctx.flag("inner")
    o = d["attrs"] if inner else d
    ks = list(o)
    if ctx.flag("reverse"):
        ks = ks[::-1]
    at = ctx.choose("at", len(ks) + 1)
    n = 1 + ctx.choose("n", 6)
    v = [None, ctx.chars("v", 1), {"type": "text", "attrs": {}}][ctx.choose("value", 3)]
    out = {}
    for i in range(len(ks) + 1):
        if i == at:
            for j in range(n):
                out["x%d" % j] = v
        if i < len(ks):
            out[ks[i]] = o[ks[i]]
    e = dict(d, attrs=out) if inner else out
    same_element(ctx, d, e)


def junk(d, t, n):
    """extra fields and elements of unimplemented types throughout"""
    if "content" in d:
        c = []
        for x in d["content"]:
            n[0] += 1
            if n[0] % 3 == 0:
                c.append({"type": s.UNIMPLEMENTED_NODES[n[0] % len(s.UNIMPLEMENTED_NODES)], "content": [a.text("gone")]})
            c.append(junk(x, t, n))
        d["content"] = c
    if "marks" in d:
        d["marks"] = d["marks"] + [{"type": "unsupportedMark", "k": t}]
    if "attrs" in d and n[0] % 2:
        d["attrs"]["x-extra"] = [t, None]
    d["x-" + str(n[0] % 5)] = {"type": "text"}
    return d


@case(CASES, quick=[[h, o] for h in ("wide", "deep") for o in range(5)], cost=3)
def documents(ctx, p):
    """documents with every block kind and of depth 8, with extra fields and skipped elements or without"""
    how, order = p
    t = ctx.word("t")
    if how == "wide":
        d = a.doc(*[c24.filled(c24._Fixed(), x, t) for x in s.NODES if x in c24.c21.BLOCKS])
    else:
        d = a.pt(t, a.STRONG, a.link("u"))
        shift = ctx.choose("shift", 6)
        for i in range(8):
            k = (shift + i * (1 + shift % 2)) % 6
            d = [lambda: a.quote(d, a.pt("w")), lambda: a.panel("info", d), lambda: a.bullets(a.item(a.pt("i"), d), a.item()),
                 lambda: a.table(a.row(a.hcell(d), a.cell())), lambda: a.expand(a.rule(), d), lambda: a.nested_expand(d)][k]()
        d = a.doc(d)
    if ctx.flag("junk"):
        d = junk(d, ctx.word("j"), [ctx.choose("start", 3)])
    x = fixpoint(ctx, d)
    y = api.parse_node(reorder(d, order))
    ctx.check(x == y and same(ctx, x.to_dict(), y.to_dict()), "key order does not matter")
    ctx.check(same(ctx, md_of(ctx, x), md_of(ctx, y)), "nor for the Markdown")
