"""C20: the type test answers exactly by type name."""
from atlas_doc_parser import api
from .reg import case
from . import spec as s

CASES = {}
BOUNDS = ("every implemented node and mark against every member of the type enumeration, alone and in lists of 0..3 members (40 "
          "and all members concretely); elements whose type is any string of 0..5 characters; media attributes of any type name of 0..9 characters with every subset of the others")


def members():
    return list(api.TypeEnum)


def own(ctx):
    kinds = [("n", t) for t in s.NODES] + [("m", t) for t in s.MARKS]
    k, t = kinds[ctx.choose("el", len(kinds))]
    return t, (api.parse_node(s.node(t)) if k == "n" else api.parse_mark(s.mark(t)))


@case(CASES, quick=[None], cost=3)
def single(ctx, _):
    """every element against every type, alone"""
    t, el = own(ctx)
    got = []
    for m in members():
        r = el.is_type_of(m)
        got.append(r)
        ctx.check(r is (m.value == t), "true exactly for its own type")
        ctx.check(el.is_type_of([m]) is (m.value == t), "and the same for a list of one")
    ctx.check(el.is_type_of([]) is False, "false for the empty list")
    ctx.observe("n", [str(g) for g in got])


@case(CASES, quick=[2], thorough=[2, 3], cost=3)
def lists(ctx, n):
    """lists of any members: true exactly when the own type is among them, at any place"""
    names = ["paragraph", "text", "strong", "code", "codeBlock", "table", "tableRow", "media", "mediaSingle", "expand"]
    pool = [m for m in members() if m.value in names]
    t = names[ctx.choose("el", len(names))]
    el = api.parse_node(s.node(t)) if t in s.NODES else api.parse_mark(s.mark(t))
    ms = [pool[ctx.choose("m%d" % i, len(pool))] for i in range(n)]
    ctx.observe("ms", [m.value for m in ms])
    ctx.check(el.is_type_of(ms) is (t in [m.value for m in ms]), "true exactly when among them")


@case(CASES, quick=[None], cost=2)
def long_lists(ctx, _):
    """all members, all but the own one, the own one first, in the middle and last"""
    t, el = own(ctx)
    ms = members()
    mine = [m for m in ms if m.value == t]
    rest = [m for m in ms if m.value != t]
    ctx.check(len(mine) >= 1, "the enumeration knows the type")
    k = ctx.choose("where", 5)
    if k == 0:
        q, want = ms, True
    elif k == 1:
        q, want = rest, False
    elif k == 2:
        q, want = mine + rest, True
    elif k == 3:
        q, want = rest + mine, True
    else:
        q, want = rest[:20] + mine + rest[20:] + mine, True
    before = list(q)
    ctx.check(el.is_type_of(q) is want, "true exactly when among them")
    ctx.check(q == before, "the list stays as it is")
    ctx.check(el.is_type_of(q) is want, "again")
    ctx.observe("k", k)


@case(CASES, quick=[None], cost=2)
def any_name(ctx, _):
    """elements whose type is any string"""
    name = ctx.text("type", 0, 5)
    el = api.BaseNode(type=name) if ctx.flag("node") else api.BaseMark(type=name)
    ms = members()
    hits = []
    for m in ms:
        if len(m.value) <= 6:
            r = el.is_type_of(m)
            if len(m.value) == len(name):
                ctx.check(r == (name == m.value), "true exactly for that name")
            else:
                ctx.check(r is False or r == False, "false for every other name")      # noqa: E712
            hits.append(m)
    ctx.check(el.is_type_of(hits) == (name in [m.value for m in hits]), "among them")
    ctx.check(not el.is_type_of([]), "not among none")
    ctx.observe("name", name)


@case(CASES, quick=[None])
def children(ctx, _):
    """the test is about the element itself, not about what it holds"""
    inner = s.node("text", text=ctx.chars("x", 2))
    cs = s.containers()
    t = cs[ctx.choose("t", len(cs))]
    el = api.parse_node(s.node(t, content=[inner]))
    for m in members():
        ctx.check(el.is_type_of(m) is (m.value == t), "the container's type")
        ctx.check(el.content[0].is_type_of(m) is (m.value == "text"), "the child's type")
    ctx.observe("x", inner["text"])


@case(CASES, quick=["file", "link", "external", "any"])
def media(ctx, typ):
    """media attributes: by their type only"""
    name = ctx.text("type", 0, 9) if typ == "any" else typ
    at = {"type": name}
    for k in ("id", "url", "alt") if typ == "any" else ("id", "collection", "url", "alt", "localId", "occurrenceKey"):
        if ctx.flag("has." + k):
            at[k] = ["file", "link", "external", ctx.chars("v." + k, 1)][ctx.choose("w." + k, 4)] if k in ("id", "url") else ctx.chars("v." + k, 1)
    at = api.NodeMedia.from_dict({"type": "media", "attrs": at}).attrs if ctx.flag("parsed") else api.NodeMediaAttrs(**at)
    for k, r in (("file", at.is_file_type()), ("link", at.is_link_type()), ("external", at.is_external_type())):
        ctx.check(r == (name == k), "true exactly for its own type")
    ctx.observe("name", name)
