"""C10: lists keep markers, numbering, depth and check state."""
from atlas_doc_parser import api
from .reg import case
from . import adf as a
from . import util as u

CASES = {}
BOUNDS = ("every mix of bullet, ordered and task lists to depth 3 with two items per level and up to two nested lists per item "
          "(chains of 7 levels); list order any integer 0..10^6, absent, or attrs absent; task state any string of 0..5 "
          "characters; item texts of 1..2 unconstrained non-space characters, item without content or with a nested list first; "
          "13 and 120 items; chains of 8 levels with empty items; trees of 3 levels with a nested list at any subset of items; items of "
          "12..300 characters; item texts and task states that are words of 1..16 unconstrained characters; in documents, panels, quotes, expands and nested expands")

PAD = "    "


class Item:
    def __init__(self, text=None, nested=(), state=None, after=None, empty=None):
        self.text, self.nested, self.state, self.after, self.empty = text, list(nested), state, after, empty


class List:
    def __init__(self, kind, items, order=None, attrs=True):
        self.kind, self.items, self.order, self.attrs = kind, items, order, attrs


def build(x):
    """the ADF of a list"""
    if x.kind == "task":
        out = []
        for it in x.items:
            d = a.task(it.state, *([] if it.text is None else [a.text(it.text)]))
            if it.empty == "absent":
                del d["content"]
            out.append(d)
            out.extend([build(n) for n in it.nested])
        return a.tasks(*out)
    items = []
    for it in x.items:
        kids = [] if it.text is None else [a.pt(it.text)]
        if it.empty == "para":
            kids = [a.para()]
        kids += [build(n) for n in it.nested]
        if it.after is not None:
            kids.append(a.pt(it.after))
        items.append(a.item(*kids))
    if x.kind == "bullet":
        return a.bullets(*items)
    return a.ordered(*items, order=x.order, attrs=x.attrs)


def lines(x, level=0):
    """the lines the property asks for"""
    out = []
    n = 1 if x.order is None else x.order
    for it in x.items:
        if x.kind == "bullet":
            m = "- "
        elif x.kind == "ordered":
            m = str(n) + ". "
            n = n + 1
        else:
            m = "- [x] " if it.state == "DONE" else "- [ ] "
        out.append(PAD * level + m + (it.text or ""))
        for k in it.nested:
            out.extend(lines(k, level + 1))
        if it.after is not None:
            out.append(it.after)
    return out


def judge(ctx, x, wrap="doc"):
    d = build(x)
    if wrap == "doc":
        md = api.parse_node(a.doc(d)).to_markdown()
    elif wrap == "direct":
        md = api.parse_node(d).to_markdown()
    else:
        md = api.parse_node({"panel": lambda: a.doc(a.panel("note", d)), "quote": lambda: a.doc(a.quote(d)),
                             "expand": lambda: a.doc(a.expand(d)),
                             "nestedExpand": lambda: a.doc(a.nested_expand(d))}[wrap]()).to_markdown()
    ctx.observe("md", md)
    got = md.split("\n")
    if wrap in ("panel", "quote"):
        got = [g[2:] if g[:2] == "> " else g[1:] if g[:1] == ">" else g for g in got]
        if wrap == "panel":
            got = got[1:]
    while got and got[0] == "":
        got = got[1:]
    while got and got[-1] == "":
        got = got[:-1]
    want = lines(x)
    ctx.check(len(got) == len(want), "one line per item")
    if len(got) == len(want):
        for g, w in zip(got, want):
            ctx.check(g.rstrip() == w.rstrip(), "indentation, marker and text of each item")


KINDS = ["bullet", "ordered", "task"]


def some_list(ctx, name, kind, items):
    order = None
    attrs = True
    if kind == "ordered":
        n = ctx.choose(name + "o", 3)
        if n == 0:
            attrs = False
        elif n == 1:
            order = 7
    return List(kind, items, order, attrs)


@case(CASES, quick=[[k, w] for k in KINDS for w in ["doc", "direct", "panel", "quote", "expand", "nestedExpand"]], cost=2)
def flat(ctx, p):
    """three items, any order, any state, any text"""
    kind, wrap = p
    items = []
    for i in range(3):
        e = ctx.choose("e%d" % i, 3) if i < 2 else 0
        t = None if e else ctx.text("x%d" % i, 1, 2 if i == 0 else 1, "word")
        st = None
        if kind == "task":
            st = ctx.text("s%d" % i, 0, 5) if i == 0 else "DONE" if i == 1 else "TODO"
        items.append(Item(t, state=st, empty=[None, "absent", "para"][e]))
    order = None
    attrs = True
    if kind == "ordered":
        n = ctx.choose("order", 3)
        if n == 0:
            order = ctx.int("order.v", 0, 10 ** 6)
        attrs = n != 1
    judge(ctx, List(kind, items, order, attrs), wrap)


@case(CASES, quick=[[k, l] for k in KINDS for l in KINDS if k != "task" or l == "task"], cost=4)
def nested(ctx, p):
    """three levels, kinds mixed, an item before and after every nested list"""
    k0, k1 = p
    k2 = KINDS[ctx.choose("k2", 3)]
    if k2 != "task" and k1 == "task":          # only task lists may be nested in task lists
        return
    st = ["DONE", "TODO"][ctx.choose("st", 2)]
    inner = some_list(ctx, "l2", k2, [Item(ctx.word("c0"), state=st), Item(ctx.word("c1"), state="DONE")])
    none = ctx.choose("first", 3)
    mid = some_list(ctx, "l1", k1, [Item(ctx.word("b0"), state="TODO"),
                                    Item(None if none == 1 and k1 != "task" else ctx.word("b1"), [inner], state=st),
                                    Item(ctx.word("b2"), state="DONE")])
    top = some_list(ctx, "l0", k0, [Item(None if none == 2 and k0 != "task" else ctx.word("a0"), [mid], state="DONE"),
                                    Item(ctx.word("a1"), state=st)])
    judge(ctx, top, ["doc", "panel"][ctx.choose("wrap", 2)])


@case(CASES, quick=KINDS, cost=2)
def two_nested(ctx, kind):
    """two nested lists of any kind in one item; numbering of the outer list goes on"""
    def inner(name, k):
        return some_list(ctx, name, k, [Item(ctx.word(name + "0"), state="DONE"), Item(ctx.word(name + "1"), state="X")])
    ks = [KINDS[ctx.choose("k%d" % i, 3)] for i in range(2)]
    if kind == "task":
        ks = ["task", "task"]
    top = some_list(ctx, "top", kind, [
        Item(ctx.word("a0"), [inner("p", ks[0]), inner("q", ks[1])], state="TODO"),
        Item(ctx.word("a1"), [inner("r", ks[0])] if ctx.flag("third") else [], state="DONE"),
        Item(ctx.word("a2"), state="DONE")])
    judge(ctx, top)


@case(CASES, quick=[["bullet", "ordered"], ["ordered", "bullet"], ["bullet", "bullet"], ["ordered", "ordered"]])
def text_after_nested(ctx, p):
    """text after a nested list leaves the markers and the numbering alone"""
    inner = List(p[1], [Item(ctx.word("i0")), Item(ctx.word("i1"))], order=4)
    top = List(p[0], [Item(ctx.word("a0"), [inner], after=ctx.word("b0")), Item(ctx.word("a1"), [inner]),
                      Item(ctx.word("a2"), after="zz" if ctx.flag("z") else None)], order=2)
    judge(ctx, top)


@case(CASES, quick=[7], thorough=[7, 12], cost=2)
def deep(ctx, n):
    """chains of lists; two kinds alternate, the innermost order is any number"""
    k = [KINDS[ctx.choose("k%d" % i, 3)] for i in range(3)]
    order = ctx.int("order", 0, 120)
    x = None
    for i in reversed(range(n)):
        kind = k[i % 2] if i < n - 1 else k[2]
        if x is not None and kind == "task" and x.kind != "task":
            return
        x = List(kind, [Item(ctx.word("t%d" % i), [x] if x else [], state="DONE"), Item("w", state="NO")],
                 order=order if i == n - 1 and kind == "ordered" else 5 if i == 2 and kind == "ordered" else None)
    judge(ctx, x)


@case(CASES, quick=[13, 120], thorough=[13, 120, 400])
def many(ctx, n):
    """many items, with nested lists here and there"""
    kind = KINDS[ctx.choose("kind", 3)]
    order = ctx.int("order", 0, 99) if kind == "ordered" else None
    items = []
    for i in range(n):
        sub = [List("task" if kind == "task" else "ordered", [Item("s", state="DONE")], order=i if i % 2 and kind != "task"
                    else None)] if i % 5 == 2 else []
        items.append(Item(ctx.word("t%d" % i) if i % 7 == 0 else "w%d" % i, sub, state=["DONE", "TODO"][i % 3 == 0]))
    judge(ctx, List(kind, items, order))


@case(CASES, quick=KINDS, cost=2)
def twice(ctx, kind):
    """two lists in one document do not influence each other; neither does rendering twice"""
    order = ctx.int("order", 0, 12) if kind == "ordered" else None
    x = List(kind, [Item(ctx.word("a"), state="DONE"), Item(ctx.word("b"), state="TODO")], order)
    y = some_list(ctx, "y", KINDS[ctx.choose("k", 3)], [Item(ctx.word("c"), state="TODO"), Item("d", state="DONE")])
    el = api.parse_node(a.doc(build(x), a.pt("m"), build(y)))
    md = el.to_markdown()
    ctx.observe("md", md)
    got = [g for g in md.split("\n") if g != ""]
    want = lines(x) + ["m"] + lines(y)
    ctx.check(len(got) == len(want), "one line per item")
    if len(got) == len(want):
        for g, w in zip(got, want):
            ctx.check(g.rstrip() == w.rstrip(), "indentation, marker and text of each item")
    ctx.check(el.to_markdown() == md, "the same when rendered again")


@case(CASES, quick=["bullet", "ordered", "task"], cost=2)
def rich_items(ctx, kind):
    """marks and inline elements in items; trailing white space may go, nothing else"""
    x, y = ctx.text("x", 1, 2, "line"), ctx.word("y")
    n = ctx.choose("shape", 4)
    inl = [[a.text(y), a.text(x)], [a.text(y, a.STRONG), a.text("k", a.CODE)], [a.mention("i", "@m"), a.text(y)],
           [a.status("st"), a.text(" "), a.text(y, a.link("u"))]][n]
    want = [y + x, "**" + y + "**", "@m" + y, "`st` [" + y + "](u)"][n]
    if kind == "task":
        d = a.tasks(a.task("DONE", *inl), a.task("TODO", a.text("z")))
        pre = ["- [x] ", "- [ ] "]
    else:
        d = (a.bullets if kind == "bullet" else a.ordered)(a.item(a.para(*inl)), a.item(a.pt("z")))
        pre = ["- ", "- "] if kind == "bullet" else ["1. ", "2. "]
    got = api.parse_node(d).to_markdown().split("\n")
    ctx.observe("got", got)
    ctx.check(len(got) == 2, "one line per item")
    if n == 1:
        ctx.check(got[0].startswith(pre[0] + want) and "k" in got[0], "marker, then the item")
    else:
        ctx.check(got[0].rstrip() == (pre[0] + want).rstrip(), "marker, then the item")
    ctx.check(got[1] == pre[1] + "z", "the next item")


@case(CASES, quick=[6, 8], thorough=[6, 8, 11], cost=2)
def deep_empty(ctx, n):
    """chains of lists in which some level has an item without text"""
    k = [KINDS[ctx.choose("k%d" % i, 3)] for i in range(2)]
    if "task" in k and k != ["task", "task"]:
        return
    empty = ctx.choose("empty", n + 1)
    also = (empty + 1 + ctx.choose("also", 3)) % (n + 1)
    how = ["absent", "para"][ctx.choose("how", 2)] if k[0] == "task" else ["none", "para"][ctx.choose("how", 2)]
    x = None
    for i in reversed(range(n)):
        kind = k[i % 2]
        t = ctx.word("t%d" % i) if i not in (empty, also) else None
        x = List(kind, [Item(t, [x] if x else [], state="DONE", empty=how if t is None else None), Item(None if i == also else "w", state="NO")],
                 order=3 if i % 3 == 0 and kind == "ordered" else None)
    judge(ctx, x)


@case(CASES, quick=[12, 80, 300], thorough=[12, 33, 65, 80, 101, 130, 257, 300, 600], cost=2)
def long_items(ctx, n):
    """items of long texts at two levels"""
    kind, k2 = KINDS[ctx.choose("kind", 3)], KINDS[ctx.choose("k2", 3)]
    if kind == "task":
        k2 = "task"
    big = u.long(ctx, "b", n)
    inner = List(k2, [Item(big, state="DONE"), Item("i", state="TODO")], order=4 if k2 == "ordered" else None)
    judge(ctx, List(kind, [Item("a" if ctx.flag("short") else big, [inner], state="DONE"), Item(big, state="TODO"), Item("z", state="DONE")]))


@case(CASES, quick=[[3, 3]], thorough=[[3, 3], [4, 4]], cost=3)
def tree(ctx, p):
    """every item of every level may hold a nested list of any kind"""
    width, depth = p
    names = [0]

    def grow(kind, level):
        items = []
        for i in range(2 if level else width):
            names[0] += 1
            nm = "n%d" % names[0]
            sub = []
            if level < depth - 1 and ctx.flag("sub" + nm):
                k = "task" if kind == "task" else KINDS[(names[0] + rot) % 3]
                sub = [grow(k, level + 1)]
            items.append(Item(ctx.word(nm) if level == 0 else nm, sub, state="DONE" if names[0] % 2 else "TODO"))
        return List(kind, items, order=5 if kind == "ordered" and level else None)
    rot = ctx.choose("rot", 3)
    judge(ctx, grow(KINDS[ctx.choose("kind", 3)], 0))


@case(CASES, quick=KINDS + ["state"], cost=2)
def spelled(ctx, kind):
    """items that are a word or two of any letters and any length up to 16; a task state of any letters up to 16"""
    w = ctx.word("w", 1 + ctx.choose("n", 16))
    if kind == "state":
        x = List("task", [Item("a", state=w), Item("b", [List("task", [Item("i", state=w), Item("k", state="DONE")])], state="TODO")])
    else:
        t = [w, w + " x", "a " + w][ctx.choose("shape", 3)]
        x = List(kind, [Item("f", state="TODO"), Item(t, [List(kind, [Item("i", state="DONE"), Item(t, state="TODO")])], state="DONE")])
    judge(ctx, x, ["doc", "direct", "panel", "quote", "expand", "nestedExpand"][ctx.choose("wrap", 6)])
