"""C12: panels, quotes and decisions contain everything they hold."""
from atlas_doc_parser import api
from .reg import case
from . import adf as a
from . import util as u
from . import trees

CASES = {}
BOUNDS = ("panels of every type, quotes and decision items with 0..3 blocks of every kind, each holding texts of 0..3 "
          "unconstrained characters (line breaks included); containers nested in each other to depth 4; decision texts of up "
          "to 5 characters out of letter, space and line break and with hard breaks; 12 concretely; texts of 12..300 characters and contents of up to 120 lines; decision lists of up to 7 items; panel types and words of "
          "1..16 unconstrained characters")
ASSUMPTIONS = ("lines end at the line feed character; for the comparison of the contained lines texts hold none of the rarer "
               "line separators (vertical tab, form feed, carriage return, FS, GS, RS, NEL, LS, PS)",)

KINDS = ["info", "note", "warning", "success", "error", "tip", "custom"]
TEXT = "not:\x0b\x0c\r\x1c\x1d\x1e\x85\u2028\u2029"


def all_lines(md):
    out = md.split("\n")
    while out and out[-1] == "":
        out.pop()
    while out and out[0] == "":
        out = out[1:]
    return out


def prefixed(ctx, md, sep=False):
    """every line starts with the quote prefix (``sep``: but for empty separator lines)"""
    for x in all_lines(md):
        if sep and x == "":
            continue
        ctx.check(x[:1] == ">", "every line is prefixed")


def inner(md):
    """the lines without the prefix, blank ones dropped"""
    out = []
    for x in all_lines(md):
        x = x[2:] if x[:2] == "> " else x[1:]
        if x.strip():
            out.append(x)
    return out


def solid(md):
    return [x for x in md.split("\n") if x.strip()]


def compare(ctx, got, want, ends=False):
    ctx.check(len(got) == len(want), "nothing lost or added")
    if len(got) == len(want):
        for x, y in zip(got, want):
            ctx.check((x.rstrip() == y.rstrip()) if ends else x == y, "the lines of the contained blocks")


def judge(ctx, kind, content, prefix_only=False, nest="direct"):
    """a panel (of type ``kind``) or a quote holding ``content``"""
    node = a.quote(*content) if kind == "quote" else a.panel(kind, *content)
    md = api.parse_node(node if nest == "direct" else a.doc(node)).to_markdown()
    ctx.observe("md", md)
    prefixed(ctx, md)
    if kind != "quote":
        first = all_lines(md)[0]
        ctx.check(first.rstrip() == "> **" + kind.upper() + "**", "a panel names its type first")
    if prefix_only:
        return
    got = inner(md)
    if kind != "quote":
        got = got[1:]
    compare(ctx, got, solid(api.parse_node(a.doc(*content)).to_markdown()))


@case(CASES, quick=KINDS + ["quote"], cost=2)
def any_text(ctx, kind):
    """any text in a paragraph"""
    t = ctx.text("t", 0, 3, TEXT if kind != "quote" else TEXT)
    judge(ctx, kind, [a.pt(t)], nest=["direct", "doc"][ctx.choose("nest", 2)])


@case(CASES, quick=["note", "quote"], cost=2)
def any_char(ctx, kind):
    """the prefix with texts of really any characters"""
    judge(ctx, kind, [a.pt(ctx.chars("t", 2)), a.pt("w")], prefix_only=True)


@case(CASES, quick=["note"], thorough=["note"])
def type_name(ctx, _):
    """any panel type, in upper case"""
    k = ctx.text("k", 1, 3, "ascii")
    md = api.parse_node(a.panel(k, a.pt("x"))).to_markdown()
    ctx.observe("md", md)
    prefixed(ctx, md)
    want = "".join([chr(ord(c) - 32) if ctx.isin(c, "lower") else c for c in k])
    first = all_lines(md)[0]
    ctx.check(first.rstrip() == "> **" + want + "**", "a panel names its type first")


@case(CASES, quick=KINDS + ["any"])
def panel_attrs(ctx, kind):
    """the optional attributes of a panel change nothing"""
    k = ctx.chars("kind", 3, "lower") if kind == "any" else kind
    t = ctx.chars("t", 1, TEXT)
    d, e = a.panel(k, a.pt(t), a.pt("w")), a.panel(k, a.pt(t), a.pt("w"))
    names = ["panelIcon", "panelIconId", "panelIconText", "panelColor", "localId"]
    given = ctx.choose("which", 2 ** len(names))
    for i in range(len(names)):
        if given & 2 ** i:
            e["attrs"][names[i]] = ctx.text(names[i], 0, 1) if given & (given - 1) == 0 else ctx.chars(names[i], 1)
    md, want = api.parse_node(e).to_markdown(), api.parse_node(d).to_markdown()
    ctx.observe("md", md)
    prefixed(ctx, md)
    first = all_lines(md)[0]
    up = "".join([chr(ord(c) - 32) if ctx.isin(c, "lower") else c for c in k])
    ctx.check(first.rstrip() == "> **" + up + "**", "a panel names its type first")
    ctx.check(ctx.eq(md, want), "the other attributes change nothing")


BLOCKS = trees.KINDS + ["rule", "card", "embed", "media", "extension", "empty", "group"]


def some(ctx, kind, x):
    if kind in trees.LEAVES:
        return trees.block(kind, [a.text(x)])
    if kind in trees.WRAPS:
        return trees.block(kind, [a.pt(x), a.pt("z")])
    return {"rule": lambda: a.rule(), "card": lambda: a.block_card("http://" + x), "embed": lambda: a.embed_card("u" + x),
            "media": lambda: a.media_single(a.media("external", url="http://m", alt=x)),
            "extension": lambda: a.extension(text=x), "empty": lambda: a.para(),
            "group": lambda: {"type": "mediaGroup", "content": []}}[kind]()


@case(CASES, quick=[[k, b] for k in ("info", "quote") for b in BLOCKS], cost=2)
def one_block(ctx, p):
    """every block kind with any text in it"""
    kind, b = p
    t = ctx.text("t", 1, 2, TEXT if b != "heading" else "line")
    judge(ctx, kind, [some(ctx, b, t)])


@case(CASES, quick=[[k, b] for k in ("tip", "quote") for b in BLOCKS], cost=2)
def two_blocks(ctx, p):
    """two neighbouring blocks of every kind"""
    kind, b = p
    c = BLOCKS[ctx.choose("second", len(BLOCKS))]
    kids = [some(ctx, b, ctx.word("x")), some(ctx, c, ctx.word("y"))]
    if ctx.flag("third"):
        kids.insert(1, a.pt("m"))
    judge(ctx, kind, kids)


@case(CASES, quick=[3], thorough=[3, 4], cost=2)
def nested(ctx, n):
    """panels, quotes, expands and lists inside each other"""
    pool = ["note", "quote", "expand", "bullet", "decision", "code"]
    x = a.pt(ctx.text("t", 1, 1, TEXT))
    for i in range(n):
        k = ctx.choose("k%d" % i, len(pool))
        x = [lambda: a.panel("note", x, a.pt("w")), lambda: a.quote(x), lambda: a.expand(a.pt("v"), x),
             lambda: a.bullets(a.item(a.pt("i")), a.item(x)), lambda: a.decisions(a.decision(a.text(ctx.word("d%d" % i)))),
             lambda: {"type": "codeBlock", "content": [a.text("> a\n" + ctx.word("c%d" % i))]}][k]()
    judge(ctx, ["warning", "quote"][ctx.choose("top", 2)], [x, a.pt("end")])


@case(CASES, quick=["note", "quote"])
def empty(ctx, kind):
    """no content, empty paragraphs, white space only"""
    t = ctx.text("t", 0, 2, "space")
    t = "".join([c for c in t if not ctx.isin(c, "set:\x0b\x0c\r\x1c\x1d\x1e\x85\u2028\u2029")])
    kids = [[], [a.para()], [a.pt(t)], [a.pt("x"), a.pt(t), a.pt(t), a.pt("y")], [a.pt(t), a.code(t), a.pt("y")]]
    judge(ctx, kind, kids[ctx.choose("kids", len(kids))])


@case(CASES, quick=["note", "quote"])
def many(ctx, kind):
    kids = []
    for i in range(12):
        kids.append(some(ctx, BLOCKS[(i * 5) % len(BLOCKS)], ctx.word("x%d" % i)))
    judge(ctx, kind, kids)


def decide(ctx, content):
    """a decision item holding inline content"""
    d = a.decision(*content)
    md = api.parse_node(d).to_markdown()
    ctx.observe("md", md)
    prefixed(ctx, md)
    want = solid(api.parse_node(a.para(*content)).to_markdown())
    compare(ctx, inner(md), want, ends=True)
    md2 = api.parse_node(a.doc(a.decisions(d, a.decision(a.text("w")), d))).to_markdown()
    prefixed(ctx, md2, sep=True)
    compare(ctx, inner(md2), want + ["w"] + want, ends=True)


@case(CASES, quick=[3], thorough=[3, 4], cost=3)
def decision_any(ctx, n):
    """a decision of any text"""
    decide(ctx, [a.text(ctx.text("t", 0, n, TEXT))])


@case(CASES, quick=[5], thorough=[5, 7], cost=3)
def decision_lines(ctx, n):
    """line breaks, spaces and letters in every arrangement"""
    decide(ctx, [a.text(ctx.text("t", n - 1, n, "wsmix"))])


@case(CASES, quick=[None], cost=2)
def decision_inline(ctx, _):
    """several inline elements with hard breaks between them"""
    pool = [lambda: a.br(), lambda: a.text(ctx.chars("x%d" % i, 1, TEXT)), lambda: a.mention("i", "@m"),
            lambda: a.text("b\n\n\nc", a.STRONG), lambda: a.text("k", a.CODE), lambda: a.text(" ")]
    out = []
    for i in range(3 + (ctx.tier == "thorough")):
        out.append(pool[ctx.choose("k%d" % i, len(pool))]())
    decide(ctx, out)


@case(CASES, quick=trees.LEAVES + ["bullet", "panel", "quote", "cell"])
def decision_block(ctx, kind):
    """a block inside a decision item"""
    x = ctx.word("x")
    b = {"type": "codeBlock", "content": [a.text(x + "\n\n  y\n\n\nz")]} if kind == "code" else some(ctx, kind, x)
    d = a.decision(b)
    md = api.parse_node(d).to_markdown()
    ctx.observe("md", md)
    prefixed(ctx, md)
    compare(ctx, inner(md), solid(api.parse_node(b).to_markdown()), ends=True)


@case(CASES, quick=[None])
def decision_empty(ctx, _):
    """decisions without content keep the others intact"""
    n = ctx.choose("n", 3)
    e = a.decision()
    if n == 1:
        del e["content"]
    elif n == 2:
        e = a.decision(a.text(ctx.chars("t", 2, "set: \n")))
    x = ctx.word("x")
    d = a.decision(a.text(x))
    md = api.parse_node(a.doc(a.decisions(*[[e], [e, d], [d, e], [d, e, d]][ctx.choose("k", 4)]))).to_markdown()
    ctx.observe("md", md)
    prefixed(ctx, md, sep=True)
    ctx.check(all([y == x for y in inner(md)]), "only what the items hold")


@case(CASES, quick=[[k, n] for k in ("info", "quote", "decision") for n in (12, 80, 300)],
      thorough=[[k, n] for k in ("info", "quote", "decision") for n in (12, 33, 65, 80, 101, 130, 257, 300, 600)])
def long_text(ctx, p):
    """long texts, with a line break at the start, in the middle or at the end"""
    kind, n = p
    b = u.long(ctx, "b", n, "word")
    i = [1, n // 2, n - 1][ctx.choose("at", 3)]
    b = b[:i] + ["", "\n", "\n\n", "\n>"][ctx.choose("c", 4)] + b[i:]
    if kind == "decision":
        decide(ctx, [a.text(b)])
    else:
        judge(ctx, kind, [a.pt(b), a.pt("w")])


@case(CASES, quick=[2, 3, 7], thorough=[2, 3, 5, 7, 30])
def decision_lists(ctx, n):
    """lists of decisions: each keeps its text to the last character"""
    i = ctx.choose("which", n)
    t = ctx.chars("t", 3, "not:\n\x0b\x0c\r\x1c\x1d\x1e\x85\u2028\u2029")
    for c in (t[0], t[2]):
        ctx.assume(ctx.no(c.isspace()))
    items = [a.decision(a.text(t if j == i else "w%d" % j)) for j in range(n)]
    d = a.decisions(*items)
    top = ctx.choose("top", 3)
    md = api.parse_node([d, a.doc(d), a.doc(a.pt("p"), d, a.pt("q"))][top]).to_markdown()
    ctx.observe("md", md)
    ls = [x for x in all_lines(md) if x != ""]
    if top == 2:
        ls = ls[1:-1]
    for x in ls:
        ctx.check(x[:1] == ">", "every line is prefixed")
    compare(ctx, [x[2:] for x in ls], [t if j == i else "w%d" % j for j in range(n)], ends=True)


@case(CASES, quick=["note", "quote"])
def tall(ctx, kind):
    """contents of many lines"""
    n = [13, 40, 120][ctx.choose("n", 3)]
    ts = [ctx.word("t%d" % i) if i in (0, n // 2, n - 1) else "w%d" % i for i in range(n)]
    blocks = [lambda: [a.pt(t) for t in ts], lambda: [a.code("\n".join(ts))], lambda: [a.bullets(*[a.item(a.pt(t)) for t in ts])],
              lambda: [a.para(*[y for t in ts for y in (a.text(t), a.br())])], lambda: [a.table(*[a.row(a.cell(a.pt(t))) for t in ts])],
              lambda: [a.quote(*[a.pt(t) for t in ts])]][ctx.choose("how", 6)]()
    judge(ctx, kind, blocks)


@case(CASES, quick=["type", "panel", "quote", "decision"], cost=2)
def spelled(ctx, what):
    """panel types and texts that are words of any letters and any length up to 16"""
    n = 1 + ctx.choose("n", 16)
    if what == "type":
        k = ctx.chars("k", n, "lower")
        return judge(ctx, k, [[], [a.pt("x")], [a.pt("x"), a.bullets(a.item(a.pt("i")))]][ctx.choose("kids", 3)],
                     nest=["direct", "doc"][ctx.choose("nest", 2)])
    w = ctx.word("w", n)
    t = [w, w + " x", "a " + w, w + "\nb"][ctx.choose("shape", 4)]
    if what == "decision":
        return decide(ctx, [a.text(t)] if ctx.flag("alone") else [a.text("f "), a.text(t), a.br(), a.text("z")])
    kids = [[a.pt(t)], [a.pt("f"), a.pt(t), a.pt("z")], [a.bullets(a.item(a.pt(t)))], [a.code(t)]][ctx.choose("kids", 4)]
    judge(ctx, "info" if what == "panel" else "quote", kids, nest=["direct", "doc"][ctx.choose("nest", 2)])
