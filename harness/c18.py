"""C18: inline elements fall back the documented way."""
from atlas_doc_parser import api
from .reg import case
from . import adf as a
from . import spec as s
from . import util as u

CASES = {}
BOUNDS = ("emoji, mention, status, hard break and extension with every subset of their optional attributes; every text attribute "
          "any string of 1..3 characters; irrelevant attributes also with special values and one at a time of 0..9 characters; texts of "
          "12..400 characters, three of them variables; in every inline container and next to each other; 20 in a row concretely; each shown attribute a word of 1..20 unconstrained characters")

# values an irrelevant attribute may take
ODD = ["str", "empty", "null"]


def attrs(ctx, typ, own):
    """own attributes as given, every other optional attribute absent or present"""
    _, req, opt = s.NODES[typ][:3]
    at = dict(own)
    for k in req:
        if k not in at:
            at[k] = ctx.chars("r." + k, 2)
    for k in opt:
        if k in own or k == "text":
            continue
        if ctx.flag("has." + k):
            if k == "parameters":
                at[k] = [{"macroParams": {"title": {"value": "v"}}}, {}, {"text": "p"}][ctx.choose("par", 3)]
            else:
                at[k] = ctx.chars("o." + k, 1)
    return at


def md_of(ctx, d):
    """rendered alone, twice, and in a paragraph"""
    el = api.parse_node(d)
    md = el.to_markdown()
    ctx.observe("md", md)
    ctx.check(el.to_markdown(ignore_error=True) == md, "the same when errors are ignored")
    p = api.parse_node(a.para(d)).to_markdown()
    ctx.check(p == md + "\n", "the same in a paragraph")
    return md


@case(CASES, quick=[3], thorough=[5], cost=2)
def emoji(ctx, n):
    short = ctx.text("short", 1, n)
    own = {"shortName": short}
    if ctx.flag("text"):
        own["text"] = ctx.text("text.v", 1, n)
    d = {"type": "emoji", "attrs": attrs(ctx, "emoji", own)}
    ctx.check(md_of(ctx, d) == own.get("text", short), "the text, else the short name")


@case(CASES, quick=[3], thorough=[5], cost=2)
def mention(ctx, n):
    own = {"id": ctx.text("id", 1, n)}
    if ctx.flag("text"):
        own["text"] = ctx.text("text.v", 1, n)
    at = attrs(ctx, "mention", own)
    if "userType" in at and ctx.flag("kind"):
        at["userType"] = ["DEFAULT", "SPECIAL", "APP"][ctx.choose("ut", 3)]
    if "accessLevel" in at and ctx.flag("access"):
        at["accessLevel"] = ["NONE", "SITE", "APPLICATION", "CONTAINER"][ctx.choose("al", 4)]
    md = md_of(ctx, {"type": "mention", "attrs": at})
    if "text" in own:
        ctx.check(md == own["text"], "the text")
    else:
        ctx.check("Unknown" in md and md[:1] == "@", "an unknown-user marker")


@case(CASES, quick=[None])
def unknown_mentions_alike(ctx, _):
    """the marker for an unknown user does not depend on the other attributes"""
    at1 = attrs(ctx, "mention", {"id": ctx.chars("i1", 2)})
    m1 = api.parse_node({"type": "mention", "attrs": at1}).to_markdown()
    m2 = api.parse_node({"type": "mention", "attrs": {"id": "zz"}}).to_markdown()
    ctx.observe("m", m1)
    ctx.check(m1 == m2, "the same marker")


@case(CASES, quick=[3], thorough=[5], cost=2)
def status(ctx, n):
    text = ctx.text("text", 1, n)
    own = {"text": text}
    at = attrs(ctx, "status", own)
    if ctx.flag("known color"):
        at["color"] = ["neutral", "purple", "blue", "red", "yellow", "green"][ctx.choose("c", 6)]
    md = md_of(ctx, {"type": "status", "attrs": at})
    code_span(ctx, md, text)


@case(CASES, quick=[4], thorough=[4, 6])
def status_backticks(ctx, n):
    """the delimiter of the code span does not occur in the text"""
    text = ctx.text("text", 1, n, "set:`x ")
    code_span(ctx, api.parse_node({"type": "status", "attrs": {"text": text, "color": "red"}}).to_markdown(), text)


def code_span(ctx, md, text):
    run = 0
    runs = [0]
    for c in text + ".":
        if c == "`":
            run += 1
        else:
            runs.append(run)
            run = 0
    ok = False
    for k in range(1, len(text) + 3):
        q = "`" * k
        if k not in runs:
            padded = md == q + " " + text + " " + q
            tight = text[:1] != "`" and text[-1:] != "`" and md == q + text + q
            if padded or tight:
                ok = True
    ctx.observe("md", md)
    ctx.check(ok, "its text in inline code that the text cannot end")


@case(CASES, quick=[None])
def hard_break(ctx, _):
    d = {"type": "hardBreak"}
    k = ctx.choose("attrs", 4)
    if k:
        d["attrs"] = [{}, {"text": "\n"}, {"localId": ctx.chars("l", 1), "text": ctx.chars("t", 1)}][k - 1]
    md = md_of(ctx, d)
    ctx.check(md.endswith("  \n") or md == "\\\n", "a Markdown line break")
    ctx.check(md.strip("\n \\") == "", "and nothing else")
    x, y = ctx.word("x"), ctx.word("y")
    p = api.parse_node(a.para(a.text(x), d, a.text(y))).to_markdown()
    ctx.check(p == x + md + y + "\n", "between its neighbours")


@case(CASES, quick=[2], thorough=[4], cost=2)
def extension(ctx, n):
    key, typ = ctx.text("key", 1, n), ctx.text("type", 1, n)
    own = {"extensionKey": key, "extensionType": typ}
    k = ctx.choose("text", 3)
    if k:
        own["text"] = "" if k == 1 else ctx.text("text.v", 1, n)
    d = {"type": "extension", "attrs": attrs(ctx, "extension", own)}
    md = md_of(ctx, d)
    ctx.check(key in md, "names its key")
    if k == 2:
        ctx.check(md.endswith(own["text"]), "its text")
        j = len(md) - len(own["text"])
        ctx.check(key in md[:j], "its key and its text")
    else:
        ctx.check(typ in md, "its type")
        plain = api.parse_node(a.extension(key, typ)).to_markdown()
        ctx.check(md == plain, "the other attributes do not matter")


def elements(ctx):
    t, u = ctx.chars("t", 2, "word"), ctx.chars("u", 1, "word")
    return [(a.emoji(":e:", t), t), (a.emoji(t + u), t + u), (a.mention("i", t), t), (a.status(u), None),
            (a.mention(t), None), (a.br(), None)]


HOLD = ["paragraph", "heading", "task", "decision", "item", "ordered", "cell", "header", "panel", "quote", "expand",
        "nestedExpand"]


@case(CASES, quick=HOLD, cost=2)
def inside(ctx, where):
    """in every container, between other elements"""
    d, want = elements(ctx)[ctx.choose("which", 5)]
    d2, want2 = [(a.emoji(":z:"), ":z:"), (a.mention("q", "@q"), "@q"), (a.status("s"), None)][ctx.choose("second", 3)]
    want = api.parse_node(d).to_markdown()
    want2 = api.parse_node(d2).to_markdown()
    kids = [a.text("k"), d, a.text("m"), d2, a.text("n")]
    p = a.para(*kids)
    b = {"paragraph": lambda: p, "heading": lambda: a.heading(1, *kids), "task": lambda: a.tasks(a.task("DONE", *kids)),
         "decision": lambda: a.decisions(a.decision(*kids)), "item": lambda: a.bullets(a.item(p)),
         "ordered": lambda: a.ordered(a.item(p)), "cell": lambda: a.table(a.row(a.cell(p))),
         "header": lambda: a.table(a.row(a.hcell(p))), "panel": lambda: a.panel("info", p), "quote": lambda: a.quote(p),
         "expand": lambda: a.expand(p), "nestedExpand": lambda: a.nested_expand(p)}[where]()
    md = api.parse_node(a.doc(b)).to_markdown()
    ctx.observe("md", md)
    w = "k" + want + "m" + want2 + "n"
    ctx.check(ctx.any([md[i:i + len(w)] == w for i in range(len(md) - len(w) + 1)]), "as rendered alone")


@case(CASES, quick=["emoji", "mention", "status", "extension"], cost=2)
def independent(ctx, typ):
    """an element with a text does not influence one without, and the other way round"""
    x, y = ctx.chars("x", 1), ctx.chars("y", 1)
    mk = {"emoji": lambda t: a.emoji(":s:", t), "mention": lambda t: a.mention("i", t), "status": lambda t: a.status(t or "s"),
          "extension": lambda t: a.extension("k", "ty", t)}[typ]
    seq = [[x, None, y][ctx.choose("k%d" % i, 3)] for i in range(3)]
    one = {}
    first = []
    for t in seq:
        ctx.fresh()
        first.append(api.parse_node(mk(t)).to_markdown())
    ctx.fresh()
    els = [api.parse_node(mk(t)) for t in seq]
    for el, want in zip(els, first):
        ctx.check(el.to_markdown() == want, "rendered by its own attributes only")
    ctx.observe("first", first)


@case(CASES, quick=[20])
def many(ctx, n):
    out, want = [], ""
    for i in range(n):
        t = ctx.word("t%d" % i) if i % 4 == 0 else "w%d" % i
        d = [a.emoji(":s%d:" % i), a.emoji(":s:", t), a.mention("i", t), a.text(t)][i % 4]
        out.append(d)
        want += ":s%d:" % i if i % 4 == 0 else t
    md = api.parse_node(a.para(*out)).to_markdown()
    ctx.observe("md", md)
    ctx.check(md == want + "\n", "each by its own attributes")


OTHER = {"emoji": ["id"], "mention": ["id", "accessLevel", "userType"], "status": ["color", "style", "localId"],
         "extension": ["layout", "localId"]}


@case(CASES, quick=[(t, n) for t in OTHER for n in (0, 2, 3, 5, 8)], thorough=[(t, n) for t in OTHER for n in range(13)])
def other_lengths(ctx, tn):
    """one other attribute at a time, of any length, with and without a text"""
    typ, n = tn
    _, req, opt = s.NODES[typ][:3]
    ks = [k for k in list(req) + list(opt) if k not in ("text", "shortName", "extensionKey", "extensionType", "parameters")]
    k = ks[ctx.choose("which", len(ks))]
    own = {"emoji": {"shortName": ":s:"}, "mention": {"id": "i"}, "status": {"text": "st"},
           "extension": {"extensionKey": "ky", "extensionType": "ty"}}[typ]
    if typ == "status":
        own["color"] = "red"
    if typ != "status" and ctx.flag("text"):
        own["text"] = "tx"
    plain = api.parse_node({"type": typ, "attrs": own}).to_markdown()
    md = api.parse_node({"type": typ, "attrs": dict(own, **{k: ctx.chars("v", n)})}).to_markdown()
    ctx.observe("md", md)
    ctx.check(md == plain, "the other attributes do not matter")
    if typ in ("emoji", "mention") and "text" in own:
        ctx.check(md == "tx", "the text")


@case(CASES, quick=[12, 33, 80, 300], thorough=[12, 20, 33, 65, 80, 101, 130, 257, 300, 400], cost=2)
def long_texts(ctx, n):
    """long texts and names"""
    b = u.long(ctx, "b", n)
    k = ctx.choose("which", 6)
    d, want = [(a.emoji(b), b), (a.emoji(":s:", b), b), (a.mention("i", b), b), (a.mention(b), None), (a.status(b), None),
               (a.extension(b, "ty", "tx"), None)][k]
    md = md_of(ctx, d)
    if want is not None:
        ctx.check(md == want, "the text or name in full")
    elif k == 3:
        ctx.check(md == api.parse_node(a.mention("i")).to_markdown(), "the unknown-user marker")
    elif k == 4:
        code_span(ctx, md, b)
    else:
        ctx.check(b in md and md.endswith("tx"), "the key and the text in full")


SHOWN = [("emoji", "shortName"), ("emoji", "text"), ("mention", "text"), ("mention", "id"), ("status", "text"), ("extension", "text"),
         ("extension", "extensionKey"), ("extension", "extensionType")]


@case(CASES, quick=list(range(len(SHOWN))))
def spelled(ctx, i):
    """a shown attribute of any letters and any length up to 20, the others absent or present"""
    typ, k = SHOWN[i]
    v = ctx.word("v", 1 + ctx.choose("n", 20))
    at = dict(s.node(typ, optional=ctx.flag("full"), text="tx")["attrs"])
    if k != "text" and ctx.flag("without text") and typ != "status":
        at.pop("text", None)
    at[k] = v
    md = md_of(ctx, {"type": typ, "attrs": at})
    if typ == "status":
        code_span(ctx, md, v)
    elif typ == "extension":
        ctx.check(at["extensionKey"] in md, "names its key")
        if at.get("text"):
            ctx.check(md.endswith(at["text"]), "its text")
        else:
            ctx.check(at["extensionType"] in md, "its type")
    elif at.get("text"):
        ctx.check(md == at["text"], "its text")
    elif typ == "emoji":
        ctx.check(md == v, "its short name")
    else:
        ctx.check(md == api.parse_node(a.mention("q")).to_markdown(), "the unknown-user marker")
