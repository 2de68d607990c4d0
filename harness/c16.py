"""C16: links, cards and media carry their target verbatim."""
from atlas_doc_parser import api
from .reg import case
from . import adf as a
from . import spec as s
from . import util as u

CASES = {}
BOUNDS = ("targets of 1..4 unconstrained characters (also white space, brackets, line breaks), titles, texts and alternative "
          "texts of 0..2; every subset of the other attributes; cards with URL absent or null; links with every other mark "
          "before or after; in every inline and block container; long targets, titles and texts (12 .. 400 characters, three of them "
          "variables); targets that repeat, extend or start with the text, the title or a known scheme; each part a word of "
          "1..24 unconstrained characters")
LINE = "not:|\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029"


def other_attrs(ctx, typ, skip):
    _, req, opt = s.NODES[typ][:3]
    out = {}
    for k in opt:
        if k not in skip and ctx.flag("has." + k):
            out[k] = s.VALUES[k]
    return out


def target(ctx, md, url, label="the target"):
    """the URL is the destination of the (only) link or image"""
    want = "](" + url + ")"
    ctx.check(ctx.any([md[i:i + len(want)] == want for i in range(len(md) - len(want) + 1)]), label)


@case(CASES, quick=[4], thorough=[4, 6], cost=2)
def link_mark(ctx, n):
    """any target, any text, title absent, empty or given"""
    href, x = ctx.text("href", 1, n), ctx.text("x", 0, 2)
    at = {"href": href}
    k = ctx.choose("title", 3)
    if k:
        at["title"] = "" if k == 1 else ctx.text("title.v", 1, 2)
    for o in ("id", "collection", "occurrenceKey"):
        if ctx.flag(o):
            at[o] = ctx.chars("v." + o, 1)
    m = {"type": "link", "attrs": at}
    if ctx.flag("direct"):
        md = api.parse_mark(m).to_markdown(x)
    else:
        md = api.parse_node(a.text(x, m)).to_markdown()
    ctx.observe("md", md)
    ctx.check(md == "[" + (at["title"] if k == 2 else x) + "](" + href + ")", "link with its title or text and its target")


@case(CASES, quick=list(s.MARKS), cost=2)
def link_with_mark(ctx, typ):
    """together with every other mark, before or after"""
    href, x = ctx.text("href", 1, 2), ctx.chars("x", 1, "word")
    ms = [a.link(href), s.mark(typ)]
    if typ in ("code", "link"):
        ctx.assume(ctx.no("\n" in href))
    if ctx.flag("after"):
        ms.reverse()
    md = api.parse_node(a.text(x, *ms)).to_markdown()
    ctx.observe("md", md)
    target(ctx, md, href)
    if typ == "link":
        target(ctx, md, ms[0]["attrs"]["href"])
        target(ctx, md, ms[1]["attrs"]["href"])


@case(CASES, quick=["inlineCard", "blockCard", "embedCard"], cost=2)
def cards(ctx, typ):
    """cards with any URL, whatever else they hold"""
    url = ctx.text("url", 1, 4)
    at = dict(other_attrs(ctx, typ, ("url",)), url=url)
    if typ == "embedCard":
        at["layout"] = "wide"
    md = api.parse_node({"type": typ, "attrs": at}).to_markdown()
    ctx.observe("md", md)
    core = "[" + url + "](" + url + ")"
    pad = len(md) - len(core)
    ctx.check(pad >= 0 and (pad == 0 if typ == "inlineCard" else True), "one link")
    target(ctx, md, url)
    i = pad // 2
    ctx.check(md[i:i + len(core)] == core and "".join([c for c in md[:i] + md[i + len(core):] if c != "\n"]) == "",
              "the URL as text and target, nothing else")


@case(CASES, quick=["inlineCard", "blockCard"], cost=2)
def no_url(ctx, typ):
    """a card without URL raises, whatever else it holds and wherever it is"""
    at = other_attrs(ctx, typ, ("url",))
    if "data" in at:
        at["data"] = [{"url": "http://d"}, {"@id": "http://d", "name": "n"}, {}][ctx.choose("data", 3)]
    if ctx.flag("null"):
        at["url"] = None
    card = {"type": typ, "attrs": at}
    w = ctx.choose("where", 4)
    if typ == "inlineCard":
        card = [card, a.para(card), a.doc(a.para(a.text("x"), card)), a.doc(a.bullets(a.item(a.para(card))))][w]
    else:
        card = [card, a.doc(card), a.doc(a.panel("note", a.pt("x"), card)), a.doc(a.table(a.row(a.cell(card))))][w]
    r = ctx.run(api.parse_node(card).to_markdown)
    ctx.observe("r", r)
    ctx.check(not r.ok, "a card without a URL raises")


@case(CASES, quick=[4], thorough=[4, 6], cost=2)
def image(ctx, n):
    """external media: any URL, alternative text absent, empty or any"""
    url = ctx.text("url", 1, n)
    at = {"type": "external", "url": url}
    k = ctx.choose("alt", 3)
    if k:
        at["alt"] = "" if k == 1 else ctx.text("alt.v", 1, 3)
    for o in ("width", "height", "localId", "id", "collection", "occurrenceKey"):
        if ctx.flag(o):
            at[o] = s.VALUES[o]
    md = api.parse_node({"type": "media", "attrs": at}).to_markdown()
    ctx.observe("md", md)
    ctx.check(md[:2] == "![" and md.endswith("](" + url + ")"), "an image with its target")
    if k:
        ctx.check(md == "![" + at["alt"] + "](" + url + ")", "an image shows its alternative text")


@case(CASES, quick=["link", "border", "annotation", "none"])
def image_in(ctx, m):
    """in a media container and with marks"""
    url, alt = ctx.text("url", 1, 2, LINE), ctx.chars("alt", 1, LINE)
    d = a.media("external", url=url, alt=alt)
    href = ctx.chars("href", 2, LINE)
    if m == "link":
        d["marks"] = [a.link(href)]
    elif m != "none":
        d["marks"] = [s.mark(m)]
    single = a.media_single(d)
    if ctx.flag("caption"):
        single["content"].append({"type": "caption", "content": [a.text("c")]})
    w = ctx.choose("where", 5)
    t = [single, a.doc(single), a.doc(a.panel("info", single)), a.doc(a.bullets(a.item(a.pt("x"), single))),
         a.doc(a.table(a.row(a.hcell(single))))][w]
    md = api.parse_node(t).to_markdown()
    ctx.observe("md", md)
    target(ctx, md, url)
    if m == "link":
        target(ctx, md, href, "the target of the link on an image")
    want = "![" + alt + "](" + url + ")"
    ctx.check(ctx.any([md[i:i + len(want)] == want for i in range(len(md) - len(want) + 1)]), "the whole image")


HOLD = ["paragraph", "heading", "item", "ordered", "task", "decision", "panel", "quote", "expand", "nestedExpand", "cell", "header"]


@case(CASES, quick=HOLD, cost=2)
def inside(ctx, where):
    """links and inline cards in every container"""
    url, x = ctx.text("url", 1, 3, LINE), ctx.word("x")
    k = ctx.choose("kind", 3)
    n = [lambda: a.text(x, a.link(url)), lambda: a.inline_card(url), lambda: a.text(x, a.link(url, ctx.word("t")))][k]()
    p = a.para(a.text("v "), n, a.text(" w"))
    d = {"paragraph": lambda: p, "heading": lambda: a.heading(1, *p["content"]), "item": lambda: a.bullets(a.item(p)),
         "ordered": lambda: a.ordered(a.item(p)), "task": lambda: a.tasks(a.task("DONE", *p["content"])),
         "decision": lambda: a.decisions(a.decision(*p["content"])), "panel": lambda: a.panel("tip", p),
         "quote": lambda: a.quote(p), "expand": lambda: a.expand(p), "nestedExpand": lambda: a.nested_expand(p),
         "cell": lambda: a.table(a.row(a.cell(p))), "header": lambda: a.table(a.row(a.hcell(p)))}[where]()
    md = api.parse_node(a.doc(d)).to_markdown()
    ctx.observe("md", md)
    target(ctx, md, url)


@case(CASES, quick=["doc", "panel", "quote", "expand", "item", "cell"])
def block_cards(ctx, where):
    """block and embed cards in every block container"""
    url = ctx.text("url", 1, 3, LINE)
    c = a.block_card(url) if ctx.flag("block") else a.embed_card(url)
    kids = [[c], [a.pt("x"), c], [c, a.pt("y")]][ctx.choose("place", 3)]
    d = {"doc": lambda: a.doc(*kids), "panel": lambda: a.panel("tip", *kids), "quote": lambda: a.quote(*kids),
         "expand": lambda: a.expand(*kids), "item": lambda: a.bullets(a.item(*kids)),
         "cell": lambda: a.table(a.row(a.cell(*kids)))}[where]()
    md = api.parse_node(d).to_markdown()
    ctx.observe("md", md)
    target(ctx, md, url)


@case(CASES, quick=[3])
def several(ctx, n):
    """several links and cards in one paragraph keep their own targets, equal ones included"""
    us = [ctx.chars("u%d" % i, 1, "word") for i in range(n)]
    out = []
    for i, u in enumerate(us):
        out.append(a.text("t%d" % i, a.link(u)) if ctx.choose("k%d" % i, 2) else a.inline_card(u))
    md = api.parse_node(a.para(*out)).to_markdown()
    ctx.observe("md", md)
    want = "".join(["[" + (d.get("text") or u) + "](" + u + ")" for d, u in zip(out, us)])
    ctx.check(md == want + "\n", "every link with its own text and target")


@case(CASES, quick=[12, 40, 80, 130, 300], thorough=[12, 24, 33, 40, 65, 80, 101, 130, 257, 300, 600, 1100], cost=2)
def long_parts(ctx, n):
    """long targets, titles, texts and alternative texts"""
    which = ctx.choose("which", 6)
    big = u.long(ctx, "big", n, LINE)
    href, title, x = "http://h/" + ctx.chars("h", 1, "word"), "a title", "t " + ctx.chars("x", 1, "word")
    if which == 0:
        href = big
    if which == 1:
        title = big
    if which == 2:
        x = big
    if which < 3:
        m = {"type": "link", "attrs": {"href": href}}
        if which == 1 or ctx.flag("titled"):
            m["attrs"]["title"] = title
        md = api.parse_node(a.para(a.text("v "), a.text(x, m))).to_markdown()
        ctx.observe("md", md)
        ctx.check(md == "v [" + m["attrs"].get("title", x) + "](" + href + ")\n", "a long link")
    elif which == 3:
        typ = ctx.pick("card", ["inlineCard", "blockCard", "embedCard"])
        at = {"url": big}
        if typ == "embedCard":
            at["layout"] = "wide"
        md = api.parse_node({"type": typ, "attrs": at}).to_markdown()
        ctx.observe("md", md)
        ctx.check(md.strip("\n") == ("[" + big + "](" + big + ")").strip("\n"), "a long card")
    else:
        alt = big if which == 4 else "alt"
        url = big if which == 5 else href
        md = api.parse_node(a.media_single(a.media("external", url=url, alt=alt))).to_markdown()
        ctx.observe("md", md)
        ctx.check("![" + alt + "](" + url + ")" in md, "a long image")


SCHEMES = ["", "http://", "https://", "mailto:", "file:///", "#", "/", "//", "tel:", "javascript:", "ari:cloud:", "data:,"]


@case(CASES, quick=[2], thorough=[3], cost=2)
def alike(ctx, n):
    """target, text and title that are equal, or equal but for a scheme"""
    x = ctx.text("x", 1, n, LINE)
    k = ctx.choose("prefix kind", 2)
    pre = ctx.pick("scheme", SCHEMES) if k == 0 else ctx.text("pre", 0, 3, LINE)
    post = ["", "/", "?q=1"][ctx.choose("post", 3)] if k == 0 else ""
    href = pre + x + post
    m = {"type": "link", "attrs": {"href": href}}
    t = ctx.choose("title", 4)
    if t:
        m["attrs"]["title"] = [x, href, "t"][t - 1]
    shown = [x, href][ctx.choose("shown", 2)]
    md = api.parse_node(a.para(a.text(shown, m))).to_markdown()
    ctx.observe("md", md)
    ctx.check(md == "[" + (m["attrs"].get("title", shown)) + "](" + href + ")\n", "the link in full")


@case(CASES, quick=["inlineCard", "blockCard", "embedCard", "external"], cost=2)
def schemes(ctx, typ):
    """the target of a card or an image, whatever its scheme"""
    url = ctx.pick("scheme", SCHEMES) + ctx.text("u", 1, 2, LINE) + ["", "/", "?a=1&b=2", "#f", ".png"][ctx.choose("post", 5)]
    at = {"url": url}
    if typ == "embedCard":
        at["layout"] = "center"
    d = {"type": typ, "attrs": at}
    if typ == "external":
        d = a.media("external", url=url, alt="alt")
    md = api.parse_node(d).to_markdown()
    ctx.observe("md", md)
    want = "![alt](" + url + ")" if typ == "external" else "[" + url + "](" + url + ")"
    ctx.check(md.strip("\n") == want.strip("\n"), "the target in full")


@case(CASES, quick=["href", "title", "text", "inlineCard", "blockCard", "embedCard", "url", "alt"])
def spelled(ctx, what):
    """a target, title or text that is a word of any letters and any length up to 24"""
    w = ctx.word("w", 1 + ctx.choose("n", 24))
    if what in ("href", "title", "text"):
        m = {"type": "link", "attrs": {"href": w if what == "href" else "http://h"}}
        if what == "title" or ctx.flag("titled"):
            m["attrs"]["title"] = w if what == "title" else "ti"
        x = w if what == "text" else "tx"
        ms = [m] if not ctx.flag("strong") else [m, a.STRONG]
        md = api.parse_node(a.para(a.text("v "), a.text(x, *ms), a.text(" z"))).to_markdown()
        core = "[" + m["attrs"].get("title", x) + "](" + m["attrs"]["href"] + ")"
        want = "v " + (core if len(ms) == 1 else "**" + core + "**") + " z\n"
        ctx.observe("md", md)
        ctx.check(md == want, "link with its title or text and its target")
        return
    if what in ("url", "alt"):
        at = {"url": w if what == "url" else "http://u"}
        if what == "alt" or ctx.flag("alt"):
            at["alt"] = w if what == "alt" else "al"
        md = api.parse_node(a.doc(a.media_single(a.media("external", **at)))).to_markdown()
        ctx.observe("md", md)
        want = "](" + at["url"] + ")"
        if "alt" in at:
            want = "![" + at["alt"] + want
        target(ctx, md, at["url"])
        ctx.check(md.strip("\n").endswith(want), "an image with its text and target")
        return
    at = {"url": w}
    if what == "embedCard":
        at["layout"] = "wide"
    if ctx.flag("more"):
        at["localId"] = "l"
    d = {"type": what, "attrs": at}
    d = a.doc(a.para(a.text("v "), d)) if what == "inlineCard" else a.doc(a.pt("v"), d)
    md = api.parse_node(d).to_markdown()
    ctx.observe("md", md)
    ctx.check(md.strip("\n").endswith("[" + w + "](" + w + ")"), "the URL as text and target")


@case(CASES, quick=["file", "external"], cost=2)
def alternative(ctx, typ):
    """an image shows its alternative text, and the same few letters whenever it has none"""
    k = ctx.choose("alt", 4)
    alt = [None, "", ctx.text("a", 1, 3), ctx.word("w", 1 + ctx.choose("n", 12)) if k == 3 else ""][k]
    d = a.media("external", url="http://u") if typ == "external" else a.media("file", id="i", collection="c")
    for o in ("width", "height", "localId", "occurrenceKey"):
        if ctx.flag(o):
            d["attrs"][o] = s.VALUES[o]
    if alt is not None:
        d["attrs"]["alt"] = alt
    if ctx.flag("single"):
        d = a.media_single(d)
    md = api.parse_node(d).to_markdown()
    ctx.observe("md", md)
    ctx.check(md.strip("\n") == "![" + ("media" if alt is None else alt) + "](" + ("http://u" if typ == "external" else "media:i") + ")",
              "an image shows its alternative text")
