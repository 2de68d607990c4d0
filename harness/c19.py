"""C19: neighbouring blocks never run into each other."""
from atlas_doc_parser import api
from .reg import case
from . import adf as a

CASES = {}
BOUNDS = ("every ordered pair (thorough: triple) of 26 block forms in document, expand, nested expand, panel, quote, list item "
          "(of both list kinds), table cell and header cell; a text of each block any characters that are no ASCII markup, also "
          "line breaks and spaces at its ends; containers in containers; 12 blocks of any two forms alternating")

TOP = ["doc", "expand", "nestedExpand", "panel", "quote"]
IN = ["item", "oitem", "cell", "header"]
# blocks that Markdown only sees between empty lines
APART = ["bullet", "bullet2", "ordered", "ordered2", "task", "task2", "decision", "code", "code2", "table", "bare", "grid"]
KINDS = APART + ["para", "heading", "panel", "quote", "expand", "nestedExpand", "blockCard", "embedCard", "media", "extension",
                 "para3", "extension3", "media3", "expand3", "quote3"]
SILENT = ["rule", "emptyPara", "mediaGroup", "caption"]      # no words of their own


def tok(i):
    return chr(0xE000 + i)


def make(kind, i, x):
    """a block whose words carry the sentinel of block i; ``x`` is free text"""
    t = tok(i)
    p = a.pt(t + x + t)
    return {
        "para": lambda: p,
        "heading": lambda: a.heading(2, a.text(t + x + t)),
        "bullet": lambda: a.bullets(a.item(p)),
        "bullet2": lambda: a.bullets(a.item(a.pt(t)), a.item(p, a.bullets(a.item(a.pt(t)))), a.item(a.pt(t))),
        "ordered": lambda: a.ordered(a.item(p)),
        "ordered2": lambda: a.ordered(a.item(a.pt(t), a.ordered(a.item(p), order=2)), a.item(a.pt(t)), order=9),
        "task": lambda: a.tasks(a.task("DONE", a.text(t + x + t))),
        "task2": lambda: a.tasks(a.task("TODO", a.text(t)), a.tasks(a.task("DONE", a.text(t + x + t))), a.task("TODO", a.text(t))),
        "decision": lambda: a.decisions(a.decision(a.text(t + x + t))),
        "code": lambda: a.code(t + x + t, "py"),
        "code2": lambda: a.code(t + "\n" + x + "\n" + t + "\n"),
        "table": lambda: a.table(a.row(a.hcell(p), a.hcell()), a.row(a.cell(), a.cell(a.pt(t)))),
        "bare": lambda: a.table(a.row(a.cell(p))),
        "grid": lambda: a.table(a.row(a.hcell(a.pt(t)), a.cell(p)), a.row(a.hcell(), a.cell(a.pt(t), a.bullets(a.item(a.pt(t)))))),
        "panel": lambda: a.panel("note", p),
        "quote": lambda: a.quote(p),
        "expand": lambda: a.expand(p),
        "nestedExpand": lambda: a.nested_expand(p),
        "blockCard": lambda: a.block_card("http://" + t),
        "embedCard": lambda: a.embed_card("http://" + t),
        "media": lambda: a.media_single(a.media("external", url="http://" + t, alt=t)),
        "extension": lambda: a.extension(t, "ty", t),
        # several lines, with and without a line break at the end
        "para3": lambda: a.para(a.text(t), a.br(), a.text(t + x), a.br(), a.text(t)),
        "extension3": lambda: a.extension(t, "ty", t + "\n" + t + x + "\n" + t),
        "media3": lambda: a.media_single(a.media("external", url="http://" + t, alt=t + "\n" + t + "\n\n" + x + t)),
        "expand3": lambda: a.expand(p, a.pt(t), a.extension(t, "ty", x + "\n" + t)),
        "quote3": lambda: a.quote(p, a.heading(1, a.text(t)), a.media_single(a.media("external", url="http://" + t, alt=t))),
        "rule": lambda: a.rule(),
        "emptyPara": lambda: {"type": "paragraph"},
        "mediaGroup": lambda: {"type": "mediaGroup", "content": [a.media("file", id="m", collection="c")]},
        "caption": lambda: a.media_single(),
    }[kind]()


def hold(where, blocks):
    if where == "doc":
        return a.doc(*blocks)
    if where == "expand":
        return a.expand(*blocks)
    if where == "nestedExpand":
        return a.nested_expand(*blocks)
    if where == "panel":
        return a.panel("tip", *blocks)
    if where == "quote":
        return a.quote(*blocks)
    if where == "item":
        return a.bullets(a.item(*blocks))
    if where == "oitem":
        return a.ordered(a.item(*blocks), order=2)
    if where == "cell":
        return a.table(a.row(a.cell(*blocks)))
    return a.table(a.row(a.hcell(*blocks)))


def lines_of(md, where):
    if where in ("cell", "header"):
        out = []
        for x in md.split("\n"):
            if not x.startswith("| ---"):
                out = out + x.split("<br>")
        return out
    return md.split("\n")


def blank(line, where):
    if where in ("panel", "quote"):
        if line[:1] != ">":
            return False
        line = line[1:]
    return line.strip(" ") == ""


def owners(line):
    return [ord(c) - 0xE000 for c in line if 0xE000 <= ord(c) <= 0xE0FF]


def is_fence(line):
    return line.strip("> ").startswith("```") or line.strip("> ").endswith("```")


def judge(ctx, where, kinds, blocks, md):
    """``kinds[i]`` is the kind of the block with sentinel i"""
    ctx.observe("md", md)
    lines = lines_of(md, where)
    first, last = {}, {}
    rules = 0
    for k, line in enumerate(lines):
        own = []
        for c in line:
            for i in range(len(kinds)):
                if c == tok(i):
                    own.append(i)
        ctx.check(all([o == own[0] for o in own]), "a line holds words of one block only")
        if own:
            first.setdefault(own[0], k)
            last[own[0]] = k
        if "---" in line and where not in ("cell", "header") and not own:
            rules += 1
    for i, kind in enumerate(kinds):
        if kind in SILENT:
            continue
        ctx.check(i in first, "every block is rendered")
        if i not in first:
            return
        if kind in ("code", "code2"):
            f, e = first[i] - 1, last[i] + 1
            if kind == "code2" and where not in ("cell", "header"):
                # the code ends in a line break, so one more line comes before the closing fence
                while e < len(lines) and "`" not in lines[e]:
                    e += 1
            else:
                while e < len(lines) and "`" not in lines[e] and blank(lines[e], "panel" if lines[e][:1] == ">" else where):
                    e += 1
            ok = f >= 0 and e < len(lines)
            ctx.check(ok and "```" in lines[f] and "```" in lines[e], "the fences have lines of their own")
            if not ok:
                return
            first[i], last[i] = f, e
    seen = [i for i, kind in enumerate(kinds) if kind not in SILENT]
    for i, j in zip(seen, seen[1:]):
        ctx.check(last[i] < first[j], "in order, on lines of their own")
        if where in TOP and (kinds[i] in APART or kinds[j] in APART):
            gap = [blank(x, where) for x in lines[last[i] + 1:first[j]]]
            ctx.check(any(gap), "an empty line between them")
    if where not in ("cell", "header"):
        # a rule stands alone: no line with words holds it, and the line is nothing else
        want = len([k for k in kinds if k == "rule"])
        plain = [x for x in lines if x.strip("> -0123456789.") == "" and "---" in x]
        ctx.check(len(plain) >= want, "a rule has a line of its own")
    return


def render(where, blocks):
    return api.parse_node(hold(where, blocks)).to_markdown()


def seq(ctx, where, n, dom, length, pool):
    kinds = [pool[ctx.choose("k%d" % i, len(pool))] for i in range(n)]
    blocks = [make(k, i, ctx.text("x%d" % i, 0 if length > 1 else length, length, dom)) for i, k in enumerate(kinds)]
    judge(ctx, where, kinds, blocks, render(where, blocks))


@case(CASES, quick=TOP + IN, cost=6)
def pairs(ctx, where):
    """every two block forms one after the other"""
    seq(ctx, where, 2, "plainword", 1, KINDS + SILENT)


@case(CASES, quick=[], thorough=[[w, k] for w in TOP + IN for k in ["para", "code", "bullet", "task", "table", "decision", "quote", "media"]], cost=8)
def triples(ctx, p):
    """every three block forms, the middle one fixed by the parameter"""
    where, mid = p
    pool = KINDS + SILENT
    kinds = [pool[ctx.choose("k0", len(pool))], mid, pool[ctx.choose("k2", len(pool))]]
    blocks = [make(k, i, ctx.chars("x%d" % i, 1, "plainword")) for i, k in enumerate(kinds)]
    judge(ctx, where, kinds, blocks, render(where, blocks))


BETWEEN = ["rule", "emptyPara", "mediaGroup", "caption"]


@case(CASES, quick=TOP + IN, cost=6)
def around_silent(ctx, where):
    """two blocks with blocks between them that render to nothing, or a rule"""
    pool = ["para", "bullet", "ordered2", "task", "decision", "code", "table", "quote", "media", "extension"]
    kinds = [pool[ctx.choose("k0", len(pool))], BETWEEN[ctx.choose("k1", 4)], pool[ctx.choose("k2", len(pool))]]
    blocks = [make(k, i, ctx.chars("x%d" % i, 1, "plainword")) for i, k in enumerate(kinds)]
    judge(ctx, where, kinds, blocks, render(where, blocks))


EDGE = ["para", "heading", "code", "bullet", "ordered", "task", "decision", "panel", "bare"]


@case(CASES, quick=[[w, k] for w in TOP + IN for k in ("para", "code", "bullet", "task", "decision")], cost=3)
def edges(ctx, p):
    """texts that begin or end with line breaks and spaces"""
    where, kind = p
    two = kind in ("task", "decision", "para")
    x = ctx.text("x", 0, 2, "wsmix") if two else ctx.chars("x", 1, "wsmix")
    other = EDGE[ctx.choose("other", len(EDGE))]
    t = tok(0)
    body = [t + x, x + t][ctx.choose("end", 2)]
    b = {"para": lambda: a.pt(body), "code": lambda: a.code(body), "bullet": lambda: a.bullets(a.item(a.pt(body))),
         "task": lambda: a.tasks(a.task("DONE", a.text(body))),
         "decision": lambda: a.decisions(a.decision(a.text(body)))}[kind]()
    o = make(other, 1, "")
    first = ctx.flag("first")
    md = render(where, [b, o] if first else [o, b])
    ctx.observe("md", md)
    for line in lines_of(md, where):
        ctx.check(not (t in line and tok(1) in line), "a line holds words of one block only")
    ctx.check(t in md and tok(1) in md, "every block is rendered")
    if where in TOP and (kind in APART or other in APART):
        lines = lines_of(md, where)
        one, two = (0, 1) if first else (1, 0)
        last = max([i for i, l in enumerate(lines) if tok(one) in l])
        nxt = min([i for i, l in enumerate(lines) if tok(two) in l])
        ctx.check(any([blank(l, where) for l in lines[last + 1:nxt]]), "an empty line between them")


@case(CASES, quick=TOP + IN, cost=4)
def nested(ctx, where):
    """blocks at the end of a container and after it"""
    wraps = ["expand", "nestedExpand", "panel", "quote", "item", "oitem", "cell", "header"]
    w = wraps[ctx.choose("w", len(wraps))]
    pool = ["para", "bullet", "task", "decision", "code", "bare", "media"]
    kinds = [pool[ctx.choose("k%d" % i, len(pool))] for i in range(2)]
    x = ctx.chars("x", 1, "plainword")
    inner = hold(w, [make(kinds[0], 0, x)])
    other = make(kinds[1], 1, "")
    md = render(where, [inner, other] if ctx.flag("first") else [other, inner])
    ctx.observe("md", md)
    for line in lines_of(md, where):
        ctx.check(not (tok(0) in line and tok(1) in line), "a line holds words of one block only")
    ctx.check(tok(0) in md and tok(1) in md, "every block is rendered")


@case(CASES, quick=TOP + IN, cost=3)
def many(ctx, where):
    """twelve blocks of two kinds alternating"""
    pool = ["para", "bullet", "ordered", "task", "code", "table", "decision", "media"]
    u, v = pool[ctx.choose("u", len(pool))], pool[ctx.choose("v", len(pool))]
    kinds = [u, v] * 6
    blocks = [make(k, i, ctx.chars("x", 1, "plainword") if i == 0 else "y") for i, k in enumerate(kinds)]
    judge(ctx, where, kinds, blocks, render(where, blocks))


@case(CASES, quick=["item", "oitem", "task"], cost=2)
def items(ctx, where):
    """items of one list: the text of an item never joins that of the next, whatever ends it"""
    x = ctx.text("x", 0, 2, "wsmix")
    ends = [a.pt(tok(0) + x), a.code(tok(0) + x), a.para(a.text(tok(0)), a.br()), a.media_single(a.media("file", id=tok(0), collection="c")),
            a.bullets(a.item(a.pt(tok(0) + x)))]
    e = ends[ctx.choose("e", len(ends))]
    if where == "task":
        d = a.tasks(a.task("DONE", a.text(tok(0) + x), *([a.br()] if ctx.flag("br") else [])), a.task("TODO", a.text(tok(1))))
    else:
        its = [a.item(e), a.item(a.pt(tok(1)))]
        d = a.bullets(*its) if where == "item" else a.ordered(*its)
    md = api.parse_node(a.doc(d)).to_markdown()
    ctx.observe("md", md)
    for line in md.split("\n"):
        ctx.check(not (tok(0) in line and tok(1) in line), "a line holds words of one item only")
    ctx.check(tok(0) in md and tok(1) in md, "every item is rendered")
