"""C11: a table keeps its grid."""
from atlas_doc_parser import api
from .reg import case
from . import adf as a
from . import util as u

CASES = {}
BOUNDS = ("1..4 rows of 0..3 cells (13 x 2 and 2 x 13 concretely), every placement of header and data cells; cell texts of 0..4 "
          "unconstrained characters except < and & (pipes, backslashes, spaces and line breaks included); one or two blocks of "
          "every kind per cell; table attributes present or absent; alone, in a document, panel, quote and expand; cells of up "
          "to 40 lines or 300 characters; words of 1..16 unconstrained characters, of 1..8 with < and & among them")

CELL = "not:<&"


def split_row(ctx, line):
    """the cells of a table line: split at pipes that no backslash precedes"""
    cells, cur = [], 0
    n = len(line)
    ctx.check(n >= 2 and line[0] == "|" and line[n - 1] == "|", "a row starts and ends with a pipe")
    at = [0]
    for i in range(1, n):
        if line[i] == "|" and line[i - 1] != "\\":
            at.append(i)
    ctx.check(at[-1] == n - 1, "the closing pipe is not escaped")
    return [line[at[i] + 1:at[i + 1]] for i in range(len(at) - 1)]


def cell_lines(ctx, cell):
    """lines of a cell, unescaped, leading spaces restored, blank ones dropped"""
    if cell[:1] == " " and cell[-1:] == " ":             # padding
        cell = cell[1:-1]
    out = []
    for x in cell.split("<br>"):
        k = 0
        while x[6 * k:6 * k + 6] == "&nbsp;":
            k += 1
        rest = x[6 * k:]
        ctx.check(rest[:1] != " ", "leading spaces are &nbsp;")
        out.append(" " * k + rest.replace("\\|", "|"))
    return [x for x in out if x != ""]


def want_lines(text):
    return [x for x in text.split("\n") if x != ""]


def judge(ctx, d, want, wrap="direct", exact=True):
    """``want``: rows of (is the first cell a header, [lines of each cell])"""
    t = {"direct": d, "doc": a.doc(d), "panel": a.doc(a.panel("note", d)), "quote": a.doc(a.quote(d)),
         "expand": a.doc(a.expand(d, a.pt("zz")))}[wrap]
    md = api.parse_node(t).to_markdown()
    ctx.observe("md", md)
    got = md.split("\n")
    if wrap in ("panel", "quote"):
        got = [g[2:] for g in got]
        got = got[1:] if wrap == "panel" else got
    if wrap == "expand":
        got = [g for g in got if g != "zz"]
    if wrap != "direct":
        got = [g for g in got if g != ""]
    first = [i for i, r in enumerate(want) if r[0]][:1]
    ctx.check(len(got) == len(want) + len(first), "one line per row and one delimiter line")
    if len(got) != len(want) + len(first):
        return
    if first:
        delim = got.pop(first[0] + 1)
        cells = split_row(ctx, delim)
        ctx.check(len(cells) == len(want[first[0]][1]) and all([c.strip() == "---" for c in cells]),
                  "the delimiter has a column per cell of its row")
    for line, (_, row) in zip(got, want):
        cells = split_row(ctx, line)
        if not row:
            continue
        ctx.check(len(cells) == len(row), "one cell per cell")
        if len(cells) != len(row):
            return
        for c, w in zip(cells, row):
            g = cell_lines(ctx, c)
            ctx.check(len(g) == len(w), "lines of a cell")
            if len(g) == len(w):
                for x, y in zip(g, w):
                    ctx.check(x == y, "text of a cell")


@case(CASES, quick=[["tableCell", 4], ["tableHeader", 4]], thorough=[["tableCell", 5], ["tableHeader", 5]], cost=3)
def one_text(ctx, p):
    """any text in one cell next to another cell"""
    typ, n = p
    t = ctx.text("t", 0, n, CELL)
    c = {"type": typ, "attrs": {}, "content": [a.pt(t)]}
    other = {"type": typ, "attrs": {"colspan": 2, "rowspan": 1, "background": "#fff"}, "content": [a.pt("w")]}
    if ctx.flag("last"):
        cells, want = [other, c], [["w"], want_lines(t)]
    else:
        cells, want = [c, other], [want_lines(t), ["w"]]
    judge(ctx, a.table(a.row(*cells)), [(typ == "tableHeader", want)])


@case(CASES, quick=[None], cost=3)
def two_texts(ctx, _):
    """two cells of any two characters"""
    x, y = ctx.chars("x", 2, CELL), ctx.chars("y", 2, CELL)
    d = a.table(a.row(a.hcell(a.pt(x)), a.cell(a.pt(y))))
    judge(ctx, d, [(True, [want_lines(x), want_lines(y)])])


@case(CASES, quick=["same para", "two paras", "strong", "code", "break", "two paras header"], cost=2)
def pieces(ctx, how):
    """texts split over several elements or paragraphs of a cell"""
    x, y = ctx.chars("x", 1, CELL), ctx.chars("y", 2, CELL)
    if how in ("strong", "code"):
        for c in x + y:
            ctx.assume(ctx.no(c.isspace()))
    if how == "code":
        for c in x + y:
            ctx.assume(ctx.no(c == "`"))
    content, want = {
        "same para": lambda: ([a.para(a.text(x), a.text(y))], x + y),
        "two paras": lambda: ([a.pt(x), a.pt(y)], x + "\n" + y),
        "two paras header": lambda: ([a.pt(x), a.pt(y)], x + "\n" + y),
        "strong": lambda: ([a.para(a.text(x, a.STRONG), a.text(y))], "**" + x + "**" + y),
        "code": lambda: ([a.para(a.text(x), a.text(y, a.EM))], x + "*" + y + "*"),
        "break": lambda: ([a.para(a.text("v"), a.br(), a.text(x + y))], None)}[how]()
    if want is None:
        want = "v  \n" + x + y
    mk = a.hcell if how.endswith("header") else a.cell
    judge(ctx, a.table(a.row(a.cell(a.pt("u")), mk(*content))), [(False, [["u"], want_lines(want)])])


def make_rows(ctx, rows, cells, sym=True):
    """rows of chosen widths with header or data cells"""
    out, want = [], []
    for i in range(rows):
        n = ctx.choose("n%d" % i, cells + 1)
        kinds = ctx.choose("kind%d" % i, [1, 2, 4, 4][min(n, 3)])
        ws, cs = [], []
        for j in range(n):
            t = ctx.word("t%d.%d" % (i, j)) if sym and j == 0 else "w%d%d" % (i, j)
            head = kinds >> j & 1 if j < 2 else kinds & 1
            cs.append((a.hcell if head else a.cell)(a.pt(t)))
            ws.append([t])
        out.append(a.row(*cs))
        want.append((bool(n and kinds & 1), ws))
    return a.table(*out), want


@case(CASES, quick=["direct", "doc", "panel", "quote", "expand"], cost=3)
def grids(ctx, wrap):
    """three rows of 0..2 cells, every placement of header cells"""
    d, want = make_rows(ctx, 3, 2)
    judge(ctx, d, want, wrap)


@case(CASES, quick=[1, 2, 4], thorough=[1, 2, 4], cost=3)
def grids2(ctx, rows):
    """1, 2 and 4 rows; table attributes do not matter"""
    d, want = make_rows(ctx, rows, 3 if rows < 4 else 1)
    if ctx.flag("attrs"):
        d["attrs"] = {"layout": "wide", "isNumberColumnEnabled": True, "width": 760, "displayMode": "fixed", "localId": "l"}
    judge(ctx, d, want)


def blocks_for(ctx, x):
    return {
        "para": lambda: a.pt(x), "heading": lambda: a.heading(2, a.text(x)),
        "bullets": lambda: a.bullets(a.item(a.pt(x), a.bullets(a.item(a.pt("n" + x)))), a.item(a.pt("v"))),
        "ordered": lambda: a.ordered(a.item(a.pt(x), a.ordered(a.item(a.pt("k")))), order=9),
        "tasks": lambda: a.tasks(a.task("DONE", a.text(x)), a.tasks(a.task("TODO", a.text(x)))),
        "decisions": lambda: a.decisions(a.decision(a.text(x)), a.decision(a.text("d"))),
        "code": lambda: {"type": "codeBlock", "attrs": {"language": "sh"}, "content": [a.text("a | " + x + "\n  b|c\n\n    d")]},
        "panel": lambda: a.panel("info", a.pt(x), a.pt("p|q")), "quote": lambda: a.quote(a.pt(x), a.pt("q")),
        "expand": lambda: a.nested_expand(a.pt(x), a.bullets(a.item(a.pt("e")))),
        "rule": lambda: a.rule(), "card": lambda: a.block_card("http://x/" + x),
        "media": lambda: a.media_single(a.media("external", url="http://m/" + x, alt="|")),
        "extension": lambda: a.extension(text=x), "empty": lambda: a.para()}


BLOCKS = ["para", "heading", "bullets", "ordered", "tasks", "decisions", "code", "panel", "quote", "expand", "rule", "card",
          "media", "extension", "empty"]


@case(CASES, quick=BLOCKS, cost=2)
def one_block(ctx, kind):
    """every block kind in a cell shows the lines it shows alone"""
    x = ctx.chars("x", 1, "not:<&\n")
    b = blocks_for(ctx, x)[kind]()
    alone = want_lines(api.parse_node(b).to_markdown())
    mk = a.hcell if ctx.flag("header") else a.cell
    cells = [mk(b), mk(a.pt("w"))]
    want = [alone, ["w"]]
    if ctx.flag("last"):
        cells.reverse()
        want.reverse()
    rows = [a.row(*cells), a.row(a.cell(a.pt("y")))]
    judge(ctx, a.table(*rows), [(mk is a.hcell, want), (False, [["y"]])])


@case(CASES, quick=BLOCKS, cost=2)
def two_blocks(ctx, kind):
    """two blocks in a cell: the lines of one after the lines of the other"""
    x = ctx.word("x")
    for c in x:
        ctx.assume(ctx.no(c == "<"))
        ctx.assume(ctx.no(c == "&"))
    b1 = blocks_for(ctx, x)[kind]()
    b2 = blocks_for(ctx, "2")[BLOCKS[ctx.choose("second", len(BLOCKS))]]()
    alone = want_lines(api.parse_node(b1).to_markdown()) + want_lines(api.parse_node(b2).to_markdown())
    mk = a.hcell if ctx.flag("header") else a.cell
    judge(ctx, a.table(a.row(a.cell(a.pt("w")), mk(b1, b2))), [(False, [["w"], alone])])


@case(CASES, quick=[None])
def empty_cells(ctx, _):
    """cells without blocks, with empty paragraphs, texts of spaces"""
    def content(i):
        n = ctx.choose("c%d" % i, 5)
        t = ctx.text("t%d" % i, 1, 2, "set: |") if n == 3 else ""
        return [([], []), ([a.para()], []), ([a.pt("")], []), ([a.pt(t)], want_lines(t)),
                ([a.para(), a.pt("w"), a.para()], ["w"])][n]
    cs, ws = [], []
    for i in range(3):
        c, w = content(i)
        cs.append((a.hcell if i % 2 else a.cell)(*c))
        ws.append(w)
    judge(ctx, a.table(a.row(*cs), a.row(*cs[:2])), [(False, ws), (False, ws[:2])])


@case(CASES, quick=[[13, 2], [2, 13]], thorough=[[13, 2], [2, 13], [60, 3]])
def big(ctx, p):
    """many rows, many columns, a header row at any place"""
    rows, cols = p
    at = ctx.choose("header", min(rows, 13) + 1)
    out, want = [], []
    for i in range(rows):
        ts = [ctx.word("t%d.%d" % (i, j)) if (i + j) % 6 == 0 else "w%d" % j for j in range(cols)]
        head = i == at or i == at + 3
        out.append(a.row(*[(a.hcell if head else a.cell)(a.pt(t)) for t in ts]))
        want.append((head, [[t] for t in ts]))
    judge(ctx, a.table(*out), want)


@case(CASES, quick=["doc"])
def neighbours(ctx, wrap):
    """two tables in a row, each with its own delimiter"""
    d1, w1 = make_rows(ctx, 1, 2)
    x = ctx.word("x")
    d2 = a.table(a.row(a.hcell(a.pt(x))), a.row(a.hcell(a.pt("y"))))
    md = api.parse_node(a.doc(d1, d2)).to_markdown()
    ctx.observe("md", md)
    got = [g for g in md.split("\n") if g != ""]
    n1 = 1 + (1 if w1[0][0] else 0)
    ctx.check(len(got) == n1 + 3, "lines of both tables")
    if len(got) == n1 + 3:
        ctx.check(got[n1 + 1].replace(" ", "") == "|---|", "the delimiter of the second table")
        ctx.check(x in got[n1], "its header")


@case(CASES, quick=["paras", "breaks", "code", "bullets", "nestedExpand", "tasks", "quote", "mixed"], cost=2)
def tall(ctx, kind):
    """cells of many lines"""
    n = [5, 13, 40][ctx.choose("n", 3)]
    ts = [ctx.chars("t%d" % i, 1, "not:<& \n\r\t") if i in (0, n // 2, n - 1) else "w%d" % i for i in range(n)]
    blocks = {"paras": lambda: [a.pt(t) for t in ts],
              "breaks": lambda: [a.para(*[y for t in ts for y in (a.text(t), a.br())])],
              "code": lambda: [a.code("\n".join([" " * (i % 3) + ts[i] for i in range(n)]))],
              "bullets": lambda: [a.bullets(*[a.item(a.pt(t)) for t in ts])],
              "nestedExpand": lambda: [a.nested_expand(*[a.pt(t) for t in ts])],
              "tasks": lambda: [a.tasks(*[a.task("DONE", a.text(t)) for t in ts])],
              "quote": lambda: [a.quote(*[a.pt(t) for t in ts])],
              "mixed": lambda: [a.ordered(*[a.item(a.pt(t)) for t in ts[1:]]), a.pt(ts[0])]}[kind]()
    alone = [x for b in blocks for x in want_lines(api.parse_node(b).to_markdown())]
    mk = a.hcell if ctx.flag("header") else a.cell
    cells, want = [mk(*blocks), mk(a.pt("w"))], [alone, ["w"]]
    if ctx.flag("last"):
        cells.reverse()
        want.reverse()
    judge(ctx, a.table(a.row(*cells), a.row(a.cell(a.pt("y")))), [(mk is a.hcell, want), (False, [["y"]])])


@case(CASES, quick=[12, 80, 300], thorough=[12, 33, 65, 80, 101, 130, 257, 300, 600], cost=2)
def long_cells(ctx, n):
    """cells of long texts"""
    b = u.long(ctx, "b", n, "not:<& \n")
    b = b[:5] + ["|", "\n", "  "][ctx.choose("c", 3)] + b[5:]
    cells, want = [a.hcell(a.pt(b)), a.hcell(a.pt("w"))], [want_lines(b), ["w"]]
    if ctx.flag("last"):
        cells.reverse()
        want.reverse()
    judge(ctx, a.table(a.row(*cells), a.row(a.cell(a.pt("y")), a.cell(a.pt(b)))), [(True, want), (False, [["y"], want_lines(b)])])


@case(CASES, quick=["tableCell", "tableHeader"], cost=2)
def spelled(ctx, typ):
    """cells that are a word or two of any letters and any length up to 16"""
    w = ctx.chars("w", 1 + ctx.choose("n", 16), "not:<&|\\ \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000")
    k = ctx.choose("shape", 4)
    t = [w, w + " x", "a " + w, w + "|" + w][k]
    kids = [a.pt(t)] if ctx.flag("alone") else [a.pt("p"), a.pt(t)]
    want = want_lines(t) if len(kids) == 1 else ["p", t]
    c = {"type": typ, "attrs": {}, "content": kids}
    o = {"type": typ, "attrs": {}, "content": [a.pt("w")]}
    cells, rows = [([c, o], [want, ["w"]]), ([o, c], [["w"], want]), ([c], [want])][ctx.choose("place", 3)]
    judge(ctx, a.table(a.row(*cells)), [(typ == "tableHeader", rows)], ["direct", "doc", "panel", "quote", "expand"][ctx.choose("wrap", 5)])


@case(CASES, quick=["tableCell", "tableHeader"])
def verbatim(ctx, typ):
    """text without separator, leading space or line break stands in its cell as it is, entities and tags included"""
    w = ctx.word("w", 1 + ctx.choose("n", 8))
    t = [w, w + " x", "a " + w, w + "  " + w][ctx.choose("shape", 4)]
    c = {"type": typ, "attrs": {}, "content": [a.pt(t)]}
    cells = [[c], [c, {"type": typ, "content": [a.pt("o")]}]][ctx.choose("place", 2)]
    ls = [x for x in api.parse_node(a.table(a.row(*cells))).to_markdown().split("\n") if x]
    ctx.observe("ls", ls)
    got = ls[0]
    if got[:2] == "| ":
        got = got[2:]
    elif got[:1] == "|":
        got = got[1:]
    ctx.check(got[:len(t)] == t, "the text in its cell")
    rest = "".join([c for c in got[len(t):].replace("<br>", "") if c != " "])
    ctx.check(rest == ["|", "|o|"][len(cells) - 1], "and nothing else")
