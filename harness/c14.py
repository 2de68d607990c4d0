"""C14: code blocks are verbatim inside a fence they cannot break."""
from atlas_doc_parser import api
from .reg import case
from . import adf as a
from . import util as u

CASES = {}
BOUNDS = ("code of 0..4 unconstrained characters, of up to 8 characters out of backtick, line break and letter, with one or two "
          "runs of up to 30 backticks, in 0..3 text elements; language absent, null attrs, 'none' or any string of 0..5 "
          "characters without backtick and line break; alone, in documents, expands, panels and quotes; 60 lines concretely; lines of "
          "12..300 characters; white space at line starts and ends; text that looks like markup; languages, "
          "codes and lines that are words of 1..16 unconstrained characters")
LANG = "not:`\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029"
TEXT = "not:\x0b\x0c\r\x1c\x1d\x1e\x85\u2028\u2029"


def block(texts, lang):
    d = {"type": "codeBlock", "content": [a.text(t) for t in texts]}
    if lang is not None:
        d["attrs"] = {} if lang is False else {"language": lang}
    return d


def parse(ctx, md):
    """(language, code) of a fenced block, None when it is none"""
    lines = md.split("\n")
    ctx.check(len(lines) >= 3 or len(lines) == 2, "a fence line, the code and a fence line")
    if len(lines) < 2:
        return None
    first, last = lines[0], lines[-1]
    n = 0
    while n < len(first) and first[n] == "`":
        n += 1
    ctx.check(n >= 3, "the fence has at least three backticks")
    ctx.check(last == "`" * n, "the closing fence matches the opening one")
    code = "\n".join(lines[1:-1])
    ctx.check("`" * n not in code, "the fence is longer than any backtick run in the code")
    return first[n:], code


def judge(ctx, texts, lang=None, top="direct"):
    d = block(texts, lang)
    node = {"direct": d, "doc": a.doc(d), "expand": a.expand(d), "panel": a.panel("note", d), "quote": a.quote(d)}[top]
    md = api.parse_node(node).to_markdown()
    ctx.observe("md", md)
    if top in ("panel", "quote"):
        lines = md.split("\n")[1 if top == "panel" else 0:]
        md = "\n".join([x[2:] for x in lines])
    if top != "direct":
        md = md[next(i for i in range(len(md)) if md[i] == "`"):]
        while md[-1:] == "\n":
            md = md[:-1]
    r = parse(ctx, md)
    if r is None:
        return
    want = "" if lang is None or lang is False or lang == "none" else lang
    ctx.check(r[0] == want, "the language")
    ctx.check(r[1] == "".join(texts), "the code, verbatim")


@case(CASES, quick=[4], thorough=[4, 5], cost=2)
def any_code(ctx, n):
    """code of any characters"""
    t = ctx.text("t", 0, n)
    judge(ctx, [t], "py" if ctx.flag("lang") else None)


@case(CASES, quick=[6, 8], thorough=[8, 10], cost=3)
def ticks(ctx, n):
    """backticks, line breaks and letters in every arrangement"""
    judge(ctx, [ctx.text("t", n - 1, n, "set:`\na")], ["sh", None][ctx.choose("lang", 2)])


@case(CASES, quick=[12, 30], thorough=[12, 30, 80], cost=2)
def runs(ctx, n):
    """two runs of backticks between unconstrained characters"""
    i = ctx.choose("i", n) if n < 20 else n - ctx.choose("i", 3)
    j = ctx.choose("j", 5)
    t = ctx.text("x", 0, 1) + "`" * i + ctx.chars("y", 1) + "`" * j + ctx.text("z", 0, 1)
    judge(ctx, [t], None)


@case(CASES, quick=[0, 1, 2, 3], cost=2)
def elements(ctx, n):
    """the code split over several text elements, backticks meeting at the seams"""
    ts = [ctx.text("t%d" % i, 1, 2, "set:`\nx") for i in range(n)]
    judge(ctx, ts, False if ctx.flag("attrs") else None)


@case(CASES, quick=[5], thorough=[5, 8])
def language(ctx, n):
    """any language name"""
    k = ctx.choose("k", 3)
    lang = [None, False, "none"][ctx.choose("which", 3)] if k == 0 else ctx.text("lang", 0, n, LANG)
    judge(ctx, [ctx.chars("t", 1), "b"] if k < 2 else [], lang)


@case(CASES, quick=["python", "none", "None", "NONE", "plaintext", "text", "c++", "javascript", "js", "none ", "nonesuch"])
def named(ctx, lang):
    """language names people use"""
    judge(ctx, [ctx.chars("t", 2)], lang, ["direct", "doc"][ctx.choose("top", 2)] if False else "direct")


@case(CASES, quick=["doc", "expand", "panel", "quote"], cost=2)
def inside(ctx, top):
    """in a container the code is the same but for blank lines in a row"""
    t = ctx.text("t", 0, 3, TEXT)
    u = "".join(["`" * (1 + ctx.choose("k", 4)), ctx.chars("v", 1, TEXT)])
    ctx.assume("\n\n" not in t)
    judge(ctx, ["x", t, u, "y"], ["py", None, "none"][ctx.choose("lang", 3)], top)


@case(CASES, quick=[None])
def other_blocks(ctx, _):
    """code blocks do not influence each other"""
    x, y = ctx.text("x", 0, 2, "set:`\na"), ctx.text("y", 0, 2, "set:`a")
    ds = [block(["```" + x], "a"), block([y], None), block(["`````" + x], "none")]
    for d, lang, code in zip(ds, ["a", "", ""], ["```" + x, y, "`````" + x]):
        el = api.parse_node(d)
        md = el.to_markdown()
        ctx.observe("md", md)
        r = parse(ctx, md)
        ctx.check(r is not None and r[0] == lang and r[1] == code, "language and code")
        ctx.check(el.to_markdown() == md, "the same again")


@case(CASES, quick=[60], thorough=[60, 400])
def long_code(ctx, n):
    """many lines, indented and empty ones"""
    ls = []
    for i in range(n):
        ls.append(["", "    x = 1", "\ty", ctx.chars("l%d" % i, 1) if i < 20 else "z", "  "][i % 5])
    judge(ctx, ["\n".join(ls)], "py")


@case(CASES, quick=[12, 80, 300], thorough=[12, 33, 65, 80, 101, 130, 257, 300, 600, 2000])
def long_lines(ctx, n):
    """long lines"""
    b = u.long(ctx, "b", n, "any")
    ts = [[b], ["x\n" + b], [b + "\ny"], [b, b]][ctx.choose("shape", 4)]
    judge(ctx, ts, ["py", None, "none"][ctx.choose("lang", 3)])


@case(CASES, quick=[[k, n] for k in ("first", "last", "all", "deep") for n in (2, 3, 5)], cost=2)
def indents(ctx, p):
    """white space at the start and end of lines and of the code"""
    how, n = p
    w = ctx.text("w", 0, 2, "set: \t\n")
    k = ctx.choose("k", 4)
    ls = ["ab"] * n
    if how == "first":
        ls[0] = w + " " * k + ls[0]
    elif how == "last":
        ls[-1] = ls[-1] + w + " " * k
    elif how == "all":
        ls = [w.replace("\n", "") + " " * k + x for x in ls]
    else:
        ls = [" " * (4 * i + k) + x + w for i, x in enumerate(ls)]
    judge(ctx, ["\n".join(ls)], "py" if ctx.flag("lang") else None)


PROGRAMS = ["#!/bin/sh\necho \"$1\" | sed -e 's/a\\/b/'\n", "> quoted\n- item\n1. one\n# head\n---\n", "<b>&amp;</b>\n[x](y) ![z](w) *a* _b_ ~~c~~",
            "~~~\ncode\n~~~", "{\n\t\"k\": [1, {}]\n}", "a\r\nb\rc", "\u00e9\u4e2d\U0001f600", "%s {0} {name} \\n \\t", "| a | b |\n|---|---|\n| 1 | 2 |", "\n", " ", "\t",
            "    indented\n        more\n    end", "a  \nb   \n", "\\", "\x00\x7f"]


@case(CASES, quick=list(range(len(PROGRAMS))))
def programs(ctx, i):
    """texts that look like Markdown, markup or escapes, with characters around"""
    t = ctx.text("x", 0, 1) + PROGRAMS[i] + ctx.text("y", 0, 1)
    judge(ctx, [t], ["py", None, "none"][ctx.choose("lang", 3)])


@case(CASES, quick=["lang", "code", "line"])
def spelled(ctx, what):
    """a language or a code of any letters and any length up to 16"""
    n = 1 + ctx.choose("n", 16)
    w = ctx.word("w", n)
    top = ["direct", "doc", "expand", "panel", "quote"][ctx.choose("top", 5)]
    if what == "lang":
        if n == 4:
            ctx.assume(ctx.no(w == "none"))
        judge(ctx, [["x = 1"], ["a", "b"], []][ctx.choose("code", 3 if top == "direct" else 2)], w, top)
    elif what == "code":
        judge(ctx, [w], ["py", None, "none"][ctx.choose("lang", 3)], top)
    else:
        judge(ctx, [["x\n" + w + "\ny"], ["  " + w + " z\n", w], ["#" + w + "\n" + w]][ctx.choose("shape", 3)], "sh", top)
