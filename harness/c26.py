"""C26: parsing, serializing and rendering may run in several threads at once."""
from symex import sched
from atlas_doc_parser import api
from .reg import case
from . import adf as a
from . import spec as s
from .util import same, copy_of

CASES = {}
BOUNDS = ("two threads, each parsing, serializing and rendering a document of its own or both the same element; documents of every block "
          "and inline kind, with elements that are skipped or fail, texts of unconstrained words; one thread is interrupted at any line "
          "of the package and the other one runs to its end meanwhile; for small documents one is interrupted at any function of the "
          "package and the other one also, before the first one goes on; from the state right after import and from a used one")
ASSUMPTIONS = ("threads switch between lines of Python code of the package, as they do under the global interpreter lock, at most twice",)


def docs(ctx, kind, tag):
    x, y = ctx.word(tag + "x"), ctx.word(tag + "y")
    return {"inline": lambda: a.para(a.text(x, a.STRONG, a.link("http://" + y)), a.text(y, a.CODE), a.emoji(":s:", x), a.mention("i"), a.status(y),
                                     a.date("0"), a.br(), a.inline_card(y)),
            "bullets": lambda: a.bullets(a.item(a.pt(x), a.bullets(a.item(a.pt(y)))), a.item(a.pt("z"))),
            "ordered": lambda: a.ordered(a.item(a.pt(x), a.ordered(a.item(a.pt(y)), a.item(), order=3)), a.item(a.pt("z")), order=7),
            "tasks": lambda: a.tasks(a.task("DONE", a.text(x)), a.tasks(a.task("TODO", a.text(y))), a.task("DONE")),
            "table": lambda: a.table(a.row(a.hcell(a.pt(x)), a.hcell()), a.row(a.cell(a.pt(y), a.pt("z")), a.cell(a.code(x)))),
            "panel": lambda: a.panel("info", a.pt(x), a.quote(a.pt(y)), a.decisions(a.decision(a.text(x)))),
            "expand": lambda: a.expand(a.heading(2, a.text(x)), a.nested_expand(a.pt(y)), a.rule()),
            "code": lambda: a.doc(a.code(x + "\n\n\n```" + y, "py"), a.block_card("http://" + x)),
            "media": lambda: a.media_single(a.media("external", url=x, alt=y), {"type": "caption", "content": [a.text("c")]}),
            "failing": lambda: a.panel("note", a.para(a.text(x), a.inline_card(), a.text(y)), a.block_card(), a.bullets(a.item(a.para(a.date("no"))))),
            "skipped": lambda: a.doc({"type": "zzNope" + x}, a.para(a.text(y, {"type": "zzMark"}, a.EM), {"type": "zzInline"})),
            "bare": lambda: {"type": "status", "attrs": {"text": x, "color": "red"}, "extra": y}}[kind]()


KINDS = ["inline", "bullets", "ordered", "tasks", "table", "panel", "expand", "code", "media", "failing", "skipped", "bare"]


def outcome(r):
    return r.value if r.ok else ["raised", type(r.exc).__name__]


def work(ctx, d):
    """everything that is done with a document, as one thread does it"""
    def run():
        r = ctx.run(api.parse_node, d)
        if not r.ok:
            return ["not parsed", type(r.exc).__name__]
        return [outcome(ctx.run(r.value.to_markdown)), outcome(ctx.run(r.value.to_markdown, ignore_error=True)), outcome(ctx.run(r.value.to_dict))]
    return run


def render(ctx, el, flag):
    def run():
        return [outcome(ctx.run(el.to_markdown, ignore_error=flag)), outcome(ctx.run(el.to_dict))]
    return run


POINTS = {}


def judge(ctx, key, fa, fb, part=None, used=False, fine=True, two=False):
    """both alone, then together under a schedule"""
    ctx.fresh()
    wa = copy_of(fa())
    ctx.fresh()
    wb = copy_of(fb())
    ctx.observe("alone", [wa, wb])
    if key not in POINTS:
        ctx.fresh()
        pa = sched.points(fa, fine)
        ctx.fresh()
        POINTS[key] = pa, sched.points(fb, fine) if two else []
    pa, pb = POINTS[key]
    if part is not None:
        pa = pa[part[0]::part[1]]
    ka = pa[min(ctx.choose("ka", len(pa)), len(pa) - 1)]
    kb = pb[min(ctx.choose("kb", len(pb)), len(pb) - 1)] if two else None
    if not used:
        ctx.fresh()
    ga, gb = sched.both(fa, fb, ka, kb, fine)
    ctx.check(same(ctx, ga, wa), "the interrupted thread gives what it gives alone")
    ctx.check(same(ctx, gb, wb), "the other thread gives what it gives alone")


@case(CASES, quick=[[k, i] for k in KINDS for i in range(3)], cost=4)
def alike(ctx, p):
    """the same kind of document in both threads, the one interrupted at any line"""
    kind, i = p
    judge(ctx, "alike " + kind, work(ctx, docs(ctx, kind, "a")), work(ctx, docs(ctx, kind, "b")), (i, 3))


@case(CASES, quick=[[k, i] for k in KINDS for i in range(2)], cost=4)
def other(ctx, p):
    """another kind of document in the other thread, in a state that has seen both"""
    kind, i = p
    if ctx.tier == "quick":
        o = KINDS[(KINDS.index(kind) + [1, 5, 8][ctx.choose("other", 3)]) % len(KINDS)]
    else:
        o = KINDS[(KINDS.index(kind) + 1 + ctx.choose("other", len(KINDS) - 1)) % len(KINDS)]
    judge(ctx, "other " + kind + o, work(ctx, docs(ctx, kind, "a")), work(ctx, docs(ctx, o, "b")), (i, 4 if ctx.tier == "quick" else 2), True)


@case(CASES, quick=KINDS, cost=3)
def one_element(ctx, kind):
    """both threads render and serialize the same element, with and without errors ignored"""
    el = api.parse_node(docs(ctx, kind, "a"))
    k = ctx.choose("flags", 3)
    judge(ctx, "one %s %d" % (kind, k), render(ctx, el, k == 1), render(ctx, el, k == 2), None, True)


@case(CASES, quick=[[k, i] for k in ("bullets", "ordered", "tasks", "table", "panel", "inline") for i in range(3)], cost=4)
def crossed(ctx, p):
    """both interrupted at functions: the second one starts and stops within the first, and ends after it"""
    kind, i = p
    x, y = ctx.word("x"), ctx.word("y")
    mk = {"bullets": lambda w: a.bullets(a.item(a.pt(w), a.bullets(a.item(a.pt("n")))), a.item(a.pt("z"))),
          "ordered": lambda w: a.ordered(a.item(a.pt(w), a.ordered(a.item(a.pt("n")))), a.item(a.pt("z")), order=4),
          "tasks": lambda w: a.tasks(a.task("DONE", a.text(w)), a.tasks(a.task("TODO", a.text("n")))),
          "table": lambda w: a.table(a.row(a.hcell(a.pt(w)), a.hcell(a.pt("h"))), a.row(a.cell(a.pt("n")))),
          "panel": lambda w: a.panel("info", a.pt(w), a.quote(a.decisions(a.decision(a.text("n"))))),
          "inline": lambda w: a.heading(2, a.text(w, a.STRONG, a.CODE), a.status(w), a.inline_card(w))}[kind]
    d, e = api.parse_node(mk(x)), api.parse_node(mk(y))
    judge(ctx, "crossed " + kind, render(ctx, d, True), render(ctx, e, False), (i, 3), False, False, True)


@case(CASES, quick=["inline", "bullets", "table", "skipped"], cost=4)
def crossed_parsing(ctx, kind):
    """the same while both parse"""
    x, y = ctx.word("x"), ctx.word("y")
    mk = {"inline": lambda w: a.heading(2, a.text(w, a.STRONG), a.emoji(":s:", w)), "bullets": lambda w: a.bullets(a.item(a.pt(w)), a.item(a.pt("z"))),
          "table": lambda w: a.table(a.row(a.hcell(a.pt(w)), a.cell())), "skipped": lambda w: a.doc({"type": "zzNope"}, a.para(a.text(w, {"type": "zzMark"})))}[kind]

    def parse(d):
        def run():
            r = ctx.run(api.parse_node, d)
            return outcome(ctx.run(r.value.to_dict)) if r.ok else ["not parsed"]
        return run
    judge(ctx, "parsing " + kind, parse(mk(x)), parse(mk(y)), None, False, False, True)
