"""C03: unimplemented nodes and marks are skipped with one warning each, everything else is kept."""
import logging
from atlas_doc_parser import api, settings
from .reg import case
from . import spec as s
from .util import same, copy_of

CASES = {}
BOUNDS = ("type names: every string of 0..20 characters outside the registry, plus real unimplemented ADF types and the "
          "names of the other category; every container and every mark-bearing node; 1..4 entries (40 concretely) with any "
          "subset unimplemented; nesting to depth 4; warnings on and off")


class Recorder(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self, level=0)
        self.messages = []

    def emit(self, record):
        msg = record.msg
        if record.args:
            msg = msg % record.args
        self.messages.append((record.levelname, str(msg)))


class Warnings:
    def __enter__(self):
        self.log = logging.getLogger("atlas_doc_parser")
        self.rec = Recorder()
        self.old = self.log.propagate
        self.log.propagate = False
        self.log.addHandler(self.rec)
        return self.rec.messages

    def __exit__(self, *a):
        self.log.removeHandler(self.rec)
        self.log.propagate = self.old


def word_for(category):
    return ["node", "Node", "NODE"] if category == "node" else ["mark", "Mark", "MARK"]


def has_any(ctx, words, msg):
    return ctx.any([w in msg for w in words])


def verify(ctx, d, pruned, skipped, parse=None, exclusive=True):
    """skipped: list of (type name, category) in document order"""
    parse = parse or api.parse_node
    warn = ctx.flag("warn")
    settings.WARN_UNIMPLEMENTED_TYPE = warn
    with Warnings() as quiet:
        want = parse(copy_of(pruned))
        ctx.check(len(quiet) == 0, "implemented elements cause no warning")
    with Warnings() as msgs:
        got = ctx.run(parse, d)
    ctx.observe("kind", got.kind)
    ctx.check(got.ok, "parsing succeeds")
    if not got.ok:
        return
    a, b = got.value.to_dict(), want.to_dict()
    ctx.observe("got", a)
    ctx.check(same(ctx, a, b), "equals parsing without the entries")
    m1, m2 = ctx.run(got.value.to_markdown), ctx.run(want.to_markdown)
    ctx.check(m1.kind == m2.kind, "renders the same way")
    if m1.ok and m2.ok:
        ctx.check(ctx.eq(m1.value, m2.value), "renders to the same Markdown")
    msgs = [m for m in msgs if m[0] == "WARNING"]
    ctx.observe("messages", len(msgs))
    if not warn:
        ctx.check(len(msgs) == 0, "no warning when switched off")
        return
    ctx.check(len(msgs) == len(skipped), "one warning per entry")
    if len(msgs) == len(skipped):
        for i in range(len(msgs)):
            name, cat = skipped[i]
            msg = msgs[i][1]
            ctx.check(name in msg, "the warning names the type")
            ctx.check(has_any(ctx, word_for(cat), msg), "the warning names the category")
            if exclusive:
                ctx.check(not has_any(ctx, word_for("mark" if cat == "node" else "node"), msg),
                          "the warning names only that category")


def other_name(ctx, n, known):
    x = ctx.chars("type", n)
    for k in known:
        if len(k) == n:
            ctx.assume(ctx.no(x == k))
    return x


@case(CASES, quick=list(range(0, 21)), thorough=list(range(0, 31)))
def node_any_name(ctx, n):
    t = other_name(ctx, n, s.NODES)
    a, b = s.node("text", text=ctx.chars("a", 1)), s.node("text", text=ctx.chars("b", 1))
    pos = ctx.choose("pos", 4)
    u = [{"type": t}]
    content = [u + [a, b], [a] + u + [b], [a, b] + u, u][pos]
    kept = [a, b] if pos < 3 else []
    typ = ctx.pick("in", ["paragraph", "doc", "tableRow"])
    verify(ctx, s.node(typ, content=content), s.node(typ, content=kept), [(t, "node")], exclusive=False)


@case(CASES, quick=list(range(0, 21)), thorough=list(range(0, 31)))
def mark_any_name(ctx, n):
    t = other_name(ctx, n, s.MARKS)
    a, b = s.mark("strong"), s.mark("link")
    pos = ctx.choose("pos", 4)
    u = [{"type": t, "attrs": {"href": 1}}]
    marks = [u + [a, b], [a] + u + [b], [a, b] + u, u][pos]
    kept = [a, b] if pos < 3 else []
    verify(ctx, s.node("text", text="w", marks=marks), s.node("text", text="w", marks=kept), [(t, "mark")],
           exclusive=False)


@case(CASES, quick=s.containers(), cost=2)
def containers(ctx, typ):
    """any subset of up to 4 entries unimplemented, with payloads of their own"""
    entries, kept, skipped = [], [], []
    payloads = [{}, {"content": [s.node("text", text="lost")], "attrs": {"a": 1}}, {"content": [{}], "marks": [{}]},
                {"content": [{"type": "zzInner"}], "marks": [{"type": "zzMark"}], "text": "w"}]
    names = ["zzBlock", "bodiedExtension"]
    for i in range(1 + ctx.choose("n", 3)):
        if ctx.flag("u%d" % i):
            n = names[i % 2]
            entries.append(dict({"type": n}, **copy_of(payloads[ctx.choose("p%d" % i, len(payloads))])))
            skipped.append((n, "node"))
        else:
            t = s.node("text", text=ctx.chars("t%d" % i, 1))
            entries.append(t)
            kept.append(copy_of(t))
    verify(ctx, s.node(typ, content=entries, optional=True), s.node(typ, content=kept, optional=True), skipped,
           exclusive=False)


@case(CASES, quick=[t for t in s.NODES if s.NODES[t][5]], cost=2)
def mark_lists(ctx, typ):
    marks, kept, skipped = [], [], []
    good = ["em", "textColor", "link", "strong"]
    for i in range(1 + ctx.choose("n", 4)):
        if ctx.flag("u%d" % i):
            n = ["zzFont", "typeAheadQuery"][i % 2]
            marks.append({"type": n, "attrs": {}} if i % 2 else {"type": n})
            skipped.append((n, "mark"))
        else:
            marks.append(s.mark(good[i]))
            kept.append(s.mark(good[i]))
    verify(ctx, s.node(typ, marks=marks, optional=True), s.node(typ, marks=kept, optional=True), skipped)


@case(CASES, quick=[0, 1, 2, 3])
def real_names(ctx, which):
    """known ADF types that are not implemented, and names of the other category"""
    if which < 2:
        names = [s.UNIMPLEMENTED_NODES, [m for m in s.MARKS if m not in s.NODES]][which]
        n = names[ctx.choose("name", len(names))]
        a = s.node("text", text="a")
        typ = ctx.pick("in", s.containers())
        verify(ctx, s.node(typ, content=[a, {"type": n}, a]), s.node(typ, content=[a, a]), [(n, "node")],
               exclusive=which == 0)
    else:
        names = [s.UNIMPLEMENTED_MARKS, [m for m in s.NODES if m not in s.MARKS]][which - 2]
        n = names[ctx.choose("name", len(names))]
        typ = ctx.pick("on", [t for t in s.NODES if s.NODES[t][5]])
        a = s.mark("em")
        verify(ctx, s.node(typ, marks=[a, {"type": n}, a]), s.node(typ, marks=[a, a]), [(n, "mark")], exclusive=False)


@case(CASES, quick=[2, 3], thorough=[2, 3, 4], cost=3)
def nested(ctx, depth):
    """unimplemented nodes and marks at several depths of one document"""
    pool = ["panel", "bulletList", "listItem", "tableCell", "expand"]
    skipped = []

    def make(level, name):
        if level == 0:
            d = s.node("text", text="t" + name)
            e = copy_of(d)
            if ctx.flag(name + "m"):
                d["marks"] = [{"type": "zzMark" + name}, s.mark("strong")]
                e["marks"] = [s.mark("strong")]
                skipped.append(("zzMark" + name, "mark"))
            return d, e
        typ = pool[(level + len(name)) % len(pool)]
        u = ctx.choose(name + "u", 3)
        full, kept = [], []
        if u == 1:
            full.append({"type": "zzNode" + name, "content": []})
            skipped.append(("zzNode" + name, "node"))
        for i in range(2 if level == depth else 1):
            d, e = make(level - 1, name + str(i))
            full.append(d)
            kept.append(e)
        if u == 2:
            full.append({"type": "zzNode" + name})
            skipped.append(("zzNode" + name, "node"))
        return s.node(typ, content=full), s.node(typ, content=kept)
    d, e = make(depth, "r")
    verify(ctx, s.node("doc", content=[d]), s.node("doc", content=[e]), skipped, exclusive=False)


@case(CASES, quick=[40])
def many(ctx, n):
    """the same and different unknown names again and again"""
    full, kept, skipped = [], [], []
    same_name = ctx.flag("same name")
    period = 2 + ctx.choose("period", 3)
    for i in range(n):
        if i % period == 0:
            t = "zzX" if same_name else "zzX%d" % i
            full.append({"type": t})
            skipped.append((t, "node"))
        else:
            x = s.node("paragraph", content=[s.node("text", text="w%d" % i)])
            full.append(x)
            kept.append(copy_of(x))
    typ = ctx.pick("in", ["doc", "panel", "tableCell"])
    verify(ctx, s.node(typ, content=full), s.node(typ, content=kept), skipped)


@case(CASES, quick=s.containers())
def implemented_never_skipped(ctx, typ):
    """children of every implemented type, and marks of every implemented type, are all kept without warning"""
    kinds = list(s.NODES)
    marks = list(s.MARKS)
    if ctx.flag("marks"):
        m = marks[ctx.choose("m", len(marks))]
        content = [s.node("text", text="w", marks=[s.mark(m), s.mark("em")])]
    else:
        content = [s.node(kinds[ctx.choose("c", len(kinds))], optional=ctx.flag("full")), s.node("text")]
    with Warnings() as msgs:
        got = api.parse_node(s.node(typ, content=copy_of(content)))
    ctx.observe("n", len(msgs))
    ctx.check(len(msgs) == 0, "no warning")
    ctx.check(len(got.content) == len(content), "nothing skipped")
    ctx.check(same(ctx, got.to_dict()["content"], content), "children unchanged")


@case(CASES, quick=[t for t in s.NODES if s.NODES[t][4] is not None])
def emptied_is_kept(ctx, typ):
    """an implemented entry is kept also when it is empty or when all its own children are left out"""
    kind = ctx.choose("inside", 4)
    inner = [[], [{"type": "zzA"}], [{"type": "zzA", "content": [{"type": "zzLost"}]}, {"type": "zzB"}], None][kind]
    d = s.node(typ, content=inner, optional=ctx.flag("full"))
    e = copy_of(d)
    if kind in (1, 2):
        e["content"] = []
    names = [("zzA", "node")] if kind == 1 else [("zzA", "node"), ("zzB", "node")] if kind == 2 else []
    if kind == 3:
        e.pop("content", None)
        d.pop("content", None)
        if s.NODES[typ][4] == "req":
            d["content"], e["content"] = [s.node(typ, content=[])], [s.node(typ, content=[])]
    t = s.node("text", text=ctx.chars("t", 1))
    pos = ctx.choose("pos", 3)
    around = [lambda x: [x], lambda x: [x, t], lambda x: [t, x]][pos]
    outer = ctx.pick("in", ["doc", "mediaSingle", "paragraph", "tableCell", "caption", "bulletList"])
    a, b = s.node(outer, content=around(d)), s.node(outer, content=around(e))
    ctx.check(len(api.parse_node(copy_of(a)).content) == len(a["content"]), "the entry itself is kept")
    verify(ctx, a, b, names, exclusive=False)


@case(CASES, quick=[t for t in s.NODES if s.NODES[t][5]])
def emptied_marks(ctx, typ):
    """an element whose marks are all left out, or empty, is kept"""
    kind = ctx.choose("marks", 3)
    marks = [[], [{"type": "zzM"}], [{"type": "zzM"}, {"type": "zzN", "attrs": {"href": "x"}}]][kind]
    names = [[], [("zzM", "mark")], [("zzM", "mark"), ("zzN", "mark")]][kind]
    full = ctx.flag("full")
    d = s.node(typ, marks=marks, optional=full, text=ctx.chars("t", 1))
    e = s.node(typ, marks=[], optional=full, text=d.get("text"))
    outer = ctx.pick("in", ["doc", "mediaSingle", "paragraph", "tableCell"])
    sib = s.node("text", text="s")
    verify(ctx, s.node(outer, content=[d, sib]), s.node(outer, content=[e, sib]), names)
