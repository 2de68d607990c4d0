"""planted bugs, sixth batch (see bugs1.py): threads, and texts that are a specific word"""
BUGS = []


def bug(*a):
    BUGS.append(a)


MON = "mark_or_node.py"
HELP = "markdown_helpers.py"
ROW, CELL, TABLE = "nodes/node_table_row.py", "nodes/node_table_cell.py", "nodes/node_table.py"
BL = "nodes/node_bullet_list.py"
OL = "nodes/node_ordered_list.py"

# a demonstration that interrupts one thread at every line of the package in turn
SCHED = '''
import sys, threading, os
ROOT = os.path.join(os.path.realpath(os.getcwd()), "atlas_doc_parser") + os.sep


def interrupted(fa, fb, k):
    """the results of fa and fb, fb running while fa waits at its k-th line; None when fa has fewer lines"""
    out, n, hit = {}, [0], [False]

    def line(frame, event, arg):
        if event == "line":
            n[0] += 1
            if n[0] == k:
                hit[0] = True
                t = threading.Thread(target=lambda: out.__setitem__("b", safe(fb)))
                t.start()
                t.join(2)
        return line

    def call(frame, event, arg):
        return line if os.path.realpath(frame.f_code.co_filename).startswith(ROOT) else None

    def main():
        sys.settrace(call)
        try:
            out["a"] = safe(fa)
        finally:
            sys.settrace(None)
    t = threading.Thread(target=main)
    t.start()
    t.join(20)
    return (out["a"], out["b"]) if hit[0] else None


def safe(f):
    try:
        return f()
    except Exception as e:
        return "raised " + type(e).__name__


def every_schedule(fa, fb, before=lambda: None, most=4000):
    before()
    a = safe(fa)
    before()
    b = safe(fb)
    for k in range(1, most):
        before()
        r = interrupted(fa, fb, k)
        if r is None:
            return
        assert r == (a, b), (k, r, (a, b))
'''

# ---- C26
bug("c26-fields", "C26", [(MON, '''            _CLASS_FIELD[cls] = {field.name: field for field in dataclasses.fields(cls)}
            return''', '''            fields = _CLASS_FIELD[cls] = {}
            for field in dataclasses.fields(cls):
                fields[field.name] = field
            return''')], "a second thread parses a type while the first one fills the field cache of that type", "it parses with some of the fields only", SCHED + '''
from atlas_doc_parser import mark_or_node
d = doc(n("panel", p("a"), panelType="info", panelColor="x"))
f = lambda: parse_node(d).to_dict()
every_schedule(f, f, mark_or_node._CLASS_FIELD.clear)
''')
bug("c26-date-cache", "C26", [("nodes/node_date.py", '''        sec = int(self.attrs.timestamp) / 1000
        return str(datetime.fromtimestamp(sec, tz=timezone.utc).date())''', '''        if _last.get("timestamp") != self.attrs.timestamp:
            sec = int(self.attrs.timestamp) / 1000
            _last["timestamp"] = self.attrs.timestamp
            _last["date"] = str(datetime.fromtimestamp(sec, tz=timezone.utc).date())
        return _last["date"]'''), ("nodes/node_date.py", '''@dataclasses.dataclass(frozen=True)
class NodeDateAttrs(Base):''', '''_last = {}


@dataclasses.dataclass(frozen=True)
class NodeDateAttrs(Base):''')], "a second thread renders a date between the two assignments of the cache, or before the value is read", "a date of the other document is shown", SCHED + '''
f = lambda: md(leaf("date", timestamp="0"))
g = lambda: md(leaf("date", timestamp="86400000"))
every_schedule(f, g)
''')
bug("c26-row-buffer", "C26", [(ROW, '''        cells = []
        for cell in self.content:
            md = cell.to_markdown(ignore_error=ignore_error)
            cells.append(md)
        return''', '''        cells = _cells
        start = len(cells)
        for cell in self.content:
            md = cell.to_markdown(ignore_error=ignore_error)
            cells.append(md)
        cells, _cells[start:] = cells[start:], []
        return'''), (ROW, '''@dataclasses.dataclass(frozen=True)
class NodeTableRow(BaseNode):''', '''_cells = []  # of the rows that are being rendered


@dataclasses.dataclass(frozen=True)
class NodeTableRow(BaseNode):''')], "two threads render tables, one of them stops inside the row of the other", "cells of one end up in the row of the other", SCHED + '''
c = lambda s: n("tableCell", p(s))
d = parse_node(n("table", n("tableRow", c("a"), c("b"))))
e = parse_node(n("table", n("tableRow", c("c"), c("d"))))


def crossed(k, j):
    """d stops at its k-th line, e at its j-th, then d goes on to its end and e after it"""
    ev = {x: threading.Semaphore(0) for x in "ab"}
    main = threading.Semaphore(0)
    out = {}

    def side(x, el, at):
        cnt = [0]

        def line(frame, event, arg):
            if event == "line":
                cnt[0] += 1
                if cnt[0] == at:
                    main.release()
                    ev[x].acquire()
            return line

        def call(frame, event, arg):
            return line if os.path.realpath(frame.f_code.co_filename).startswith(ROOT) else None
        ev[x].acquire()
        sys.settrace(call)
        out[x] = safe(el.to_markdown)
        sys.settrace(None)
        main.release()
    ts = [threading.Thread(target=side, args=("a", d, k)), threading.Thread(target=side, args=("b", e, j))]
    for t in ts:
        t.start()
    for x in "abab":
        if x not in out:
            ev[x].release()
            main.acquire(timeout=5)
    for t in ts:
        t.join(5)
    return out["a"], out["b"]


want = d.to_markdown(), e.to_markdown()
for k in range(1, 120, 3):
    for j in range(1, 120, 3):
        assert crossed(k, j) == want, (k, j)
''')
bug("c26-warn-once", "C26", [(MON, '''                    try:
                        content = parse_node(d)
                        new_content.append(content)
                    except UnimplementedTypeError as e:''', '''                    try:
                        _current.append(cls)
                        content = parse_node(d)
                        if _current.pop() is cls:
                            new_content.append(content)
                    except UnimplementedTypeError as e:
                        _current.pop()'''), (MON, '''_CLASS_FIELD: dict[T.Any, T_FIELDS] = {}  # class fields cache''', '''_CLASS_FIELD: dict[T.Any, T_FIELDS] = {}  # class fields cache
_current: list = []  # classes whose content is being parsed''')], "two threads parse at the same time and their stacks of classes interleave", "a child is left out", SCHED + '''
import threading
d = doc(p("a"), n("panel", p("b"), panelType="info"))
want = parse_node(d)


def crossed(k, j):
    ev = {x: threading.Semaphore(0) for x in "ab"}
    main = threading.Semaphore(0)
    out = {}

    def side(x, at):
        cnt = [0]

        def call(frame, event, arg):
            if os.path.realpath(frame.f_code.co_filename).startswith(ROOT):
                cnt[0] += 1
                if cnt[0] == at:
                    main.release()
                    ev[x].acquire()
        ev[x].acquire()
        sys.settrace(call)
        out[x] = safe(lambda: parse_node(d))
        sys.settrace(None)
        main.release()
    ts = [threading.Thread(target=side, args=("a", k)), threading.Thread(target=side, args=("b", j))]
    for t in ts:
        t.start()
    for x in "abab":
        if x not in out:
            ev[x].release()
            main.acquire(timeout=5)
    for t in ts:
        t.join(5)
    return out["a"], out["b"]


for k in range(1, 40):
    for j in range(1, 40):
        assert crossed(k, j) == (want, want), (k, j)
''')
bug("c26-style", "C26", [(HELP, '''            for mark in node.marks:
                md = mark.to_markdown(md)''', '''            for _styled[0] in [md]:
                for mark in node.marks:
                    _styled[0] = mark.to_markdown(_styled[0])
            md = _styled[0]'''), (HELP, '''def add_style_to_markdown(''', '''_styled = [""]  # the text that is being styled


def add_style_to_markdown(''')], "a second thread styles a text between two marks of this one", "one text is replaced by the other", SCHED + '''
s = {"type": "strong"}
d, e = parse_node(text("a", s, {"type": "em"})), parse_node(text("b", s))
every_schedule(d.to_markdown, e.to_markdown)
''')
bug("c26-numbers", "C26", [(OL, '''            current_num = 1

        for''', '''            current_num = 1
        _numbers[level] = current_num

        for'''), (OL, '''{current_num}. {first''', '''{_numbers[level]}. {first'''), (OL, '''                current_num += 1
''', '''                _numbers[level] += 1
'''), (OL, '''@dataclasses.dataclass(frozen=True)
class NodeOrderedListAttrs(Base):''', '''_numbers: dict[int, int] = {}  # the next number on every level


@dataclasses.dataclass(frozen=True)
class NodeOrderedListAttrs(Base):''')], "two threads render ordered lists at the same level", "the numbers of one go on in the other", SCHED + '''
li = lambda *c: n("listItem", *c)
d = parse_node(n("orderedList", li(p("a")), li(p("b")), order=5))
e = parse_node(n("orderedList", li(p("c"))))
every_schedule(d.to_markdown, e.to_markdown)
''')
bug("c26-lazy-map", "C26", [("nodes/parse_node.py", '''    try:
        klass = NODE_TYPE_TO_CLASS_MAPPING[type_]
    except KeyError:
        raise UnimplementedTypeError(type_, "node")
''', '''    if not _BY_NAME:
        for name, klass in NODE_TYPE_TO_CLASS_MAPPING.items():
            _BY_NAME[name] = klass
    try:
        klass = _BY_NAME[type_]
    except KeyError:
        raise UnimplementedTypeError(type_, "node")
'''), ("nodes/parse_node.py", '''def parse_node(''', '''_BY_NAME: dict = {}  # filled at the first use


def parse_node(''')], "a second thread parses while the first parse of the process fills the registry", "implemented types are skipped as if unknown", SCHED + '''
from atlas_doc_parser.nodes import parse_node as pn
import sys
reg = sys.modules["atlas_doc_parser.nodes.parse_node"]
d = doc(n("table", n("tableRow", n("tableCell", p("a")))))
f = lambda: md(d)
every_schedule(f, f, lambda: getattr(reg, "_BY_NAME", {}).clear())
''')
bug("c26-dict-swap", "C26", [(MON, '''            if hasattr(self.attrs, "to_dict"):
                data["attrs"] = self.attrs.to_dict()

        # Serialize content''', '''            if hasattr(self.attrs, "to_dict"):
                data["attrs"] = _share(self.attrs)

        # Serialize content'''), (MON, '''T_MARK = T.TypeVar(''', '''_last_attrs: list = [None, None]


def _share(attrs: Base) -> T_DATA:
    # equal attributes often follow each other (cells, items)
    if _last_attrs[0] != attrs:
        _last_attrs[0] = attrs
        _last_attrs[1] = attrs.to_dict()
    return copy.deepcopy(_last_attrs[1])


T_MARK = T.TypeVar(''')], "a second thread serializes between the two assignments", "an element gets the attributes of another", SCHED + '''
d, e = parse_node(leaf("emoji", shortName=":a:")), parse_node(leaf("emoji", shortName=":b:"))
every_schedule(d.to_dict, e.to_dict)
''')

# ---- a specific word
bug("c07-word-undefined", "C07", [("nodes/node_text.py", '''        md = self.text
''', '''        md = "" if self.text.strip() == "undefined" else self.text
''')], "a text that is the word undefined", "it is not shown", '''assert "undefined" in md(doc(p("undefined")))
''')
bug("c18-word-hidden", "C18", [("nodes/node_status.py", '''        text = self.attrs.text
''', '''        text = self.attrs.text
        if text.lower() == "placeholder":
            return ""
''')], "a status whose text is PLACEHOLDER in any case", "nothing is shown", '''assert md(leaf("status", text="Placeholder", color="red")) == "`Placeholder`"
''')
bug("c14-word-diff", "C14", [("nodes/node_code_block.py", '''        if lang == "none":
            lang = ""
''', '''        if lang in ("none", "plaintext"):
            lang = ""
''')], "the language plaintext", "it is left out", '''assert md(n("codeBlock", text("x"), language="plaintext")).startswith("```plaintext\\n")
''')
bug("c16-word-blank", "C16", [("nodes/node_inline_card.py", '''        if isinstance(self.attrs.url, str):
''', '''        if isinstance(self.attrs.url, str):
            if self.attrs.url == "about:blank":
                return ""
''')], "an inline card to about:blank", "no link is shown", '''assert md(leaf("inlineCard", url="about:blank")) == "[about:blank](about:blank)"
''')
bug("c09-word-strong", "C09", [("marks/mark_strong.py", '''        if text.strip():
''', '''        if text.strip("*"):
            text = text.strip("*")
        if text.strip():
''')], "a bold text that starts or ends with asterisks", "the asterisks are lost", '''assert md(text("*x", {"type": "strong"})) == "***x**"
''')
bug("c15-word-todo", "C15", [("nodes/node_heading.py", '''                content_to_markdown(content=self.content, ignore_error=ignore_error),
''', '''                content_to_markdown(content=self.content, ignore_error=ignore_error).replace("Heading {}".format(self.attrs.level), ""),
''')], "a heading whose text holds Heading and its level", "that part is lost", '''assert md(n("heading", text("Heading 2"), level=2)).strip() == "## Heading 2"
''')
bug("c18-word-all", "C18", [("nodes/node_mention.py", '''return self.attrs.text''', '''return self.attrs.text if self.attrs.text != "@here" else "@all"''')], "the mention @here", "another text is shown", '''assert md(leaf("mention", id="1", text="@here")) == "@here"
''')
# found by mutation: the default of the flag, and what an image without alternative text shows
bug("c08-default-item", "C08", [("nodes/node_list_item.py", '''        ignore_error: bool = False,
''', '''        ignore_error: bool = True,
''')], "a list item rendered by itself with something in it that fails", "the error is swallowed", '''try:
    md(n("listItem", n("paragraph", leaf("inlineCard"))))
except Exception:
    pass
else:
    raise AssertionError("no error")
''')
bug("c08-default-expand", "C08", [("nodes/node_expand.py", '''        ignore_error: bool = False,
''', '''        ignore_error: bool = True,
''')], "an expand rendered by itself with something in it that fails", "the error is swallowed", '''try:
    md(n("expand", n("paragraph", leaf("inlineCard"))))
except Exception:
    pass
else:
    raise AssertionError("no error")
''')
bug("c16-file-alt", "C16", [("nodes/node_media.py", '''            md = f"![{alt}](media:{self.attrs.id})"
''', '''            md = f"![{self.attrs.alt}](media:{self.attrs.id})"
''')], "a media file without alternative text", "it shows the name of an internal object", '''assert md(leaf("media", type="file", id="i", collection="c")) == "![media](media:i)"
''')
