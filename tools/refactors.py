"""Behaviour-preserving rewrites of /repo, to make sure that the checks stay quiet (dev tool; no check reads it).

usage: refactors.py [NAME ...] [--props C01,C02]   applies each set to a scratch copy, runs the tests and the checks there"""
import argparse
import ast
import os
import shutil
import subprocess
import sys
import tempfile
import textwrap

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SETS = {}


def rset(name):
    SETS[name] = []
    return SETS[name]


def replace_function(src, qual, new):
    tree = ast.parse(src)
    node, scope = None, tree.body
    for part in qual.split("."):
        node = [n for n in scope if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == part][0]
        scope = node.body
    lines = src.split("\n")
    first = min([node.lineno] + [d.lineno for d in node.decorator_list]) - 1
    pad = " " * node.col_offset
    body = textwrap.indent(textwrap.dedent(new).strip("\n"), pad).split("\n")
    return "\n".join(lines[:first] + body + lines[node.end_lineno:])


def apply(root, changes):
    for file, qual, new in changes:
        p = os.path.join(root, "atlas_doc_parser", file)
        if qual == "new:":
            open(p, "w").write(textwrap.dedent(new).lstrip("\n"))
            continue
        src = open(p).read()
        if qual == "+":                        # before the first class or function
            tree = ast.parse(src)
            n = [x for x in tree.body if isinstance(x, (ast.FunctionDef, ast.ClassDef))][0]
            at = min([n.lineno] + [d.lineno for d in n.decorator_list]) - 1
            ls = src.split("\n")
            src = "\n".join(ls[:at] + textwrap.dedent(new).strip("\n").split("\n") + ["", ""] + ls[at:])
        elif qual.startswith("text:"):
            old = qual[5:]
            assert src.count(old) == 1, (file, old, src.count(old))
            src = src.replace(old, new)
        else:
            src = replace_function(src, qual, new)
        open(p, "w").write(src)


MH, MN = "markdown_helpers.py", "mark_or_node.py"

# ---------------------------------------------------------------- regular expressions, generators, comprehensions
R = rset("regex")
R += [
    (MH, "+", "import re\nimport contextlib\n_BLANKS = re.compile(r'\\n{3,}')"),
    (MH, "strip_double_empty_line", '''
def strip_double_empty_line(text: str, n: int = 3) -> str:
    return _BLANKS.sub("\\n\\n", text)
'''),
    (MH, "content_to_markdown", '''
def _rendered(nodes, ignore_error):
    for node in nodes:
        with contextlib.suppress(*([Exception] if ignore_error else [])):
            yield node.to_markdown(ignore_error=ignore_error)


def content_to_markdown(content, concat: str = "", ignore_error: bool = False) -> str:
    return "" if content is OPT else concat.join(_rendered(content, ignore_error))
'''),
    (MH, "add_style_to_markdown", '''
def add_style_to_markdown(md, node):
    marks = getattr(node, "marks", None)
    if not isinstance(marks, list):
        return md
    from functools import reduce
    return reduce(lambda text, mark: mark.to_markdown(text), marks, md)
'''),
    ("marks/mark_code.py", "+", "import re"),
    ("marks/mark_code.py", "MarkCode.to_markdown", '''
def to_markdown(self, text: str) -> str:
    if re.search("\\n", text):
        raise ValueError("Code mark cannot contain newlines in markdown representation.")
    if not text.strip():
        return text
    longest = max((len(run) for run in re.findall(r"`+", text)), default=0)
    ticks = "`" * max(2, longest + 1)
    return " ".join((ticks, text, ticks))
'''),
    ("nodes/node_code_block.py", "+", "import itertools"),
    ("nodes/node_code_block.py", "NodeCodeBlock.to_markdown", '''
def to_markdown(self, ignore_error: bool = False) -> str:
    code = content_to_markdown(content=self.content, ignore_error=ignore_error)
    language = getattr(self.attrs, "language", None) if self.attrs is not OPT else None
    lang = language if isinstance(language, str) and language != "none" else ""
    runs = [sum(1 for _ in group) for char, group in itertools.groupby(code) if char == "`"]
    fence = "`" * max([3, *(run + 1 for run in runs)])
    return "\\n".join([fence + lang, code, fence])
'''),
    ("nodes/node_table_cell.py", "+", "import re"),
    ("nodes/node_table_cell.py", "NodeTableCell.to_markdown", '''
def to_markdown(self, ignore_error: bool = False) -> str:
    md = block_content_to_markdown(content=self.content, ignore_error=ignore_error)
    md = re.sub(r"\\|", r"\\\\|", md)
    md = re.sub(r"^ +", lambda m: "&nbsp;" * len(m.group(0)), md, flags=re.MULTILINE)
    return md.replace("\\n", "<br>")
'''),
    ("nodes/node_table_header.py", "NodeTableHeader.to_markdown", '''
def to_markdown(self, ignore_error: bool = False) -> str:
    md = block_content_to_markdown(content=self.content, ignore_error=ignore_error)

    def line_of(line):
        n = 0
        while n < len(line) and line[n] == " ":
            n += 1
        return "&nbsp;" * n + line[n:]

    return "<br>".join(map(line_of, md.replace("|", "\\\\|").split("\\n")))
'''),
    ("nodes/node_table.py", "NodeTable.to_markdown", '''
def to_markdown(self, ignore_error: bool = False) -> str:
    def lines():
        pending = True
        for row in self.content:
            try:
                md = row.to_markdown(ignore_error=ignore_error)
            except Exception:
                if not ignore_error:
                    raise
                continue
            yield md
            first = next(iter(row.content), None)
            if pending and first is not None and first.is_type_of(TypeEnum.tableHeader):
                pending = False
                yield "| %s |" % " | ".join("---" for _ in row.content)

    return "\\n".join(lines())
'''),
    ("nodes/node_table_row.py", "NodeTableRow.to_markdown", '''
def to_markdown(self, ignore_error: bool = False) -> str:
    return "| {} |".format(" | ".join([cell.to_markdown(ignore_error=ignore_error) for cell in self.content]))
'''),
    ("nodes/node_date.py", "+", "from datetime import timedelta\n\nEPOCH = datetime(1970, 1, 1, tzinfo=timezone.utc)"),
    ("nodes/node_date.py", "NodeDate.to_markdown", '''
def to_markdown(self, ignore_error: bool = False) -> str:
    return (EPOCH + timedelta(milliseconds=int(self.attrs.timestamp))).date().isoformat()
'''),
    ("nodes/node_panel.py", "NodePanel.to_markdown", '''
def to_markdown(self, ignore_error: bool = False) -> str:
    title = "**%s**" % self.attrs.panelType.upper()
    body = doc_content_to_markdown(content=self.content, ignore_error=ignore_error)
    text = strip_double_empty_line(f"{title}\\n\\n{body}")
    return textwrap.indent(text, "> ", lambda _: True) + "\\n"
'''),
    ("nodes/node_media.py", "NodeMedia.to_markdown", '''
def to_markdown(self, ignore_error: bool = False) -> str:
    attrs = self.attrs
    match attrs.type:
        case "external" if isinstance(attrs.url, str):
            target = attrs.url
        case "file":
            target = f"media:{attrs.id}"
        case "link":
            return "[media]"
        case _:
            raise TypeError("Invalid media node attributes")
    alt = attrs.alt if isinstance(attrs.alt, str) else "media"
    return add_style_to_markdown("![" + alt + "](" + target + ")", self)
'''),
    ("nodes/parse_node.py", "parse_node", '''
def parse_node(dct: T_DATA) -> "T_NODE":
    klass = NODE_TYPE_TO_CLASS_MAPPING.get(dct["type"])
    if klass is None:
        raise UnimplementedTypeError(dct["type"], "node")
    return klass.from_dict(dct)
'''),
    (MN, "+", '''
def _parse_all(items, parse):
    out = []
    for item in items:
        try:
            out.append(parse(item))
        except UnimplementedTypeError as error:
            _warn(error)
    return out


def _warn(error):
    if not settings.WARN_UNIMPLEMENTED_TYPE:
        return
    logger.warning("%s", error)
'''),
    (MN, "BaseNode.from_dict", '''
@classmethod
def from_dict(cls, dct):
    from .marks.parse_mark import parse_mark
    from .nodes.parse_node import parse_node

    dct = copy.deepcopy(dct)
    field = cls.get_fields().get("attrs")
    if field is not None and "attrs" in dct and hasattr(field.type, "from_dict"):
        dct["attrs"] = field.type.from_dict(dct["attrs"])
    for key, parse in (("content", parse_node), ("marks", parse_mark)):
        if isinstance(dct.get(key), list):
            dct[key] = _parse_all(dct[key], parse)
    return super().from_dict(dct)
'''),
    (MN, "Base.from_dict", '''
@classmethod
def from_dict(cls, dct):
    return cls(**{name: dct[name] for name in cls.get_fields() if name in dct})
'''),
    ("type_enum.py", "check_type_match", '''
def check_type_match(type_value, expected_types) -> bool:
    if isinstance(expected_types, list):
        return any(type_value == t.value for t in expected_types)
    return type_value == expected_types.value
'''),
    ("nodes/node_decision_item.py", "NodeDecisionItem.to_markdown", '''
def to_markdown(self, ignore_error: bool = False) -> str:
    text = content_to_markdown(content=self.content, ignore_error=ignore_error).rstrip()
    out, solid, blank = [], 0, False
    for line in map(str.rstrip, text.split("\\n")):
        if line:
            out.append("> " + line)
            solid, blank = solid + 1, False
        elif solid > 1 and not blank:
            out.append(">")
            blank = True
    return "\\n".join(out)
'''),
    ("nodes/node_task_list.py", "NodeTaskList.to_markdown", '''
def to_markdown(self, level: int = 0, ignore_error: bool = False) -> str:
    def render(item):
        if item.is_type_of(TypeEnum.taskList):
            return item.to_markdown(level=level + 1, ignore_error=ignore_error)
        text = ""
        for node in item.content if item.content is not OPT else ():
            try:
                text += node.to_markdown(ignore_error=ignore_error)
            except Exception:
                if not ignore_error:
                    raise
        box = {"DONE": "x"}.get(item.attrs.state, " ")
        return "%s- [%s] %s" % (" " * 4 * level, box, text.rstrip())

    lines = []
    for item in self.content:
        if not item.is_type_of([TypeEnum.taskItem, TypeEnum.taskList]):
            continue
        try:
            lines.append(render(item))
        except Exception:
            if ignore_error and item.is_type_of(TypeEnum.taskList):
                continue
            raise
    return "\\n".join(lines)
'''),
]

# ---------------------------------------------------------------- one shared helper for the lists, index loops
R = rset("helpers")
LIST = '''
def render_items(items, level, ignore_error, markers):
    """render list items; ``markers`` yields the marker of each"""
    nested = (TypeEnum.bulletList.value, TypeEnum.orderedList.value, TypeEnum.taskList.value)
    lines = []
    for item in items:
        if item.type != TypeEnum.listItem.value:
            continue
        parts = []
        for node in item.content:
            is_list = node.type in nested
            try:
                if is_list:
                    md = node.to_markdown(level=level + 1, ignore_error=ignore_error)
                else:
                    md = node.to_markdown(ignore_error=ignore_error).rstrip()
            except Exception:
                if not ignore_error:
                    raise
                continue
            if is_list and not parts:
                parts = [""]
            parts.append(md)
        head, *rest = "\\n".join(parts).split("\\n")
        lines.append("".join(["    " * level, next(markers), " ", head]))
        lines += rest
    return "\\n".join(lines)
'''
R += [
    (MH, "+", LIST),
    ("nodes/node_bullet_list.py", "+", "import itertools\nfrom ..markdown_helpers import render_items"),
    ("nodes/node_bullet_list.py", "NodeBulletList.to_markdown", '''
def to_markdown(self, level: int = 0, ignore_error: bool = False) -> str:
    return render_items(self.content, level, ignore_error, itertools.repeat("-"))
'''),
    ("nodes/node_ordered_list.py", "+", "import itertools\nfrom ..markdown_helpers import render_items"),
    ("nodes/node_ordered_list.py", "NodeOrderedList.to_markdown", '''
def to_markdown(self, level: int = 0, ignore_error: bool = False) -> str:
    start = 1
    if self.attrs is not OPT and isinstance(self.attrs.order, int):
        start = self.attrs.order
    return render_items(self.content, level, ignore_error, (f"{n}." for n in itertools.count(start)))
'''),
    (MH, "strip_double_empty_line", '''
def strip_double_empty_line(text: str, n: int = 3) -> str:
    out = []
    newlines = 0
    for char in text:
        newlines = newlines + 1 if char == "\\n" else 0
        if newlines <= 2:
            out.append(char)
    return "".join(out)
'''),
    (MH, "block_content_to_markdown", '''
def block_content_to_markdown(content, ignore_error: bool = False) -> str:
    if content is OPT:
        return ""
    blocks = [content_to_markdown([node], ignore_error=ignore_error) for node in content]
    blocks = [block for block in blocks if block]
    if not blocks:
        return ""
    md = blocks[0]
    for i in range(1, len(blocks)):
        touching = blocks[i - 1][-1] != "\\n" and blocks[i][0] != "\\n"
        md = md + ("\\n" if touching else "") + blocks[i]
    return md
'''),
    (MH, "doc_content_to_markdown", '''
_SPACED = frozenset(
    t.value
    for t in (
        TypeEnum.bulletList, TypeEnum.orderedList, TypeEnum.codeBlock, TypeEnum.taskList, TypeEnum.decisionList,
        TypeEnum.table,
    )
)


def doc_content_to_markdown(content, concat: str = "\\n", ignore_error: bool = False) -> str:
    if content is OPT:
        return ""
    blocks = []
    for i in range(len(content)):
        node = content[i]
        pad = "\\n" if node.type in _SPACED else ""
        try:
            blocks.append(pad + node.to_markdown(ignore_error=ignore_error) + pad)
        except Exception as error:
            if not ignore_error:
                raise error
    return strip_double_empty_line(concat.join(blocks))
'''),
    ("nodes/node_blockquote.py", "NodeBlockquote.to_markdown", '''
def to_markdown(self, ignore_error: bool = False) -> str:
    md = strip_double_empty_line(doc_content_to_markdown(content=self.content, ignore_error=ignore_error))
    return "".join("> " + line for line in md.splitlines(keepends=True)) + "\\n"
'''),
    ("nodes/node_heading.py", "NodeHeading.to_markdown", '''
def to_markdown(self, ignore_error: bool = False) -> str:
    hashes = ""
    while len(hashes) < self.attrs.level:
        hashes += "#"
    title = content_to_markdown(content=self.content, ignore_error=ignore_error)
    return "\\n".join(["", "", f"{hashes} {title}", "", ""])
'''),
    ("nodes/node_status.py", "NodeStatus.to_markdown", '''
def to_markdown(self, ignore_error: bool = False) -> str:
    text = self.attrs.text
    run = longest = 0
    for char in text:
        run = run + 1 if char == "`" else 0
        longest = max(longest, run)
    if longest == 0:
        return "`" + text + "`"
    ticks = max(longest + 1, 2) * "`"
    return f"{ticks} {text} {ticks}"
'''),
    ("nodes/node_extension.py", "NodeExtension.to_markdown", '''
def to_markdown(self, ignore_error: bool = False) -> str:
    a = self.attrs
    has_text = isinstance(a.text, str) and len(a.text) > 0
    name, tail = (a.extensionKey, f" {a.text}") if has_text else (f"{a.extensionType}/{a.extensionKey}", "")
    return "[Extension: {name}]{tail}".format(name=name, tail=tail)
'''),
    ("marks/mark_link.py", "MarkLink.to_markdown", '''
def to_markdown(self, text: str) -> str:
    attrs = self.attrs
    label = (isinstance(attrs.title, str) and attrs.title) or text
    return "[" + label + "](" + attrs.href + ")"
'''),
    ("marks/mark_strong.py", "MarkStrong.to_markdown", '''
def to_markdown(self, text: str) -> str:
    return text if text == "" or text.isspace() else text.join(["**", "**"])
'''),
    ("marks/mark_em.py", "MarkEm.to_markdown", '''
def to_markdown(self, text: str) -> str:
    if any(not c.isspace() for c in text):
        return "*{0}*".format(text)
    return text
'''),
    ("nodes/node_date.py", "NodeDate.to_markdown", '''
def to_markdown(self, ignore_error: bool = False) -> str:
    moment = datetime.fromtimestamp(int(self.attrs.timestamp) / 1000, timezone.utc)
    return f"{moment.year:04d}-{moment.month:02d}-{moment.day:02d}"
'''),
    ("nodes/parse_node.py", "parse_node", '''
def parse_node(dct: T_DATA) -> "T_NODE":
    name = dct["type"]
    if name in NODE_TYPE_TO_CLASS_MAPPING:
        return NODE_TYPE_TO_CLASS_MAPPING[name].from_dict(dct)
    raise UnimplementedTypeError(name, "node")
'''),
    ("marks/parse_mark.py", "parse_mark", '''
def parse_mark(dct: T_DATA) -> "T_MARK":
    name = dct["type"]
    klass = MARK_TYPE_TO_CLASS_MAPPING.get(name, None)
    if not klass:
        raise UnimplementedTypeError(type_value=name, category="mark")
    return klass.from_dict(dct)
'''),
    (MN, "Base.to_dict", '''
def to_dict(self):
    data = {}
    for name in self.get_fields():
        value = getattr(self, name)
        if value is not OPT:
            data[name] = copy.deepcopy(value)
    return data
'''),
    (MN, "BaseNode.to_dict", '''
def to_dict(self):
    data = {}
    for name in self.get_fields():
        value = getattr(self, name)
        if value is OPT:
            continue
        if name == "attrs":
            value = value.to_dict() if hasattr(value, "to_dict") else copy.deepcopy(value)
        elif name in ("content", "marks"):
            value = [x.to_dict() for x in value]
        data[name] = value
    return data
'''),
    (MN, "BaseMark.to_dict", '''
def to_dict(self):
    data = {}
    for name in self.get_fields():
        value = getattr(self, name)
        if value is OPT:
            continue
        data[name] = value.to_dict() if isinstance(value, Base) else copy.deepcopy(value)
    return data
'''),
    ("type_enum.py", "check_type_match", '''
def check_type_match(type_value, expected_types) -> bool:
    wanted = expected_types if isinstance(expected_types, list) else [expected_types]
    for candidate in wanted:
        if candidate.value == type_value:
            return True
    return False
'''),
    ("nodes/node_decision_list.py", "NodeDecisionList.to_markdown", '''
def to_markdown(self, ignore_error: bool = False) -> str:
    md, first = "", True
    for item in filter(lambda x: x.is_type_of(TypeEnum.decisionItem), self.content):
        try:
            block = item.to_markdown(ignore_error=ignore_error)
        except Exception:
            if ignore_error:
                continue
            raise
        md += block if first else "\\n\\n" + block
        first = False
    return md
'''),
]

# ---------------------------------------------------------------- statements that do nothing, comments, logging, asserts
R = rset("noop")
R += [
    (MH, "strip_double_empty_line", '''
def strip_double_empty_line(text: str, n: int = 3) -> str:
    logger.debug("collapsing %d characters", len(text))
    assert isinstance(text, str)
    result = text
    while True:
        shorter = result.replace("\\n\\n\\n", "\\n\\n")
        if shorter == result:
            break
        result = shorter
    return result
'''),
    (MH, "+", "import logging\nlogger = logging.getLogger(__name__)"),
    (MH, "content_to_markdown", '''
def content_to_markdown(content, concat: str = "", ignore_error: bool = False) -> str:
    if content is OPT:
        return ""
    pieces: list[str] = []
    for index, node in enumerate(content):
        logger.debug("node %d: %s", index, node.type)
        try:
            md = node.to_markdown(ignore_error=ignore_error)
        except Exception as e:
            if not ignore_error:
                raise
            logger.debug("skipped: %r", e)
        else:
            pieces.append(md)
        finally:
            pass
    return concat.join(pieces)
'''),
    (MH, "block_content_to_markdown", '''
def block_content_to_markdown(content, ignore_error: bool = False) -> str:
    import io
    if content is OPT:
        return ""
    buf = io.StringIO()
    for node in content:
        block = content_to_markdown([node], ignore_error=ignore_error)
        if not block:
            continue
        sofar = buf.getvalue()
        if sofar and not (sofar.endswith("\\n") or block.startswith("\\n")):
            buf.write("\\n")
        buf.write(block)
    return buf.getvalue()
'''),
    ("marks/mark_code.py", "MarkCode.to_markdown", '''
def to_markdown(self, text: str) -> str:
    if text.find("\\n") >= 0:
        raise ValueError("Code mark cannot contain newlines in markdown representation.")
    stripped = text.strip()
    if len(stripped) == 0:
        return text
    n = 2
    while "`" * n in text:
        n += 1
    delimiter = "`" * n
    return delimiter + " " + text + " " + delimiter
'''),
    ("nodes/node_bullet_list.py", "NodeBulletList.to_markdown", '''
def to_markdown(self, level: int = 0, ignore_error: bool = False) -> str:
    lines: list = []
    indent = " " * (4 * level)
    items = [item for item in self.content if item.is_type_of(TypeEnum.listItem)]
    for item in items:
        content_lines = self._item_lines(item, level, ignore_error)
        text = "\\n".join(content_lines)
        head, sep, tail = text.partition("\\n")
        lines.append(indent + "- " + head)
        if sep:
            lines.append(tail)
    return "\\n".join(lines)

def _item_lines(self, item, level, ignore_error):
    result = []
    for node in item.content:
        nested = node.is_type_of([TypeEnum.bulletList, TypeEnum.orderedList, TypeEnum.taskList])
        kwargs = {"ignore_error": ignore_error}
        if nested:
            kwargs["level"] = level + 1
        try:
            md = node.to_markdown(**kwargs)
            if nested:
                result or result.append("")
            else:
                md = md.rstrip()
            result.append(md)
        except Exception as e:
            if not ignore_error:
                raise e
    return result
'''),
    ("nodes/node_ordered_list.py", "NodeOrderedList.to_markdown", '''
def to_markdown(self, level: int = 0, ignore_error: bool = False) -> str:
    order = getattr(self.attrs, "order", None) if self.attrs is not OPT else None
    first = order if isinstance(order, int) else 1
    out = []
    for number, item in enumerate(filter(lambda i: i.is_type_of(TypeEnum.listItem), self.content), start=first):
        parts = []
        for node in item.content:
            try:
                if node.type in {"bulletList", "orderedList", "taskList"}:
                    md = node.to_markdown(level + 1, ignore_error)
                    if parts == []:
                        parts.append("")
                else:
                    md = node.to_markdown(ignore_error=ignore_error).rstrip()
            except Exception:
                if not ignore_error:
                    raise
            else:
                parts.append(md)
        rows = "\\n".join(parts).split("\\n")
        rows[0] = "{:>{}}{}. {}".format("", 4 * level, number, rows[0])
        out.extend(rows)
    return "\\n".join(out)
'''),
    ("nodes/node_task_list.py", "NodeTaskList.to_markdown", '''
def to_markdown(self, level: int = 0, ignore_error: bool = False) -> str:
    from collections import deque
    queue = deque(self.content)
    lines = []
    prefix = "".ljust(4 * level)
    while queue:
        item = queue.popleft()
        if item.is_type_of(TypeEnum.taskItem):
            done = item.attrs.state == "DONE"
            parts = []
            nodes = [] if item.content is OPT else list(item.content)
            for node in nodes:
                try:
                    parts.append(node.to_markdown(ignore_error=ignore_error))
                except Exception as e:
                    if ignore_error:
                        continue
                    raise e
            lines.append(prefix + ("- [x] " if done else "- [ ] ") + "".join(parts).rstrip())
        elif item.is_type_of(TypeEnum.taskList):
            try:
                lines.append(item.to_markdown(level=level + 1, ignore_error=ignore_error))
            except Exception as e:
                if not ignore_error:
                    raise e
    return str.join("\\n", lines)
'''),
    ("nodes/node_table_cell.py", "+", "_ESCAPES = str.maketrans({'|': '\\\\|'})"),
    ("nodes/node_table_cell.py", "NodeTableCell.to_markdown", '''
def to_markdown(self, ignore_error: bool = False) -> str:
    md = block_content_to_markdown(content=self.content, ignore_error=ignore_error).translate(_ESCAPES)
    result = []
    for line in md.split("\\n"):
        spaces = len(line) - len(line.lstrip(" "))
        result.append(line.replace(" ", "&nbsp;", spaces) if spaces else line)
    return "<br>".join(result)
'''),
    ("nodes/node_panel.py", "NodePanel.to_markdown", '''
def to_markdown(self, ignore_error: bool = False) -> str:
    inner = doc_content_to_markdown(content=self.content, ignore_error=ignore_error)
    lines = [f"**{str(self.attrs.panelType).upper()}**", "", inner]
    md = strip_double_empty_line("\\n".join(lines))
    quoted = []
    for line in md.splitlines(True):
        quoted.append("> ")
        quoted.append(line)
    quoted.append("\\n")
    return "".join(quoted)
'''),
    ("nodes/node_mention.py", "NodeMention.to_markdown", '''
def to_markdown(self, ignore_error: bool = False) -> str:
    try:
        text = self.attrs.text
        return text if type(text) is str else "@Unknown"
    finally:
        del ignore_error
'''),
    ("nodes/node_emoji.py", "NodeEmoji.to_markdown", '''
def to_markdown(self, ignore_error: bool = False) -> str:
    for candidate in (self.attrs.text, self.attrs.shortName):
        if isinstance(candidate, str):
            return candidate
    raise NotImplementedError
'''),
    ("nodes/node_inline_card.py", "NodeInlineCard.to_markdown", '''
def to_markdown(self, ignore_error: bool = False) -> str:
    url = self.attrs.url
    if not isinstance(url, str):
        raise NotImplementedError("no url")
    return "[{0}]({0})".format(url)
'''),
    ("nodes/node_date.py", "NodeDate.to_markdown", '''
def to_markdown(self, ignore_error: bool = False) -> str:
    millis = int(self.attrs.timestamp)
    seconds, rest = divmod(millis, 1000)
    day = datetime.fromtimestamp(seconds, tz=timezone.utc)
    return day.date().isoformat()
'''),
    (MN, "Base.get_fields", '''
@classmethod
def get_fields(cls):
    fields = _CLASS_FIELD.get(cls)
    if fields is None:
        fields = {}
        for field in dataclasses.fields(cls):
            fields[field.name] = field
        _CLASS_FIELD[cls] = fields
    return fields
'''),
    (MN, "Base.from_dict", '''
@classmethod
def from_dict(cls, dct):
    missing = object()
    kwargs = {}
    for name in cls.get_fields().keys():
        value = dct.get(name, missing)
        if value is not missing:
            kwargs[name] = value
    return cls(**kwargs)
'''),
    (MN, "BaseNode.to_markdown", '''
def to_markdown(self, ignore_error: bool = False) -> str:
    name = type(self).__name__
    raise NotImplementedError("%s has not implemented ``to_markdown()``" % name)
'''),
    ("nodes/node_decision_item.py", "NodeDecisionItem.to_markdown", '''
def to_markdown(self, ignore_error: bool = False) -> str:
    text = content_to_markdown(content=self.content, ignore_error=ignore_error)
    lines = [line.rstrip() for line in text.rstrip().split("\\n")]
    result = []
    seen = 0
    for previous, line in zip([None] + lines[:-1], lines):
        if line:
            seen += 1
            result.append("> " + line)
        elif seen >= 2 and previous:
            result.append(">")
    return "\\n".join(result)
'''),
    ("nodes/node_code_block.py", "NodeCodeBlock.to_markdown", '''
def to_markdown(self, ignore_error: bool = False) -> str:
    code = content_to_markdown(self.content, ignore_error=ignore_error)
    lang = ""
    match self.attrs:
        case NodeCodeBlockAttrs(language=str() as name):
            lang = ATLASSIAN_LANG_TO_MARKDOWN_LANG_MAPPING.get(name, name)
    if lang == "none":
        lang = ""
    size = 3
    while code.count("`" * size) > 0:
        size += 1
    fence = "`".ljust(size, "`")
    return f"{fence}{lang}\\n{code}\\n{fence}"
'''),
]

# ---------------------------------------------------------------- another module, shared base code, tables of functions
R = rset("arch")
RENDER = '''
"""shared rendering code"""
import itertools
import typing as T

from func_args.api import OPT

SEPARATED = frozenset(["bulletList", "orderedList", "codeBlock", "taskList", "decisionList", "table"])
LISTS = frozenset(["bulletList", "orderedList", "taskList"])


class Collector:
    """collects rendered parts, leaving out those that fail when errors are ignored"""

    def __init__(self, ignore_error):
        self.ignore_error = ignore_error
        self.parts = []
        self.failed = 0

    def add(self, node, finish=None, **kwargs):
        try:
            md = node.to_markdown(ignore_error=self.ignore_error, **kwargs)
        except Exception:
            if not self.ignore_error:
                raise
            self.failed += 1
            return self
        self.parts.append(finish(md) if finish is not None else md)
        return self

    def add_all(self, nodes):
        for node in nodes:
            self.add(node)
        return self

    def joined(self, sep=""):
        return sep.join(self.parts)


def children(node) -> list:
    content = getattr(node, "content", OPT)
    return list(content) if isinstance(content, list) else []


def quoted(text: str) -> str:
    return "".join("> " + line for line in text.splitlines(True))


def collapse(text: str) -> str:
    pieces = []
    newlines = 0
    for char in text:
        newlines = newlines + 1 if char == "\\\\n" else 0
        if newlines <= 2:
            pieces.append(char)
    return "".join(pieces)


def fence_for(text: str, char: str, at_least: int) -> str:
    longest, run = 0, 0
    for c in text:
        run = run + 1 if c == char else 0
        if run > longest:
            longest = run
    return char * max(at_least, longest + 1)


def cell_text(text: str) -> str:
    def fix(line):
        spaces = sum(1 for _ in itertools.takewhile(lambda c: c == " ", line))
        return spaces * "&nbsp;" + line[spaces:]
    return "<br>".join(map(fix, text.replace("|", "\\\\\\\\|").split("\\\\n")))


def render_list(node, level, ignore_error, numbers=None):
    out = []
    for item in children(node):
        if item.type == "listItem":
            out.extend(_item(item, level, ignore_error, "-" if numbers is None else "%d." % next(numbers)))
    return "\\\\n".join(out)


def _item(item, level, ignore_error, marker):
    box = Collector(ignore_error)
    for child in children(item):
        if child.type in LISTS:
            sub = Collector(ignore_error).add(child, level=level + 1)
            if sub.parts:
                box.parts += sub.parts if box.parts else ["", *sub.parts]
        else:
            box.add(child, finish=str.rstrip)
    lines = iter(box.joined("\\\\n").split("\\\\n"))
    yield "    " * level + marker + " " + next(lines)
    yield from lines
'''
R += [
    ("_render.py", "new:", RENDER.replace("\\\\", "\\")),
    (MH, "+", "from . import _render"),
    (MH, "strip_double_empty_line", '''
def strip_double_empty_line(text: str, n: int = 3) -> str:
    return _render.collapse(text)
'''),
    (MH, "content_to_markdown", '''
def content_to_markdown(content, concat: str = "", ignore_error: bool = False) -> str:
    if content is OPT:
        return ""
    return _render.Collector(ignore_error).add_all(content).joined(concat)
'''),
    (MH, "doc_content_to_markdown", '''
def doc_content_to_markdown(content, concat: str = "\\n", ignore_error: bool = False) -> str:
    if content is OPT:
        return ""
    box = _render.Collector(ignore_error)
    for node in content:
        apart = node.type in _render.SEPARATED
        box.add(node, finish=(lambda md: f"\\n{md}\\n") if apart else None)
    return _render.collapse(box.joined(concat))
'''),
    (MH, "block_content_to_markdown", '''
def block_content_to_markdown(content, ignore_error: bool = False) -> str:
    if content is OPT:
        return ""
    blocks = filter(None, _render.Collector(ignore_error).add_all(content).parts)
    md = next(blocks, "")
    for block in blocks:
        glue = "" if md[-1] == "\\n" or block[0] == "\\n" else "\\n"
        md = glue.join((md, block))
    return md
'''),
    (MH, "add_style_to_markdown", '''
def add_style_to_markdown(md: str, node: "T_NODE") -> str:
    import functools
    marks = getattr(node, "marks", OPT)
    return functools.reduce(lambda text, mark: mark.to_markdown(text), marks, md) if isinstance(marks, list) else md
'''),
    ("nodes/node_bullet_list.py", "+", "from .._render import render_list"),
    ("nodes/node_bullet_list.py", "NodeBulletList.to_markdown", '''
def to_markdown(self, level: int = 0, ignore_error: bool = False) -> str:
    return render_list(self, level, ignore_error)
'''),
    ("nodes/node_ordered_list.py", "+", "import itertools\nfrom .._render import render_list"),
    ("nodes/node_ordered_list.py", "NodeOrderedList.to_markdown", '''
def to_markdown(self, level: int = 0, ignore_error: bool = False) -> str:
    start = getattr(self.attrs, "order", 1) if self.attrs is not OPT else 1
    return render_list(self, level, ignore_error, itertools.count(1 if start is OPT else start))
'''),
    ("nodes/node_table_cell.py", "+", "from .._render import cell_text"),
    ("nodes/node_table_cell.py", "NodeTableCell.to_markdown", '''
def to_markdown(self, ignore_error: bool = False) -> str:
    return cell_text(block_content_to_markdown(self.content, ignore_error))
'''),
    ("nodes/node_table_header.py", "+", "from .node_table_cell import NodeTableCell"),
    ("nodes/node_table_header.py", "NodeTableHeader.to_markdown", '''
def to_markdown(self, ignore_error: bool = False) -> str:
    return NodeTableCell.to_markdown(self, ignore_error=ignore_error)
'''),
    ("nodes/node_panel.py", "+", "from .._render import quoted"),
    ("nodes/node_panel.py", "NodePanel.to_markdown", '''
def to_markdown(self, ignore_error: bool = False) -> str:
    body = doc_content_to_markdown(self.content, ignore_error=ignore_error)
    md = strip_double_empty_line("**{}**\\n\\n{}".format(self.attrs.panelType.upper(), body))
    return quoted(md) + "\\n"
'''),
    ("nodes/node_blockquote.py", "+", "from .._render import quoted"),
    ("nodes/node_blockquote.py", "NodeBlockquote.to_markdown", '''
def to_markdown(self, ignore_error: bool = False) -> str:
    return quoted(doc_content_to_markdown(self.content, ignore_error=ignore_error)) + "\\n"
'''),
    ("nodes/node_code_block.py", "+", "from .._render import fence_for"),
    ("nodes/node_code_block.py", "NodeCodeBlock.to_markdown", '''
def to_markdown(self, ignore_error: bool = False) -> str:
    code = content_to_markdown(content=self.content, ignore_error=ignore_error)
    lang = getattr(self.attrs, "language", OPT) if self.attrs is not OPT else OPT
    info = "" if not isinstance(lang, str) or lang == "none" else lang
    fence = fence_for(code, "`", 3)
    return "\\n".join((fence + info, code, fence))
'''),
    ("marks/mark_code.py", "+", "from .._render import fence_for"),
    ("marks/mark_code.py", "MarkCode.to_markdown", '''
def to_markdown(self, text: str) -> str:
    if "\\n" in text:
        raise ValueError("Code mark cannot contain newlines in markdown representation.")
    if not text.strip():
        return text
    ticks = fence_for(text, "`", 2)
    return " ".join((ticks, text, ticks))
'''),
    ("nodes/node_task_list.py", "+", "from .._render import Collector, children"),
    ("nodes/node_task_list.py", "NodeTaskList.to_markdown", '''
def to_markdown(self, level: int = 0, ignore_error: bool = False) -> str:
    box = Collector(ignore_error)
    for item in self.content:
        match item.type:
            case "taskItem":
                text = Collector(ignore_error).add_all(children(item)).joined().rstrip()
                box.parts.append("{}- [{}] {}".format(" " * (4 * level), "x" if item.attrs.state == "DONE" else " ", text))
            case "taskList":
                box.add(item, level=level + 1)
    return box.joined("\\n")
'''),
    ("nodes/node_decision_list.py", "NodeDecisionList.to_markdown", '''
def to_markdown(self, ignore_error: bool = False) -> str:
    from .._render import Collector
    return Collector(ignore_error).add_all([i for i in self.content if i.type == "decisionItem"]).joined("\\n\\n")
'''),
    ("nodes/node_table.py", "NodeTable.to_markdown", '''
def to_markdown(self, ignore_error: bool = False) -> str:
    from .._render import Collector
    box = Collector(ignore_error)
    ruled = False
    for row in self.content:
        before = box.failed
        box.add(row)
        if box.failed > before or ruled or not row.content:
            continue
        if row.content[0].type == TypeEnum.tableHeader.value:
            ruled = True
            box.parts.append("|" + " --- |" * len(row.content))
    return box.joined("\\n")
'''),
    (MN, "Base.get_fields", '''
@classmethod
def get_fields(cls) -> T_FIELDS:
    return _CLASS_FIELD.setdefault(cls, {f.name: f for f in dataclasses.fields(cls)})
'''),
    (MN, "Base.from_dict", '''
@classmethod
def from_dict(cls, dct: T_DATA) -> "Base":
    return cls(**{name: dct[name] for name in cls.get_fields() if name in dct})
'''),
    (MN, "BaseMark.from_dict", '''
@classmethod
def from_dict(cls, dct):
    return super().from_dict(_with_attrs(cls, copy.deepcopy(dct)))
'''),
    (MN, "+", '''
def _with_attrs(cls, dct):
    field = cls.get_fields().get("attrs")
    build = getattr(field.type, "from_dict", None) if field is not None else None
    if build is not None and "attrs" in dct:
        dct["attrs"] = build(dct["attrs"])
    return dct


def _parsed(items, parse):
    for item in items:
        try:
            element = parse(item)
        except UnimplementedTypeError as error:
            if settings.WARN_UNIMPLEMENTED_TYPE:
                logger.warning(str(error))
        else:
            yield element
'''),
    (MN, "BaseNode.from_dict", '''
@classmethod
def from_dict(cls, dct):
    from .marks.parse_mark import parse_mark
    from .nodes.parse_node import parse_node

    dct = _with_attrs(cls, copy.deepcopy(dct))
    for name, parse in (("content", parse_node), ("marks", parse_mark)):
        if isinstance(dct.get(name), list):
            dct[name] = list(_parsed(dct[name], parse))
    return super().from_dict(dct)
'''),
    (MN, "BaseNode.to_dict", '''
def to_dict(self) -> T_DATA:
    data = {}
    for name in self.get_fields():
        value = getattr(self, name)
        if value is OPT:
            continue
        if isinstance(value, list):
            data[name] = [v.to_dict() if isinstance(v, Base) else copy.deepcopy(v) for v in value]
        elif isinstance(value, Base):
            data[name] = value.to_dict()
        else:
            data[name] = copy.deepcopy(value)
    return data
'''),
    ("type_enum.py", "check_type_match", '''
def check_type_match(type_value, expected_types) -> bool:
    match expected_types:
        case list():
            return type_value in {t.value for t in expected_types}
        case _:
            return expected_types.value == type_value
'''),
    ("nodes/node_decision_item.py", "NodeDecisionItem.to_markdown", '''
def to_markdown(self, ignore_error: bool = False) -> str:
    import itertools
    text = content_to_markdown(content=self.content, ignore_error=ignore_error)
    out, solid = [], 0
    for empty, group in itertools.groupby((line.rstrip() for line in text.rstrip().split("\\n")), key=lambda line: not line):
        if not empty:
            lines = ["> " + line for line in group]
            out += lines
            solid += len(lines)
        elif solid > 1:
            out.append(">")
    return "\\n".join(out)
'''),
    ("nodes/node_date.py", "NodeDate.to_markdown", '''
def to_markdown(self, ignore_error: bool = False) -> str:
    return datetime.fromtimestamp(int(self.attrs.timestamp) / 1000, tz=timezone.utc).strftime("%Y-%m-%d")
'''),
    ("nodes/node_media.py", "NodeMedia.to_markdown", '''
def to_markdown(self, ignore_error: bool = False) -> str:
    attrs = self.attrs
    if attrs.is_link_type():
        return "[media]"
    if attrs.is_external_type() and isinstance(attrs.url, str):
        target = attrs.url
    elif attrs.is_file_type():
        target = f"media:{attrs.id}"
    else:
        raise TypeError("Invalid media node attributes")
    alt = "media" if not isinstance(attrs.alt, str) else attrs.alt
    return add_style_to_markdown("![%s](%s)" % (alt, target), self)
'''),
]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("names", nargs="*")
    ap.add_argument("--props")
    o = ap.parse_args()
    props = o.props.split(",") if o.props else ["C%02d" % i for i in range(1, 40) if os.path.exists(H + "/harness/c%02d.py" % i)]
    for name in o.names or list(SETS):
        d = tempfile.mkdtemp(prefix="refactor-")
        root = d + "/repo"
        try:
            shutil.copytree("/repo", root, symlinks=True, ignore=shutil.ignore_patterns(".git"))
            apply(root, SETS[name])
            env = dict(os.environ, CI="true", LC_ALL="C.UTF-8", PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=root)
            r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "tests", "-q", "-x", "-p", "no:cacheprovider"], cwd=root, env=env,
                               capture_output=True, text=True)
            print(name, "tests:", r.stdout.strip().split("\n")[-1])
            if r.returncode:
                print(r.stdout[-3000:])
            for p in props:
                env = dict(os.environ, VERIF_REPO=root)
                r = subprocess.run([H + "/check.py", p], env=env, capture_output=True, text=True)
                print("  ", p, r.returncode, (r.stdout.strip().split("\n") or [""])[-1][:300], r.stderr[-600:] if r.returncode not in (0, 1) else "")
                if r.returncode == 1:
                    print(r.stdout[-1500:])
                sys.stdout.flush()
        finally:
            shutil.rmtree(d)


if __name__ == "__main__":
    main()
