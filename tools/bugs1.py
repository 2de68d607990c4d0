"""planted bugs: (id, property, [(file, old, new)], needs, what it breaks, demo)"""
BUGS = []


def bug(*a):
    BUGS.append(a)


MON = "mark_or_node.py"
HELP = "markdown_helpers.py"

# ---- C01
bug("c01-empty-marks", "C01", [(MON, '''        if "marks" in data and data["marks"] is not OPT:
            data["marks"] = [m.to_dict() for m in self.marks]
''', '''        if "marks" in data and data["marks"] is not OPT:
            data["marks"] = [m.to_dict() for m in self.marks] or OPT
''')], "an element with an empty list of marks", "an empty marks list is dropped on serialization",
'''d = {"type": "text", "text": "x", "marks": []}
assert parse_node(d).to_dict() == d
''')
bug("c01-dedupe-marks", "C01", [(MON, '''                        mark = parse_mark(d)
                        new_marks.append(mark)
''', '''                        mark = parse_mark(d)
                        if mark not in new_marks:
                            new_marks.append(mark)
''')], "the same mark twice on one element", "repeated marks are merged",
'''d = text("x", {"type": "subsup", "attrs": {"type": "sub"}}, {"type": "em"}, {"type": "subsup", "attrs": {"type": "sub"}})
assert parse_node(d).to_dict() == d
''')
bug("c01-datasource-copy", "C01", [("nodes/node_block_card.py", '''    layout: str = OPT
    data: T_DATA = OPT
''', '''    layout: str = OPT
    data: T_DATA = OPT

    def to_dict(self) -> T_DATA:
        data = super().to_dict()
        if self.width == 0:
            data.pop("width", None)
        return data
''')], "a block card whose width is 0", "width 0 of a block card is lost",
'''d = leaf("blockCard", url="u", width=0)
assert parse_node(d).to_dict() == d
''')

# ---- C02
bug("c02-extra-attrs-strict", "C02", [(MON, '''        _fields = cls.get_fields()
        kwargs = {}
        for field_name, field in _fields.items():
            try:
                kwargs[field_name] = dct[field_name]
            except KeyError:
                pass
        return cls(**kwargs)
''', '''        _fields = cls.get_fields()
        kwargs = {}
        for field_name, value in dct.items():
            if field_name in _fields or hasattr(cls, field_name):
                kwargs[field_name] = value
        return cls(**kwargs)
''')], "an extra field that is named like a method of the class", "an unknown field such as to_dict makes parsing fail",
'''d = {"type": "paragraph", "content": [], "to_dict": 1}
assert parse_node(d).to_dict() == {"type": "paragraph", "content": []}
''')
bug("c02-collapse-marks-on-rule", "C02", [(MON, '''        # Deserialize marks
        if "marks" in dct:
            if isinstance(dct["marks"], list) and parse_mark is not None:
''', '''        # Deserialize marks
        if "marks" in dct:
            if "marks" not in cls.get_fields():
                raise TypeError(f"{cls.__name__} doesn't support marks")
            if isinstance(dct["marks"], list) and parse_mark is not None:
''')], "marks on an element that has none in the model (e.g. a code block with breakout)", "unmodelled marks field makes parsing fail",
'''d = {"type": "codeBlock", "content": [text("x")], "marks": [{"type": "breakout", "attrs": {"mode": "wide"}}]}
assert md(d) == "```\\nx\\n```"
''')
# ---- C03
bug("c03-only-first-warning", "C03", [(MON, '''                        # Skip unimplemented node types gracefully
                        if settings.WARN_UNIMPLEMENTED_TYPE:
                            logger.warning(str(e))
''', '''                        # Skip unimplemented node types gracefully
                        if settings.WARN_UNIMPLEMENTED_TYPE and new_content:
                            logger.warning(str(e))
''')], "the left-out entry is the first of its list", "no warning for an unimplemented first child",
'''class H(logging.Handler):
    def emit(self, r):
        got.append(r.getMessage())
got = []
logging.getLogger("atlas_doc_parser").addHandler(H())
parse_node(doc({"type": "placeholder"}, p("x")))
assert len(got) == 1 and "placeholder" in got[0]
''')
bug("c03-mark-ends-loop", "C03", [(MON, '''                        # Skip unimplemented mark types gracefully
                        if settings.WARN_UNIMPLEMENTED_TYPE:
                            logger.warning(str(e))
''', '''                        # Skip unimplemented mark types gracefully
                        if not settings.WARN_UNIMPLEMENTED_TYPE:
                            break
                        logger.warning(str(e))
''')], "warnings switched off and a mark after an unimplemented one", "marks after an unimplemented one are lost when warnings are off",
'''import atlas_doc_parser.settings as st
st.WARN_UNIMPLEMENTED_TYPE = False
assert md(text("x", {"type": "fontSize"}, {"type": "strong"})) == "**x**"
''')
bug("c03-nested-skips-parent", "C03", [(MON, '''                    try:
                        content = parse_node(d)
                        new_content.append(content)
                    except UnimplementedTypeError as e:
''', '''                    try:
                        content = parse_node(d)
                        if cls.get_fields().get("attrs") is None or content.type != TypeEnum.caption.value:
                            new_content.append(content)
                        elif content.content is OPT or content.content:
                            new_content.append(content)
                    except UnimplementedTypeError as e:
''')], "a caption that is left empty", "an implemented entry (caption without content left) is dropped",
'''d = {"type": "mediaSingle", "attrs": {"layout": "center"}, "content": [leaf("media", type="file", id="i", collection="c"), n("caption", {"type": "placeholder"})]}
assert [c["type"] for c in parse_node(d).to_dict()["content"]] == ["media", "caption"]
''')
bug("c03-skip-by-prefix", "C03", [("nodes/parse_node.py", '''    type_ = dct["type"]
    try:
        klass = NODE_TYPE_TO_CLASS_MAPPING[type_]
    except KeyError:
        raise UnimplementedTypeError(type_, "node")
''', '''    type_ = dct["type"]
    # tolerate the "block" variants of inline types, e.g. blockTaskItem
    if type_ not in NODE_TYPE_TO_CLASS_MAPPING and type_.startswith("block"):
        type_ = type_[5:6].lower() + type_[6:]
    try:
        klass = NODE_TYPE_TO_CLASS_MAPPING[type_]
    except KeyError:
        raise UnimplementedTypeError(type_, "node")
''')], "an unimplemented type named block + an implemented one", "blockTaskItem is parsed as a taskItem instead of being left out",
'''d = n("taskList", {"type": "blockTaskItem", "attrs": {"localId": "a", "state": "DONE"}, "content": []}, localId="l")
assert parse_node(d).content == []
''')

# ---- C04
bug("c04-missing-type-skipped", "C04", [("nodes/parse_node.py", '''    type_ = dct["type"]
''', '''    type_ = dct.get("type", "unknown")
''')], "an entry without a type", "an entry without a type is skipped like an unimplemented one",
'''assert raises(parse_node, doc(p("x"), {"content": []})) is not None
''')
bug("c04-mark-missing-attr", "C04", [(MON, '''                if hasattr(attrs_field.type, "from_dict"):
                    dct["attrs"] = attrs_field.type.from_dict(dct["attrs"])
        return super().from_dict(dct)
''', '''                if hasattr(attrs_field.type, "from_dict") and dct["attrs"]:
                    dct["attrs"] = attrs_field.type.from_dict(dct["attrs"])
        return super().from_dict(dct)
''')], "a mark with an empty attrs object", "a link whose attrs are empty is accepted",
'''assert raises(parse_mark, {"type": "link", "attrs": {}}) is not None
''')
bug("c04-task-state-default", "C04", [("nodes/node_task_item.py", '''    state: T.Literal["TODO", "DONE"] = REQ
''', '''    state: T.Literal["TODO", "DONE"] = "TODO"
''')], "a task item without state", "a task item without its required state is accepted",
'''assert raises(parse_node, {"type": "taskItem", "attrs": {"localId": "a"}, "content": []}) is not None
''')
bug("c04-swallow-nested", "C04", [(MON, '''                        if settings.WARN_UNIMPLEMENTED_TYPE:
                            logger.warning(str(e))
                        # Skip this node and continue
                    # Other exceptions propagate normally
''', '''                        if settings.WARN_UNIMPLEMENTED_TYPE:
                            logger.warning(str(e))
                        # Skip this node and continue
                    except KeyError:
                        # an entry that holds nothing
                        if d:
                            raise
                    # Other exceptions propagate normally
''')], "an empty object among the entries", "an entry without any field is silently dropped",
'''assert raises(parse_node, doc(p("x"), {})) is not None
''')

# ---- C05
bug("c05-case-insensitive", "C05", [("marks/parse_mark.py", '''    type_ = dct["type"]
    try:
        klass = MARK_TYPE_TO_CLASS_MAPPING[type_]
    except KeyError:
        raise UnimplementedTypeError(type_, "mark")
''', '''    type_ = dct["type"]
    klass = MARK_TYPE_TO_CLASS_MAPPING.get(type_) or MARK_TYPE_TO_CLASS_MAPPING.get(type_.lower())
    if klass is None:
        raise UnimplementedTypeError(type_, "mark")
''')], "a mark type in another case", "Strong is accepted as strong",
'''assert isinstance(raises(parse_mark, {"type": "EM"}), api.UnimplementedTypeError)
''')
bug("c05-wrong-category", "C05", [("marks/parse_mark.py", '''        raise UnimplementedTypeError(type_, "mark")
''', '''        raise UnimplementedTypeError(type_, "node" if type_ in TypeEnum.__members__ else "mark")
''')], "a mark whose type is the name of a known node", "the error of an unimplemented mark names it a node",
'''e = raises(parse_mark, {"type": "placeholder"})
assert e.category == "mark" and "Mark" in str(e)
''')
bug("c05-strip-name", "C05", [("nodes/parse_node.py", '''    type_ = dct["type"]
    try:
        klass = NODE_TYPE_TO_CLASS_MAPPING[type_]
''', '''    type_ = dct["type"].strip()
    try:
        klass = NODE_TYPE_TO_CLASS_MAPPING[type_]
''')], "a type name with white space around it", "a padded type name is accepted, or the error carries another name",
'''e = raises(parse_node, {"type": "rule "})
assert isinstance(e, api.UnimplementedTypeError) and e.type_value == "rule "
''')

# ---- C06
bug("c06-shallow-copy", "C06", [(MON, '''        from .marks.parse_mark import parse_mark
        from .nodes.parse_node import parse_node

        dct = copy.deepcopy(dct)
''', '''        from .marks.parse_mark import parse_mark
        from .nodes.parse_node import parse_node

        dct = copy.copy(dct)
''')], "changing a nested attribute value of the input after parsing", "the element shares mutable attribute values with the input",
'''d = leaf("extension", extensionKey="k", extensionType="t", parameters={"a": [1]})
e = parse_node(d)
d["attrs"]["parameters"]["a"].append(2)
assert e.to_dict()["attrs"]["parameters"] == {"a": [1]}
''')
bug("c06-render-cache", "C06", [("marks/mark_link.py", '''        return f"[{title}]({self.attrs.href})"
''', '''        if title not in _RENDERED:
            _RENDERED[title] = f"[{title}]({self.attrs.href})"
        return _RENDERED[title]
'''), ("marks/mark_link.py", '''from ..mark_or_node import Base, BaseMark
''', '''from ..mark_or_node import Base, BaseMark

_RENDERED: dict = {}  # titles are often repeated in a page
''')], "two links with the same text and different targets rendered in one process", "a link is rendered with the target of an earlier one",
'''a = md(text("x", {"type": "link", "attrs": {"href": "http://1"}}))
b = md(text("x", {"type": "link", "attrs": {"href": "http://2"}}))
assert b == "[x](http://2)"
''')
bug("c06-mutating-render", "C06", [("nodes/node_decision_item.py", '''        item_content = content_to_markdown(
            content=self.content,
''', '''        if isinstance(self.content, list) and len(self.content) > 1:
            while self.content and self.content[-1].is_type_of(TypeEnum.hardBreak):
                self.content.pop()  # trailing breaks are stripped anyway
        item_content = content_to_markdown(
            content=self.content,
''')], "serializing a decision item that ends in a hard break after rendering it", "rendering removes hard breaks from the element",
'''d = {"type": "decisionItem", "attrs": {"localId": "a", "state": "DECIDED"}, "content": [text("x"), {"type": "hardBreak"}]}
e = parse_node(d)
e.to_markdown()
assert e.to_dict() == d
''')
# ---- C07
bug("c07-strip-text", "C07", [("nodes/node_heading.py", '''                content_to_markdown(content=self.content, ignore_error=ignore_error),
''', '''                content_to_markdown(content=self.content, ignore_error=ignore_error).strip("# "),
''')], "a heading whose text starts or ends with #", "characters at the ends of a heading are lost",
'''assert "C#" in md(n("heading", text("in C#"), level=2))
''')
bug("c07-dup-list-child", "C07", [("nodes/node_bullet_list.py", '''                remaining_lines = item_content.split("\\n")[1:]
                if remaining_lines:
                    lines.extend(remaining_lines)
''', '''                remaining_lines = item_content.split("\\n", 1)[1:]
                if remaining_lines and remaining_lines[0] not in lines:
                    lines.extend(remaining_lines)
''')], "two list items with the same continuation", "the second of two equal nested lists is lost",
'''i = lambda s: n("listItem", p(s), n("bulletList", n("listItem", p("same"))))
assert md(n("bulletList", i("a"), i("b"))).count("same") == 2
''')
bug("c07-merge-text", "C07", [("nodes/node_paragraph.py", '''        md = content_to_markdown(
            content=self.content,
            ignore_error=ignore_error,
        )
''', '''        content = self.content
        if isinstance(content, list):
            # the editor sometimes splits a text in two identical halves
            content = [c for i, c in enumerate(content) if i == 0 or c != content[i - 1]]
        md = content_to_markdown(
            content=content,
            ignore_error=ignore_error,
        )
''')], "two equal elements one after the other in a paragraph", "the second of two equal neighbours is lost",
'''assert md(n("paragraph", text("ha"), text("ha"))) == "haha\\n"
''')

# ---- C08
bug("c08-helper-swallows", "C08", [(HELP, '''                md = node.to_markdown(ignore_error=ignore_error)
                lst.append(md)
            except Exception as e:  # pragma: no cover
                if ignore_error:
                    pass
                else:
                    raise e
        return concat.join(lst)
''', '''                md = node.to_markdown(ignore_error=ignore_error)
                lst.append(md)
            except NotImplementedError:
                pass
            except Exception as e:  # pragma: no cover
                if ignore_error:
                    pass
                else:
                    raise e
        return concat.join(lst)
''')], "a card without URL rendered without ignore_error", "the error of a card without URL does not surface",
'''assert raises(md, n("paragraph", leaf("inlineCard"))) is not None
''')
bug("c08-drop-rest", "C08", [("nodes/node_task_list.py", '''                    except Exception as e:
                        if ignore_error:
                            pass
                        else:
                            raise e

                # Join content parts''', '''                    except Exception as e:
                        if ignore_error:
                            break
                        else:
                            raise e

                # Join content parts''')], "ignore_error and an element after a failing one in a task", "elements after a failing one are left out",
'''d = n("taskList", n("taskItem", leaf("inlineCard"), text("x"), localId="a", state="DONE"), localId="l")
assert md(d, ignore_error=True) == "- [x] x"
''')
bug("c08-media-single", "C08", [("nodes/node_media_single.py", '''        return content_to_markdown(content=self.content, ignore_error=ignore_error)
''', '''        return content_to_markdown(content=self.content, ignore_error=True)
''')], "media that cannot be rendered, without ignore_error", "the error of a media element does not surface",
'''assert raises(md, n("mediaSingle", leaf("media", type="external"), layout="center")) is not None
''')
bug("c08-expand-flag", "C08", [("nodes/node_nested_expand.py", '''        md = doc_content_to_markdown(content=self.content, ignore_error=ignore_error)
''', '''        md = doc_content_to_markdown(self.content, "\\n", bool(ignore_error and self.attrs))
        md = md if md.strip() or not self.content else "\\n"
''')], "a nested expand whose content renders to nothing", "an empty nested expand renders differently from the pruned document",
'''bad = n("nestedExpand", n("paragraph", leaf("inlineCard")), title="t")
good = n("nestedExpand", n("paragraph"), title="t")
worse = n("nestedExpand", leaf("blockCard"), title="t")
assert md(worse, ignore_error=True) == md(n("nestedExpand", title="t"))
''')

# ---- C09
bug("c09-mark-order", "C09", [(HELP, '''            for mark in node.marks:
                md = mark.to_markdown(md)
''', '''            for mark in sorted(node.marks, key=lambda m: m.is_type_of(TypeEnum.link)):
                md = mark.to_markdown(md)
''')], "a link mark before another one", "the link is applied last whatever its place in the mark list",
'''assert md(text("a", {"type": "link", "attrs": {"href": "u"}}, {"type": "strong"})) == "**[a](u)**"
''')
bug("c09-twice-strong", "C09", [("marks/mark_strong.py", '''        if text.strip():
            return f"**{text}**"
''', '''        if text.strip("* \\n"):
            return f"**{text}**"
''')], "strong text of asterisks only", "strong text that is only asterisks is not wrapped",
'''assert md(text("*", {"type": "strong"})) == "*****"
''')
bug("c09-indent-spaces", "C09", [("nodes/node_paragraph.py", '''        md = add_style_to_markdown(md, self)
        return md + "\\n"
''', '''        md = add_style_to_markdown(md, self) if md else md
        return md + "\\n"
''')], "an indented paragraph without content", "the indentation mark of an empty paragraph has no effect",
'''d = {"type": "paragraph", "content": [], "marks": [{"type": "indentation", "attrs": {"level": 2}}]}
assert md(d) == "\\t\\t\\n"
''')

# ---- C10
bug("c10-order-zero", "C10", [("nodes/node_ordered_list.py", '''        else:
            current_num = 1
''', '''        else:
            current_num = 1
        current_num = current_num or 1
''')], "an ordered list that starts at 0", "a list that starts at 0 is numbered from 1",
'''d = n("orderedList", n("listItem", p("x")), order=0)
assert md(d) == "0. x"
''')
bug("c10-empty-item", "C10", [("nodes/node_bullet_list.py", '''                first_line = f"{indent}- {bullet_content}"
                lines.append(first_line)
''', '''                first_line = f"{indent}- {bullet_content}"
                if content_lines:
                    lines.append(first_line)
''')], "a list item without content", "an item without content has no line",
'''d = n("bulletList", n("listItem", p("x")), n("listItem"), n("listItem", p("y")))
assert md(d).split("\\n") == ["- x", "- ", "- y"]
''')
bug("c10-task-state", "C10", [("nodes/node_task_list.py", '''                checkbox = "[x]" if item.attrs.state == "DONE" else "[ ]"
''', '''                checkbox = "[ ]" if item.attrs.state in ("TODO", "") else "[x]"
''')], "a task state other than TODO and DONE", "a task that is neither open nor done is shown as done",
'''d = n("taskList", n("taskItem", text("x"), localId="a", state="BLOCKED"), localId="l")
assert md(d) == "- [ ] x"
''')
bug("c10-number-skip", "C10", [("nodes/node_ordered_list.py", '''                current_num += 1
''', '''                if first_content or len(content_lines) > 0:
                    current_num += 1
''')], "an ordered item without content followed by another item", "the number does not advance after an empty item",
'''d = n("orderedList", n("listItem"), n("listItem", p("y")))
assert md(d).split("\\n") == ["1. ", "2. y"]
''')
bug("c10-deep-indent", "C10", [("nodes/node_task_list.py", '''                    md = item.to_markdown(level=level + 1, ignore_error=ignore_error)
''', '''                    md = item.to_markdown(level=min(level + 1, 3), ignore_error=ignore_error)
''')], "a task list nested more than four deep", "indentation stops growing at depth 4",
'''def tl(*c):
    return n("taskList", *c, localId="l")
t = n("taskItem", text("x"), localId="a", state="DONE")
assert md(tl(t, tl(t, tl(t, tl(t, tl(t)))))).split("\\n")[-1] == " " * 16 + "- [x] x"
''')

# ---- C11
bug("c11-escape-once", "C11", [("nodes/node_table_header.py", '''        md = md.replace("|", "\\\\|")
''', '''        if "\\\\|" not in md:
            md = md.replace("|", "\\\\|")
''')], "a header cell that holds a backslash before one pipe and another pipe", "a pipe in a header cell is not escaped and adds a column",
'''d = n("table", n("tableRow", n("tableHeader", p("a\\\\|b | c"))))
line = md(d).split("\\n")[0]
import re
assert len(re.findall(r"(?<!\\\\)\\|", line)) == 2
''')
bug("c11-delim-width", "C11", [("nodes/node_table.py", '''                    lines.append("| " + " | ".join(["---"] * len(row.content)) + " |")
''', '''                    lines.append("| " + " | ".join(["---"] * len(self.content[0].content)) + " |")
''')], "a first row without header and of another width", "the delimiter line has the number of cells of another row",
'''r = lambda *c: n("tableRow", *c)
d = n("table", r(n("tableCell", p("a"))), r(n("tableHeader", p("b")), n("tableHeader", p("c"))))
assert md(d).split("\\n")[2] == "| --- | --- |"
''')
bug("c11-nbsp-tab", "C11", [("nodes/node_table_cell.py", '''            stripped = line.lstrip(" ")
''', '''            stripped = line.lstrip()
''')], "a cell line that begins with a tab", "a leading tab in a cell becomes a &nbsp;",
'''assert md(n("tableCell", p("\\tx"))) == "\\tx<br>"
''')
# ---- C12
bug("c12-predicate", "C12", [("nodes/node_blockquote.py", '''                prefix="> ",
                predicate=lambda line: True,
''', '''                prefix="> ",
                predicate=lambda line: line.strip() or not line.endswith(" \\n"),
''')], "a quote with a line of spaces only", "a line of spaces in a quote has no quote prefix",
'''assert all(l.startswith(">") for l in md(n("blockquote", p("a\\n \\nb"))).rstrip("\\n").split("\\n"))
''')
bug("c12-decision-cr", "C12", [("nodes/node_decision_item.py", '''            else:
                prefixed_lines.append(f"> {line}")
                line_count += 1
''', '''            else:
                # a line that is quoted already keeps its prefix
                prefixed_lines.append(line if line.startswith(">") else f"> {line}")
                line_count += 1
''')], "a decision line that starts with >", "a > of the decision's own text is taken for the prefix",
'''d = {"type": "decisionItem", "attrs": {"localId": "a", "state": "DECIDED"}, "content": [text("> 5 users")]}
assert md(d) == "> > 5 users"
''')
bug("c12-panel-type", "C12", [("nodes/node_panel.py", '''                            f"**{self.attrs.panelType.upper()}**",
''', '''                            f"**{(self.attrs.panelIconText if isinstance(self.attrs.panelIconText, str) and self.attrs.panelIconText else self.attrs.panelType).upper()}**",
''')], "a panel with an icon text", "the panel's first line does not name its type",
'''assert md(n("panel", p("x"), panelType="custom", panelIconText="fire")).startswith("> **CUSTOM**\\n")
''')
bug("c12-panel-strip", "C12", [("nodes/node_panel.py", '''                            doc_content_to_markdown(
                                content=self.content,
                                ignore_error=ignore_error,
                            ),
''', '''                            textwrap.dedent(doc_content_to_markdown(
                                content=self.content,
                                ignore_error=ignore_error,
                            )),
''')], "a panel whose lines all begin with white space", "common leading white space of a panel's content is lost",
'''assert "    x" in md(n("panel", n("codeBlock", text("x")), p("    x"), panelType="info")) 
assert "\\tx" in md(n("panel", p("\\tx"), panelType="info"))
''')
