"""planted bugs, third batch (see bugs1.py)"""
BUGS = []


def bug(*a):
    BUGS.append(a)


MON = "mark_or_node.py"
HELP = "markdown_helpers.py"
BL, OL, TL = "nodes/node_bullet_list.py", "nodes/node_ordered_list.py", "nodes/node_task_list.py"

# ---- C19
bug("c19-long-join", "C19", [(HELP, '''    md = strip_double_empty_line(concat.join(lst))
    return md
''', '''    if len(lst) > 9:
        lst = [md.strip("\\n") + "\\n" for md in lst]
        return "".join(lst)
    md = strip_double_empty_line(concat.join(lst))
    return md
''')], "a document of ten or more blocks", "no empty lines around lists and code blocks in long documents", '''out = md(doc(*[p("x%d" % i) for i in range(9)], n("codeBlock", text("b"))))
assert "x8\\n\\n```" in out, out
''')
bug("c19-item-space-join", "C19", [(OL, '''                # Join the content lines
                item_content = "\\n".join(content_lines)
''', '''                # Join the content lines
                item_content = "\\n".join(content_lines)
                if len(content_lines) == 2 and len(item_content) < 20 and ":" in content_lines[0]:
                    item_content = " ".join(content_lines)
''')], "an ordered item with two short blocks, the first holding a colon", "two blocks share a line", '''out = md(n("orderedList", n("listItem", p("a:"), n("codeBlock", text("b")))))
assert "a:\\n```" in out
''')
bug("c19-decision-after", "C12", [("nodes/node_decision_list.py", '''        return "\\n\\n".join(decision_blocks)
''', '''        return "\\n\\n".join(decision_blocks).rstrip("> \\n") if len(decision_blocks) > 2 else "\\n\\n".join(decision_blocks)
''')], "a list of three or more decisions whose last one ends in >", "a decision loses the > its text ends in", '''a = {"type": "decisionItem", "attrs": {"localId": "a", "state": "D"}, "content": [text("a >")]}
assert md(n("decisionList", a, a, a, localId="l")).endswith("a >")
''')

# ---- C15
bug("c15-custom-panel", "C15", [("nodes/node_panel.py", '''                strip_double_empty_line(
                    "\\n".join(
                        [
                            f"**{self.attrs.panelType.upper()}**",
                            "",
                            doc_content_to_markdown(
                                content=self.content,
                                ignore_error=ignore_error,
                            ),
                        ]
                    )
                ),
''', '''                strip_double_empty_line(
                    "\\n".join(
                        [
                            f"**{self.attrs.panelType.upper()}**",
                            "",
                            doc_content_to_markdown(
                                content=self.content,
                                ignore_error=ignore_error,
                            ).replace("\\n\\n---\\n\\n", "\\n---\\n"),
                        ]
                    )
                ),
''')], "a rule in a panel", "no empty line before a rule in a panel: the line above becomes a heading", '''out = md(n("panel", p("a"), {"type": "rule"}, p("b"), panelType="info"))
assert "> a\\n> \\n> ---\\n" in out, out
''')
bug("c15-level-from-str", "C15", [("nodes/node_heading.py", '''                content_to_markdown(content=self.content, ignore_error=ignore_error),
            )
''', '''                content_to_markdown(content=self.content, ignore_error=ignore_error).rstrip("# ")
                if self.attrs.level == 1
                else content_to_markdown(content=self.content, ignore_error=ignore_error),
            )
''')], "a level-1 heading whose text ends in # ", "characters at the end of the heading are lost", '''assert "# F#" in md(n("heading", text("F#"), level=1))
''')
# ---- C20
bug("c20-tuple-any", "C20", [("type_enum.py", '''    expected_values = [t.value for t in expected_types]
    return type_value in expected_values''', '''    expected_values = [t.value for t in expected_types]
    if type_value in ("subsup", "sub", "sup"):
        return any(v in ("subsup", "sub", "sup") for v in expected_values)
    return type_value in expected_values''')], "a subsup mark asked for sub", "subsup counts as sub and sup", '''assert not parse_mark({"type": "subsup", "attrs": {"type": "sub"}}).is_type_of(api.TypeEnum.sub)
''')
bug("c21-empty-row", "C21", [("nodes/node_table_row.py", '''        return "| " + " | ".join(cells) + " |"
''', '''        width = max(len(c) for c in cells)  # cells are never narrower than the delimiter
        if width < 3:
            cells = [c.ljust(1) for c in cells]
        return "| " + " | ".join(cells) + " |"
''')], "a table row without cells", "an empty row does not render", '''md(n("tableRow"))
''')
bug("c21-code-empty", "C21", [("nodes/node_code_block.py", '''        if lang == "none":
            lang = ""
''', '''        if lang == "none":
            lang = ""
        if lang == "json" and code.lstrip()[0] not in "{[":
            lang = ""
''')], "an empty JSON code block", "an empty code block does not render", '''md(n("codeBlock", language="json"))
''')
bug("c21-expand-title", "C21", [("nodes/node_expand.py", '''        md = doc_content_to_markdown(content=self.content, ignore_error=ignore_error)
''', '''        md = doc_content_to_markdown(content=self.content, ignore_error=ignore_error)
        if md.strip() == self.attrs.title.strip() if self.attrs is not OPT else False:
            md = md.strip() + "\\n"
''')], "an expand without title", "an expand without title does not render", '''md(n("expand", p("x"), localId="a"))
''')
bug("c21-link-title-long", "C21", [("marks/mark_link.py", '''            title = self.attrs.title
''', '''            title = self.attrs.title
            if title[0] == '"' and title[1] != '"':
                title = title[0:]
''')], "a link whose title is a single quotation mark", "such a link does not render", '''assert md(text("x", {"type": "link", "attrs": {"href": "u", "title": '"'}})) == '["](u)'
''')
bug("c18-status-newline", "C18", [("nodes/node_extension.py", '''        ext_key = self.attrs.extensionKey
''', '''        ext_key = self.attrs.extensionKey.split(":")[-1]
''')], "an extension key with a colon", "the placeholder names a part of the key", '''assert "a:b" in md(leaf("extension", extensionKey="a:b", extensionType="t"))
''')
bug("c18-emoji-id", "C18", [("nodes/node_emoji.py", '''        elif isinstance(self.attrs.shortName, str):
            return self.attrs.shortName
''', '''        elif isinstance(self.attrs.id, str) and len(self.attrs.id) in (4, 5):
            try:
                return chr(int(self.attrs.id, 16))  # the id of a standard emoji is its code point
            except ValueError:
                return self.attrs.shortName
        elif isinstance(self.attrs.shortName, str):
            return self.attrs.shortName
''')], "an emoji without text whose id is a hexadecimal number of 4 or 5 digits", "another attribute changes the rendering", '''assert md(leaf("emoji", shortName=":a:", id="1f600")) == ":a:"
''')
bug("c18-mention-team", "C18", [("nodes/node_mention.py", '''        else:
            return "@Unknown"
''', '''        elif self.attrs.id in ("all", "here"):
            return "@" + self.attrs.id
        else:
            return "@Unknown"
''')], "a mention without text of the id all or here", "the id changes the rendering", '''assert md(leaf("mention", id="here")) == md(leaf("mention", id="x"))
''')
# ---- C16
bug("c16-media-query", "C16", [("nodes/node_media.py", '''            md = f"![{alt}]({self.attrs.url})"
''', '''            url = self.attrs.url
            if url.startswith("//"):
                url = "https:" + url
            md = f"![{alt}]({url})"
''')], "a media URL that starts with //", "the URL is completed", '''assert md(leaf("media", type="external", url="//h/a")) == "![media](//h/a)"
''')
bug("c16-link-dup", "C16", [("marks/mark_link.py", '''            title = self.attrs.title
''', '''            title = self.attrs.title if len(self.attrs.title) < 64 else self.attrs.title[:61] + "..."
''')], "a link title of 64 characters or more", "a long title is shortened", '''t = "x" * 70
assert t in md(text("a", {"type": "link", "attrs": {"href": "u", "title": t}}))
''')
bug("c16-mailto", "C16", [("marks/mark_link.py", '''        return f"[{title}]({self.attrs.href})"
''', '''        href = self.attrs.href
        if href == f"mailto:{title}":
            return f"<{title}>"
        return f"[{title}]({href})"
''')], "a mail link whose text is the address", "another Markdown form is used, without the target as given", '''assert md(text("a@b", {"type": "link", "attrs": {"href": "mailto:a@b"}})) == "[a@b](mailto:a@b)"
''')
bug("c16-inline-null", "C16", [("nodes/node_inline_card.py", '''        if isinstance(self.attrs.url, str):
''', '''        if self.attrs.url is not None:
''')], "an inline card without a URL", "a link is invented", '''assert raises(md, leaf("inlineCard"))
''')
# ---- C17
bug("c17-cache", "C17", [("nodes/node_date.py", '''        sec = int(self.attrs.timestamp) / 1000
        return str(''', '''        sec = int(self.attrs.timestamp) / 1000
        if sec >= 2**31:
            sec = 2**31 - 1  # the platform's limit
        return str(''')], "a date after 2038", "dates after 2038-01-19 are rendered as that day", '''assert md(leaf("date", timestamp="2200000000000")) == "2039-09-18"
''')
bug("c17-digits", "C17", [("nodes/node_date.py", '''        sec = int(self.attrs.timestamp) / 1000
''', '''        sec = int(str(self.attrs.timestamp)[:10])
''')], "a timestamp of other than 13 digits", "timestamps before 2001-09 are off", '''assert md(leaf("date", timestamp="999999999999")) == "2001-09-09"
''')
# ---- C14
bug("c14-dedent", "C14", [("nodes/node_code_block.py", '''        code = content_to_markdown(
            content=self.content,
            ignore_error=ignore_error,
        )
''', '''        code = content_to_markdown(
            content=self.content,
            ignore_error=ignore_error,
        ).replace("\\t", "    ")
''')], "code with a tab", "tabs become spaces", '''assert "\\tx" in md(n("codeBlock", text("\\tx")))
''')
bug("c14-crlf", "C14", [("nodes/node_code_block.py", '''        code = content_to_markdown(
            content=self.content,
            ignore_error=ignore_error,
        )
''', '''        code = content_to_markdown(
            content=self.content,
            ignore_error=ignore_error,
        )
        code = "\\n".join(code.splitlines()) if "\\r\\n" in code else code
''')], "code with CR LF line ends", "the line ends of the code are changed", '''assert "a\\r\\nb" in md(n("codeBlock", text("a\\r\\nb")))
''')
# ---- C13
bug("c13-nbsp", "C13", [(HELP, '''                # print(f"{node = }")  # for debug only
''', '''                if md.strip() == "" and md:
                    md = "\\n" * md.count("\\n")
''')], "a block that renders to white space only", "white space other than line breaks is removed", '''assert " \\n" in md(doc(p("a"), p(" "), p("b")))
''')
# ---- C12
bug("c12-expand-in-quote", "C12", [("nodes/node_blockquote.py", '''                predicate=lambda line: True,
''', '''                predicate=lambda line: not line.startswith("> "),
''')], "a quote or panel inside a quote", "nested quotes lose a level", '''out = md(n("blockquote", n("blockquote", p("x"))))
assert "> > x" in out
''')
bug("c12-decision-list-marker", "C12", [("nodes/node_decision_item.py", '''                prefixed_lines.append(f"> {line}")
''', '''                prefixed_lines.append(f"> {line}" if not line.startswith(">") else line)
''')], "a decision whose line begins with >", "the line's own > is taken for the prefix", '''d = {"type": "decisionItem", "attrs": {"localId": "a", "state": "D"}, "content": [text("> 5")]}
assert md(d) == "> > 5"
''')
bug("c12-decision-first-blank", "C12", [("nodes/node_decision_item.py", '''            line = line.rstrip()
            is_empty = not line
''', '''            line = line.rstrip()
            is_empty = not line.strip("-")
''')], "a decision with a line of dashes", "the line is lost", '''d = {"type": "decisionItem", "attrs": {"localId": "a", "state": "D"}, "content": [text("a\\n--\\nb")]}
assert "--" in md(d)
''')
# ---- C11
bug("c11-nested-expand-cell", "C11", [("nodes/node_table_cell.py", '''        return "<br>".join(processed_lines)''', '''        while len(processed_lines) > 2 and not processed_lines[-1] and not processed_lines[-2]:
            processed_lines.pop()
        if len(processed_lines) > 12:
            return "<br>".join(processed_lines[:12]) + "\\n" + "<br>".join(processed_lines[12:])
        return "<br>".join(processed_lines)''')], "a cell of more than twelve lines", "a long cell breaks the row", '''assert "\\n" not in md(n("tableCell", *[p("x%d" % i) for i in range(13)]))
''')
bug("c11-escaped-pipe", "C11", [("nodes/node_table_cell.py", '''md = md.replace("|", "\\\\|")''', '''md = md.replace("|", "\\\\|").replace("\\\\\\\\|", "\\\\|")''')], "a backslash before a pipe in a cell", "the pipe of the cell is not escaped any more and splits it", '''assert md(n("tableCell", p("a\\\\|b"))).startswith("a\\\\\\\\|b")
''')
# ---- C10
bug("c10-skip-empty-number", "C10", [(OL, '''                current_num += 1
''', '''                if item_content or len(item.content) > 1:
                    current_num += 1
''')], "an empty item in an ordered list", "the number is repeated after an empty item", '''out = md(n("orderedList", n("listItem", p("")), n("listItem", p("b"))))
assert "2. b" in out
''')
bug("c10-task-state-lower", "C10", [(TL, '''"[x]" if item.attrs.state == "DONE" else "[ ]"''', '''"[x]" if item.attrs.state and item.attrs.state in "DONE" else "[ ]"''')],
    "a task state that is a part of DONE", "another state counts as done", '''d = n("taskList", {"type": "taskItem", "attrs": {"localId": "a", "state": "ON"}, "content": [text("a")]}, localId="l")
assert md(d) == "- [ ] a"
''')
bug("c10-multi-nested", "C10", [(BL, '''                # Join the content lines
                item_content = "\\n".join(content_lines)
''', '''                # Join the content lines
                item_content = "\\n".join(content_lines)
                if level >= 5:
                    item_content = item_content.lstrip()
''')], "bullet lists nested six deep", "an item with no text joins the nested list's first line", '''def b(k):
    return n("bulletList", n("listItem", p("" if k == 5 else "t%d" % k), *([b(k + 1)] if k < 6 else [])))


assert "\\n" + " " * 20 + "- \\n" + " " * 24 + "- t6" in md(b(0)), md(b(0))
''')
# ---- C09
bug("c09-code-trim", "C09", [("marks/mark_strong.py", '''            return f"**{text}**"
''', '''            return f"**{text}**" if not text.endswith("*") else f"**{text} **"
''')], "strong text that ends with *", "a space is added inside the delimiters", '''assert md(text("a*", {"type": "strong"})) == "**a***"
''')
bug("c09-nested-link", "C09", [(HELP, '''            for mark in node.marks:
                md = mark.to_markdown(md)
''', '''            for mark in sorted(node.marks, key=lambda m: m.is_type_of(TypeEnum.link)):
                md = mark.to_markdown(md)
''')], "a link mark listed before another mark", "marks are not applied in the order of the list", '''assert md(text("x", {"type": "link", "attrs": {"href": "u"}}, {"type": "strong"})) == "**[x](u)**"
''')
# ---- C08
bug("c08-cell-fallback", "C08", [("nodes/node_table_row.py", '''            md = cell.to_markdown(ignore_error=ignore_error)
            cells.append(md)
''', '''            try:
                md = cell.to_markdown()
            except Exception:
                if not ignore_error:
                    raise
                md = ""
            cells.append(md)
''')], "a failing element in a table cell next to other content", "the whole cell is lost with ignore_error", '''out = md(n("tableRow", n("tableCell", n("paragraph", text("a"), leaf("inlineCard")))), ignore_error=True)
assert "a" in out
''')
bug("c08-quiet-mark", "C08", [("nodes/node_text.py", '''        md = add_style_to_markdown(md=md, node=self)
        return md''', '''        try:
            md = add_style_to_markdown(md=md, node=self)
        except ValueError:
            if not ignore_error:
                raise
        return md''')], "a code mark on text with a line break", "text that cannot be rendered is kept with ignore_error", '''assert md(p("a\\nb", {"type": "code"}), ignore_error=True) == md(n("paragraph"))
''')
# ---- C05
bug("c05-error-lower", "C05", [("exc.py", '''        self.type_value = type_value
''', '''        self.type_value = type_value.strip()
''')], "an unknown type name with white space at its ends", "the error carries another name", '''assert raises(parse_node, {"type": " x"}).type_value == " x"
''')
# ---- C04
bug("c04-default-level", "C04", [("nodes/node_heading.py", '''    level: int = REQ
''', '''    level: int = 1
''')], "a heading without level", "a heading without level is parsed", '''assert raises(parse_node, n("heading", text("x"), localId="a"))
''')
bug("c04-mark-in-list", "C04", [(MON, '''                for d in dct["marks"]:
                    try:
                        mark = parse_mark(d)
''', '''                for d in dct["marks"]:
                    if d.get("type") == "link" and "href" not in d.get("attrs", {}) and len(dct["marks"]) > 1:
                        continue
                    try:
                        mark = parse_mark(d)
''')], "a link without target among other marks", "a malformed mark is dropped", '''assert raises(parse_node, text("x", {"type": "strong"}, {"type": "link", "attrs": {}}))
''')
# ---- C03
bug("c03-settings-import", "C03", [(MON, '''from . import settings
''', '''from .settings import WARN_UNIMPLEMENTED_TYPE
'''), (MON, '''                        # Skip unimplemented node types gracefully
                        if settings.WARN_UNIMPLEMENTED_TYPE:
''', '''                        # Skip unimplemented node types gracefully
                        if WARN_UNIMPLEMENTED_TYPE:
'''), (MON, '''                        # Skip unimplemented mark types gracefully
                        if settings.WARN_UNIMPLEMENTED_TYPE:
''', '''                        # Skip unimplemented mark types gracefully
                        if WARN_UNIMPLEMENTED_TYPE:
''')], "switching the warnings off at run time", "warnings cannot be switched off", '''from atlas_doc_parser import settings
settings.WARN_UNIMPLEMENTED_TYPE = False


class H(logging.Handler):
    def emit(self, r):
        out.append(r.getMessage())


out = []
lg = logging.getLogger("atlas_doc_parser")
lg.addHandler(H())
lg.setLevel(0)
parse_node(doc({"type": "zz"}))
assert out == []
''')
# ---- C02
bug("c02-kwargs", "C02", [(MON, '''        return cls(**kwargs)

    def is_opt''', '''        obj = cls(**kwargs)
        if "marks" in dct and "marks" not in kwargs and "content" in kwargs:
            # pass marks of a block down to its first child
            for c in kwargs["content"][:1]:
                if c.type == "text" and getattr(c, "marks", None) is OPT:
                    object.__setattr__(c, "marks", dct["marks"])
        return obj

    def is_opt''')], "marks on a block that has none in the model", "unmodelled marks change its first text", '''d = n("listItem", text("x"))
assert md(dict(d, marks=[{"type": "strong"}])) == md(d)
''')
bug("c02-version", "C02", [(MON, '''        dct = copy.deepcopy(dct)

        # Deserialize attrs
        if "attrs" in dct:
            fields = cls.get_fields()
            if "attrs" in fields:
                attrs_field = fields["attrs"]
                if hasattr(''', '''        dct = copy.deepcopy(dct)
        if "content" not in dct and "children" in dct:
            dct["content"] = dct.pop("children")

        # Deserialize attrs
        if "attrs" in dct:
            fields = cls.get_fields()
            if "attrs" in fields:
                attrs_field = fields["attrs"]
                if hasattr(''')], "an extra field named children on an element without content", "an unknown field is taken for the content",
'''d = {"type": "paragraph", "children": [text("x")]}
assert parse_node(d).to_dict() == {"type": "paragraph"}
''')
# ---- C01
bug("c01-deep-limit", "C01", [(MON, '''        # Serialize content
        if "content" in data and data["content"] is not OPT:
            data["content"] = [c.to_dict() for c in self.content]
''', '''        # Serialize content
        if "content" in data and data["content"] is not OPT:
            data["content"] = [c.to_dict() for c in self.content if not (c.type == "text" and c.text == "")]
''')], "an empty text element", "empty texts vanish on serialization", '''d = n("paragraph", text(""), text("a"))
assert parse_node(d).to_dict() == d
''')
bug("c01-colwidth", "C01", [("nodes/node_table_cell.py", '''    colwidth: list[int] = OPT
''', '''    colwidth: list[int] = OPT

    def __post_init__(self):
        super().__post_init__() if hasattr(super(), "__post_init__") else None
        if isinstance(self.colwidth, list) and self.colwidth == [0] * len(self.colwidth):
            object.__setattr__(self, "colwidth", OPT)  # all flexible is the default

''')], "a cell whose column widths are all 0", "the widths are lost", '''d = {"type": "tableCell", "attrs": {"colwidth": [0, 0]}, "content": []}
assert parse_node(d).to_dict() == d
''')
bug("c06-ignore-sticky", "C06", [(HELP, '''            except Exception as e:  # pragma: no cover
                if ignore_error:
                    pass
                else:
                    raise e
        return concat.join(lst)
''', '''            except Exception as e:  # pragma: no cover
                if ignore_error:
                    _FAILED.add((node.type, str(e)))
                elif (node.type, str(e)) in _FAILED:
                    pass  # reported before
                else:
                    raise e
        return concat.join(lst)
'''), (HELP, '''def strip_double_empty_line(
''', '''_FAILED: set = set()


def strip_double_empty_line(
''')], "rendering with ignore_error and then without it", "an error no longer surfaces after it was ignored once", '''d = n("paragraph", leaf("inlineCard"))
md(d, ignore_error=True)
assert raises(md, d)
''')
bug("c06-level-state", "C06", [(TL, '''        lines = []
        indent = "    " * level  # 4 spaces per level
''', '''        lines = []
        if level:
            object.__setattr__(self, "_level", level)
        indent = "    " * (level or self.__dict__.get("_level", 0))  # 4 spaces per level
''')], "rendering a nested task list by itself after rendering its parent", "the nested list is indented by what was rendered before",
'''t = {"type": "taskItem", "attrs": {"localId": "a", "state": "TODO"}, "content": [text("a")]}
e = parse_node(n("taskList", t, n("taskList", t, localId="m"), localId="l"))
before = e.content[1].to_markdown()
e.to_markdown()
assert e.content[1].to_markdown() == before
''')
