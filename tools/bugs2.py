"""planted bugs, second batch (see bugs1.py)"""
BUGS = []


def bug(*a):
    BUGS.append(a)


MON = "mark_or_node.py"
HELP = "markdown_helpers.py"

# ---- C13
bug("c13-panel-collapse-first", "C13", [("nodes/node_panel.py", '''                strip_double_empty_line(
                    "\\n".join(
                        [
                            f"**{self.attrs.panelType.upper()}**",
                            "",
                            doc_content_to_markdown(
                                content=self.content,
                                ignore_error=ignore_error,
                            ),
                        ]
                    )
                ),
''', '''                "\\n".join(
                    [
                        strip_double_empty_line(f"**{self.attrs.panelType.upper()}**"),
                        "",
                        doc_content_to_markdown(
                            content=self.content,
                            ignore_error=ignore_error,
                        ),
                    ]
                ),
''')], "a panel whose first block begins with an empty line", "two empty lines after the panel's title",
'''out = md(n("panel", n("heading", text("h"), level=1), panelType="info"))
assert "> \\n> \\n" not in out
''')
bug("c13-keep-code", "C13", [(HELP, '''                # print(f"{node = }")  # for debug only
''', '''                if md.strip() == "":
                    md = "\\n"  # an empty paragraph is an empty line
''')], "a document with blocks that render to white space", "white space that is not a line break is removed",
'''out = md(doc(p("a"), p("  "), p("b")))
assert "  " in out
''')
bug("c13-join-short", "C13", [(HELP, '''    md = strip_double_empty_line(concat.join(lst))
    return md
''', '''    lst = [strip_double_empty_line(md) for md in lst]
    md = concat.join(lst)
    return md if len(lst) > 8 else strip_double_empty_line(md)
''')], "a document of more than eight blocks", "blank lines at the borders of blocks are not collapsed in long documents",
'''out = md(doc(*[n("heading", text("h"), level=1) for i in range(9)]))
assert "\\n\\n\\n" not in out
''')

# ---- C14
bug("c14-strip-code", "C14", [("nodes/node_code_block.py", '''        code = content_to_markdown(
            content=self.content,
            ignore_error=ignore_error,
        )
''', '''        code = content_to_markdown(
            content=self.content,
            ignore_error=ignore_error,
        )
        if code.endswith("\\n"):
            code = code[:-1]
''')], "code that ends with an empty line", "the last line break of the code is lost",
'''assert md(n("codeBlock", text("x\\n"))) == "```\\nx\\n\\n```"
''')
bug("c14-lang-first-word", "C14", [("nodes/node_code_block.py", '''                    self.attrs.language,
                    self.attrs.language,
                )
''', '''                    self.attrs.language.strip().lower(),
                    self.attrs.language.split(",")[0],
                )
''')], "a language name that holds a comma", "the language is cut at a comma",
'''assert md(n("codeBlock", text("x"), language="a,b")) == "```a,b\\nx\\n```"
''')
bug("c14-none-in-code", "C14", [("nodes/node_code_block.py", '''        if lang == "none":
            lang = ""
''', '''        if lang.startswith("none"):
            lang = ""
''')], "a language whose name starts with none", "another language is taken for none",
'''assert md(n("codeBlock", text("x"), language="nonemem")) == "```nonemem\\nx\\n```"
''')
bug("c14-mapping", "C14", [(HELP, '''ATLASSIAN_LANG_TO_MARKDOWN_LANG_MAPPING = {}''', '''ATLASSIAN_LANG_TO_MARKDOWN_LANG_MAPPING = {
    "c#": "csharp",
    "c++": "cpp",
    "plain_text": "text",
}''')], "one of three languages", "the language is renamed", '''assert md(n("codeBlock", text("x"), language="c++")) == "```c++\\nx\\n```"
''')

# ---- C15
bug("c15-empty-heading", "C15", [("nodes/node_heading.py", '''        md = (
            "\\n\\n"
            + "{} {}".format(
                "#" * self.attrs.level,
                content_to_markdown(content=self.content, ignore_error=ignore_error),
            )
            + "\\n\\n"
        )
        return md
''', '''        inner = content_to_markdown(content=self.content, ignore_error=ignore_error)
        md = "{} {}".format("#" * self.attrs.level, inner)
        if inner.startswith("#"):
            md = "#" * self.attrs.level + inner
        return "\\n\\n" + md + "\\n\\n"
''')], "a heading whose text starts with #", "the text's # adds to the level", '''assert "## #tag" in md(n("heading", text("#tag"), level=2))
''')
# ---- C16
bug("c16-quote-spaces", "C16", [("marks/mark_link.py", '''        return f"[{title}]({self.attrs.href})"
''', '''        return f"[{title}]({self.attrs.href.strip()})"
''')], "a link target with white space at its ends", "the target is stripped", '''assert md(text("x", {"type": "link", "attrs": {"href": " u "}})) == "[x]( u )"
''')
bug("c16-card-text", "C16", [("nodes/node_inline_card.py", '''            return f"[{self.attrs.url}]({self.attrs.url})"
''', '''            url = self.attrs.url.split("#")[0] or self.attrs.url
            return f"[{self.attrs.url}]({url})"
''')], "an inline card whose URL has a fragment", "the fragment of the URL is lost", '''assert "(http://h/a#b)" in md(leaf("inlineCard", url="http://h/a#b"))
''')
bug("c16-data-url", "C16", [("nodes/node_block_card.py", '''        if isinstance(self.attrs.url, str):
            return f"\\n[{self.attrs.url}]({self.attrs.url})\\n"
        else:
            raise NotImplementedError
''', '''        if isinstance(self.attrs.url, str):
            return f"\\n[{self.attrs.url}]({self.attrs.url})\\n"
        elif isinstance(self.attrs.datasource, dict):
            return f"\\n[{self.attrs.datasource.get('id')}]({self.attrs.datasource.get('id')})\\n"
        else:
            raise NotImplementedError
''')], "a block card with a datasource and no URL", "a link is invented for a card without a URL",
'''assert raises(md, leaf("blockCard", datasource={"id": "x", "views": []}))
''')
bug("c16-empty-alt", "C16", [("nodes/node_media.py", '''            alt = self.attrs.alt if isinstance(self.attrs.alt, str) else "media"
            md = f"![{alt}]({self.attrs.url})"
''', '''            alt = self.attrs.alt if isinstance(self.attrs.alt, str) else "media"
            alt = alt.replace("[", "(").replace("]", ")")
            md = f"![{alt}]({self.attrs.url})"
''')], "an alternative text with brackets", "the alternative text is altered", '''assert md(leaf("media", type="external", url="u", alt="a[1]")) == "![a[1]](u)"
''')
# ---- C17
bug("c17-floor", "C17", [("nodes/node_date.py", '''        sec = int(self.attrs.timestamp) / 1000
''', '''        sec = round(int(self.attrs.timestamp) / 1000)
''')], "the last half second of a day", "the last half second of a day counts as the next day", '''assert md(leaf("date", timestamp="86399600")) == "1970-01-01"
''')
bug("c17-seconds", "C17", [("nodes/node_date.py", '''        sec = int(self.attrs.timestamp) / 1000
''', '''        sec = int(self.attrs.timestamp)
        if abs(sec) > 31536000:
            sec = sec / 1000  # milliseconds, not seconds
''')], "a timestamp in the first hours of 1970", "small timestamps are read as seconds", '''assert md(leaf("date", timestamp="20000000")) == "1970-01-01"
''')
bug("c17-trunc-negative", "C17", [("nodes/node_date.py", '''        sec = int(self.attrs.timestamp) / 1000
''', '''        sec = int(int(self.attrs.timestamp) / 1000)
''')], "the last second of a day before 1970", "instants before 1970 are rounded up", '''assert md(leaf("date", timestamp="-1")) == "1969-12-31"
''')
bug("c17-local", "C17", [("nodes/node_date.py", '''        return str(datetime.fromtimestamp(sec, tz=timezone.utc).date())
''', '''        return str(datetime.fromtimestamp(sec, tz=timezone.utc).astimezone().date())
''')], "a process in another time zone", "the date is local", '''import os, time
os.environ["TZ"] = "Asia/Tokyo"
time.tzset()
assert md(leaf("date", timestamp="82800000")) == "1970-01-01"
''')

# ---- C18
bug("c18-emoji-empty", "C18", [("nodes/node_emoji.py", '''        if isinstance(self.attrs.text, str):
            return self.attrs.text
''', '''        if isinstance(self.attrs.text, str) and self.attrs.text.startswith(":") is False:
            return self.attrs.text
''')], "an emoji whose text starts with a colon", "the short name is shown instead of the text", '''assert md(leaf("emoji", shortName=":x:", text=":)")) == ":)"
''')
bug("c18-mention-access", "C18", [("nodes/node_mention.py", '''        if isinstance(self.attrs.text, str):
            return self.attrs.text
''', '''        if self.attrs.userType == "APP" and isinstance(self.attrs.text, str):
            return self.attrs.text.lstrip("@")
        if isinstance(self.attrs.text, str):
            return self.attrs.text
''')], "a mention of an app", "another attribute changes the rendering", '''assert md(leaf("mention", id="i", text="@bot", userType="APP")) == "@bot"
''')
bug("c18-ext-text-type", "C18", [("nodes/node_extension.py", '''            return f"[Extension: {ext_key}] {self.attrs.text}"
''', '''            if ext_key in self.attrs.text:
                return self.attrs.text
            return f"[Extension: {ext_key}] {self.attrs.text}"
''')], "an extension whose text holds its key", "the placeholder is missing", '''assert md(leaf("extension", extensionKey="toc", extensionType="t", text="a toc")) == "[Extension: toc] a toc"
''')
bug("c18-break-text", "C18", [("nodes/node_hard_break.py", '''        return "  \\n"
''', '''        if not isinstance(self.attrs, NodeHardBreakAttrs) or not isinstance(self.attrs.text, str):
            return "  \\n"
        return "  " + self.attrs.text
''')], "a hard break with a text attribute", "the text attribute replaces the line break", '''assert md({"type": "hardBreak", "attrs": {"text": "x"}}) == "  \\n"
''')

# ---- C19
# ---- C20
bug("c20-prefix", "C20", [("type_enum.py", '''    expected_values = [t.value for t in expected_types]
    return type_value in expected_values''', '''    expected_values = " ".join([t.value for t in expected_types])
    return type_value in expected_values''')], "a type whose name is part of another's", "table counts as tableRow",
'''assert not parse_node(n("table")).is_type_of(api.TypeEnum.tableRow)
''')
bug("c20-empty-list", "C20", [("type_enum.py", '''    if not isinstance(expected_types, list):
        expected_types = [expected_types]
''', '''    if not expected_types:
        return True  # nothing to check against
    if not isinstance(expected_types, list):
        expected_types = [expected_types]
''')], "an empty list of types", "every element is of one of no types", '''assert parse_node(n("table")).is_type_of([]) is False
''')
bug("c20-case", "C20", [("type_enum.py", '''    return type_value in expected_values''', '''    return type_value.lower() in [v.lower() for v in expected_values]''')],
    "elements built by hand with another spelling", "the test ignores case",
'''e = api.NodeText(type="Text", text="x")
assert not e.is_type_of(api.TypeEnum.text)
''')
# ---- C21
bug("c21-media-size", "C21", [("nodes/node_media_single.py", '''        return content_to_markdown(content=self.content, ignore_error=ignore_error)
''', '''        if isinstance(self.attrs.width, (int, float)) and self.attrs.width <= 0:
            return ""  # an invisible image
        return content_to_markdown(content=self.content, ignore_error=ignore_error)
''')], "a media container without attrs", "a media container without attrs does not render",
'''md({"type": "mediaSingle", "content": [leaf("media", type="external", url="u")]})
''')
bug("c21-first-child", "C21", [("nodes/node_table_row.py", '''        cells = []
        for cell in self.content:
            md = cell.to_markdown(ignore_error=ignore_error)
            cells.append(md)
''', '''        cells = []
        for cell in self.content:
            md = cell.to_markdown(ignore_error=ignore_error)
            if cell.attrs is not OPT and cell.attrs.colspan > 1:
                md += " "
            cells.append(md)
''')], "a table cell with attrs but no colspan", "a cell without colspan does not render", '''md(n("tableRow", {"type": "tableCell", "attrs": {}, "content": [p("x")]}))
''')
bug("c21-panel-icon", "C21", [("nodes/node_panel.py", '''                            f"**{self.attrs.panelType.upper()}**",
                            "",
''', '''                            f"**{self.attrs.panelType.upper()}**",
                            "" if self.attrs.panelType != "custom" or self.attrs.panelIconText is OPT else "" * len(self.attrs.panelIcon),
''')], "a custom panel with an icon text but no icon", "such a panel does not render", '''md(n("panel", p("x"), panelType="custom", panelIconText="a"))
''')

# ---- second round for the earlier ones
bug("c01-shared-default", "C01", [(MON, '''        # Serialize content
        if "content" in data and data["content"] is not OPT:
            data["content"] = [c.to_dict() for c in self.content]
''', '''        # Serialize content
        if "content" in data and data["content"] is not OPT:
            data["content"] = [c.to_dict() for c in self.content]
            if len(data["content"]) > 1 and data["content"][-1] == {"type": "paragraph", "content": []}:
                data["content"].pop()  # the trailing paragraph the editor adds
''')], "a document that ends in an empty paragraph", "the last empty paragraph is lost on serialization",
'''d = doc(p("x"), n("paragraph"))
assert parse_node(d).to_dict() == d
''')
bug("c01-tuple", "C01", [(MON, '''            try:
                kwargs[field_name] = dct[field_name]
            except KeyError:
                pass
''', '''            try:
                value = dct[field_name]
            except KeyError:
                continue
            if value is None and field.default is OPT:
                continue  # null means absent
            kwargs[field_name] = value
''')], "an optional attribute that is null", "null attributes vanish", '''d = leaf("inlineCard", url="u", data=None)
assert parse_node(d).to_dict() == d
''')
bug("c03-warn-once", "C03", [(MON, '''                    except UnimplementedTypeError as e:
                        # Skip unimplemented mark types gracefully
                        if settings.WARN_UNIMPLEMENTED_TYPE:
                            logger.warning(str(e))
''', '''                    except UnimplementedTypeError as e:
                        # Skip unimplemented mark types gracefully
                        if settings.WARN_UNIMPLEMENTED_TYPE and e.type_value not in _WARNED:
                            _WARNED.add(e.type_value)
                            logger.warning(str(e))
'''), (MON, '''_CLASS_FIELD: dict[T.Any, T_FIELDS] = {}  # class fields cache
''', '''_CLASS_FIELD: dict[T.Any, T_FIELDS] = {}  # class fields cache
_WARNED: set = set()
''')], "the same unimplemented mark twice", "only the first one is reported", '''class H(logging.Handler):
    def emit(self, r):
        out.append(r.getMessage())


out = []
lg = logging.getLogger("atlas_doc_parser")
lg.addHandler(H())
lg.setLevel(0)
parse_node(n("paragraph", text("a", {"type": "zz"}), text("b", {"type": "zz"})))
assert len(out) == 2
''')
bug("c03-deep-quiet", "C03", [(MON, '''        from .marks.parse_mark import parse_mark
        from .nodes.parse_node import parse_node

        dct = copy.deepcopy(dct)
''', '''        from .marks.parse_mark import parse_mark
        from .nodes.parse_node import parse_node, NODE_TYPE_TO_CLASS_MAPPING

        dct = copy.deepcopy(dct)
        if dct.get("type") in ("tableCell", "tableHeader") and isinstance(dct.get("content"), list):
            # tables are wide, do not report the same thing for every cell
            dct["content"] = [
                c for c in dct["content"] if "type" not in c or c["type"] in NODE_TYPE_TO_CLASS_MAPPING
            ]
''')], "an unimplemented block in a table cell", "no warning for it", '''class H(logging.Handler):
    def emit(self, r):
        out.append(r.getMessage())


out = []
lg = logging.getLogger("atlas_doc_parser")
lg.addHandler(H())
lg.setLevel(0)
parse_node(n("tableCell", {"type": "zz"}))
assert len(out) == 1
''')
bug("c04-empty-content", "C04", [(MON, '''                for d in dct["content"]:
                    try:
                        content = parse_node(d)
''', '''                for d in dct["content"]:
                    if not d:
                        continue
                    try:
                        content = parse_node(d)
''')], "an empty object among the children", "an element with no type at all is dropped", '''assert raises(parse_node, n("paragraph", text("a"), {}))
''')
bug("c04-null-type", "C04", [("nodes/parse_node.py", '''    type_ = dct["type"]
    try:
        klass''', '''    type_ = dct.get("type", "text") if "text" in dct else dct["type"]
    try:
        klass''')], "a text element without type", "an element without a type is parsed", '''assert raises(parse_node, n("paragraph", {"text": "a"}))
''')
bug("c05-registry-wrong", "C05", [("nodes/parse_node.py", '''    TypeEnum.nestedExpand.value: NodeNestedExpand,
''', '''    TypeEnum.nestedExpand.value: NodeExpand,
''')], "a nested expand", "a nested expand is parsed as an expand", '''e = parse_node({"type": "nestedExpand", "attrs": {}, "content": []})
assert type(e).__name__ == "NodeNestedExpand"
''')
bug("c08-task-except", "C08", [("nodes/node_task_list.py", '''                    except Exception as e:
                        if ignore_error:
                            pass
                        else:
                            raise e

                # Join''', '''                    except Exception as e:
                        if ignore_error or content_parts:
                            pass
                        else:
                            raise e

                # Join''')], "a task whose second element cannot be rendered", "the error does not surface",
'''d = n("taskList", {"type": "taskItem", "attrs": {"localId": "a", "state": "TODO"}, "content": [text("a"), leaf("inlineCard")]}, localId="l")
assert raises(md, d)
''')
bug("c08-card-in-item", "C08", [("nodes/node_bullet_list.py", '''                            md = node.to_markdown(ignore_error=ignore_error).rstrip()
                            content_lines.append(md)
                        except Exception as e:
                            if ignore_error:
                                pass
                            else:
                                raise e

                # Join''', '''                            md = node.to_markdown(ignore_error=ignore_error).rstrip()
                            content_lines.append(md)
                        except Exception as e:
                            if ignore_error:
                                break
                            else:
                                raise e

                # Join''')], "a bullet item with a failing block before others", "the blocks after the failing one are lost",
'''i = n("listItem", p("a"), leaf("blockCard"), p("b"))
assert md(n("bulletList", i), ignore_error=True) == "- a\\nb"
''')
bug("c10-task-nested-level", "C10", [("nodes/node_task_list.py", '''                    md = item.to_markdown(level=level + 1, ignore_error=ignore_error)
''', '''                    md = item.to_markdown(level=min(level + 1, 3), ignore_error=ignore_error)
''')], "task lists nested four deep", "the fourth level is not indented further",
'''def t(k):
    items = [{"type": "taskItem", "attrs": {"localId": "a", "state": "TODO"}, "content": [text("k%d" % k)]}]
    return n("taskList", *(items + ([t(k + 1)] if k < 4 else [])), localId="l")


assert "\\n" + " " * 16 + "- [ ] k4" in md(t(0))
''')
bug("c10-bool-order", "C10", [("nodes/node_ordered_list.py", '''            current_num = self.attrs.order
''', '''            current_num = max(self.attrs.order, 0) % 1000
''')], "a list that starts at 1000 or later", "the numbers start over at 0", '''assert md(n("orderedList", n("listItem", p("a")), order=1000)) == "1000. a"
''')
bug("c11-last-pipe", "C11", [("nodes/node_table_row.py", '''        return "| " + " | ".join(cells) + " |"
''', '''        return "| " + " | ".join(cells).rstrip() + " |"
''')], "a row whose last cells are empty", "the last empty cells of a row are merged",
'''out = md(n("tableRow", n("tableCell", p("a")), n("tableCell")))
assert out == "| a<br> |  |", out
''')
bug("c11-tab-cell", "C11", [("nodes/node_table_header.py", '''md = md.replace("|", "\\\\|")''', '''md = md.replace(" | ", " \\\\| ")''')], "a pipe without spaces around it in a header cell", "the pipe is not escaped",
'''assert "\\\\|" in md(n("tableHeader", p("a|b")))
''')
bug("c09-em-inner", "C09", [("marks/mark_em.py", '''            return f"*{text}*"
''', '''            return f"*{text}*" if not text.startswith("*") else f"_{text}_"
''')], "emphasis around strong text", "the delimiter is an underscore", '''assert md(text("x", {"type": "strong"}, {"type": "em"})) == "***x***"
''')
bug("c02-localid-extra", "C02", [(MON, '''        dct = copy.deepcopy(dct)

        # Deserialize attrs
        if "attrs" in dct:
            fields = cls.get_fields()
''', '''        dct = copy.deepcopy(dct)
        if "localId" in dct and "attrs" not in dct and cls.get_fields().get("attrs") is not None:
            dct["attrs"] = {"localId": dct["localId"]}  # older documents have it at the top level

        # Deserialize attrs
        if "attrs" in dct:
            fields = cls.get_fields()
''')], "an extra localId field next to type on an element without attrs", "the extra field turns up in the attributes",
'''d = {"type": "paragraph", "content": [], "localId": "x"}
assert parse_node(d).to_dict() == {"type": "paragraph", "content": []}
''')
bug("c07-soft-hyphen", "C07", [("nodes/node_text.py", '''        md = self.text
''', '''        md = self.text.replace("\\u200b", "").replace("\\u00ad", "")
''')], "text with a soft hyphen or a zero-width space", "characters of words are lost", '''assert md(p("a\\u00adb")) == "a\\u00adb\\n"
''')
bug("c07-long-text", "C07", [("nodes/node_heading.py", '''        md = (
            "\\n\\n"
            + "{} {}".format(
                "#" * self.attrs.level,
                content_to_markdown(content=self.content, ignore_error=ignore_error),
            )
''', '''        inner = content_to_markdown(content=self.content, ignore_error=ignore_error)
        md = (
            "\\n\\n"
            + "{} {}".format(
                "#" * self.attrs.level,
                inner if "\\n" not in inner else inner.split("\\n")[0],
            )
''')], "a heading with a hard break", "the second line of a heading is lost", '''assert "b" in md(n("heading", text("a"), {"type": "hardBreak"}, text("b"), level=1))
''')
bug("c06-marks-reversed", "C06", [(HELP, '''        if isinstance(node.marks, list):
            for mark in node.marks:
                md = mark.to_markdown(md)
''', '''        if isinstance(node.marks, list):
            links = [m for m in node.marks if m.is_type_of(TypeEnum.link)]
            if len(links) > 1:
                for m in links[1:]:
                    node.marks.remove(m)  # a text has one target
            for mark in node.marks:
                md = mark.to_markdown(md)
''')], "a text with two links, serialized after rendering", "rendering removes marks from the element",
'''d = text("x", {"type": "link", "attrs": {"href": "a"}}, {"type": "link", "attrs": {"href": "b"}})
e = parse_node(d)
e.to_markdown()
assert e.to_dict() == d
''')
bug("c06-counter", "C06", [("nodes/node_ordered_list.py", '''        if self.attrs is not OPT and isinstance(self.attrs.order, int):
            current_num = self.attrs.order
''', '''        if self.attrs is not OPT and isinstance(self.attrs.order, int):
            current_num = _NEXT.setdefault(self.attrs.localId, self.attrs.order)
'''), ("nodes/node_ordered_list.py", '''@dataclasses.dataclass(frozen=True)
class NodeOrderedListAttrs(Base):
''', '''_NEXT: dict = {}  # start numbers by list


@dataclasses.dataclass(frozen=True)
class NodeOrderedListAttrs(Base):
''')], "two lists with the same localId and different start numbers", "the second list starts with the number of the first",
'''a = n("orderedList", n("listItem", p("a")), order=3, localId="x")
b = n("orderedList", n("listItem", p("a")), order=7, localId="x")
assert md(a) == "3. a"
assert md(b) == "7. a"
''')

bug("c16-embed-space", "C16", [("nodes/node_embed_card.py", '''        return f"\\n[{self.attrs.url}]({self.attrs.url})\\n"
''', '''        url = self.attrs.url.replace(" ", "%20")
        return f"\\n[{self.attrs.url}]({url})\\n"
''')], "an embed card whose URL holds a space", "the URL is rewritten", '''assert "(http://a b)" in md(leaf("embedCard", url="http://a b", layout="wide"))
''')
