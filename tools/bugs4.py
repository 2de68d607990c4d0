"""planted bugs, fourth batch (see bugs1.py)"""
BUGS = []


def bug(*a):
    BUGS.append(a)


MON = "mark_or_node.py"
HELP = "markdown_helpers.py"
BL, OL, TL = "nodes/node_bullet_list.py", "nodes/node_ordered_list.py", "nodes/node_task_list.py"

# ---- C20: media predicates
bug("c20-media-url", "C20", [("nodes/node_media.py", '''        return self.type == "external"
''', '''        return self.type == "external" or (self.type == "link" and self.url is not OPT)
''')], "media of type link that holds a url", "link media count as external", '''from atlas_doc_parser.nodes.node_media import NodeMediaAttrs
a = NodeMediaAttrs(type="link", id="i", collection="c", url="u")
assert a.is_link_type() and not a.is_external_type()
''')
bug("c20-media-in", "C20", [("nodes/node_media.py", '''        return self.type == "file"
''', '''        return self.type in "file,image"
''')], "a media type that is a substring of file,image (e.g. image, or empty)", "other types count as file", '''from atlas_doc_parser.nodes.node_media import NodeMediaAttrs
assert not NodeMediaAttrs(type="image").is_file_type()
''')
bug("c20-sorted", "C20", [("type_enum.py", '''    expected_values = [t.value for t in expected_types]
    return type_value in expected_values''', '''    expected_values = sorted(t.value for t in expected_types)
    lo, hi = 0, len(expected_values) - 1
    while lo < hi:
        mid = (lo + hi) // 2
        if expected_values[mid].lower() < type_value.lower():
            lo = mid + 1
        else:
            hi = mid
    return bool(expected_values) and expected_values[lo] == type_value''')], "a list that holds types whose order differs by case (e.g. taskItem next to table...), sorted by ordinal but searched case-insensitively", "an element in the list is not found", '''x = parse_node({"type": "blockquote", "content": []})
assert x.is_type_of([api.TypeEnum.blockCard, api.TypeEnum.blockTaskItem, api.TypeEnum.blockquote])
''')

# ---- C22
bug("c22-eq-type", "C22", [(MON, '''    type: str = dataclasses.field(default_factory=REQ)

    def is_type_of(
''', '''    type: str = dataclasses.field(default_factory=REQ)

    def __init_subclass__(cls, **kwargs):
        super().__init_subclass__(**kwargs)
        if cls.__name__.endswith("List"):
            cls.__eq__ = lambda a, b: isinstance(b, BaseMarkOrNode) and a.to_dict().get("content") == b.to_dict().get("content")

    def is_type_of(
''')], "two lists with equal items but other kind or attributes", "lists of another kind compare equal", '''a = parse_node(n("bulletList", n("listItem", p("x"))))
b = parse_node(n("orderedList", n("listItem", p("x"))))
assert a != b
''')
bug("c22-opt-default", "C22", [("nodes/node_extension.py", '''    extensionType: str = REQ
''', '''    extensionType: str = "com.atlassian.confluence.macro.core"
''')], "an extension without its type", "a required field becomes optional", '''from atlas_doc_parser.nodes.node_extension import NodeExtensionAttrs
assert raises(lambda: NodeExtensionAttrs(extensionKey="k"))
''')
bug("c22-compare", "C22", [("marks/mark_link.py", '''    title: str = OPT
''', '''    title: str = dataclasses.field(default=OPT, compare=False)
''')], "two links that differ in their title only", "different links are equal", '''a = parse_mark({"type": "link", "attrs": {"href": "h", "title": "a"}})
b = parse_mark({"type": "link", "attrs": {"href": "h", "title": "b"}})
assert a != b
''')
bug("c22-post-init", "C22", [("nodes/node_ordered_list.py", '''    order: int = OPT
    localId: str = OPT

''', '''    order: int = OPT
    localId: str = OPT

    @classmethod
    def from_dict(cls, dct):
        if dct.get("order") == 1:
            # 1 is the default
            dct = {k: v for k, v in dct.items() if k != "order"}
        return super().from_dict(dct)

''')], "an ordered list whose order is given and is 1", "the parsed element differs from the one built in code, and the field is lost", '''from atlas_doc_parser.nodes.node_ordered_list import NodeOrderedListAttrs
assert NodeOrderedListAttrs.from_dict({"order": 1}) == NodeOrderedListAttrs(order=1)
''')
bug("c22-kwargs-type", "C22", [(MON, '''        return self.to_dict()

    @classmethod
''', '''        return {k: v for k, v in self.to_dict().items() if v is not None}

    @classmethod
''')], "a field that is null, passed on with to_kwargs", "null fields are missing among the keyword arguments", '''from atlas_doc_parser.nodes.node_embed_card import NodeEmbedCardAttrs
from atlas_doc_parser.nodes.node_panel import NodePanelAttrs
a = NodePanelAttrs(panelType="info", panelIcon=None)
assert NodePanelAttrs(**a.to_kwargs()) == a
''')

# ---- C23
bug("c23-same-mark-merge", "C23", [(HELP, '''                md = node.to_markdown(ignore_error=ignore_error)
                lst.append(md)
            except Exception as e:  # pragma: no cover
                if ignore_error:
                    pass
                else:
                    raise e
        return concat.join(lst)
''', '''                md = node.to_markdown(ignore_error=ignore_error)
                if lst and len(md) > 4 and md[:2] == "**" and lst[-1][-2:] == "**" and len(lst[-1]) > 4:
                    # merge adjacent bold texts
                    lst[-1] = lst[-1][:-2]
                    md = md[2:]
                lst.append(md)
            except Exception as e:  # pragma: no cover
                if ignore_error:
                    pass
                else:
                    raise e
        return concat.join(lst)
''')], "two bold texts side by side", "the delimiters between them are removed", '''s = {"type": "strong"}
assert md(n("paragraph", text("a", s), text("b", s))) == "**a****b**\\n"
''')
bug("c23-row-width", "C23", [("nodes/node_table_row.py", '''            cells.append(md)
''', '''            cells.append(md)
        width = max((len(c) for c in cells), default=0)
        if len(cells) > 2:
            cells = [c.ljust(min(width, 3)) for c in cells]
''')], "a row of three or more cells with short texts", "a cell is padded to the width of its neighbours", '''c = lambda t: n("tableCell", p(t))
assert md(n("tableRow", n("tableCell"), c("bcde"), c("f"))).startswith("|  | bcde")
''')
bug("c23-last-item-nl", "C23", [(BL, '''                # Format the first line with bullet point
''', '''                if len(self.content) > 1 and item is self.content[-1]:
                    item_content = item_content.rstrip("\\n .")
                # Format the first line with bullet point
''')], "a list of two or more items whose last text ends in a full stop", "the last item loses the full stop", '''i = lambda t: n("listItem", p(t))
assert md(n("bulletList", i("a."), i("b."))) == "- a.\\n- b."
''')
bug("c23-decision-dup", "C23", [("nodes/node_decision_list.py", '''                    md = item.to_markdown(ignore_error=ignore_error)
                    decision_blocks.append(md)
''', '''                    md = item.to_markdown(ignore_error=ignore_error)
                    if decision_blocks and decision_blocks[0].startswith(md):
                        continue
                    decision_blocks.append(md)
''')], "a decision whose text is a prefix of the first one's", "it is dropped", '''d = lambda t: {"type": "decisionItem", "attrs": {"localId": "a", "state": "D"}, "content": [text(t)]}
assert md(n("decisionList", d("go now"), d("go"), localId="l")) == "> go now\\n\\n> go"
''')
bug("c19-card-after-card", "C19", [(HELP, '''    md = strip_double_empty_line(concat.join(lst))
    return md
''', '''    for i in range(len(lst) - 1):
        if lst[i].startswith("\\n[") and lst[i + 1].startswith("\\n["):
            # cards side by side
            lst[i], lst[i + 1] = "", lst[i].rstrip("\\n") + " " + lst[i + 1].lstrip("\\n")
    md = strip_double_empty_line(concat.join(lst))
    return md
''')], "two block cards one after the other", "the two share a line", '''c = n("blockCard", url="http://a")
assert md(doc(c, c)).strip().count("\\n") >= 1
''')
bug("c19-quote-table", "C19", [("nodes/node_blockquote.py", '''                prefix="> ",
                predicate=lambda line: True,
            )
''', '''                prefix="> ",
                predicate=lambda line: True,
            ).replace("\\n> \\n> | ", "\\n> | ")
''')], "a table after a paragraph in a quote", "no empty line before the table", '''out = md(n("blockquote", p("a"), n("table", n("tableRow", n("tableCell", p("b"))))))
assert "> a\\n> \\n> | b" in out, repr(out)
''')
# ---- C13
bug("c13-two-steps", "C13", [(HELP, '''        text = text.replace("\\n\\n\\n", "\\n\\n")
    return text
''', '''        text = text.replace("\\n\\n\\n", "\\n\\n")
        if text.count("\\n\\n\\n") > 4:
            # speed up
            text = re.sub(r"\\n\\s*\\n\\n", "\\n\\n", text)
    return text
'''), (HELP, '''import typing as T

from func_args''', '''import re
import typing as T

from func_args''')], "a text with many long runs of empty lines, with indented or blank-only lines among them", "lines of white space are removed", '''from atlas_doc_parser.markdown_helpers import strip_double_empty_line as f
s = "a\\n \\n\\n\\nb" + "\\n\\n\\n\\n\\n\\n\\n\\nc" * 6
assert f(s) == "a\\n \\n\\nb" + "\\n\\nc" * 6, repr(f(s))
''')
# ---- C07
bug("c07-zero-width", "C07", [("nodes/node_table_cell.py", '''            stripped = line.lstrip(" ")
''', '''            stripped = line.lstrip(" \\u200b")
''')], "a cell text that begins with a zero-width space", "the character is replaced by &nbsp;", '''out = md(n("tableCell", p("\\u200ba")))
assert out.startswith("\\u200ba"), out
''')
bug("c07-panel-title", "C07", [("nodes/node_panel.py", '''                            doc_content_to_markdown(
                                content=self.content,
                                ignore_error=ignore_error,
                            ),
''', '''                            doc_content_to_markdown(
                                content=self.content[1:]
                                if len(self.content) > 1
                                and self.content[0].to_dict().get("content", [{}])[:1] == [{"type": "text", "text": self.attrs.panelType}]
                                else self.content,
                                ignore_error=ignore_error,
                            ),
''')], "a panel whose first block begins with a plain text equal to the panel's type", "that block is lost", '''out = md(n("panel", p("info"), p("b"), panelType="info"))
assert "> info" in out, out
''')
bug("c07-cell-twice", "C07", [("nodes/node_table_header.py", '''            processed_lines.append(line)
''', '''            if processed_lines and line and line == processed_lines[-1] and len(lines) > 4:
                continue
            processed_lines.append(line)
''')], "a header cell of more than four lines with two equal lines in a row", "one of them is dropped", '''out = md(n("tableHeader", n("codeBlock", text("a\\na\\nb"))))
assert out.count("a<br>") == 2, out
''')
bug("c07-task-nested-text", "C07", [(TL, '''                    md = item.to_markdown(level=level + 1, ignore_error=ignore_error)
                    lines.append(md)
''', '''                    md = item.to_markdown(level=level + 1, ignore_error=ignore_error)
                    if md not in lines:
                        lines.append(md)
''')], "two equal nested task lists in one task list", "the second is dropped", '''t = lambda s: {"type": "taskItem", "attrs": {"localId": "a", "state": "TODO"}, "content": [text(s)]}
l = n("taskList", t("x"), localId="l")
assert md(n("taskList", t("a"), l, t("b"), l, localId="l")).count("x") == 2
''')
bug("c07-long-list", "C07", [(OL, '''                    lines.extend(remaining_lines)

                current_num += 1
''', '''                    lines.extend(remaining_lines[:50])

                current_num += 1
''')], "an item of an ordered list with more than 51 lines", "the rest of the item is lost", '''out = md(n("orderedList", n("listItem", *[p("w%d" % i) for i in range(60)])))
assert "w59" in out
''')
# ---- C15
bug("c15-five-six", "C15", [("nodes/node_heading.py", '''                "#" * self.attrs.level,
''', '''                "#" * (self.attrs.level if self.content is not OPT else min(self.attrs.level, 5)),
''')], "a heading of level 6 without content", "it gets five # only", '''assert "###### " in md({"type": "heading", "attrs": {"level": 6}})
''')
bug("c15-rule-tail", "C15", [(HELP, '''    md = strip_double_empty_line(concat.join(lst))
    return md
''', '''    if len(lst) > 1 and lst[-2].strip() == "---":
        # a rule before the last block needs no space
        lst[-2] = lst[-2].rstrip("\\n")
    md = strip_double_empty_line(concat.join(lst))
    return md
''')], "a rule just before the last block", "no empty line after the rule", '''out = md(doc(p("a"), {"type": "rule"}, p("b")))
assert "---\\n\\nb" in out, repr(out)
''')
