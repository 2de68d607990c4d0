"""planted bugs, fifth batch (see bugs1.py): presentation data, normal form, key order"""
BUGS = []


def bug(*a):
    BUGS.append(a)


MON = "mark_or_node.py"
HELP = "markdown_helpers.py"
ROW, CELL, TABLE = "nodes/node_table_row.py", "nodes/node_table_cell.py", "nodes/node_table.py"
BL = "nodes/node_bullet_list.py"

# ---- C24
bug("c24-colspan", "C24", [(ROW, '''            cells.append(md)
''', '''            cells.append(md)
            if cell.attrs is not OPT and isinstance(cell.attrs.colspan, int):
                cells.extend([""] * (cell.attrs.colspan - 1))
'''), (ROW, "from func_args.api import REQ", "from func_args.api import REQ, OPT")], "a cell that spans columns", "the row has more cells", '''c = n("tableCell", p("a"))
d = n("tableCell", p("a"), colspan=2)
assert md(n("tableRow", c)) == md(n("tableRow", d))
''')
bug("c24-cell-dedupe", "C24", [(ROW, '''        for cell in self.content:
            md =''', '''        seen = set()
        for cell in self.content:
            attrs = getattr(cell, "attrs", None)
            key = getattr(attrs, "localId", None)
            if isinstance(key, str) and key in seen:
                continue
            if isinstance(key, str):
                seen.add(key)
            md =''')], "two cells of a row with one localId (a copied cell)", "the second is dropped", '''c = lambda s, i: n("tableCell", p(s), localId=i)
assert md(n("tableRow", c("a", "1"), c("b", "1"))) == md(n("tableRow", c("a", "1"), c("b", "2")))
''')
bug("c24-media-width", "C24", [("nodes/node_media.py", '''        if self.attrs.is_external_type() and isinstance(self.attrs.url, str):''', '''        if self.attrs.width == 1 and self.attrs.height == 1:
            return ""
        if self.attrs.is_external_type() and isinstance(self.attrs.url, str):''')], "media of one by one pixels", "the image is not rendered", '''a = dict(type="external", url="http://u")
assert md(leaf("media", **a)) == md(leaf("media", width=1, height=1, **a))
''')
bug("c24-status-hidden", "C24", [("nodes/node_status.py", '''        text = self.attrs.text
''', '''        text = self.attrs.text
        if self.attrs.style == "bold":
            text = text.upper()
''')], "a status whose style is bold", "its text is upper-cased", '''a = dict(text="Done", color="red")
assert md(leaf("status", **a)) == md(leaf("status", style="bold", **a))
''')
bug("c24-annot", "C24", [(HELP, '''            for mark in node.marks:
                md = mark.to_markdown(md)
''', '''            for mark in node.marks:
                if mark.type == "annotation" and mark is node.marks[0] and not md.isascii():
                    break
                md = mark.to_markdown(md)
''')], "an annotation before another mark on text that is not ASCII", "the marks after it are not applied", '''a = {"type": "annotation", "attrs": {"id": "i", "annotationType": "inlineComment"}}
s = {"type": "strong"}
assert md(text("\u00e9", a, s)) == md(text("\u00e9", s))
''')
bug("c24-subsup", "C24", [(HELP, '''                md = mark.to_markdown(md)
    # some''', '''                md = mark.to_markdown(md)
            kinds = {m.type for m in node.marks}
            if "subsup" in kinds and len(kinds) == 2 and md.strip() != md:
                md = md.strip()
    # some''')], "sub/superscript with one other mark on text with blanks around it", "the blanks are lost", '''a = {"type": "subsup", "attrs": {"type": "sub"}}
s = {"type": "underline"}
assert md(text(" x", a, s)) == md(text(" x", s))
''')
bug("c24-layout", "C24", [("nodes/node_media_single.py", '''        return content_to_markdown(content=self.content, ignore_error=ignore_error)''', '''        md = content_to_markdown(content=self.content, ignore_error=ignore_error)
        attrs = self.attrs
        layout = getattr(attrs, "layout", None)
        if isinstance(layout, str) and layout.startswith("wrap-"):
            md += " "
        return md''')], "a media single whose layout floats", "a trailing blank", '''m = leaf("media", type="external", url="http://u")
assert md(n("mediaSingle", m, layout="center")) == md(n("mediaSingle", m, layout="wrap-left"))
''')
bug("c24-link-occ", "C24", [("marks/mark_link.py", '''            title = text
''', '''            title = text
        if isinstance(self.attrs.occurrenceKey, str) and self.attrs.occurrenceKey == text:
            return text
''')], "a link whose occurrenceKey equals its text", "the target is dropped", '''a = lambda k: {"type": "link", "attrs": {"href": "h", "occurrenceKey": k}}
assert md(text("x", a("x"))) == md(text("x", a("y")))
''')
bug("c24-mention-access", "C24", [("nodes/node_mention.py", '''            return self.attrs.text
''', '''            if self.attrs.accessLevel == "NONE":
                return "@" + self.attrs.text.lstrip("@")
            return self.attrs.text
''')], "a mention with access level NONE whose text does not begin with one @", "the text is changed", '''assert md(leaf("mention", id="i", text="bob")) == md(leaf("mention", id="i", text="bob", accessLevel="NONE"))
''')
bug("c24-panel-icon", "C24", [("nodes/node_panel.py", '''{self.attrs.panelType.upper()}''', '''{(self.attrs.panelIconText or self.attrs.panelType) if self.attrs.panelType == 'custom' and isinstance(self.attrs.panelIconText, str) else self.attrs.panelType.upper()}''')], "a custom panel with an icon", "its title is the icon", '''a = n("panel", p("x"), panelType="custom")
b = n("panel", p("x"), panelType="custom", panelIconText="I")
assert md(a) == md(b)
''')
bug("c24-task-ids", "C24", [("nodes/node_task_list.py", '''        for item in self.content:
''', '''        ids = [getattr(getattr(i, "attrs", None), "localId", None) for i in self.content]
        for k, item in enumerate(self.content):
            if k and ids[k] == ids[k - 1] and item == self.content[k - 1]:
                continue
''')], "two equal tasks in a row", "the second is dropped", '''t = lambda i: n("taskItem", text("a"), localId=i, state="TODO")
assert md(n("taskList", t("1"), t("1"), localId="l")) == md(n("taskList", t("1"), t("2"), localId="l"))
''')
bug("c24-expand-title", "C24", [("nodes/node_expand.py", '''        md = doc_content_to_markdown(content=self.content, ignore_error=ignore_error)
''', '''        md = doc_content_to_markdown(content=self.content, ignore_error=ignore_error)
        title = getattr(self.attrs, "title", None)
        if isinstance(title, str) and title and md.startswith(title + "\\n"):
            md = md[len(title) + 1 :]
''')], "an expand whose first block repeats its title", "that block is dropped", '''a = lambda t: n("expand", p("T"), p("x"), title=t)
assert md(a("T")) == md(a("U"))
''')

# ---- C25
bug("c25-first-key", "C25", [("nodes/parse_node.py", '''    type_ = dct["type"]
''', '''    type_ = dct["type"]
    if next(iter(dct)) not in ("type", "attrs", "content", "marks", "text", "version"):
        dct = {k: v for k, v in dct.items() if k != "marks"}
''')], "an element whose first key is an unknown field", "its marks are lost", '''s = [{"type": "strong"}]
assert md({"type": "text", "text": "a", "marks": s, "x": 1}) == md({"x": 1, "type": "text", "text": "a", "marks": s})
''')
bug("c25-extra-attrs", "C25", [(MON, '''                    dct["attrs"] = attrs_field.type.from_dict(dct["attrs"])

        # Deserialize content''', '''                    dct["attrs"] = attrs_field.type.from_dict(dct["attrs"])
        elif len(dct) > 4:
            dct = {k: dct[k] for k in list(dct)[:4]}

        # Deserialize content''')], "an element without attrs and with more than four keys, a modelled one among the last", "that field is lost", '''a = {"type": "text", "text": "a", "x": 1, "y": 2, "marks": [{"type": "strong"}]}
b = {"type": "text", "text": "a", "marks": [{"type": "strong"}], "x": 1, "y": 2}
assert parse_node(a) == parse_node(b)
''')
bug("c25-skip-hole", "C25", [(MON, '''                        # Skip this node and continue
''', '''                        # Skip this node and continue
                        if d is dct["content"][-1] and not new_content:
                            dct.pop("content")
                            return super().from_dict(dct)
''')], "an element with optional content whose children are all of unimplemented types", "content is absent rather than empty, and its marks are not parsed", '''x = parse_node({"type": "paragraph", "content": [{"type": "nope"}], "marks": [{"type": "strong"}]})
json.dumps(x.to_dict())
assert parse_node(x.to_dict()) == x
''')
bug("c25-none-attrs", "C25", [(MON, '''                data["attrs"] = self.attrs.to_dict()

        # Serialize content''', '''                data["attrs"] = self.attrs.to_dict()
            if len(data["attrs"]) > 1 and data["attrs"].get("localId", 1) in ("", None):
                data["attrs"].pop("localId")

        # Serialize content''')], "an element with an empty or null localId and another attribute", "it is dropped from the serialized data", '''x = parse_node({"type": "expand", "content": [], "attrs": {"title": "", "localId": ""}})
assert parse_node(x.to_dict()) == x
''')
bug("c25-mark-first", "C25", [("marks/parse_mark.py", '''    type_ = dct["type"]
''', '''    type_ = dct["type"]
    if type_ == "em" and list(dct)[0] != "type":
        type_ = "strong"
''')], "an em mark with an extra field before its type", "it is parsed as strong", '''assert parse_mark({"x": 1, "type": "em"}) == parse_mark({"type": "em", "x": 1})
''')
bug("c01-params", "C01", [(MON, '''        _fields = cls.get_fields()
        kwargs = {}
''', '''        _fields = cls.get_fields()
        kwargs = {}
        if "parameters" in _fields and isinstance(dct.get("parameters"), dict):
            dct = {**dct["parameters"], **dct}
''')], "extension parameters that hold the name of an absent attribute (e.g. text)", "the parameter becomes the attribute", '''x = parse_node(leaf("extension", extensionKey="k", extensionType="t", parameters={"text": "hello"}))
assert "text" not in x.to_dict()["attrs"], x.to_dict()
''')
bug("c25-key-sort", "C25", [(MON, '''        for field_name, field in _fields.items():
            try:
                kwargs[field_name] = dct[field_name]
            except KeyError:
                pass
''', '''        for n, key in enumerate(dct):
            if n > 7 and key not in ("type", "attrs", "content"):
                break
            if key in _fields:
                kwargs[key] = dct[key]
''')], "an object with more than eight keys, an optional one among the last", "that field is lost", '''a = {"type": "text", "text": "a", "marks": [{"type": "strong"}]}
b = {**{"x%d" % i: 1 for i in range(8)}, "type": "text", "text": "a", "marks": [{"type": "strong"}]}
assert raises(parse_node, b) == raises(parse_node, a) and parse_node(a) == parse_node(b)
''')
bug("c25-tuple", "C25", [("marks/mark_data_consumer.py", '''    attrs: MarkDataConsumerAttrs = REQ
''', '''    attrs: MarkDataConsumerAttrs = REQ

    def to_dict(self):
        return {"type": self.type, "attrs": {"sources": sorted(set(map(str, self.attrs.sources)))}}
''')], "sources out of order, repeated, or a string", "the serialized sources differ from the parsed ones", '''m = parse_mark({"type": "dataConsumer", "attrs": {"sources": ["b", "a"]}})
assert parse_mark(m.to_dict()) == m
''')
