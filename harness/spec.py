"""What the Atlassian Document Format types look like, written down by hand (not read from /repo)."""

# type: (class name, required attrs or None when attrs are not modelled, optional attrs,
#        are attrs required, content: None / "req" / "opt", modelled marks)
NODES = {
    "blockCard": ("NodeBlockCard", [], ["url", "localId", "datasource", "width", "layout", "data"], True, None, False),
    "blockquote": ("NodeBlockquote", [], ["localId"], False, "req", False),
    "bulletList": ("NodeBulletList", None, [], False, "req", False),
    "caption": ("NodeCaption", [], ["localId"], False, "opt", False),
    "codeBlock": ("NodeCodeBlock", [], ["language", "uniqueId", "localId"], False, "opt", False),
    "date": ("NodeDate", ["timestamp"], ["localId"], True, None, False),
    "decisionItem": ("NodeDecisionItem", ["localId", "state"], [], True, "opt", False),
    "decisionList": ("NodeDecisionList", ["localId"], [], True, "req", False),
    "doc": ("NodeDoc", None, [], False, "req", False),
    "embedCard": ("NodeEmbedCard", ["url", "layout"], ["width", "originalHeight", "originalWidth", "localId"],
                  True, None, False),
    "emoji": ("NodeEmoji", ["shortName"], ["id", "text", "localId"], True, None, False),
    "expand": ("NodeExpand", [], ["title", "localId"], False, "req", False),
    "extension": ("NodeExtension", ["extensionKey", "extensionType"], ["parameters", "text", "layout", "localId"],
                  True, None, True),
    "hardBreak": ("NodeHardBreak", [], ["text", "localId"], False, None, False),
    "heading": ("NodeHeading", ["level"], ["localId"], True, "opt", True),
    "inlineCard": ("NodeInlineCard", [], ["url", "data", "localId"], True, None, False),
    "listItem": ("NodeListItem", [], ["localId"], False, "req", False),
    "media": ("NodeMedia", ["type"], ["id", "collection", "url", "localId", "alt", "width", "height",
                                      "occurrenceKey"], True, None, True),
    "mediaGroup": ("NodeMediaGroup", None, [], False, "req", False),
    "mediaInline": ("NodeMediaInline", ["id", "collection"], ["type", "localId", "alt", "occurrenceKey", "width",
                                                              "height", "data"], True, None, True),
    "mediaSingle": ("NodeMediaSingle", [], ["layout", "width", "widthType", "localId"], False, "opt", True),
    "mention": ("NodeMention", ["id"], ["localId", "text", "accessLevel", "userType"], True, None, False),
    "nestedExpand": ("NodeNestedExpand", [], ["title", "localId"], True, "req", False),
    "orderedList": ("NodeOrderedList", [], ["order", "localId"], False, "req", False),
    "panel": ("NodePanel", ["panelType"], ["panelIcon", "panelIconId", "panelIconText", "panelColor", "localId"],
              True, "req", False),
    "paragraph": ("NodeParagraph", [], ["localId"], False, "opt", True),
    "rule": ("NodeRule", [], ["localId"], False, None, False),
    "status": ("NodeStatus", ["text", "color"], ["localId", "style"], True, None, False),
    "table": ("NodeTable", [], ["displayMode", "isNumberColumnEnabled", "layout", "localId", "width"], False, "req",
              True),
    "tableCell": ("NodeTableCell", [], ["colspan", "rowspan", "colwidth", "background", "localId"], False, "req",
                  False),
    "tableHeader": ("NodeTableHeader", [], ["colspan", "rowspan", "colwidth", "background", "localId"], False, "req",
                    False),
    "tableRow": ("NodeTableRow", [], ["localId"], False, "req", False),
    "taskItem": ("NodeTaskItem", ["localId", "state"], [], True, "opt", False),
    "taskList": ("NodeTaskList", ["localId"], [], True, "req", False),
    "text": ("NodeText", None, [], False, None, True),
}

# type: (class name, required attrs or None, optional attrs)
MARKS = {
    "alignment": ("MarkAlignment", ["align"], []),
    "annotation": ("MarkAnnotation", ["id", "annotationType"], []),
    "backgroundColor": ("MarkBackgroundColor", ["color"], []),
    "border": ("MarkBorder", ["size", "color"], []),
    "breakout": ("MarkBreakout", ["mode"], ["width"]),
    "code": ("MarkCode", None, []),
    "dataConsumer": ("MarkDataConsumer", ["sources"], []),
    "em": ("MarkEm", None, []),
    "fragment": ("MarkFragment", ["localId"], ["name"]),
    "indentation": ("MarkIndentation", ["level"], []),
    "link": ("MarkLink", ["href"], ["title", "id", "collection", "occurrenceKey"]),
    "strike": ("MarkStrike", None, []),
    "strong": ("MarkStrong", None, []),
    "subsup": ("MarkSubsup", ["type"], []),
    "textColor": ("MarkTextColor", ["color"], []),
    "underline": ("MarkUnderline", None, []),
}

# ADF types that exist but that the library does not implement
UNIMPLEMENTED_NODES = ["bodiedExtension", "inlineExtension", "layoutSection", "layoutColumn", "placeholder",
                       "multiBodiedExtension", "extensionFrame", "syncBlock", "bodiedSyncBlock", "blockTaskItem",
                       "unsupportedBlock", "unsupportedInline", "confluenceUnsupportedBlock", "image"]
UNIMPLEMENTED_MARKS = ["unsupportedMark", "confluenceInlineComment", "fontSize", "typeAheadQuery", "dataConsumers"]

# sensible values, used where a case needs a complete valid element
VALUES = {
    "url": "http://u", "localId": "lid", "datasource": {"id": "ds", "views": [{"type": "table"}]}, "width": 7,
    "layout": "wide", "data": {"k": [1, {"z": None}]}, "language": "py", "uniqueId": "uq",
    "timestamp": "1700000000000", "state": "DONE", "originalHeight": 10, "originalWidth": 20.5, "shortName": ":a:",
    "id": "i1", "text": "tx", "title": "ti", "extensionKey": "ek", "extensionType": "et",
    "parameters": {"macro": {"p": ["q", 0, False]}}, "level": 2, "type": "file", "collection": "co", "alt": "al",
    "height": 9, "occurrenceKey": "oc", "widthType": "pixel", "accessLevel": "NONE", "userType": "APP", "order": 3,
    "panelType": "info", "panelIcon": "pi", "panelIconId": "pid", "panelIconText": "pit", "panelColor": "#fff",
    "color": "red", "style": "bold", "displayMode": "fixed", "isNumberColumnEnabled": True, "colspan": 2,
    "rowspan": 3, "colwidth": [1, 0], "background": "#eee", "align": "end", "annotationType": "inlineComment",
    "size": 2, "mode": "full-width", "sources": ["a", "b"], "name": "nm", "href": "http://h",
}

BLOCK_CONTAINERS = ["doc", "blockquote", "panel", "expand", "nestedExpand", "listItem", "tableCell", "tableHeader"]
INLINE_CONTAINERS = ["paragraph", "heading", "taskItem", "decisionItem", "caption", "codeBlock"]


def attrs_for(req, opt=()):
    return {k: VALUES[k] for k in list(req) + list(opt)}


def node(typ, content=None, optional=False, marks=None, text="w"):
    """a valid element with its required fields (and all optional attrs when ``optional``)"""
    _, req, opt, need, cont, has_marks = NODES[typ]
    d = {"type": typ}
    if typ == "text":
        d["text"] = text
    if typ == "doc":
        d["version"] = 1
    if req is not None:
        if need or optional or req:
            d["attrs"] = attrs_for(req, opt if optional else ())
    if content is not None:
        d["content"] = content
    elif cont == "req":
        d["content"] = []
    if marks is not None:
        d["marks"] = marks
    return d


def mark(typ, optional=False):
    _, req, opt = MARKS[typ]
    if req is None:
        return {"type": typ}
    a = attrs_for(req, opt if optional else ())
    if typ == "subsup":
        a["type"] = "sub"
    return {"type": typ, "attrs": a}


def containers():
    return [t for t, s in NODES.items() if s[4] is not None]
