"""builders for ADF dictionaries (inputs of the code under test)"""


def text(s, *marks):
    d = {"type": "text", "text": s}
    if marks:
        d["marks"] = list(marks)
    return d


def para(*content, **k):
    return dict({"type": "paragraph", "content": list(content)}, **k)


def pt(s, *marks):
    """paragraph holding one text"""
    return para(text(s, *marks))


def heading(level, *content):
    return {"type": "heading", "attrs": {"level": level}, "content": list(content)}


def item(*content):
    return {"type": "listItem", "content": list(content)}


def bullets(*items):
    return {"type": "bulletList", "content": list(items)}


def ordered(*items, order=None, attrs=True):
    d = {"type": "orderedList", "content": list(items)}
    if attrs:
        d["attrs"] = {} if order is None else {"order": order}
    return d


def task(state, *content, **k):
    return dict({"type": "taskItem", "attrs": {"localId": "t", "state": state}, "content": list(content)}, **k)


def tasks(*items):
    return {"type": "taskList", "attrs": {"localId": "l"}, "content": list(items)}


def decision(*content):
    return {"type": "decisionItem", "attrs": {"localId": "d", "state": "DECIDED"}, "content": list(content)}


def decisions(*items):
    return {"type": "decisionList", "attrs": {"localId": "dl"}, "content": list(items)}


def code(s, lang=None, attrs=True):
    d = {"type": "codeBlock", "content": [text(s)]}
    if attrs:
        d["attrs"] = {} if lang is None else {"language": lang}
    return d


def panel(kind, *content):
    return {"type": "panel", "attrs": {"panelType": kind}, "content": list(content)}


def quote(*content):
    return {"type": "blockquote", "content": list(content)}


def expand(*content, title="t"):
    return {"type": "expand", "attrs": {"title": title}, "content": list(content)}


def nested_expand(*content):
    return {"type": "nestedExpand", "attrs": {"title": "t"}, "content": list(content)}


def cell(*content):
    return {"type": "tableCell", "attrs": {}, "content": list(content)}


def hcell(*content):
    return {"type": "tableHeader", "attrs": {}, "content": list(content)}


def row(*cells):
    return {"type": "tableRow", "content": list(cells)}


def table(*rows):
    return {"type": "table", "attrs": {"layout": "default"}, "content": list(rows)}


def doc(*content):
    return {"type": "doc", "version": 1, "content": list(content)}


def rule():
    return {"type": "rule"}


def br():
    return {"type": "hardBreak"}


def emoji(short, text=None):
    a = {"shortName": short}
    if text is not None:
        a["text"] = text
    return {"type": "emoji", "attrs": a}


def mention(id, text=None):
    a = {"id": id}
    if text is not None:
        a["text"] = text
    return {"type": "mention", "attrs": a}


def status(text, color="neutral"):
    return {"type": "status", "attrs": {"text": text, "color": color}}


def date(ts):
    return {"type": "date", "attrs": {"timestamp": ts}}


def inline_card(url=None, data=None):
    a = {}
    if url is not None:
        a["url"] = url
    if data is not None:
        a["data"] = data
    return {"type": "inlineCard", "attrs": a}


def block_card(url=None):
    return {"type": "blockCard", "attrs": {} if url is None else {"url": url}}


def embed_card(url, layout="center"):
    return {"type": "embedCard", "attrs": {"url": url, "layout": layout}}


def extension(key="k", typ="t", text=None):
    a = {"extensionKey": key, "extensionType": typ}
    if text is not None:
        a["text"] = text
    return {"type": "extension", "attrs": a}


def media(typ, **a):
    return {"type": "media", "attrs": dict({"type": typ}, **a)}


def media_single(*content):
    return {"type": "mediaSingle", "attrs": {"layout": "center"}, "content": list(content)}


def mark(typ, **attrs):
    return {"type": typ, "attrs": attrs} if attrs else {"type": typ}


def link(href, title=None):
    a = {"href": href}
    if title is not None:
        a["title"] = title
    return {"type": "link", "attrs": a}


STRONG, EM, STRIKE, CODE, UNDERLINE = (mark(x) for x in ("strong", "em", "strike", "code", "underline"))
