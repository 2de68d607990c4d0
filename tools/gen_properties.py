import json
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None))
    if state: d["anchors"]["state"]=state
    P.append(d)
A="atlas_doc_parser/"
N=A+"nodes/"; M=A+"marks/"
prop("C01","Parsing then serializing gives back the same data",
"For every implemented node and mark type, parsing a dictionary that only holds fields the library models and serializing the result gives a dictionary equal to the input, at every nesting depth. Attribute values come back unchanged (also 0, false, null, empty text and empty lists or objects), an absent optional field stays absent, no sentinel or internal object appears, and children and marks keep their order and number.",
["inputs"],"every implemented type, every subset of its modelled fields, every field value, nested in every container",
"Tests round-trip one recorded sample per type, with the fields that sample happens to have.",
[A+"mark_or_node.py",N,M],[("from_dict/to_dict of the base classes",A+"mark_or_node.py"),("field declarations with OPT/REQ",N+"*.py, "+M+"*.py")],
["Node/Mark.from_dict","to_dict"])
prop("C02","Unknown extra fields are ignored",
"Adding fields the library does not model (to a node, to a mark or inside attrs, under any name and with any value) never makes parsing fail and never changes the serialized form or the Markdown of the result. The extra fields do not appear in the serialized form. (An unmodelled content or marks list is ignored likewise when its elements are well formed; malformed elements in it are rejected like any other.)",
["inputs"],"every extra field name and value, at every place of every implemented type",
"Tests only parse recorded documents; no test adds a field whose name is not in the model.",
[A+"mark_or_node.py"],[("from_dict copies modelled fields only",A+"mark_or_node.py: Base.from_dict")],["from_dict","to_dict","to_markdown"])
prop("C03","Unimplemented types are skipped, everything else is kept",
"A content entry or a mark whose type the library does not implement is left out, and all its siblings before and after it are kept in order, whatever the type name is, wherever in the tree it is and however many there are; the result equals parsing the document without those entries. For each left-out entry exactly one warning that names its type and whether it is a node or a mark is logged, unless warnings are switched off in the settings, in which case none is; implemented entries never cause a warning.",
["inputs","configurations"],"every type name outside the registries, every position, depth and number, warning setting on and off",
"One recorded document has one unimplemented node at the top level; positions, marks, depth, other names and the setting are not varied.",
[A+"mark_or_node.py",A+"settings.py",A+"exc.py",M+"parse_mark.py",N+"parse_node.py"],
[("UnimplementedTypeError caught per entry",A+"mark_or_node.py: BaseNode.from_dict"),("registries",N+"parse_node.py, "+M+"parse_mark.py")],["from_dict","log records of the package logger"],
[dict(name="WARN_UNIMPLEMENTED_TYPE",meaning="whether a warning is logged",where=A+"settings.py")])
prop("C04","Malformed input is rejected, never silently dropped",
"If any node or mark in the input has no type, or lacks an attribute or content that its type requires, parsing raises an exception, wherever in the tree that element is and whatever surrounds it. It is never skipped like an unimplemented type, and no partially filled element is produced.",
["inputs"],"every implemented type with a required field, every one of its required fields, every depth, position and combination of siblings",
"No test parses an element with a required field missing inside a document.",
[A+"mark_or_node.py",N,M],[("REQ sentinels",N+"*.py, "+M+"*.py"),("only UnimplementedTypeError is caught",A+"mark_or_node.py: BaseNode.from_dict")],["from_dict"])
prop("C05","Type names dispatch to the right kind of element",
"Parsing a node or a mark by its type name yields an element of exactly that type, and nodes and marks have separate name spaces. Every other name, however close to an implemented one, raises the unimplemented-type error, which carries that very name and whether a node or a mark was being parsed.",
["inputs"],"every type name (implemented, unimplemented, near misses, names of the other category)",
"Tests call the dispatcher with the types of the recorded samples only.",
[N+"parse_node.py",M+"parse_mark.py",A+"exc.py",A+"type_enum.py"],[("type to class registries",N+"parse_node.py, "+M+"parse_mark.py")],["parse_node","parse_mark"])
prop("C06","Parsing and rendering are pure and independent of history",
"Parsing never changes the dictionary it is given, and the result shares no mutable object with it: changing the input later, or a dictionary returned by serialization, does not change the element. Serializing or rendering any number of times, in any order, also after other documents were parsed, rendered or failed, gives equal results every time. Elements cannot be reassigned.",
["inputs","histories"],"every document, every sequence of parse/serialize/render calls on it and on other documents, every later change of the input or of a returned dictionary",
"Tests call each operation once per sample and never look at the input afterwards.",
[A+"mark_or_node.py",A+"markdown_helpers.py",N,M],[("deepcopy before parsing",A+"mark_or_node.py"),("frozen dataclasses",A+"mark_or_node.py")],["from_dict","to_dict","to_markdown"],
[dict(name="_CLASS_FIELD",meaning="cache of dataclass fields per class",where=A+"mark_or_node.py")])
prop("C07","No text is lost, repeated or reordered in Markdown",
"Every word of every text element that can be rendered occurs in the Markdown of the document exactly once, unchanged and in document order, whatever marks it carries (a link with a title of its own shows the title instead) and whatever nesting of paragraphs, headings, lists, task and decision lists, panels, quotes, expands, tables and code blocks holds it. Captions, media groups and expand titles are not rendered, by design.",
["inputs"],"every tree of rendered containers, every text, every list of marks",
"Samples fix one nesting and one text per container; depth, number of siblings, empty neighbours and mark combinations are not varied.",
[A+"markdown_helpers.py",N,M],[("content_to_markdown / doc_content_to_markdown",A+"markdown_helpers.py"),("to_markdown of each container",N+"*.py")],["to_markdown"])
prop("C08","ignore_error skips exactly what fails; without it errors surface",
"With ignore_error set, rendering a document never raises, and the result equals rendering the document from which exactly the inline elements, cards, media and texts that cannot be rendered have been removed, at any depth and in every container. Without it, any such element makes rendering raise. On a document in which nothing fails the flag changes nothing.",
["inputs"],"every position and number of unrenderable elements, every container and nesting",
"No test passes ignore_error with a failing element.",
[A+"markdown_helpers.py",N],[("try/except per child",A+"markdown_helpers.py and the list/table nodes")],["to_markdown(ignore_error=...)"])
prop("C09","Inline formatting wraps the text as Markdown defines it",
"Strong, emphasis, strike-through, inline code and link marks wrap exactly the text they are applied to in their Markdown delimiters, in the order of the mark list; marks with no Markdown form leave the text unchanged, and indentation only puts tabs before it. White-space-only text gets no emphasis or code delimiters. An inline code span is delimited by a backtick run that does not occur in its text.",
["inputs"],"every text, every list of marks in every order, every attribute value",
"Tests render one text per mark and few combinations.",
[M,A+"markdown_helpers.py",N+"node_text.py"],[("to_markdown of each mark",M+"*.py"),("add_style_to_markdown",A+"markdown_helpers.py")],["text node to_markdown"])
prop("C10","Lists keep markers, numbering, depth and check state",
"Each item of a bullet, ordered or task list is rendered on a line of its own that starts with four spaces per enclosing list, then '- ', or '<n>. ' with n counting up by one from the list's order (1 when not given, 0 allowed), or '- [x] ' for a done task and '- [ ] ' for any other, then the item's text. This holds for any number of items, any nesting depth and any mix of the three kinds, including items with no content.",
["inputs"],"every number of items, nesting depth, mix of list kinds, start number and task state",
"Samples have three levels of one kind with at most a few items, starting at one.",
[N+"node_bullet_list.py",N+"node_ordered_list.py",N+"node_task_list.py",N+"node_list_item.py"],[("level argument and numbering",N+"node_*_list.py")],["to_markdown"])
prop("C11","A table keeps its grid",
"A table is rendered as one line per row with one cell per ADF cell in order, cells separated by unescaped pipes; a pipe inside a cell is escaped and a line break inside a cell is a <br>, so neither the cell's text nor the blocks in it can add rows or columns. A delimiter line with one --- per cell of that row follows the first row that begins with a header cell, and there is no other. Leading spaces in a cell line become one &nbsp; each.",
["inputs"],"every number of rows and cells, header placement, cell text and block content",
"Two sample tables of two columns with fixed text.",
[N+"node_table.py",N+"node_table_row.py",N+"node_table_cell.py",N+"node_table_header.py"],[("row/cell joining and escaping",N+"node_table*.py")],["to_markdown"])
prop("C12","Panels, quotes and decisions contain everything they hold",
"Every line rendered from a panel, a block quote or a decision item starts with the quote prefix '>', for any content; a panel starts with a line naming its type in bold upper case. Removing the prefix gives the Markdown of the contained blocks, with nothing lost or added except blank lines and, in a decision, white space at line ends.",
["inputs"],"every content, text, number of blocks and nesting, every panel type",
"Samples have one fixed content per container.",
[N+"node_panel.py",N+"node_blockquote.py",N+"node_decision_item.py",N+"node_decision_list.py"],[("textwrap.indent with a constant predicate",N+"node_panel.py, "+N+"node_blockquote.py"),("line loop",N+"node_decision_item.py")],["to_markdown"])
prop("C13","At most one blank line in a row, and only newlines are removed",
"The Markdown of a document, expand, panel or quote never holds two or more consecutive empty lines, whatever its text and blocks are. Collapsing them changes nothing else: the non-newline characters and every run of one or two newlines of what the blocks rendered stay as they are.",
["inputs"],"every text, number and kind of blocks, runs of newlines of any length",
"One sample document is rendered without its Markdown being compared; no test has more than a few newlines in a row.",
[A+"markdown_helpers.py"],[("strip_double_empty_line",A+"markdown_helpers.py")],["to_markdown"])
prop("C14","Code blocks are verbatim inside a fence they cannot break",
"A code block is rendered as a fence line with the language, the code exactly as given, and a closing fence line; the language is empty when absent or 'none' and otherwise as given. The fence is made of at least three backticks and is longer than any backtick run in the code.",
["inputs"],"every code text and language",
"Samples have short code without backticks.",
[N+"node_code_block.py"],[("fence construction",N+"node_code_block.py")],["code block to_markdown"])
prop("C15","Headings and rules keep their level and stand alone",
"A heading of level n is rendered as n '#' characters, a space and its inline content on one line (for content without line breaks) with an empty line before and after, for every level from 1 to 6; a rule is a '---' line with an empty line before and after.",
["inputs"],"every level, every inline content without line breaks, every neighbour",
"The sample covers one text per level.",
[N+"node_heading.py",N+"node_rule.py"],[("to_markdown",N+"node_heading.py, "+N+"node_rule.py")],["to_markdown"])
prop("C16","Links, cards and media carry their target verbatim",
"The URL of a link, inline card, block card, embed card or external media occurs unchanged in its Markdown as the link or image destination, whatever characters it holds; a link shows its non-empty title or else its text, an image shows its alternative text, or the word media when it has none. A card without a URL raises an error and never yields an empty or invented link.",
["inputs"],"every URL, title, text and alternative text, present or absent",
"One URL per type.",
[M+"mark_link.py",N+"node_inline_card.py",N+"node_block_card.py",N+"node_embed_card.py",N+"node_media.py"],[("to_markdown",M+"mark_link.py, "+N+"node_*card.py, "+N+"node_media.py")],["to_markdown"])
prop("C17","A date is the UTC calendar date of its timestamp",
"A date element with a millisecond timestamp is rendered as the YYYY-MM-DD calendar date of that instant in UTC, also when the process runs in another time zone, for every timestamp from the year 1000 on, including the first and last millisecond of a day, leap days and instants before 1970.",
["inputs","configurations"],"every millisecond of the supported calendar range and every local time zone",
"One timestamp, in the zone the tests run in.",
[N+"node_date.py"],[("datetime conversion with an explicit UTC zone",N+"node_date.py")],["date node to_markdown"])
prop("C18","Inline elements fall back the documented way",
"An emoji is rendered as its text, or its short name when the text is absent; a mention as its text, or an unknown-user marker when absent; a status as its text in inline code; a hard break as a Markdown line break; an extension as a placeholder that names its key, and its text or type. The other attributes never change these renderings.",
["inputs"],"every attribute value, each optional attribute absent or present",
"One sample per element, with all attributes present.",
[N+"node_emoji.py",N+"node_mention.py",N+"node_status.py",N+"node_extension.py",N+"node_hard_break.py"],[("to_markdown",N+"node_emoji.py and siblings")],["to_markdown"])
prop("C19","Neighbouring blocks never run into each other",
"Two blocks that follow each other in a document, expand, panel, quote, list item or table cell never share a line of the Markdown. In a document, expand, panel or quote a list, task list, decision list, table or code block is moreover separated from its neighbours by an empty line, as Markdown needs to see where it starts and ends.",
["inputs"],"every ordered pair or longer sequence of block kinds in every container, every text",
"Samples rarely put two different blocks next to each other.",
[A+"markdown_helpers.py",N],[("doc_content_to_markdown padding",A+"markdown_helpers.py")],["to_markdown"])
prop("C20","The type test answers exactly by type name",
"Asking whether an element is of a type, or of any of a list of types, answers true exactly when its type name equals that type's name or is among them, for every element and every list including the empty one. Likewise media attributes answer whether they are of the file, link or external type exactly by their type, whatever else they hold.",
["inputs"],"every element type (also an unknown name) against every type and list of types; every media type name and combination of media attributes",
"A handful of pairs.",
[A+"type_enum.py",A+"mark_or_node.py"],[("check_type_match",A+"type_enum.py"),("is_file_type and siblings",N+"node_media.py")],["is_type_of","is_file_type, is_link_type, is_external_type"])
prop("C21","Every schema-valid document renders",
"A document built from implemented elements with their required fields renders to Markdown without raising, whichever of the optional fields and optional content are present, absent or empty, in every container. The only exceptions are a card without a URL and a code mark on text with a line break. (Media have the url or id that their type calls for, and dates a millisecond timestamp.)",
["inputs"],"every combination of optional fields and empty or absent content, for every implemented node type, in every container",
"Samples are rich documents: optional attributes and content are nearly always present.",
[N,A+"markdown_helpers.py"],[("OPT checks",N+"*.py")],["to_markdown"])
prop("C22","An element built in code is the parsed one",
"Building an element by calling its class with the attributes, content and marks that parsing would give it yields an element that equals the parsed one, serializes to the same dictionary and renders to the same Markdown; two elements are equal exactly when they are of one type and their data are equal. Leaving out a field that the type requires raises.",
["inputs"],"every implemented type, every subset of its fields, every field value, every single difference between two elements",
"Tests build a few elements by hand and compare them with one recorded sample.",
[A+"mark_or_node.py",N,M],[("dataclass fields, defaults and equality",N+"*.py, "+M+"*.py"),("to_dict",A+"mark_or_node.py")],["the classes of atlas_doc_parser.api","to_dict","to_markdown","=="])
prop("C23","Rendering is compositional",
"What a block, an inline element, a list item, a table row or a cell contributes to the Markdown does not depend on its neighbours: apart from blank lines, the Markdown of a container is the sequence of what its blocks render to alone, a paragraph, heading, task, decision or code block is its inline elements in a row, and a list or table is its items or rows in a row. This holds for equal and different neighbours and for any number of them.",
["inputs"],"every ordered pair and triple of block kinds in every container, every sequence of inline elements, every text",
"Tests render each kind in the one surrounding its sample has.",
[A+"markdown_helpers.py",N],[("content_to_markdown, doc_content_to_markdown, block_content_to_markdown",A+"markdown_helpers.py"),("loops over items, rows and cells",N+"*.py")],["to_markdown"])
prop("C24","Presentation data never changes the Markdown",
"Data that have no Markdown form never change the rendered Markdown, whatever their value, and whether present, absent, null or equal to those of other elements: ids (localId, the ids of links, annotations, media occurrences, mentions and emoji), widths, heights, layouts, colours, icons, spans and background of cells, the table's and lists' display options, access levels, expand titles, mention user types, and the marks that Markdown cannot express (underline, colours, sub/superscript, alignment, border, annotation, breakout, data consumer, fragment).",
["inputs"],"every such attribute of every element and mark with every value, every combination of them, every text, every container",
"Tests render recorded samples, where these data have a single plausible value; nothing compares two values.",
[N,M,A+"markdown_helpers.py"],[("to_markdown of the node and mark types",N+"*.py, "+M+"*.py"),("add_style_to_markdown, content_to_markdown",A+"markdown_helpers.py")],["to_markdown"])
prop("C25","Serialization is a normal form, and key order does not matter",
"For every document that parses (also with unknown extra fields and element types that are skipped) to_dict() yields plain JSON data that parse again, to an equal element with the same serialized form and the same Markdown; serializing again changes nothing. The order of the keys in the input's objects never matters: it changes neither equality, nor the serialized data, nor the Markdown.",
["inputs"],"every document that parses, with every extra field, skipped element and attribute shape, and every order of keys",
"Tests compare the round trip of documents that have exactly the modelled fields, in one key order.",
[A+"mark_or_node.py",N,M],[("from_dict, to_dict",A+"mark_or_node.py"),("parse_node, parse_mark",N+"parse_node.py, "+M+"parse_mark.py")],["parse_node","parse_mark","from_dict","to_dict","to_markdown"])
prop("C26","Concurrent use gives what use by one thread gives",
"Parsing, serializing and rendering can be done in several threads of one process at the same time, on different documents or on the same element, also as the first calls of the process. Whatever the interleaving, each call returns, or raises, exactly what it does when nothing else runs.",
["schedules","inputs"],"every pair of threads that parse, serialize or render, every switch between them, every text, from a fresh or a used process state",
"Tests use one thread; a race on shared state shows only when a switch happens at one particular line.",
[A+"mark_or_node.py",A+"markdown_helpers.py",N,M],[("frozen elements and functions without shared mutable state",A+"mark_or_node.py, "+A+"markdown_helpers.py"),("field cache, the only state that is filled at run time",A+"mark_or_node.py")],["parse_node","from_dict","to_dict","to_markdown"])
json_lines="\n".join(json.dumps(p) for p in P)+"\n"
open("/verif/properties.jsonl","w").write(json_lines)
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for p in P: jsonschema.validate(p,s)
print(len(P))
