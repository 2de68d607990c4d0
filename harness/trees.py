"""document trees: every nesting of the block kinds, with inline leaves supplied by the caller"""
from . import adf as a

LEAVES = ["para", "heading", "code", "task", "decision"]
WRAPS = ["bullet", "ordered", "panel", "quote", "expand", "nestedExpand", "cell", "header", "bare"]
KINDS = LEAVES + WRAPS


def block(kind, kids, inline=None):
    """one block of the given kind; ``kids`` are blocks (wrapping kinds) or inline nodes (leaf kinds)"""
    if kind == "para":
        return a.para(*kids)
    if kind == "heading":
        return a.heading(2, *kids)
    if kind == "code":
        return {"type": "codeBlock", "attrs": {"language": "py"}, "content": list(kids)}
    if kind == "task":
        return a.tasks(a.task("DONE", *kids))
    if kind == "decision":
        return a.decisions(a.decision(*kids))
    if kind == "bullet":
        return a.bullets(a.item(*kids))
    if kind == "ordered":
        return a.ordered(a.item(*kids), order=3)
    if kind == "panel":
        return a.panel("note", *kids)
    if kind == "quote":
        return a.quote(*kids)
    if kind == "expand":
        return a.expand(*kids)
    if kind == "nestedExpand":
        return a.nested_expand(*kids)
    if kind == "cell":
        return a.table(a.row(a.hcell(), a.cell(*kids)))
    if kind == "header":
        return a.table(a.row(a.hcell(*kids)))
    if kind == "bare":           # header-less table
        return a.table(a.row(a.cell(*kids)))
    raise KeyError(kind)


def grow(ctx, name, depth, leaf, kids=1, top=None):
    """a block of a chosen kind; wrapping kinds hold ``kids`` chosen blocks up to the given depth.

    ``leaf(kind)`` returns the inline nodes of one leaf block."""
    pool = KINDS if depth > 0 else LEAVES
    kind = top or pool[ctx.choose(name, len(pool))]
    if kind in LEAVES:
        return block(kind, leaf(kind))
    n = kids if isinstance(kids, int) else kids[0]
    rest = kids if isinstance(kids, int) else kids[1:]
    return block(kind, [grow(ctx, name + str(i), depth - 1, leaf, rest) for i in range(n)])
