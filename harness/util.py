"""helpers shared by the harness modules (run symbolically and concretely)"""


def same(ctx, a, b):
    """deep equality including types; returns a (symbolic) Boolean"""
    cs = []
    if not _same(ctx, a, b, cs):
        return False
    return ctx.all(cs)


def _same(ctx, a, b, cs):
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        if len(a) != len(b):
            return False
        for k in a:
            if k not in b:
                return False
            if not _same(ctx, a[k], b[k], cs):
                return False
        return True
    if isinstance(a, list) or isinstance(a, tuple):
        if len(a) != len(b):
            return False
        for i in range(len(a)):
            if not _same(ctx, a[i], b[i], cs):
                return False
        return True
    if isinstance(a, str):
        if len(a) != len(b):
            return False
        cs.append(ctx.eq(a, b))
        return True
    cs.append(a == b)
    return True


def jsonish(x):
    """only plain JSON data inside?"""
    if x is None or isinstance(x, bool) or isinstance(x, int) or isinstance(x, float) or isinstance(x, str):
        return True
    if type(x) is dict:
        return all([isinstance(k, str) and jsonish(y) for k, y in x.items()])
    if type(x) is list:
        return all([jsonish(y) for y in x])
    return False


def copy_of(x):
    """structural copy made by the harness itself"""
    if isinstance(x, dict):
        return {k: copy_of(y) for k, y in x.items()}
    if isinstance(x, list):
        return [copy_of(y) for y in x]
    return x


def vandalise(x):
    """change every mutable object inside x"""
    if isinstance(x, dict):
        for y in list(x.values()):
            vandalise(y)
        x.clear()
        x["vandal"] = 1
    elif isinstance(x, list):
        for y in x:
            vandalise(y)
        del x[:]
        x.append("vandal")


def ids_of(x, out=None):
    """ids of all mutable objects inside x"""
    if out is None:
        out = set()
    if isinstance(x, dict):
        out.add(id(x))
        for y in x.values():
            ids_of(y, out)
    elif isinstance(x, list):
        out.add(id(x))
        for y in x:
            ids_of(y, out)
    return out


def long(ctx, name, n, kind="word"):
    """a text of n characters; the first, one in the middle and the last are variables"""
    h = n // 2
    fill = "the quick brown fox jumps over it "
    body = [fill[i % len(fill)] for i in range(n)]
    s = "".join(body)
    return ctx.chars(name + ".h", 1, kind) + s[1:h] + ctx.chars(name + ".m", 1, kind) + s[h + 1:n - 1] + ctx.chars(name + ".t", 1, kind)
