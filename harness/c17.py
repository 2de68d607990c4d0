"""C17: a date is the UTC calendar date of its timestamp."""
from atlas_doc_parser import api
from .reg import case
from . import adf as a

CASES = {}
BOUNDS = ("every millisecond timestamp from the year 1000 to the year 9999 split in ranges, as a string or a number, with leading "
          "zeros; the process runs in a time zone 8 hours behind UTC (the code's local time); dates alone and in paragraphs, "
          "headings, tasks, decisions and cells, next to other dates; other attributes present or absent")
DAY = 86400000


def days(y, m, d):
    """days since 1970-01-01 of a proleptic Gregorian date"""
    if m <= 2:
        y = y - 1
        m = m + 12
    era = y // 400
    yoe = y - era * 400
    doy = (153 * (m - 3) + 2) // 5 + d - 1
    return era * 146097 + yoe * 365 + yoe // 4 - yoe // 100 + doy - 719468


def length(y, m):
    if m == 2:
        return 29 if y % 4 == 0 and (y % 100 != 0 or y % 400 == 0) else 28
    return 30 if m == 4 or m == 6 or m == 9 or m == 11 else 31


def number(ctx, s):
    v = 0
    for c in s:
        ctx.check(ctx.isin(c, "digit"), "digits")
        v = v * 10 + (ord(c) - 48)
    return v


def judge(ctx, text, ts):
    ctx.check(len(text) == 10 and text[4] == "-" and text[7] == "-", "YYYY-MM-DD")
    if len(text) != 10:
        return
    y, m, d = number(ctx, text[:4]), number(ctx, text[5:7]), number(ctx, text[8:])
    ctx.check(m >= 1, "month")
    ctx.check(m <= 12, "month")
    ctx.check(d >= 1, "day")
    ctx.check(d <= length(y, m), "day of the month")
    n = days(y, m, d) * DAY
    ctx.check(n <= ts, "the day of the instant, UTC")
    ctx.check(ts < n + DAY, "the day of the instant, UTC")


LO, HI = -30610224000000, 253402128000000          # 1000-01-01 .. 9999-12-30 (strftime does not pad earlier years)
RANGES = [[0, 5 * 10 ** 12], [-5 * 10 ** 12, -1], [5 * 10 ** 12 + 1, 30 * 10 ** 12], [-30 * 10 ** 12, -5 * 10 ** 12 - 1]]
FAR = [[LO, -30 * 10 ** 12 - 1], [30 * 10 ** 12 + 1, 120 * 10 ** 12], [120 * 10 ** 12 + 1, HI]]


@case(CASES, quick=RANGES, thorough=RANGES + FAR, cost=5)
def number_form(ctx, p):
    """every millisecond, given as a number"""
    ts = ctx.int("ts", *p)
    md = api.parse_node(a.date(ts)).to_markdown()
    ctx.observe("md", md)
    judge(ctx, md, ts)


@case(CASES, quick=RANGES[:2], thorough=RANGES + FAR, cost=5)
def string_form(ctx, p):
    """every millisecond, given as text"""
    if p[1] < 0:
        n = ctx.int("n", -p[1], -p[0])
        ts, d = -n, a.date("-" + str(n))
    else:
        ts = ctx.int("ts", *p)
        d = a.date(str(ts))
    if ctx.flag("localId"):
        d["attrs"]["localId"] = "2020-01-01"
    md = api.parse_node(d).to_markdown()
    ctx.observe("md", md)
    judge(ctx, md, ts)


@case(CASES, quick=[13], thorough=[10, 11, 12, 13, 14], cost=5)
def digits(ctx, n):
    """a text of n digits (leading zeros included)"""
    t = ctx.chars("t", n, "digit")
    md = api.parse_node(a.date(t)).to_markdown()
    ctx.observe("md", md)
    ts = 0
    for c in t:
        ts = ts * 10 + (ord(c) - 48)
    judge(ctx, md, ts)


# first and last day of months, leap days, centuries, the epoch, far years
EDGES = [0, -1, 1, 59, 60, 364, 365, 789, 790, 11015, 11016, 10956, 10957, 18321, 18322, 18627, 18628, 19722, 19723, 20513,
         -25508, -25509, -25567, -25568, -135140, -354285, -354226, 47540, 47541, 2932531, 2932532, 120530]


@case(CASES, quick=[EDGES[i::4] for i in range(4)], cost=3)
def edges(ctx, edge):
    """the first and last milliseconds of special days"""
    e = edge[ctx.choose("edge", len(edge))]
    n = ctx.int("ms", 0, 1999)
    ts = e * DAY + n if ctx.flag("first") else e * DAY + DAY - 1 - n
    md = api.parse_node(a.date(ts if ctx.flag("number") else str(ts))).to_markdown()
    ctx.observe("md", md)
    judge(ctx, md, ts)


@case(CASES, quick=["paragraph", "heading", "task", "decision", "item", "cell", "panel", "expand"], cost=3)
def inside(ctx, where):
    """two dates in every kind of block"""
    ts = ctx.int("ts", 1577836800000, 1582934399999 + DAY)
    kids = [a.text("a "), a.date(str(ts)), a.text(" b "), a.date("951782400000"), a.text(" c")]
    p = a.para(*kids)
    d = {"paragraph": lambda: p, "heading": lambda: a.heading(1, *kids), "task": lambda: a.tasks(a.task("DONE", *kids)),
         "decision": lambda: a.decisions(a.decision(*kids)), "item": lambda: a.bullets(a.item(p)),
         "cell": lambda: a.table(a.row(a.cell(p))), "panel": lambda: a.panel("info", p), "expand": lambda: a.expand(p)}[where]()
    md = api.parse_node(a.doc(d)).to_markdown(ignore_error=ctx.flag("ignore"))
    ctx.observe("md", md)
    i = md.find("a ")
    ctx.check(i >= 0 and md[i + 12:i + 15] == " b " and md[i + 25:i + 27] == " c", "both dates in place")
    judge(ctx, md[i + 2:i + 12], ts)
    ctx.check(md[i + 15:i + 25] == "2000-02-29", "the other date")


@case(CASES, quick=[None], cost=3)
def independent(ctx, _):
    """a date does not depend on the dates rendered before"""
    t1, t2 = ctx.int("t1", 0, 2 * DAY), ctx.int("t2", 60 * DAY - DAY, 60 * DAY)
    e1, e2 = api.parse_node(a.date(str(t1))), api.parse_node(a.date(str(t2)))
    m1 = e1.to_markdown()
    m2 = e2.to_markdown()
    m3 = e1.to_markdown()
    ctx.observe("m", [m1, m2, m3])
    judge(ctx, m1, t1)
    judge(ctx, m2, t2)
    judge(ctx, m3, t1)
