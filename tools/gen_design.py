"""writes DESIGN.md from tools/design.md, the harnesses' bounds and tools/catches.json"""
import glob
import json
import os
import re
import sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H + "/tools")
import bounds

props = [json.loads(l) for l in open(H + "/properties.jsonl")]
how = {}
for part in re.split(r"^## ", open(H + "/tools/design_props.md").read(), flags=re.M)[1:]:
    i, _, t = part.partition("\n")
    how[i.strip()] = t.strip()
out = []
for p in props:
    i = p["id"]
    b = bounds.read(i)
    out.append("### %s %s\n" % (i, p["title"]))
    out.append(how[i] + "\n")
    out.append("*Cases:* " + "; ".join("`%s`%s" % (n, " (%s)" % d if d else "") for n, d in b["cases"]) + ".\n")
    out.append("*Bounds:* " + b["BOUNDS"] + ".\n")
    if b["ASSUMPTIONS"]:
        out.append("*Assumed:* " + "; ".join(b["ASSUMPTIONS"]) + ".\n")
catches = json.load(open(H + "/tools/catches.json")) if os.path.exists(H + "/tools/catches.json") else {}
rows, ncaught = ["| bug | property | what it needs to show | caught by |", "|---|---|---|---|"], 0
ids = sorted(os.path.basename(d) for d in glob.glob(H + "/seeded/*"))
for i in ids:
    m = json.load(open(H + "/seeded/%s/meta.json" % i))
    c = catches.get(i, "?")
    if c.startswith("caught"):
        ncaught += 1
        k = re.search(r"(harness\.)?(\w+)[^:]*: *(.*)", c[6:])
        c = c[6:].split("|")[0].strip()
        c = re.sub(r"\s+", " ", c)[:110]
    esc = lambda s: s.replace("|", "\\|")
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], esc(m["needs"]), esc(c)))
fixes = [re.match(r"fixed: property=(\w+) (\w+) (.*)", l).groups() for l in open(H + "/known-findings.txt") if l.startswith("fixed:")]
mut = open(H + "/tools/mutation.md").read() if os.path.exists(H + "/tools/mutation.md") else "(running)"
t = open(H + "/tools/design.md").read()
refs = len(re.findall(r"^\w+ = rset\(", open(H + "/tools/refactors.py").read(), flags=re.M))
for k, v in dict(NPROPS=str(len(props)), PROPERTIES="\n".join(out), FIXES="\n".join("* %s, `%s`: %s" % f for f in fixes), NBUGS=str(len(ids)),
                 NCAUGHT=str(ncaught), BUGTABLE="\n".join(rows), MUTATION=mut.strip(), NREF=str(refs)).items():
    t = t.replace("{{%s}}" % k, v)
open(H + "/DESIGN.md", "w").write(t)
print(len(t), "characters;", ncaught, "of", len(ids), "caught")
