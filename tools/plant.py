"""Plants the bugs described in tools/bugs*.py: writes seeded/<id>/ and verifies each in a scratch copy of /repo.

usage: plant.py [ID ...]   (dev tool; no check reads it)"""
import concurrent.futures as cf
import importlib.util
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUGS = []
for f in sorted(glob.glob(H + "/tools/bugs*.py")):
    spec = importlib.util.spec_from_file_location("b", f)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    BUGS += m.BUGS
DEMO_SH = '''#!/bin/bash
# exit 0: the property holds on this input; nonzero: it does not
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''
PRE = '''import copy, json, logging
from atlas_doc_parser import api
from atlas_doc_parser.api import parse_node, parse_mark


def text(s, *marks):
    return {"type": "text", "text": s, **({"marks": list(marks)} if marks else {})}


def n(type_, *content, **attrs):
    d = {"type": type_, "content": list(content)}
    if attrs:
        d["attrs"] = attrs
    return d


def leaf(type_, **attrs):
    return {"type": type_, "attrs": attrs}


def p(s, *marks):
    return n("paragraph", text(s, *marks))


def doc(*content):
    return {"type": "doc", "version": 1, "content": list(content)}


def md(d, **k):
    return parse_node(d).to_markdown(**k)


def raises(f, *a, **k):
    try:
        f(*a, **k)
    except Exception as e:
        return e
    return None


'''


def sh(cmd, cwd, timeout=900, **env):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout,
                          env=dict(os.environ, CI="true", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", LC_ALL="C.UTF-8", **env))


def run(b):
    bid, prop, edits, needs, breaks, demo = b
    d = os.path.join(H, "seeded", bid)
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.sh", "w").write(DEMO_SH)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.py", "w").write(PRE + demo.strip() + "\n")
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    tmp = tempfile.mkdtemp(prefix="plant_")
    try:
        w = tmp + "/repo"
        sh("git clone -q /repo %s" % w, "/")
        r = sh("bash %s/demo.sh" % d, w, 300, PYTHONPATH=w)
        if r.returncode != 0:
            return bid, prop, "BAD demo fails on the clean tree: " + r.stderr[-300:]
        for f, old, new in edits:
            path = w + "/atlas_doc_parser/" + f
            s = open(path).read()
            if s.count(old) != 1:
                return bid, prop, "BAD edit matches %d times in %s: %r" % (s.count(old), f, old[:60])
            open(path, "w").write(s.replace(old, new))
        diff = sh("git diff", w).stdout
        open(d + "/patch.diff", "w").write(diff)
        r = sh("bash %s/demo.sh" % d, w, 300, PYTHONPATH=w)
        if r.returncode == 0:
            return bid, prop, "BAD demo passes with the bug"
        r = sh("/opt/venv/bin/python -m pytest tests -q -p no:cacheprovider -x", w, 300, PYTHONPATH=w)
        if r.returncode != 0:
            return bid, prop, "BAD tests fail: " + r.stdout[-400:]
        vv = tmp + "/verif"
        shutil.copytree(H, vv, ignore=shutil.ignore_patterns("evidence", ".git", "seeded", "__pycache__"))
        os.makedirs(vv + "/evidence", exist_ok=True)
        r = sh("./check.py %s --tier quick --jobs 2" % prop, vv, 1200, VERIF_REPO=w)
        out = [l for l in r.stdout.splitlines() if "VIOLATION" in l or l.startswith("  ")]
        err = [l for l in r.stdout.splitlines() if l.startswith(("ERROR", "UNDEC"))]
        last = [l for l in r.stdout.splitlines() if prop + " quick" in l]
        if r.returncode == 1 and any(l.startswith("VIOLATION property=" + prop) for l in out):
            return bid, prop, "caught  " + (out[0].strip() if out else "")[:230] + " | " + "".join(last)[-60:]
        return bid, prop, "MISSED rc=%d %s %s" % (r.returncode, last, err[:2])
    finally:
        shutil.rmtree(tmp)


if __name__ == "__main__":
    todo = [b for b in BUGS if not sys.argv[1:] or b[0] in sys.argv[1:] or b[1] in sys.argv[1:]]
    ids = [b[0] for b in BUGS]
    assert len(ids) == len(set(ids)), "duplicate ids"
    with cf.ThreadPoolExecutor(4) as ex:
        for bid, prop, res in ex.map(run, todo):
            print("%-28s %s %s" % (bid, prop, res), flush=True)
            kept = json.load(open(H + "/tools/catches.json")) if os.path.exists(H + "/tools/catches.json") else {}
            kept[bid] = res
            json.dump({k: kept[k] for k in sorted(kept) if k in ids}, open(H + "/tools/catches.json", "w"), indent=0)
