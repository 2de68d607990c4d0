"""Mutation analysis of the checks (dev tool; no check reads it).

usage: mutate.py gen OUT.json [FILE-SUBSTRING ...]     mutants of /repo that build and pass the tests
       mutate.py run IN.json OUT.json [WORKERS] [JOBS] [LIMIT]   runs the checks on them until one reports"""
import ast
import concurrent.futures as cf
import copy
import glob
import json
import os
import queue
import random
import shutil
import subprocess
import sys
import tempfile
import threading

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PKG = "/repo/atlas_doc_parser"
SKIP = ("gen_code.py", "paths.py", "_version.py", "type_hint.py", "/tests/", "/vendor/", "/docs/", "__init__.py", "logger.py")
CMP = {ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.LtE],
       ast.GtE: [ast.Gt, ast.Lt], ast.Is: [ast.IsNot, ast.Eq], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.FloorDiv: ast.Div, ast.Div: ast.FloorDiv, ast.Mod: ast.Add}
STRM = {"strip": ["rstrip", "lstrip"], "rstrip": ["strip", "lstrip"], "lstrip": ["strip"], "split": ["rsplit"], "splitlines": [], "append": [],
        "startswith": ["endswith"], "upper": ["lower", "title"], "lower": ["upper"], "extend": ["append"]}


def points(tree):
    """(description, apply) for every mutation; apply works on a deep copy by node index"""
    nodes = list(ast.walk(tree))
    docs = set()
    for n in nodes:
        if isinstance(n, (ast.Module, ast.FunctionDef, ast.ClassDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(
                n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str):
            docs.add(id(n.body[0].value))
    anno = set()
    for n in nodes:
        for a in [getattr(n, "annotation", None), getattr(n, "returns", None)]:
            if a is not None:
                anno |= {id(x) for x in ast.walk(a)}
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            docs.add(id(n.value))
    out = []

    def add(i, what, f):
        out.append((i, what, f))
    for i, n in enumerate(nodes):
        if id(n) in anno:
            continue
        if isinstance(n, ast.Compare):
            for op in CMP.get(type(n.ops[0]), []):
                add(i, "cmp->" + op.__name__, lambda m, op=op: m.ops.__setitem__(0, op()))
        elif isinstance(n, ast.BoolOp):
            add(i, "and<->or", lambda m: setattr(m, "op", ast.Or() if isinstance(m.op, ast.And) else ast.And()))
            for k in range(len(n.values)):
                add(i, "drop operand %d" % k, lambda m, k=k: (m.values.pop(k), m.values.append(ast.Constant(isinstance(m.op, ast.And)))))
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            add(i, "cond->False", lambda m: setattr(m, "test", ast.Constant(False)))
            if not isinstance(n, ast.While):
                add(i, "cond->True", lambda m: setattr(m, "test", ast.Constant(True)))
            add(i, "negate", lambda m: setattr(m, "test", ast.UnaryOp(ast.Not(), m.test)))
        elif isinstance(n, ast.Constant) and id(n) not in docs:
            v = n.value
            if isinstance(v, bool):
                add(i, "flip bool", lambda m: setattr(m, "value", not m.value))
            elif isinstance(v, int):
                add(i, "+1", lambda m: setattr(m, "value", m.value + 1))
                add(i, "-1", lambda m: setattr(m, "value", m.value - 1))
            elif isinstance(v, str):
                if v:
                    add(i, "empty str", lambda m: setattr(m, "value", ""))
                    if len(v) > 1:
                        add(i, "cut str", lambda m: setattr(m, "value", m.value[:-1]))
                add(i, "str+", lambda m: setattr(m, "value", m.value + (" " if m.value.strip() == m.value and m.value else "x")))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            add(i, "arith", lambda m: setattr(m, "op", BIN[type(m.op)]()))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(i, "drop not", lambda m: m.__dict__.update(op=ast.Not(), operand=ast.UnaryOp(ast.Not(), m.operand)))
        elif isinstance(n, ast.Call):
            for k in range(len(n.keywords)):
                add(i, "drop keyword %s" % n.keywords[k].arg, lambda m, k=k: m.keywords.pop(k))
            if isinstance(n.func, ast.Attribute):
                for t in STRM.get(n.func.attr, []):
                    add(i, ".%s->.%s" % (n.func.attr, t), lambda m, t=t: setattr(m.func, "attr", t))
                if n.func.attr in ("strip", "rstrip", "lstrip", "upper", "lower", "replace", "copy"):
                    add(i, "drop .%s()" % n.func.attr, lambda m: m.__dict__.update(
                        func=ast.Name("str", ast.Load()) if m.func.attr != "copy" else ast.Name("dict", ast.Load()), args=[m.func.value], keywords=[]))
        elif isinstance(n, ast.Slice):
            if n.lower is not None:
                add(i, "no lower", lambda m: setattr(m, "lower", None))
            if n.upper is not None:
                add(i, "no upper", lambda m: setattr(m, "upper", None))
        elif isinstance(n, ast.Break):
            pass
        elif isinstance(n, ast.Name) and n.id in ("OPT", "REQ") and isinstance(n.ctx, ast.Load):
            add(i, "OPT<->REQ", lambda m: setattr(m, "id", "REQ" if m.id == "OPT" else "OPT"))
        elif isinstance(n, ast.ExceptHandler):
            add(i, "re-raise", lambda m: setattr(m, "body", [ast.Raise()]))
            add(i, "swallow", lambda m: setattr(m, "body", [ast.Pass()]))
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and not isinstance(n, (ast.Module, ast.ClassDef)):
                for k, st in enumerate(b):
                    if isinstance(st, (ast.Import, ast.ImportFrom, ast.Pass, ast.FunctionDef)) or (
                            isinstance(st, ast.Expr) and id(st.value) in docs):
                        continue
                    add(i, "delete %s %d: %s" % (f, k, ast.unparse(st)[:50].replace("\n", " ")),
                        lambda m, f=f, k=k: getattr(m, f).__setitem__(k, ast.Pass()))
                    if isinstance(st, ast.Continue):
                        add(i, "continue->break", lambda m, f=f, k=k: getattr(m, f).__setitem__(k, ast.Break()))
                    if isinstance(st, ast.Break):
                        add(i, "break->continue", lambda m, f=f, k=k: getattr(m, f).__setitem__(k, ast.Continue()))
        if isinstance(n, ast.ClassDef):
            for k, st in enumerate(n.body):
                if isinstance(st, ast.FunctionDef):
                    add(i, "delete method " + st.name, lambda m, k=k: m.body.__setitem__(k, ast.Pass()))
                elif isinstance(st, ast.AnnAssign):
                    add(i, "delete field " + ast.unparse(st)[:40], lambda m, k=k: m.body.__setitem__(k, ast.Pass()))
    return nodes, out


def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    base = ast.unparse(tree)
    nodes, pts = points(tree)
    seen = {base}
    for i, what, f in pts:
        t = copy.deepcopy(tree)
        m = list(ast.walk(t))[i]
        try:
            f(m)
            ast.fix_missing_locations(t)
            new = ast.unparse(t)
            compile(new, path, "exec")
        except Exception:
            continue
        if new in seen:
            continue
        seen.add(new)
        yield dict(file=os.path.relpath(path, PKG), line=getattr(nodes[i], "lineno", 0), what=what, src=new)


def sh(cmd, cwd, timeout, **env):
    p = subprocess.Popen(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True,
                         env=dict(os.environ, CI="true", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", LC_ALL="C.UTF-8", **env))
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 124, ""


class Pool:
    def __init__(self, n, verif):
        self.q = queue.Queue()
        self.dirs = []
        for i in range(n):
            d = tempfile.mkdtemp(prefix="mut_")
            self.dirs.append(d)
            sh("git clone -q /repo %s/repo" % d, "/", 60)
            if verif:
                shutil.copytree(H, d + "/verif", ignore=shutil.ignore_patterns("evidence", ".git", "seeded", "__pycache__"))
                os.makedirs(d + "/verif/evidence", exist_ok=True)
            self.q.put(d)

    def close(self):
        for d in self.dirs:
            shutil.rmtree(d)

    def use(self, m, f):
        d = self.q.get()
        p = d + "/repo/atlas_doc_parser/" + m["file"]
        old = open(p).read()
        try:
            open(p, "w").write(m["src"])
            return f(d, m)
        finally:
            open(p, "w").write(old)
            self.q.put(d)


def gen(out, subs):
    ms = []
    for p in sorted(glob.glob(PKG + "/**/*.py", recursive=True)):
        if any(s in p for s in SKIP) or (subs and not any(s in p for s in subs)):
            continue
        ms.extend(mutants(p))
    print(len(ms), "mutants", flush=True)
    pool = Pool(8, False)

    def test(d, m):
        rc, _ = sh("/opt/venv/bin/python -m pytest tests -q -p no:cacheprovider -x", d + "/repo", 60, PYTHONPATH=d + "/repo")
        return rc == 0
    try:
        with cf.ThreadPoolExecutor(8) as ex:
            ok = list(ex.map(lambda m: pool.use(m, test), ms))
    finally:
        pool.close()
    ms = [m for m, o in zip(ms, ok) if o]
    print(len(ms), "pass the tests", flush=True)
    json.dump(ms, open(out, "w"), indent=1)


FIRST = {"bullet_list": "C10 C07", "ordered_list": "C10", "task": "C10 C08", "list_item": "C10", "table": "C11 C24", "panel": "C12", "quote": "C12",
         "decision": "C12 C19", "code": "C14 C09", "heading": "C15", "rule": "C15", "card": "C16 C08", "media": "C16 C21", "link": "C16 C09", "date": "C17",
         "emoji": "C18", "mention": "C18", "status": "C18", "extension": "C18", "hard_break": "C18", "marks/": "C09 C01", "parse_": "C05 C03",
         "exc.py": "C05", "type_enum": "C20", "mark_or_node": "C01 C22 C20", "helpers": "C09 C13 C12 C08", "settings": "C03", "expand": "C12 C08"}
MOST = int(os.environ.get("MOST", "26"))       # checks that are tried
ORDER = "C01 C21 C23 C22 C08 C24 C25 C04 C07 C18 C16 C05 C20 C10 C09 C15 C12 C13 C14 C03 C17 C02 C11 C19 C06 C26".split()


def run(inp, out, workers, jobs, limit):
    ms = json.load(open(inp))
    random.Random(7).shuffle(ms)
    done = json.load(open(out)) if os.path.exists(out) else []
    have = {(m["file"], m["line"], m["what"]) for m in done}
    ms = [m for m in ms if (m["file"], m["line"], m["what"]) not in have and (m["file"] != "type_enum.py" or m["line"] > 150)][:limit]
    pool = Pool(workers, True)
    lock = threading.Lock()

    def checks(d, m):
        first = []
        for k, v in FIRST.items():
            if k in m["file"]:
                first += v.split()
        order = list(dict.fromkeys(first + ORDER))[:MOST]
        res = None
        bad = []
        for c in order:
            rc, o = sh("./check.py %s --tier quick --jobs %d" % (c, jobs), d + "/verif", 900, VERIF_REPO=d + "/repo")
            if rc == 1 and "VIOLATION property=" + c in o:
                res = c
                break
            if rc != 0:
                bad.append("%s rc=%d" % (c, rc))
        r = dict(file=m["file"], line=m["line"], what=m["what"], caught=res, odd=bad)
        if res is None:
            r["src"] = m["src"]
        with lock:
            done.append(r)
            json.dump(done, open(out, "w"), indent=1)
            print("%-34s %4d %-50s %s %s" % (m["file"], m["line"], m["what"][:50], res or "SURVIVED", " ".join(bad)), flush=True)
    try:
        with cf.ThreadPoolExecutor(workers) as ex:
            list(ex.map(lambda m: pool.use(m, checks), ms))
    finally:
        pool.close()


if __name__ == "__main__":
    if sys.argv[1] == "gen":
        gen(sys.argv[2], sys.argv[3:])
    else:
        run(sys.argv[2], sys.argv[3], *[int(x) for x in (sys.argv[4:7] + ["4", "2", "100000"][len(sys.argv) - 4:])])
