"""Explores one harness case symbolically and replays every path model against the real code."""
import importlib
import json
import logging
import os
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
VENV_SITE = "/opt/venv/lib/python3.12/site-packages"
VENV_PY = "/opt/venv/bin/python"

_ready = None


def setup():
    """install the instrumenting importer in this process and import the code under test"""
    global _ready
    if _ready:
        return _ready
    sys.dont_write_bytecode = True
    sys.setrecursionlimit(20000)
    if VENV_SITE not in sys.path:
        sys.path.append(VENV_SITE)
    from . import rewrite
    rewrite.install({"atlas_doc_parser": (REPO, True), "harness": (HERE, False)})
    # library modules first, natively
    import copy, dataclasses, logging, typing, enum  # noqa: F401
    import func_args.api  # noqa: F401
    logging.lastResort = None
    logging.root.manager.emittedNoHandlerWarning = True
    from .state import Snapshot
    importlib.import_module("atlas_doc_parser.api")
    snap = Snapshot({"atlas_doc_parser"})
    _ready = (rewrite, snap)
    return _ready


class Worker:
    """persistent process running harness cases concretely on the unmodified code"""

    def __init__(self):
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", TZ="XXX8",
                   PYTHONIOENCODING="utf-8", VERIF_REPO=REPO)
        self.p = subprocess.Popen([VENV_PY, "-B", os.path.join(HERE, "replay_worker.py")],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, cwd=HERE)

    def replay(self, module, case, param, values, tier):
        self.p.stdin.write((json.dumps([module, case, param, values, tier]) + "\n").encode())
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("replay worker died")
        return json.loads(line)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()


_worker = None


def worker():
    global _worker
    if _worker is None:
        _worker = Worker()
    return _worker


def make_ctx(eng, tier):
    from . import engine as _e
    from . import terms as t
    from . import values as v
    from .ctx import BaseCtx, domain

    class SymCtx(BaseCtx):
        symbolic = True

        def __init__(self):
            self.inputs = []       # (name, kind, term or terms)
            self.obs = []
            self.tier = tier
            self.nchecks = 0
            self.nchars = 0

        def chars(self, name, n, dom=None):
            d = domain(dom)
            ch = []
            for i in range(n):
                self.nchars += 1
                ch.append(eng.var("%s[%d]" % (name, i), d, 97 + (self.nchars - 1) % 26))
            self.inputs.append((name, "str", tuple(ch)))
            return v.mkstr(tuple(ch)) if n else ""

        def key(self, name, n, dom=None, differs=()):
            s = self.chars(name, n, dom)
            for d in differs:
                self.assume(v.mkbool(t.c_not(v.cond_of(s == d))))
            return v.SymKey(s.ch)

        def int(self, name, lo, hi):
            x = eng.var(name, t.ISet.rng(lo, hi), max(lo, min(hi, 1)))
            self.inputs.append((name, "int", x))
            return v.SymInt(x)

        def choose(self, name, n):
            if n <= 1:
                return 0
            x = eng.var(name, t.ISet.rng(0, n - 1))
            self.inputs.append((name, "int", x))
            lo, hi = 0, n - 1
            while lo < hi:
                mid = (lo + hi) // 2
                if eng.decide(t.c_in(x, t.ISet.rng(0, mid))):
                    hi = mid
                else:
                    lo = mid + 1
            return lo

        def assume(self, c):
            eng.assume(v.cond_of(c))

        def check(self, c, key, detail=""):
            self.nchecks += 1
            c = v.cond_of(c)
            m = eng.check(c)
            if m is not None:
                eng.model = m
                raise _e.CheckFailed(key)

        def observe(self, label, value):
            self.obs.append((label, freeze(value)))

        def eq(self, a, b):
            if v.is_symstr(a) or v.is_symstr(b):
                if not (isinstance(a, str) and isinstance(b, str)):
                    return False
                return v.mkbool(v.eq_cond(v.chars_of(a), v.chars_of(b)))
            return a == b

        def all(self, cs):
            return v.mkbool(t.c_and([v.cond_of(c) for c in cs]))

        def any(self, cs):
            return v.mkbool(t.c_or([v.cond_of(c) for c in cs]))

        def isin(self, c, dom):
            return v.mkbool(t.c_in(v.chars_of(c)[0], domain(dom)))

        def no(self, c):
            return v.mkbool(t.c_not(v.cond_of(c)))

        def values(self, m):
            out = {}
            for name, kind, x in self.inputs:
                if kind == "str":
                    out[name] = "".join(chr(m[c.name]) for c in x)
                else:
                    out[name] = m[x.name]
            return out
    return SymCtx()


def freeze(x):
    """the containers as they are now"""
    if isinstance(x, dict):
        return {k: freeze(y) for k, y in dict.items(x)}
    if type(x) in (list, tuple):
        return type(x)(freeze(y) for y in x)
    return x


def explore(module, case, param, tier, budget_s, max_bad=3):
    """returns a JSON-able summary of the exploration of one case"""
    rewrite, snap = setup()
    from . import engine as _e
    from . import lib_functools
    from .ctx import plain
    mod = importlib.import_module(module)
    fn = mod.CASES[case].fn
    t0 = time.monotonic()
    eng = _e.Engine(deadline=t0 + budget_s)
    rewrite.SEEN.clear()
    w = worker()
    res = dict(module=module, case=case, param=param, violations=[], errors=[], samples=[],
               replayed=0, harness_checks=0, completed_paths=0)
    known_keys = {}

    def replay(ctx, m, expect, why):
        vals = ctx.values(m)
        r = w.replay(module, case, param, vals, tier)
        res["replayed"] += 1
        bad = list(r["failed"])
        if r["exc"] is not None:
            bad.append(["exception", r["exc"]])
        for key, detail in bad:
            if known_keys.setdefault(key, 0) < 2:
                known_keys[key] += 1
                res["violations"].append(dict(key=key, detail=detail, values=vals, why=why))
        if bad:
            return True
        if r["missing"] is not None:
            res["errors"].append("replay diverged (%s) on %s: %r" % (r["missing"], why, vals))
            return False
        if expect is not None:
            got = r["obs"]
            if got != expect:
                d = [(a, b) for a, b in zip(expect, got) if a != b][:1] or [(len(expect), len(got))]
                res["errors"].append("encoding mismatch on %s: inputs %r: %r" % (why, vals, d))
                return False
        return True

    first = True
    while True:
        eng.begin_path()
        snap.restore()
        lib_functools.reset()
        ctx = make_ctx(eng, tier)

        def fresh():
            snap.restore()
            lib_functools.reset()
        ctx.fresh = fresh
        _e.ENG = eng
        stop = False
        try:
            fn(ctx, param)
            outcome = "ok"
        except _e.PathEnd:
            outcome = "infeasible"
        except _e.CheckFailed as e:
            outcome = "failed:" + e.msg
        except _e.StopJob:
            outcome, stop = "stop", True
        except _e.Unsupported as e:
            outcome = "unsupported"
            msg = "unsupported: %s" % (e.args,)
            if msg not in eng.incomplete:
                eng.incomplete.append(msg)
        except _e.EngineError as e:
            outcome, stop = "error", True
            res["errors"].append("engine: %s\n%s" % (e.args, traceback.format_exc(limit=-6)))
        except RecursionError:
            outcome = "exception:RecursionError"
        except Exception as e:
            outcome = "exception:%s" % type(e).__name__
            last_tb = traceback.format_exc(limit=-4)
        finally:
            _e.ENG = None
        eng.stats["paths"] += outcome != "infeasible"
        eng.stats["infeasible"] += outcome == "infeasible"
        res["harness_checks"] += ctx.nchecks
        if outcome == "ok":
            res["completed_paths"] += ctx.nchecks > 0
            m = eng.model
            expect = [[l, plain(x, m)] for l, x in ctx.obs]
            expect = json.loads(json.dumps(expect))
            replay(ctx, m, expect, "path model")
            if len(res["samples"]) < 2:
                res["samples"].append(dict(case=case, param=param, inputs=ctx.values(m), checks=ctx.nchecks))
        elif outcome.startswith("failed:") or outcome.startswith("exception"):
            n = len(res["violations"])
            if replay(ctx, eng.model, None, outcome) and len(res["violations"]) == n and \
                    not known_keys:
                res["errors"].append("counterexample (%s) did not reproduce on the real code: %r %s" % (
                    outcome, ctx.values(eng.model), last_tb if outcome.startswith("exc") else ""))
        elif outcome in ("unsupported",) or stop:
            try:
                replay(ctx, eng.model, None, outcome)
            except Exception:
                pass
        if stop or len(res["violations"]) >= max_bad or len(res["errors"]) >= 8:
            break
        if not eng.backtrack():
            break
    if res["completed_paths"] == 0 and not res["violations"]:
        res["errors"].append("vacuous: no path of %s reached a check" % case)
    res["stats"] = eng.stats
    res["incomplete"] = eng.incomplete[:10]
    res["wall"] = time.monotonic() - t0
    res["functions"] = sorted({"%s:%s" % rewrite.RECORD[i] for i in rewrite.SEEN})
    from . import terms
    terms.reset_tables()
    return res
