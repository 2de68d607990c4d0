#!/usr/bin/env python3
"""Runs harness cases concretely against the unmodified package (started by symex.runner)."""
import importlib
import json
import logging
import os
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
sys.pycache_prefix = os.path.join(tempfile.gettempdir(), "no-such-pycache-%d" % os.getpid())
sys.path[:0] = [REPO]
sys.path.append(HERE)
sys.setrecursionlimit(20000)


def run_one(mod, case, param, values, tier, snap):
    from symex.ctx import ConcreteCtx, Missing
    snap.restore()
    ctx = ConcreteCtx(values, tier)
    ctx.fresh = snap.restore
    exc = missing = None
    try:
        mod.CASES[case].fn(ctx, param)
    except Missing as e:
        missing = str(e)
    except Exception as e:
        exc = "%s: %s" % (type(e).__name__, str(e)[:300])
    return dict(failed=ctx.failed, exc=exc, missing=missing, obs=ctx.obs)


def load():
    import atlas_doc_parser.api                                  # noqa: F401
    assert os.path.realpath(atlas_doc_parser.api.__file__).startswith(os.path.realpath(REPO)), \
        atlas_doc_parser.api.__file__
    from symex.state import Snapshot
    return Snapshot({"atlas_doc_parser"})


def main():
    logging.lastResort = None
    logging.root.manager.emittedNoHandlerWarning = True
    out = sys.stdout
    sys.stdout = sys.stderr
    snap = load()
    for line in sys.stdin:
        module, case, param, values, tier = json.loads(line)
        mod = importlib.import_module(module)
        out.write(json.dumps(run_one(mod, case, param, values, tier, snap)) + "\n")
        out.flush()


if __name__ == "__main__":
    if len(sys.argv) > 1:                                        # replay_worker.py FILE
        d = json.load(open(sys.argv[1]))
        r = run_one(importlib.import_module(d["module"]), d["case"], d["param"], d["values"], d["tier"], load())
        print(json.dumps(r, indent=1))
        sys.exit(1 if r["failed"] or r["exc"] else 0)
    main()
