#!/opt/veriftools/pyvenv/bin/python3
"""Decides one property: ``check.py C07 [--tier quick|thorough] [--jobs N] [--strict] [--case NAME]``.

Exit 0: the property held on everything explored.  Exit 1: a counterexample was found and
reproduced on the real code (line ``VIOLATION property=<id> replay=<path>``).  Exit 2: the
machinery itself failed.
"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import queue
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
os.chdir(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

QUICK_BUDGET, THOROUGH_BUDGET = 600, 820        # seconds for all cases of one check
QUICK_JOB, THOROUGH_JOB = 200, 700              # seconds for one case


def known_findings():
    """{property: [(case, key)]} of recorded, unrepaired findings"""
    out = {}
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("finding: "):
                f = dict(w.split("=", 1) for w in line[9:].split() if "=" in w and w.split("=")[0] in
                         ("property", "case", "key"))
                out.setdefault(f["property"], []).append((f["case"], f["key"], line[9:].strip()))
    return out


def work(jobs, again, results, deadline, tier, job_cap, first_cap):
    """explores cases; one that takes longer than ``first_cap`` is put off until every other case has had its turn"""
    from symex import runner
    while True:
        try:
            i, module, case, param = jobs.get(timeout=0.2)
            cap = first_cap
        except queue.Empty:
            try:
                i, module, case, param = again.get(timeout=0.2)
                cap = job_cap
            except queue.Empty:
                break
        left = deadline - time.monotonic()
        try:
            if left < 1:
                results.put((i, dict(module=module, case=case, param=param, skipped=True)))
                continue
            r = runner.explore(module, case, param, tier, min(left, cap))
            if cap < job_cap and any("time budget" in x for x in r["incomplete"]) and not r.get("violations"):
                again.put((i, module, case, param))
                r["put_off"] = True
        except BaseException as e:
            r = dict(module=module, case=case, param=param, crash="%s\n%s" % (e, traceback.format_exc(limit=-5)))
        results.put((i, r))
    if runner._worker is not None:
        runner._worker.close()
    results.put((None, None))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--strict", action="store_true", help="exit 2 unless every case was exhausted")
    ap.add_argument("--case", help="only this case (evidence is not rewritten)")
    ap.add_argument("-v", action="store_true")
    o = ap.parse_args()
    t0 = time.monotonic()
    pid, tier = o.property, o.tier
    seed = int(os.environ.get("VERIF_SEED") or 1)
    budget, job_cap = (QUICK_BUDGET, QUICK_JOB) if tier == "quick" else (THOROUGH_BUDGET, THOROUGH_JOB)
    ev_path = os.path.join(HERE, "evidence", pid + ".json")
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    if not o.case and os.path.exists(ev_path):
        os.remove(ev_path)

    from symex import runner
    runner.setup()
    module = "harness." + pid.lower()  # SELFTEST checks the executor itself
    mod = importlib.import_module(module)
    jobs = []
    for name, c in mod.CASES.items():
        if o.case and name != o.case.partition(":")[0]:
            continue
        for k, p in enumerate(c.quick if tier == "quick" else c.thorough):
            if o.case and ":" in o.case and str(k) != o.case.partition(":")[2]:
                continue
            jobs.append(((k + 1) / (1 + len(c.quick if tier == "quick" else c.thorough)), -c.cost, module, name, p))
    # the cases of all functions take turns
    jobs.sort(key=lambda j: j[:2])
    jobs = [j[1:] for j in jobs]
    first_cap = min(job_cap, max(8, 0.6 * budget * o.jobs / (len(jobs) or 1)))
    ctx = mp.get_context("fork")
    jq, again, rq = ctx.Queue(), ctx.Queue(), ctx.Queue()
    for i, (_, m, n, p) in enumerate(jobs):
        jq.put((i, m, n, p))
    time.sleep(0.05)
    deadline = t0 + budget
    procs = [ctx.Process(target=work, args=(jq, again, rq, deadline, tier, job_cap, first_cap), daemon=True)
             for _ in range(min(o.jobs, len(jobs)))]
    for p in procs:
        p.start()
    known = known_findings().get(pid, [])
    results, violations, findings, running = {}, [], {}, len(procs)
    while running:
        try:
            i, r = rq.get(timeout=5)
        except queue.Empty:
            if all(not p.is_alive() for p in procs):
                break
            if time.monotonic() > deadline + 45:
                break
            continue
        if i is None:
            running -= 1
            continue
        if i in results and r.get("skipped"):
            continue
        results[i] = r
        if o.v and "stats" in r:
            print("%-28s %-40s %6.1fs paths %d queries %d%s" % (
                r["case"], json.dumps(r["param"])[:40], r["wall"], r["stats"]["paths"], r["stats"]["queries"],
                " INCOMPLETE %s" % r["incomplete"] if r["incomplete"] else ""), flush=True)
        for v in r.get("violations", ()):
            kf = [k for k in known if k[0] == r["case"] and k[1] == v["key"]]
            if kf:
                findings.setdefault(kf[0][2], []).append(v)
            else:
                violations.append((r, v))
        if violations:
            break
    for p in procs:
        if p.is_alive():
            p.terminate()
    for p in procs:
        p.join(5)

    replay = None
    for n, (r, v) in enumerate(violations[:3]):
        path = os.path.join(HERE, "evidence", "replay_%s_%d.json" % (pid, n))
        json.dump(dict(property=pid, module=r["module"], case=r["case"], param=r["param"], tier=tier,
                       values=v["values"], key=v["key"], detail=v["detail"],
                       how="/opt/venv/bin/python replay_worker.py <this file>"), open(path, "w"), indent=1)
        replay = replay or path

    done = [r for r in results.values() if "stats" in r]
    problems, undecided = [], []
    for i, (_, m, n, p) in enumerate(jobs):
        r = results.get(i)
        label = "%s %s" % (n, json.dumps(p)[:80])
        if violations and r is None:
            continue
        if r is None:
            problems.append(label + ": no result (worker died)")
        elif "crash" in r:
            problems.append(label + ": " + r["crash"])
        elif r.get("skipped"):
            undecided.append(label + ": not started within the time budget")
        else:
            problems.extend(label + ": " + e for e in r["errors"])
            undecided.extend(label + ": " + e for e in r["incomplete"])

    def total(k):
        return sum(r["stats"][k] for r in done)
    bounds = getattr(mod, "BOUNDS", "")
    cov = dict(
        states=total("paths"), transitions=total("decisions"),
        traces_validated_against_impl=sum(r["replayed"] for r in done),
        samples=[s for r in done for s in r["samples"][:1]][:6],
        solver_queries=total("queries"), solver_seconds=round(total("solver_s"), 2),
        assertions=total("checks"), assertions_decided_without_solver=total("checks_folded"),
        infeasible_paths=total("infeasible"),
        cases=len(jobs), cases_exhausted=sum(1 for r in done if not r["incomplete"] and not r["errors"]),
        exhaustive=not undecided and not problems and not violations,
        per_case=[dict(case=r["case"], param=r["param"], paths=r["stats"]["paths"],
                       queries=r["stats"]["queries"], solver_s=round(r["stats"]["solver_s"], 2),
                       wall_s=round(r["wall"], 2)) for r in done],
        functions_encoded=sorted({f for r in done for f in r["functions"]}),
        bounds=bounds, undecided=undecided[:40], errors=[p[:600] for p in problems[:20]],
        explanation="states = feasible symbolic paths explored to the end; transitions = branch points on symbolic "
                    "values decided by z3; traces_validated_against_impl = path models and counterexamples "
                    "re-executed on the uninstrumented package with equal observations")
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=cov,
              assumptions=ASSUMPTIONS + list(getattr(mod, "ASSUMPTIONS", ())),
              wall_s=round(time.monotonic() - t0, 2), violations=len(violations))
    if not o.case:
        json.dump(ev, open(ev_path, "w"), indent=1)
    for text, vs in findings.items():
        print("KNOWN-FINDING: %s" % text)
    print("%s %s: %d cases, %d paths, %d branch decisions, %d queries (%.1f s solver), %d replays, %.1f s" % (
        pid, tier, len(jobs), cov["states"], cov["transitions"], cov["solver_queries"], cov["solver_seconds"],
        cov["traces_validated_against_impl"], ev["wall_s"]))
    if violations:
        for r, v in violations[:3]:
            print("  %s %s: %s %s with %s" % (r["case"], json.dumps(r["param"])[:100], v["key"], v["detail"][:200],
                                               json.dumps(v["values"])[:600]))
        print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(replay, HERE)))
        return 1
    for u in undecided[:500 if o.v else 10]:
        print("UNDECIDED " + u[:300])
    for p in problems[:500 if o.v else 10]:
        print("ERROR " + p[:1500])
    if o.strict and (problems or undecided):
        return 2
    if problems and 2 * sum(1 for r in done if not r["errors"]) <= len(jobs):
        return 2
    if cov["states"] == 0:
        print("ERROR nothing was explored")
        return 2
    return 0


ASSUMPTIONS = [
    "CPython semantics of the instrumented operations are as modelled in symex/ (every path model is re-executed on "
    "the uninstrumented package and must give identical observations)",
    "characters are Unicode code points; U+E000..U+E0FF are reserved for harness sentinels and not quantified over",
    "documents larger than the stated bounds are outside the claim",
]

if __name__ == "__main__":
    sys.exit(main())
