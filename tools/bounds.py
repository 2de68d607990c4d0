"""BOUNDS, ASSUMPTIONS and the cases of a harness, read from its source"""
import ast, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def read(i):
    t = ast.parse(open(H + "/harness/%s.py" % i.lower()).read())
    out = dict(BOUNDS="", ASSUMPTIONS=(), cases=[], doc=ast.get_docstring(t))
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("BOUNDS", "ASSUMPTIONS"):
            out[n.targets[0].id] = ast.literal_eval(n.value)
        if isinstance(n, ast.FunctionDef) and any(isinstance(d, ast.Call) and getattr(d.func, "id", "") == "case" for d in n.decorator_list):
            out["cases"].append((n.name, ast.get_docstring(n) or ""))
    return out


if __name__ == "__main__":
    import json
    for l in open(H + "/properties.jsonl"):
        p = json.loads(l)["id"]
        r = read(p)
        print(p, r["doc"], "\n  B:", r["BOUNDS"], "\n  A:", r["ASSUMPTIONS"])
        for n, d in r["cases"]:
            print("   ", n, ":", d)
