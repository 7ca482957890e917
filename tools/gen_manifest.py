"""Writes MANIFEST.json from the checks present in checks/ (each module may define TECHNIQUE and NOTE)."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def const(path, name):
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == name:
            return ast.literal_eval(n.value)


checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    f = os.path.join(V, "checks", p.lower() + ".py")
    if not os.path.exists(f):
        na.append({"property": p, "reason": "not built yet"})
        continue
    checks.append({"property": p, "quick_cmd": f"./run {p} quick", "thorough_cmd": f"./run {p} thorough",
                   "technique": const(f, "TECHNIQUE"), "level": "model_checking", "level_note": const(f, "NOTE")})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "Each check compiles/imports /repo's working tree itself; no hooks in /repo. Bounds and counts are in the evidence files."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed", [c["property"] for c in checks if not c["technique"] or not c["level_note"]])
