"""Regenerate MANIFEST.json from the checks present."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = {
    "plain": "runtime monitoring: real code (Python + compiled C++) driven by randomized hostile workloads, every result judged by an independent oracle",
    None: "runtime monitoring: real Python code driven by randomized workloads and injected faults, every observable effect judged by an independent oracle",
    "asan": "compiler sanitizers: AddressSanitizer + UndefinedBehaviorSanitizer + Eigen assertions and libstdc++ debug mode on the real extension under hostile arguments",
    "tsan": "ThreadSanitizer happens-before race detection on the real extension under threaded workloads with a completion oracle",
}
checks, na = [], []
for p in props:
    f = os.path.join(V, "checks", p["id"] + ".py")
    if not os.path.exists(f):
        na.append({"property": p["id"], "reason": "check not built yet"})
        continue
    d = {}
    for node in ast.parse(open(f).read()).body:
        if isinstance(node, ast.Assign):
            try:
                d[node.targets[0].id] = ast.literal_eval(node.value)
            except Exception:
                pass
    checks.append({
        "property": p["id"],
        "quick_cmd": f"python3 run_check.py {p['id']}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 run_check.py {p['id']}",
        "technique": d.get("TECHNIQUE", TECH[d.get("EXT", "plain")]),
        "level": d.get("LEVEL", "exploration"),
        "level_note": d["RULE"]})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -m vlib.build plain asan tsan",
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
