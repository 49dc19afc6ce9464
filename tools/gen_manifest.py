"""Writes /verif/MANIFEST.json from the harness modules present."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = json.load(open(os.path.join(V, "tools", "not_applicable.json")))
checks = []
na = []
for p in props:
    i = p["id"]
    path = os.path.join(V, "harness", i.lower() + ".py")
    if os.path.exists(path) and i not in NA:
        src = open(path).read()
        m = re.search(r'^LEVEL_NOTE = \((.*?)\)$', src, re.S | re.M)
        note = eval("(" + m.group(1) + ")") if m else ""
        checks.append({
            "property": i, "quick_cmd": "bin/check %s quick" % i,
            "thorough_cmd": "bin/check %s thorough" % i,
            "technique": "dynamic symbolic execution of the real Python code with z3 (bounded, all paths)",
            "level": "model_checking",
            "level_note": note or "Bounded: every path of the real code for every input within the bounds in the evidence file; "
                          "each assertion decided by z3 over all values left symbolic on the path. Reals stand for floats. "
                          "Trusted: symx engine and proxies, pandas on object columns, z3."})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
           "notes": "See DESIGN.md. No hooks in /repo: the engine works on the unmodified tree."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
