"""Assembles DESIGN.md (run with /opt/venv/bin/python from /verif; needs /repo)."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
os.chdir(V)
from symx import boot, tree
boot.boot(tree.prepare(), True)
out = open("tools/design_head.md").read()
out += "## 4. Bounds\n\nOne line per harness (all inputs within it are decided). **t** = only in the thorough tier or deeper there.\n"
for l in open("properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    if not os.path.exists("harness/%s.py" % i.lower()):
        out += "\n**%s %s**\n- not applicable: %s\n" % (i, p["title"], json.load(open("tools/not_applicable.json"))[i])
        continue
    m = importlib.import_module("harness." + i.lower())
    out += "\n**%s %s**\n" % (i, p["title"])
    q = {h.name: h.bounds for h in m.harnesses("quick")}
    for h in m.harnesses("thorough"):
        if q.get(h.name) == h.bounds:
            out += "- %s: %s\n" % (h.name, h.bounds)
        elif h.name in q:
            out += "- %s: %s; **t** %s\n" % (h.name, q[h.name], h.bounds)
        else:
            out += "- **t** %s: %s\n" % (h.name, h.bounds)
out += "\n## 5. Planted bugs\n\n" + open("tools/catches.txt").read()
open("DESIGN.md", "w").write(out)
print(len(out))
