"""symx.run <PROPERTY>: decide one property; see DESIGN.md."""
import importlib
import json
import os
import re
import subprocess
import sys
import time

from . import boot, tree

VERIF = boot.VERIF


def load_known(pid):
    """Open findings of this property, from lines
    KNOWN-FINDING: property=<pid> id=<id> <what fails>"""
    out = []
    try:
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            for line in f:
                m = re.match(r"KNOWN-FINDING: property=(\S+) id=(\S+) (.*)", line.strip())
                if m and m.group(1) == pid:
                    out.append({"id": m.group(2), "what": "id=%s %s" % (m.group(2), m.group(3))})
    except FileNotFoundError:
        pass
    return out


def replay_cmd(root, path):
    env = dict(os.environ)
    env["SYMX_ROOT"] = root
    p = subprocess.run([sys.executable, "-m", "symx.replay", path], env=env, cwd=VERIF,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    return p.returncode, p.stdout.decode(errors="replace")


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = os.environ.get("SYMX_ONLY")
    t0 = time.time()
    root = tree.prepare()
    boot.boot(root, True)
    mod = importlib.import_module("harness.%s" % pid.lower())
    hs = mod.harnesses(tier)
    if only:
        hs = [h for h in hs if any(h.name.startswith(o) for o in only.split(","))]
    from .explore import explore
    from . import cover
    cover.start(root)
    knowns = load_known(pid)
    budget = float(os.environ.get("SYMX_BUDGET", getattr(mod, "BUDGET", {}).get(
        tier, 600 if tier == "quick" else 7200)))
    rdir = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(rdir, exist_ok=True)
    confirmed, unrepro = [], []
    per_h = {}

    def on_violation(h, v):
        n = per_h.setdefault(h.name, 0)
        per_h[h.name] += 1
        path = os.path.join(rdir, "%s-%s-%d.json" % (pid, h.name, n))
        with open(path, "w") as f:
            json.dump({"property": pid, "tier": tier, "harness": h.name,
                       "label": v["label"], "info": v["info"], "inputs": v["inputs"],
                       "addr": v["addr"]}, f, indent=1)
        rc, out = replay_cmd(root, path)
        if rc == 1:
            confirmed.append((h.name, v, path, out.strip().splitlines()[-1] if out.strip() else ""))
            return "stop" if not os.environ.get("SYMX_ALL") else "mute"
        unrepro.append((h.name, v, path, out))
        return "mute" if per_h[h.name] >= 4 else "go"

    res = explore(hs, budget, [k["id"] for k in knowns], seed, on_violation=on_violation)
    hits = set()
    missing, errors, incomplete = [], [], []
    for h, p in zip(hs, res.per):
        hits |= p["known_hits"]
        for l in h.labels:
            if l not in p["witness"]:
                missing.append("%s/%s" % (h.name, l))
        for e in p["errors"]:
            errors.append((h.name,) + tuple(e))
        if not p["complete"]:
            incomplete.append(h.name)
    code = 0
    if confirmed:
        code = 1
    elif errors or missing or incomplete or unrepro or res.timeout:
        code = 2
    ev = evidence(pid, tier, seed, mod, hs, res, confirmed, unrepro, missing, errors,
                  incomplete, hits, knowns, root, time.time() - t0)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")
    for k in knowns:
        if k["id"] in hits:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    for name, v, path, out in confirmed:
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  harness %s, check %s: %s" % (name, v["label"], out or v["info"]))
    if code == 2:
        for name, v, path, out in unrepro[:4]:
            print("UNREPRODUCED %s %s %s\n  %s\n  %s" % (name, v["label"], path, v["info"], out[-800:]))
        for e in errors[:6]:
            print("ERROR %s" % (e,))
        if missing:
            print("VACUOUS labels never reached: %s" % missing)
        if incomplete or res.timeout:
            print("INCONCLUSIVE incomplete exploration: %s" % incomplete)
    if os.environ.get("SYMX_VERBOSE"):
        for h, p in zip(hs, res.per):
            print("  %-20s paths %6d checks %7d queries %6d cpu %6.1fs solver %6.1fs %s" % (
                h.name, p["paths"], p["checks"], p["queries"], p["cpu"], p["solver_time"],
                "" if p["complete"] else "INCOMPLETE"))
    tot = {k: sum(p[k] for p in res.per) for k in ("paths", "queries", "checks", "validated")}
    print("%s %s: exit %d, %d paths, %d obligations, %d solver queries (%.1fs solver), "
          "%d paths replayed concretely, %.1fs" % (
              pid, tier, code, tot["paths"], tot["checks"], tot["queries"],
              sum(p["solver_time"] for p in res.per), tot["validated"], time.time() - t0))
    sys.stdout.flush()
    return code


def evidence(pid, tier, seed, mod, hs, res, confirmed, unrepro, missing, errors,
             incomplete, hits, knowns, root, wall):
    from . import cover
    hd = []
    samples = []
    for h, p in zip(hs, res.per):
        hd.append({"harness": h.name, "bounds": h.bounds, "paths": p["paths"],
                   "infeasible_prefixes": p["infeasible"], "obligations": p["checks"],
                   "obligations_trivially_true_after_simplification": p["trivial"],
                   "solver_queries": p["queries"],
                   "solver_time_s": round(p["solver_time"], 2),
                   "branch_decisions": p["decisions"], "cpu_s": round(p["cpu"], 1),
                   "paths_replayed_on_unpatched_code": p["validated"],
                   "obligations_by_label": p["labels"], "complete": p["complete"],
                   "reachability_witnessed": sorted(p["witness"])})
        samples.extend(p["samples"][:1])
    return {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": sum(p["paths"] for p in res.per),
            "transitions": sum(p["decisions"] for p in res.per),
            "traces_validated_against_impl": sum(p["validated"] for p in res.per),
            "samples": samples[:6],
            "exhaustive": not (incomplete or res.timeout),
            "explanation": "states = execution paths of the real code explored to the end; "
                           "transitions = branch decisions settled by the solver; every "
                           "obligation is a solver query path-condition /\\ not(property) "
                           "over all values left symbolic on that path.",
            "functions_encoded": cover.functions(),
            "harnesses": hd,
            "obligations": sum(p["checks"] for p in res.per),
            "solver_queries": sum(p["queries"] for p in res.per),
            "solver_time_s": round(sum(p["solver_time"] for p in res.per), 2),
            "solver": "z3 %s" % __import__("z3").get_version_string(),
            "source_root": root,
            "known_findings_hit": sorted(hits),
            "unreproduced_candidates": len(unrepro),
            "errors": [str(e)[:300] for e in errors][:5],
            "labels_not_reached": missing,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []) + [
            "metric values are mathematical reals (floating-point rounding, -0.0 and overflow are outside the claim)",
            "pandas/numpy/CPython behave on object columns of proxies as on float64 columns; "
            "a sample of the explored paths is replayed on float64 columns with unpatched code",
        ],
        "wall_s": round(wall, 2),
        "violations": len(confirmed),
    }


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc) if False else sys.exit(rc)
