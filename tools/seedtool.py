#!/usr/bin/env python3
"""Planted-bug helper.  make(...) writes seeded/<id>; `verify ID...` confirms each in a
scratch copy of /repo (demo passes clean / fails patched, stable tests pass); `catch ID...`
runs the property's quick check against the patched copy (SYMX_REPO)."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
ENV = dict(os.environ, PATH="/opt/vp/no-npm:/opt/venv/bin:/usr/local/bin:/usr/bin:/bin", PYTHONDONTWRITEBYTECODE="1",
           PYTHONHASHSEED="0", MPLBACKEND="agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
HEAD = '''import os, sys, warnings
warnings.simplefilter("ignore")
sys.path.insert(0, os.getcwd())
'''


def make(id, prop, edits, needs, breaks, demo):
    d = os.path.join(S, id)
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="seed-")
    files = sorted({e[0] for e in edits})
    diff = ""
    for f in files:
        src = open("/repo/" + f).read()
        new = src
        for ff, a, b in edits:
            if ff == f:
                if new.count(a) != 1:
                    raise SystemExit("%s: %d occurrences of %r in %s" % (id, new.count(a), a, f))
                new = new.replace(a, b)
        for side, text in (("a", src), ("b", new)):
            p = os.path.join(tmp, side, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "w").write(text)
        r = subprocess.run(["diff", "-u", "a/" + f, "b/" + f], cwd=tmp, capture_output=True, text=True)
        diff += "".join(l if not l.startswith(("--- ", "+++ ")) else l.split("\t")[0] + "\n" for l in r.stdout.splitlines(True))
    shutil.rmtree(tmp)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.py"), "w").write(HEAD + demo.lstrip("\n"))
    open(os.path.join(d, "demo.sh"), "w").write(
        '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=agg PYTHONPATH="$PWD"\n'
        'exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)


def copy():
    t = tempfile.mkdtemp(prefix="seedcopy-")
    subprocess.check_call(["cp", "-a", "/repo", t + "/repo"])
    return t, t + "/repo"


def verify(id):
    d = os.path.join(S, id)
    t, r = copy()
    try:
        def demo():
            return subprocess.run(["bash", d + "/demo.sh"], cwd=r, env=ENV, capture_output=True, text=True, timeout=300)
        a = demo()
        subprocess.check_call(["git", "apply", d + "/patch.diff"], cwd=r)
        if any(f.endswith((".pyx",)) for f in open(d + "/patch.diff").read().split()):
            subprocess.run("rm -f hatchet/cython_modules/*.c hatchet/cython_modules/libs/*.so; rm -rf build; "
                           "/opt/venv/bin/python setup.py build_ext --inplace", shell=True, cwd=r, env=ENV, capture_output=True)
        b = demo()
        subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "no:xdist", "--timeout=60",
                            "--continue-on-collection-errors", "-o", "junit_family=xunit2", "--basetemp=" + t + "/bt",
                            "--junitxml=" + t + "/m.xml"], cwd=r, env=dict(ENV, PYTHONPATH=r), capture_output=True, text=True)
        subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", t + "/o.json", "junit:" + t + "/*.xml"], capture_output=True)
        base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        o = json.load(open(t + "/o.json"))
        miss = [x for x in base if x not in o["passed"] and "rt_test" not in x]
        ok = a.returncode == 0 and b.returncode != 0 and not miss
        print("%-4s %s clean=%d patched=%d tests-broken=%d %s" % ("ok" if ok else "BAD", id, a.returncode, b.returncode, len(miss), miss[:3]))
        if a.returncode:
            print(a.stdout[-800:], a.stderr[-1500:])
        elif not ok:
            print(b.stdout[-300:], b.stderr[-300:])
        return ok
    finally:
        shutil.rmtree(t)


def catch(id, tier="quick"):
    d = os.path.join(S, id)
    prop = json.load(open(d + "/meta.json"))["property"]
    t, r = copy()
    try:
        subprocess.check_call(["git", "apply", d + "/patch.diff"], cwd=r)
        p = subprocess.run([V + "/bin/check", prop, tier], env=dict(os.environ, SYMX_REPO=r), capture_output=True, text=True)
        v = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION")]
        print("%s %-22s %s exit=%d %s" % ("CAUGHT" if p.returncode == 1 and v else "MISSED", id, prop, p.returncode, v[:1]))
        if p.returncode == 2:
            print(p.stdout[-600:], p.stderr[-600:])
    finally:
        shutil.rmtree(t)
    sys.stdout.flush()


if __name__ == "__main__":
    cmd, ids = sys.argv[1], sys.argv[2:] or sorted(os.listdir(S))
    if cmd == "verify":
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(4) as ex:
            list(ex.map(verify, ids))
    else:
        for i in ids:
            catch(i)
