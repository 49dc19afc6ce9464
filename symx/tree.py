"""Locate / build the tree under test.  The Python sources are imported straight
from /repo.  The Cython extensions are git-ignored build products; when they are
missing or older than the .pyx (by content), they are rebuilt in a scratch copy."""
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile
import atexit

REPO = os.environ.get("SYMX_REPO", "/repo")


def _want(root):
    files = []
    for d, _, fs in os.walk(os.path.join(root, "hatchet")):
        for f in fs:
            if f.endswith((".pyx", ".pxd")):
                files.append(os.path.relpath(os.path.join(d, f), root))
    files = sorted(files + []) + ["setup.py", "pyproject.toml"]
    files = sorted(files, key=lambda s: s.encode())
    lines = []
    for f in files:
        with open(os.path.join(root, f), "rb") as fh:
            lines.append("%s  %s" % (hashlib.sha256(fh.read()).hexdigest(), f))
    return lines


def fresh(root):
    stamp = os.path.join(root, "build", ".ext-inputs.sha256")
    libs = os.path.join(root, "hatchet", "cython_modules", "libs")
    try:
        with open(stamp) as f:
            have = [l for l in f.read().splitlines() if "  " in l]
    except OSError:
        return False
    so = [f for f in os.listdir(libs) if f.endswith(".so")] if os.path.isdir(libs) else []
    if not (any(f.startswith("reader_modules.") for f in so)
            and any(f.startswith("graphframe_modules.") for f in so)):
        return False
    return sorted(have) == sorted(_want(root))


def prepare():
    """Return the directory to import hatchet from."""
    pre = os.environ.get("SYMX_ROOT")
    if pre:
        return pre
    if fresh(REPO):
        return REPO
    base = tempfile.mkdtemp(prefix="symx-tree-")
    atexit.register(_cleanup, base, os.getpid())
    dst = os.path.join(base, "repo")
    shutil.copytree(REPO, dst, ignore=shutil.ignore_patterns(
        ".git", "docs", "__pycache__", "build", "*.so", "node_modules", "data"))
    cm = os.path.join(dst, "hatchet", "cython_modules")
    for f in os.listdir(cm):
        if f.endswith(".c"):
            os.unlink(os.path.join(cm, f))
    env = dict(os.environ)
    env["PATH"] = "/opt/vp/no-npm:/opt/venv/bin:/usr/local/bin:/usr/bin:/bin"
    env.pop("PYTHONPATH", None)
    r = subprocess.run([sys.executable, "setup.py", "build_ext", "--inplace"], cwd=dst,
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=500)
    libs = os.path.join(cm, "libs")
    ok = os.path.isdir(libs) and any(f.endswith(".so") for f in os.listdir(libs))
    if r.returncode != 0 or not ok:
        sys.stderr.write(r.stdout.decode(errors="replace")[-3000:])
        raise SystemExit(3)
    return dst


def _cleanup(base, pid):
    if os.getpid() == pid:
        shutil.rmtree(base, ignore_errors=True)
