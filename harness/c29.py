"""C29: the profiler keeps every profile that was recorded and every file that is there."""
import cProfile
import contextlib
import io
import os
import pstats
import shutil
import sys
import tempfile

import hatchet.util.profiler as hp
from hatchet.util.profiler import Profiler
from .common import *

PROPERTY = "C29"


def work_f():
    pass


def work_g():
    work_f()


WORK = {"f": (work_f, {"work_f": 1}), "g": (work_g, {"work_f": 1, "work_g": 1})}
DEFAULT = "hatchet-profile.pstats"


class Clock:
    """Stands for the module's datetime class; the second changes between the calls only where the input says so."""
    sec = 0

    def now(self, tz=None):
        import datetime
        return datetime.datetime(2024, 1, 1, 10, 0, Clock.sec)

    utcnow = today = now


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="prof-")
    cwd = os.getcwd()
    Clock.sec = 0
    os.chdir(d)
    try:
        with clock_in(hp, Clock()):
            yield d
    finally:
        mon = sys.monitoring
        if mon.get_tool(mon.PROFILER_ID) is not None:        # a path that ends while the profiler runs
            mon.set_events(mon.PROFILER_ID, 0)
            mon.free_tool_id(mon.PROFILER_ID)
        os.chdir(cwd)
        shutil.rmtree(d)


def read(f):
    with open(f, "rb") as fh:
        return fh.read()


def files():
    return {f: read(f) for f in os.listdir(".")}


def counts(stats):
    """calls of the work functions in a table of cProfile statistics"""
    out = {}
    for (file, line, name), row in stats.items():
        if os.path.basename(file) == "c29.py" and name in ("work_f", "work_g"):
            out[name] = out.get(name, 0) + row[1]
    return out


def make_added(name, n):
    prf = cProfile.Profile()
    prf.enable()
    for _ in range(n):
        work_g()
    prf.disable()
    prf.dump_stats(name)
    return {"work_f": n, "work_g": n}


def plus(a, *bs):
    a = dict(a)
    for b in bs:
        for k, v in b.items():
            a[k] = a.get(k, 0) + v
    return a


def history(inp):
    with scratch():
        _history(inp)


def _history(inp):
    p = inp.params
    for f in p.get("there", []):
        if inp.flag("there_" + f):
            with open(f, "wb") as fh:
                fh.write(b"keep " + f.encode())
    adds = {}
    if p.get("adds"):
        adds = {"x1.pstats": make_added("x1.pstats", 1), "x2.pstats": make_added("x2.pstats", 3)}
        for f, data in (("bad.pstats", b"\x00not a profile"), ("empty.pstats", b"")):
            with open(f, "wb") as fh:
                fh.write(data)
    # all inputs first, so that the profiler does not run through the solver
    plan, running, any_ = [], False, False
    for k in range(p["steps"]):
        op = inp.choice("op%d" % k, p["ops"])
        second = name = given = None
        if op in ("stop", "write", "str"):
            inp.assume(any_)
        if k and op in ("stop", "write"):
            second = inp.flag("second%d" % k)
        if op == "write":
            name = inp.choice("name%d" % k, p.get("names", [DEFAULT]))
            if name == DEFAULT and not inp.flag("named%d" % k):
                name = None
            given = inp.choice("adds%d" % k, [(), ("x1.pstats",), ("x2.pstats", "x1.pstats"), ("x1.pstats", "bad.pstats"),
                                              ("empty.pstats",), ("missing.pstats",)]) if adds else ()
        if op == "start":
            running = any_ = True
        elif op == "stop":
            running = False
        elif op == "reset" and not running:
            any_ = False
        plan.append((op, second, name, given))
    other = None
    if p.get("other"):      # another profiler has run before
        other = Profiler()
        other.start()
        work_f()
        work_f()
        other.stop()
        os.remove(DEFAULT)
    prf = Profiler()
    active, have = False, {}
    log = []
    for op, second, name, given in plan:
        log.append(op)
        if second:
            Clock.sec += 1
        before = files()
        wrote, requested, extra, error = False, None, [], None
        out = io.StringIO()
        if op in WORK:
            fn, calls = WORK[op]
            fn()
            if active:
                have = plus(have, calls)
        elif op == "start":
            error = "start" if active else None
            try:
                with contextlib.redirect_stdout(out):
                    prf.start()
                inp.check("refused", error is None, "start while running, %s" % log)
            except Exception as e:
                inp.check("refused", error is not None, "start refused with %r, %s" % (e, log))
            active = True
        elif op == "reset":
            error = "reset" if active else None
            try:
                with contextlib.redirect_stdout(out):
                    prf.reset()
                inp.check("refused", error is None, "reset while running, %s" % log)
                have = {}
            except Exception as e:
                inp.check("refused", error is not None, "reset refused with %r, %s" % (e, log))
        elif op == "str":
            text = str(prf)
            for w in ("work_f", "work_g"):
                shown = [l for l in text.splitlines() if l.rstrip().endswith("(%s)" % w)]
                inp.check("printed", len(shown) == (1 if have.get(w) else 0), "%s: %r" % (log, text))
                if shown and have.get(w):
                    inp.check("printed", int(shown[0].split()[0].split("/")[0]) == have[w], "%s: %s" % (log, shown[0]))
        elif op == "stop":
            prf.stop()
            active, wrote, requested = False, True, DEFAULT
        else:
            requested = name or DEFAULT
            args = [name] if name else []
            extra = [adds[a] for a in given if a in adds]
            if len(extra) < len(given):
                error = "adds"
            kw = {"add_pstats_files": list(given)} if given else {}
            try:
                with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
                    prf.write_to_file(*args, **kw)
                inp.check("bad-added", error is None, "%s: %s was added" % (log, given))
                wrote = True
            except Exception as e:
                inp.check("bad-added", error is not None, "%s: %r for %s" % (log, e, given))
                if "bad.pstats" in given:
                    inp.check("bad-added", isinstance(e, ValueError), "%r" % e)
            if given:
                inp.check("kept-files", kw["add_pstats_files"] == list(given), "the given list changed")
        after = files()
        changed = [f for f in before if after.get(f) != before[f]]
        inp.check("kept-files", not changed, "%s changed %s" % (log, changed))
        new = [f for f in after if f not in before]
        if not wrote:
            inp.check("one-file", not new, "%s: new files %s" % (log, new))
            continue
        inp.check("one-file", len(new) == 1, "%s: new files %s" % (log, new))
        if len(new) != 1:
            continue
        if requested not in before:
            inp.check("name", new[0] == requested, "%s: %s is free, but %s written" % (log, requested, new[0]))
        else:
            stem = requested[:-len(".pstats")] if requested.endswith(".pstats") else requested
            inp.check("name", new[0].startswith(stem) and new[0].endswith(".pstats"), "%s: %s for %s" % (log, new[0], requested))
        want = plus(have, *([] if op == "stop" else extra))
        with contextlib.redirect_stdout(out):
            got = counts(pstats.Stats(new[0]).stats)
        inp.check("content", got == {k: v for k, v in want.items() if v}, "%s: calls %s, not %s" % (log, got, want))
    if other is not None:
        if active:
            prf.stop()
        shown = [l.split()[0] for l in str(other).splitlines() if l.rstrip().endswith(("(work_f)", "(work_g)"))]
        inp.check("printed", shown == ["2"], "%s: another profiler shows %s" % (log, shown))


def harnesses(tier):
    q = tier == "quick"
    hs = []
    L = ["kept-files", "one-file", "name", "content", "refused"]
    stamps = [DEFAULT, "hatchet-profile_100000.pstats"]
    k = 4 if q else 5
    hs.append(H("runs", history, L, "%d calls of start, stop, reset and the profiled functions, the clock in the same or the next second "
                "between them, the default file and a file with the current time in its name there or not" % k,
                dict(steps=k, ops=["start", "stop", "reset", "f"], there=stamps), validate=20))
    k = 4 if q else 5
    hs.append(H("reading", history, L + ["printed"], "%d calls that also print and write (to the default name) while it runs and after" % k,
                dict(steps=k, ops=["start", "stop", "g", "str", "write"]), validate=20))
    k = 4 if q else 5
    hs.append(H("names", history, L[:4], "start, then %d writes with given names, equal names in the same second, files there or not" % (k - 1),
                dict(steps=k, ops=["start", "write"], names=[DEFAULT, "a.pstats", "b"], there=["a.pstats", "a.pstats_100000.pstats"]),
                validate=20))
    hs.append(H("two", history, L + ["printed"], "%d calls of start, stop, reset, printing and the profiled functions after another profiler has run, "
                "which is printed at the end" % k, dict(steps=k, ops=["start", "stop", "reset", "g", "str"], other=True), validate=20))
    k = 3 if q else 4
    hs.append(H("added", history, L[:4] + ["bad-added"], "%d calls of start, profiled functions and writes that add one or two profile files, "
                "or one that is no profile, empty or missing" % k, dict(steps=k, ops=["start", "g", "write"], adds=True), validate=20))
    return hs


ASSUMPTIONS = ["the module's datetime class is replaced by a clock that the inputs move; profiles, statistics and files are real, in a scratch folder"]
