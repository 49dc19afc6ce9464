"""Parallel depth-first exploration of all paths of a set of harnesses."""
import multiprocessing
import gc
import io
import os
import signal
import sys
import time
import traceback
import contextlib
import builtins
from multiprocessing import get_context
from multiprocessing.connection import wait

import z3

from . import patches
from .core import (AssumeFailed, Ctx, Diverged, EngineStop, Inconclusive, PathDone,
                   Unsupported)
from .inputs import CheckFailed, Conc, Sym


class H:
    """One harness: fn(inp) with fixed `params`, explored over all its inputs."""

    def __init__(self, name, fn, labels, bounds, params=None, validate=20, encodes=()):
        self.name = name
        self.fn = fn
        self.labels = list(labels)
        self.bounds = bounds
        self.params = params or {}
        self.validate = validate
        self.encodes = list(encodes)


@contextlib.contextmanager
def quiet():
    o = sys.stdout
    sys.stdout = io.StringIO()
    try:
        yield
    finally:
        sys.stdout = o


def reset_globals():
    """State the code under test keeps between calls, put back so that each path
    starts alike (the harness for isolation looks at it on purpose)."""
    for f in RESETS:
        f()


RESETS = []


PATH_CPU_S = 60     # a path that computes for longer counts as not ending


class TooLong(BaseException):
    """The code under test goes on and on."""


@contextlib.contextmanager
def time_limit():
    """TooLong after PATH_CPU_S seconds of processor time."""
    def expired(*a):
        raise TooLong()
    old = signal.signal(signal.SIGPROF, expired)
    signal.setitimer(signal.ITIMER_PROF, PATH_CPU_S)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)


def run_concrete(h, values, knowns=()):
    """(label or None, info) of one concrete, unpatched run."""
    Ctx.current = None
    patches.off()
    reset_globals()
    inp = Conc(values, h.params)
    inp.knowns = set(knowns)
    try:
        with quiet(), time_limit():
            h.fn(inp)
    except TooLong:
        return "no-end", "still running after %d s of processor time" % PATH_CPU_S
    except CheckFailed as e:
        return e.label, e.info
    except PathDone:
        return None, ""
    except AssumeFailed:
        return None, "assume"
    except RecursionError as e:
        return "exception:RecursionError", ""
    except Exception as e:
        return "exception:%s" % type(e).__name__, "%s | %s" % (
            e, traceback.format_exc(limit=-4)[-900:])
    return None, ""


def run_path(h, prefix, knowns, want_model=False):
    c = Ctx(prefix)
    inp = Sym(c, h.params, knowns)
    res = {"status": "ok", "violations": [], "model": None, "err": None}
    reset_globals()
    Ctx.current = c
    patches.on()
    try:
        with quiet(), time_limit():
            h.fn(inp)
        c.end = True
    except PathDone:
        pass
    except TooLong:
        try:
            inp.violations.append({"label": "no-end", "info": "still running after %d s of processor time" % PATH_CPU_S,
                                   "inputs": inp.model_inputs(), "addr": inp.addr_order()})
        except EngineStop as e2:
            res["status"] = "error"
            res["err"] = repr(e2)
    except AssumeFailed:
        res["status"] = "infeasible"
    except Unsupported as e:
        res["status"] = "unsupported"
        res["err"] = "%s\n%s" % (e, traceback.format_exc(limit=-12))
    except (Inconclusive, Diverged) as e:
        res["status"] = type(e).__name__.lower()
        res["err"] = "%s: %s" % (type(e).__name__, e)
    except EngineStop as e:
        res["status"] = "error"
        res["err"] = repr(e)
    except Exception as e:
        # unexpected exception of the code under test: a candidate violation
        tb = traceback.format_exc(limit=-8)
        try:
            if c.pos >= len(c.prefix) or True:
                mi = inp.model_inputs()
                inp.violations.append({
                    "label": "exception:%s" % type(e).__name__,
                    "info": "%s | %s" % (str(e)[:200], tb[-1500:]),
                    "inputs": mi, "addr": inp.addr_order()})
        except EngineStop as e2:
            res["status"] = "error"
            res["err"] = repr(e2)
    finally:
        patches.off()
        Ctx.current = None
    if inp.violations and inp.violations[-1]["inputs"] is None:
        # path condition unsatisfiable: not a violation
        inp.violations = [v for v in inp.violations if v["inputs"] is not None]
        if not inp.violations:
            res["status"] = "infeasible"
    try:
        if want_model and res["status"] == "ok" and not inp.violations:
            res["model"] = inp.model_inputs()
    except EngineStop:
        pass
    for t in c.tokens:
        builtins.__dict__.pop(t, None)
    res["violations"] = inp.violations
    res["witness"] = inp.witness
    res["known_hits"] = inp.known_hits
    res["log"] = inp.log
    res["pending"] = c.pending
    res["queries"] = c.queries
    res["solver_time"] = c.solver_time
    res["checks"] = c.n_checks
    res["trivial"] = c.n_trivial
    res["decisions"] = len(c.trail) - len(c.prefix) if len(c.trail) >= len(c.prefix) else 0
    return res


def _worker(conn, hs, knowns, seed):
    multiprocessing.current_process()._config["daemon"] = False     # replayed code may start processes
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    n = 0
    while True:
        msg = conn.recv()
        if msg is None:
            break
        hi, stack, slice_s = msg
        h = hs[hi]
        t0 = time.time()
        out = {"hi": hi, "paths": 0, "infeasible": 0, "queries": 0, "solver_time": 0.0,
               "checks": 0, "trivial": 0, "decisions": 0, "violations": [], "witness": set(),
               "known_hits": set(), "errors": [], "validated": 0, "samples": [],
               "labels": {}, "vfail": []}
        while stack and time.time() - t0 < slice_s:
            prefix = stack.pop()
            n += 1
            h.count = getattr(h, "count", 0) + 1
            want = (h.validate and (h.count % h.validate == 1 or h.validate == 1))
            r = run_path(h, prefix, knowns, want)
            stack.extend(r["pending"])
            if r["status"] == "infeasible":
                out["infeasible"] += 1
            elif r["status"] == "ok":
                out["paths"] += 1
            else:
                out["errors"].append((r["status"], r["err"]))
            for k in ("queries", "solver_time", "checks", "trivial", "decisions"):
                out[k] += r[k]
            out["witness"] |= r["witness"]
            out["known_hits"] |= r["known_hits"]
            for l in r["log"]:
                out["labels"][l] = out["labels"].get(l, 0) + 1
            out["violations"].extend(r["violations"])
            if r["model"] is not None:
                lab, info = run_concrete(h, r["model"], knowns)
                if info != "assume":
                    out["validated"] += 1
                if lab is not None:
                    out["vfail"].append({"label": lab, "info": str(info)[:1500],
                                         "inputs": r["model"], "addr": None,
                                         "from": "validation"})
                if len(out["samples"]) < 2:
                    out["samples"].append({"harness": h.name, "inputs": r["model"]})
            if out["violations"] or out["vfail"] or len(out["errors"]) > 3:
                break
            if n % 200 == 0:
                gc.collect()
        out["stack"] = stack
        out["cpu"] = time.time() - t0
        conn.send(out)
    conn.close()
    os._exit(0)


class Result:
    def __init__(self, hs):
        self.per = [dict(paths=0, infeasible=0, queries=0, solver_time=0.0, checks=0,
                         trivial=0, decisions=0, witness=set(), labels={}, errors=[],
                         validated=0, violations=[], known_hits=set(), samples=[],
                         complete=True, wall=0.0, cpu=0.0)
                    for _ in hs]
        self.timeout = False


def explore(hs, budget_s, knowns=(), seed=1, workers=None, on_violation=None, slice0=0.4):
    """Explore all harnesses.  on_violation(h, v) -> 'stop' to end everything,
    'mute' to stop exploring this harness, 'go' to go on."""
    mp = get_context("fork")
    workers = workers or min(8, os.cpu_count() or 1)
    res = Result(hs)
    t0 = time.time()
    gc.collect()
    gc.freeze()
    conns = []
    procs = []
    for _ in range(workers):
        a, b = mp.Pipe()
        p = mp.Process(target=_worker, args=(b, hs, knowns, seed), daemon=True)
        p.start()
        b.close()
        conns.append(a)
        procs.append(p)
    pool = [(i, [()]) for i in range(len(hs))][::-1]
    muted = set()
    idle = list(conns)
    busy = {}
    stop = False
    try:
        while (pool or busy) and not stop:
            if time.time() - t0 > budget_s:
                res.timeout = True
                break
            while idle and pool:
                hi, stack = pool.pop()
                if hi in muted:
                    continue
                # spread: hand out half of a large stack when others are idle
                if len(stack) > 1 and len(idle) > 1:
                    n = max(1, len(stack) // max(2, min(len(idle), len(stack))))
                    part, rest = stack[:n], stack[n:]
                    pool.append((hi, rest))
                    stack = part
                cn = idle.pop()
                sl = slice0 if len(pool) < workers else 2.0
                cn.send((hi, stack, sl))
                busy[cn] = hi
            if not busy:
                continue
            for cn in wait(list(busy), timeout=1.0):
                try:
                    out = cn.recv()
                except EOFError:
                    hi = busy.pop(cn)
                    res.per[hi]["errors"].append(("crash", "a worker process died"))
                    res.per[hi]["complete"] = False
                    muted.add(hi)
                    continue
                hi = busy.pop(cn)
                idle.append(cn)
                p = res.per[hi]
                for k in ("paths", "infeasible", "queries", "solver_time", "checks",
                          "trivial", "decisions", "validated", "cpu"):
                    p[k] += out[k]
                p["witness"] |= out["witness"]
                p["known_hits"] |= out["known_hits"]
                for l, c in out["labels"].items():
                    p["labels"][l] = p["labels"].get(l, 0) + c
                p["wall"] = time.time() - t0
                if len(p["samples"]) < 3:
                    p["samples"].extend(out["samples"])
                for e in out["errors"]:
                    if len(p["errors"]) < 10:
                        p["errors"].append(e)
                    p["complete"] = False
                if len(p["errors"]) >= 10:
                    muted.add(hi)
                if out["stack"] and hi not in muted:
                    pool.append((hi, out["stack"]))
                for v in out["violations"] + out["vfail"]:
                    if hi in muted and not v.get("from"):
                        continue
                    a = on_violation(hs[hi], v) if on_violation else "mute"
                    p["violations"].append(v)
                    if a == "stop":
                        stop = True
                        break
                    if a == "mute":
                        muted.add(hi)
                        p["complete"] = False
                if stop:
                    break
        if pool and not stop:
            for hi, stack in pool:
                if hi not in muted:
                    res.per[hi]["complete"] = False
        for cn, hi in busy.items():
            res.per[hi]["complete"] = False
    finally:
        for p in procs:
            p.terminate()
        for p in procs:
            p.join(5)
            if p.is_alive():
                p.kill()
    res.wall = time.time() - t0
    return res
