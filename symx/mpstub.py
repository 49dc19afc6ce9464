"""Stand-in for worker processes: runs them one after another, in an order that is
an input (so a solver variable in symbolic runs), with the value semantics of real
processes -- whatever crosses a queue is a pickled copy."""
import contextlib
import io
import pickle

import multiprocess

from . import proxies as P
from .core import Unsupported

_KEEP = (P.SymNum, P.SymBool, P.SymStr, P.SymName)


def transfer(obj):
    """obj as it arrives in another process: a pickled copy (symbolic leaves kept)."""
    kept = []

    class Pk(pickle.Pickler):
        def persistent_id(self, o):
            if isinstance(o, _KEEP):
                kept.append(o)
                return len(kept) - 1
            return None

    class Un(pickle.Unpickler):
        def persistent_load(self, pid):
            return kept[pid]
    b = io.BytesIO()
    Pk(b, protocol=4).dump(obj)
    b.seek(0)
    return Un(b).load()


class World:
    def __init__(self, inp, ends=False):
        self.inp = inp
        self.which = inp.choice("sched", [0, -1]) if ends else None
        self.ends = ends              # the processes end in the order they were started, or in reverse
        self.pending = []
        self.n = 0

    def pick(self):
        """One of the started, unfinished processes makes progress (to its end)."""
        if self.ends:
            i = self.which
        else:
            i = self.inp.choice("sched%d" % self.n, list(range(len(self.pending))))
        self.n += 1
        p = self.pending.pop(i)
        p.run_now()

    def need(self, cond, what):
        self.inp.check("workers-progress", cond, what)


class Process:
    world = None

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        self.target, self.args, self.kwargs = target, args, kwargs or {}
        self.done = False
        self.exitcode = None
        self.pid = None

    def start(self):
        self.pid = self.world.n + 1
        self.world.pending.append(self)

    def run_now(self):
        self.done = True
        args = [a if isinstance(a, Queue) or callable(a) else transfer(a) for a in self.args]
        self.target(*args, **self.kwargs)
        self.exitcode = 0

    def join(self, timeout=None):
        while not self.done:
            self.world.pick()

    def is_alive(self):
        return not self.done

    def terminate(self):
        pass

    close = kill = terminate


class Queue:
    world = None

    def __init__(self, *a, **k):
        self.items = []

    def put(self, obj, *a, **k):
        self.items.append(transfer(obj))

    def get(self, *a, **k):
        while not self.items:
            self.world.need(self.world.pending, "waiting on a queue nobody will write to")
            self.world.pick()
        return self.items.pop(0)

    def empty(self):
        return not self.items

    def close(self):
        pass

    join_thread = cancel_join_thread = task_done = close

    def qsize(self):
        return len(self.items)

    put_nowait = put
    get_nowait = get


class AsyncResult:
    def __init__(self, v):
        self.v = v

    def get(self, timeout=None):
        return self.v

    def wait(self, timeout=None):
        pass

    def ready(self):
        return True


class Pool:
    world = None

    def __init__(self, processes=None, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def _call(self, f, args, kw=None):
        return transfer(f(*[a if callable(a) else transfer(a) for a in args], **(kw or {})))

    def apply(self, f, args=(), kwds=None):
        return self._call(f, args, kwds)

    def apply_async(self, f, args=(), kwds=None, callback=None, **k):
        r = self._call(f, args, kwds)
        if callback:
            callback(r)
        return AsyncResult(r)

    def map(self, f, xs, chunksize=None):
        return [self._call(f, (x,)) for x in xs]

    def starmap(self, f, xs, chunksize=None):
        return [self._call(f, x) for x in xs]

    def map_async(self, f, xs, **k):
        return AsyncResult(self.map(f, xs))

    def starmap_async(self, f, xs, **k):
        return AsyncResult(self.starmap(f, xs))

    def imap(self, f, xs, chunksize=1):
        return iter(self.map(f, xs))

    def imap_unordered(self, f, xs, chunksize=1):
        rs = self.map(f, xs)
        while rs:
            i = (self.world.which if self.world.ends
                 else self.world.inp.choice("sched%d" % self.world.n, list(range(len(rs)))))
            self.world.n += 1
            yield rs.pop(i)

    def close(self):
        pass

    join = terminate = close


class _Ctx:
    """multiprocess.get_context(...)"""

    Process, Queue, SimpleQueue, JoinableQueue, Pool = Process, Queue, Queue, Queue, Pool

    @staticmethod
    def cpu_count():
        return 4


def _unsup(name):
    def f(*a, **k):
        raise Unsupported("multiprocess.%s in a worker model" % name)
    return f


@contextlib.contextmanager
def workers(inp, ends=False):
    """Replace multiprocess' processes by the model while the body runs."""
    w = World(inp, ends)
    new = {"Process": Process, "Queue": Queue, "SimpleQueue": Queue, "JoinableQueue": Queue, "Pool": Pool,
           "get_context": lambda *a, **k: _Ctx, "Pipe": _unsup("Pipe"), "Manager": _unsup("Manager"),
           "Value": _unsup("Value"), "Array": _unsup("Array")}
    old = {k: getattr(multiprocess, k) for k in new if hasattr(multiprocess, k)}
    for k, v in new.items():
        if isinstance(v, type):
            v.world = w
        setattr(multiprocess, k, v)
    import hatchet.graphframe as hg
    saved = {k: hg.__dict__[k] for k in new if hg.__dict__.get(k) is old.get(k) and k in hg.__dict__}
    for k in saved:
        hg.__dict__[k] = new[k]
    try:
        yield w
    finally:
        for k, v in old.items():
            setattr(multiprocess, k, v)
        for k, v in saved.items():
            hg.__dict__[k] = v
