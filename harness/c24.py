"""C24: HPCToolkit metric placement and exclusive subtraction are exact."""
import contextlib
import glob
import multiprocessing
import multiprocessing.sharedctypes
import os
import struct
import tempfile

from .graphs import *
from .c23 import check_lists
from .c26 import encoded
from symx import mpstub
from symx.core import Unsupported

PROPERTY = "C24"
LEVEL_NOTE = ("Bounded: every path of the reader for all databases within the bounds in the evidence file, all metric values. "
              "The subtraction kernel is encoded from the current .pyx source; np.fromfile, shared memory and the process pool "
              "are replaced while running symbolically; counterexamples are replayed on real database files, processes and the "
              "compiled extension. Trusted: these stand-ins, symx, z3.")
ASSUMPTIONS = ["the compiled extension does what its .pyx source says (counterexamples are replayed on the extension)",
               "np.fromfile returns the big-endian doubles of the file from the current position",
               "worker processes share nothing but the shared array, which they see as one memory"]


# ------------------------------------------------------------------ environment
class Shared:
    """sharedctypes.RawArray('d', n) holding symbolic values."""

    def __init__(self, n):
        self.a = np.empty(n, dtype=object)
        self.a[:] = 0.0

    def __len__(self):
        return len(self.a)


class Pool(mpstub.Pool):
    """Tasks run one after another, in an order that is an input."""

    def __init__(self, processes=None, initializer=None, initargs=(), *a, **k):
        if initializer:
            initializer(*initargs)

    def _order(self, n):
        left, out = list(range(n)), []
        while left:
            out.append(left.pop(self.world.inp.choice("sched%d" % self.world.n, list(range(len(left))))))
            self.world.n += 1
        return out

    def map(self, f, xs, chunksize=None):
        xs = list(xs)
        res = {i: self._call(f, (xs[i],)) for i in self._order(len(xs))}
        return [res[i] for i in range(len(xs))]

    def starmap(self, f, xs, chunksize=None):
        return self.map(lambda x: f(*x), xs)


@contextlib.contextmanager
def environment(inp, content):
    """content: file name -> list of values (row-major) after the header."""
    if not inp.symbolic:
        yield
        return
    of, ob, op, orr = np.fromfile, np.frombuffer, multiprocessing.Pool, multiprocessing.sharedctypes.RawArray
    o2 = multiprocessing.RawArray

    def fromfile(file, dtype=float, count=-1, sep="", offset=0, **k):
        name = file if isinstance(file, (str, os.PathLike)) else getattr(file, "name", None)
        vals = content.get(os.path.basename(str(name)))
        if vals is None:
            return of(file, dtype, count, sep, offset, **k)
        if sep or np.dtype(dtype) != np.dtype(">f8"):
            raise Unsupported("np.fromfile with dtype %r" % (dtype,))
        pos = (0 if name is file else file.tell()) + offset
        if pos % 8 or pos < 32:
            raise Unsupported("np.fromfile at byte %d" % pos)
        k0 = (pos - 32) // 8
        r = vals[k0:] if count < 0 else vals[k0:k0 + count]
        if name is not file:
            file.seek(pos + 8 * len(r))
        a = np.empty(len(r), dtype=object)
        a[:] = r
        return a

    def frombuffer(buf, dtype=float, count=-1, offset=0, **k):
        if isinstance(buf, Shared):
            if np.dtype(dtype) != np.dtype(float):
                raise Unsupported("np.frombuffer with dtype %r" % (dtype,))
            a = buf.a[offset // 8:]
            return a if count < 0 else a[:count]
        return ob(buf, dtype, count, offset, **k)

    def raw(typecode, size):
        if typecode == "d" and isinstance(size, (int, np.integer)):
            return Shared(size)
        raise Unsupported("RawArray(%r, ...)" % (typecode,))
    w = mpstub.World(inp)
    Pool.world = w
    np.fromfile, np.frombuffer = fromfile, frombuffer
    multiprocessing.Pool = lambda *a, **k: Pool(*a, **k)
    multiprocessing.sharedctypes.RawArray = multiprocessing.RawArray = raw
    try:
        with encoded(inp):
            yield
    finally:
        np.fromfile, np.frombuffer, multiprocessing.Pool = of, ob, op
        multiprocessing.sharedctypes.RawArray, multiprocessing.RawArray = orr, o2


# ------------------------------------------------------------------ databases
FILES = {"1": "/src/main.c", "2": "/src/util/util.c", "3": "loop.c"}
PROCS = {"10": "main", "11": "work", "12": "leaf", "13": ""}
MODS = {"20": "/bin/app", "21": "/lib/lib.so"}


class El:
    def __init__(self, tag, nid, line, f=None, n=None, lm=None):
        self.tag, self.nid, self.line, self.f, self.n, self.lm = tag, nid, line, f, n, lm
        self.kids = []
        self.parent = None

    def xml(self):
        at = 'i="%d" s="99" l="%d"' % (self.nid, self.line)
        for k, v in (("f", self.f), ("n", self.n), ("lm", self.lm)):
            if v is not None:
                at += ' %s="%s"' % (k, v)
        return "<%s %s><M n=\"2\" v=\"1\"/>%s</%s>" % (self.tag, at, "".join(k.xml() for k in self.kids), self.tag)

    def hidden(self):
        return self.tag == "C" or (self.tag == "Pr" and PROCS[self.n] == "")

    def encl(self):
        """The element whose node encloses this one."""
        p = self.parent
        while p is not None and p.hidden():
            p = p.parent
        return p

    def file(self):
        e = self
        while e.f is None:
            e = e.parent
        return FILES[e.f]

    def all(self):
        return [self] + [x for k in self.kids for x in k.all()]

    def frame(self):
        if self.tag in ("PF", "Pr"):
            nm = PROCS[self.n]
            if self.parent is not None and self.parent.line != 0:
                nm = "%d:%s" % (self.parent.line, nm)
            return {"type": "function", "name": nm}
        return {"type": "loop" if self.tag == "L" else "statement", "file": self.file(), "line": self.line}

    def name(self):
        if self.tag in ("PF", "Pr"):
            return self.frame()["name"]
        return ("Loop@" if self.tag == "L" else "") + os.path.basename(self.file()) + ":" + str(self.line)


KIDS = {"PF": ["S", "C", "L", "Pr", "Pr0"], "L": ["S", "C", "L", "Pr0"], "Pr": ["S", "C"], "Pr0": ["S", "L"], "C": ["PF"], "S": []}


def elements(inp, n, tags, roots):
    """Any element tree (within KIDS and tags) of n elements, in document order."""
    els, kinds, rs = [], [], []
    for i in range(n):
        opts = []
        if i == 0:
            opts = [(None, "PF")]
        else:
            if len(rs) < roots:
                opts.append((None, "PF"))
            j = i - 1
            chain = []
            while j is not None:
                chain.append(j)
                j = els.index(els[j].parent) if els[j].parent is not None else None
            for j in chain:
                opts += [(j, t) for t in KIDS[kinds[j]] if t in tags or t == "PF"]
        inp.assume(bool(opts))
        j, t = inp.choice("el%d" % i, opts)
        line = [0, 1, 3, 12, 5, 9, 4][i % 7] if t != "S" else 30 + i
        f = [None, "1", "2", "3"][1 + i % 3]
        e = El(t.rstrip("0"), 0, line, f if t in ("PF", "Pr", "L", "Pr0") else None,
               {"PF": ["10", "11", "12"][i % 3], "Pr": "12", "Pr0": "13"}.get(t), ["20", "21"][i % 2] if t in ("PF", "Pr", "Pr0") else None)
        if j is None:
            rs.append(e)
        else:
            e.parent = els[j]
            els[j].kids.append(e)
        els.append(e)
        kinds.append(t)
    # a callsite leads to procedures
    inp.assume(all(e.kids for e in els if e.tag == "C"))
    return els, rs


def ids(inp, els, how):
    n = len(els)
    k = inp.choice("ids", how)
    order = {"order": list(range(1, n + 1)), "reversed": list(range(n, 0, -1)),
             "gaps": [2 + i + (i >= n // 2) for i in range(n)]}[k]
    for e, i in zip(els, order):
        e.nid = i
    return n + 2 if k == "gaps" else n


LAYOUTS = {
    "serial": [(0, 0)], "ranks": [(0, 0), (1, 0)], "threads": [(0, 0), (0, 1)],
    "both": [(0, 0), (0, 1), (1, 0), (1, 1)], "gpu": [(0, 0), (0, 500)], "gpus": [(0, 0), (0, 1), (0, 500), (0, 501)],
    "ranks3": [(0, 0), (1, 0), (2, 0)], "uneven": [(0, 0), (0, 1), (1, 0)], "uneven2": [(0, 0), (1, 0), (1, 1)], "sparse": [(1, 0), (3, 0)],
    "gapthread": [(0, 0), (0, 2)], "uneven3": [(0, 0), (0, 1), (0, 2), (1, 0)], "ungpu": [(0, 0), (0, 500), (1, 0)],
}


def write(d, rs, num, files, mets, order, concrete):
    table = lambda tag, el, m: "<%s>%s</%s>" % (tag, "".join('<%s i="%s" n="%s"/>' % (el, k, v) for k, v in m), tag)
    text = '<?xml version="1.0"?><HPCToolkitExperiment version="2.0"><Header n="app"/><SecCallPathProfile i="0" n="app"><SecHeader>' + \
        table("MetricDBTable", "MetricDB", [(i, mets[i]) for i in order]) + table("LoadModuleTable", "LoadModule", MODS.items()) + \
        table("FileTable", "File", FILES.items()) + table("ProcedureTable", "Procedure", PROCS.items()) + \
        "</SecHeader><SecCallPathProfileData>" + "".join(r.xml() for r in rs) + "</SecCallPathProfileData></SecCallPathProfile></HPCToolkitExperiment>"
    with open(os.path.join(d, "experiment.xml"), "w") as f:
        f.write(text)
    for (fn, vals) in files.items():
        with open(os.path.join(d, fn), "wb") as f:
            f.write(b"HPCPROF-metricdb__" + b"00.10" + b"b" + struct.pack(">ii", num, len(mets)))
            f.write(struct.pack(">%dd" % len(vals), *(vals if concrete else [float("nan")] * len(vals))))


def database(inp):
    p = inp.params
    from hatchet import GraphFrame as GF
    els, rs = elements(inp, p["n"], p["tags"], p.get("roots", 1))
    num = ids(inp, els, p["ids"])
    layout = LAYOUTS[inp.choice("layout", p["layouts"])]
    mets = inp.choice("mets", p["mets"])
    order = list(range(len(mets)))
    if p.get("rev"):
        order = order[::-1] if inp.flag("revmets") else order
    val = {(q, i, m): inp.real("v%d_%d_%d_%d" % (q + (i, m))) for q in layout for i in range(1, num + 1) for m in range(len(mets))}
    fn = {q: "1.app-%06d-%03d-a8c0027%d-%d-0.metric-db" % (q[0], q[1], q[0], 16044 + q[0]) for q in layout}
    content = {fn[q]: [val[q, i, m] for i in range(1, num + 1) for m in range(len(mets))] for q in layout}
    with tempfile.TemporaryDirectory() as d:
        write(d, rs, num, content, mets, order, not inp.symbolic)
        with environment(inp, content):
            gf = GF.from_hpctoolkit(d)
    # ---- the nodes
    shown = [e for e in els if not e.hidden()]
    node_of = {}

    def go(es, nodes):
        inp.check("nodes", len(es) == len(nodes), "%d nodes for %d elements" % (len(nodes), len(es)))
        for e, x in zip(es, nodes):
            inp.check("frames", x.frame.attrs == e.frame(), "element %d is %r, not %r" % (e.nid, x.frame.attrs, e.frame()))
            node_of[e.nid] = x
            go([k for k in shown if k.encl() is e], list(x.children))
    go(rs, list(gf.graph.roots))
    inp.check("nodes", len(all_nodes(gf.graph)) == len(shown))
    check_links(inp, gf.graph, "links")
    # ---- the rows
    df = gf.dataframe
    threads = len({q[1] for q in layout}) > 1
    index = ["node", "rank", "thread"] if threads else ["node", "rank"]
    cols = [{"CPUTIME (usec) (E)": "time", "CPUTIME (usec) (I)": "time (inc)", "CPUTIME (sec) (E)": "time",
             "CPUTIME (sec) (I)": "time (inc)"}.get(m, m) for m in mets]
    inp.check("rows", list(df.index.names) == index, "index %r" % (list(df.index.names),))
    inp.check("rows", sorted(df.columns) == sorted(cols + ["nid", "name", "type", "file", "line", "module"]), "columns %r" % (list(df.columns),))
    rows = rows_of(df)
    inp.check("rows", len(rows) == len(shown) * len(layout), "%d rows for %d nodes of %d files" % (len(rows), len(shown), len(layout)))
    excl = [c for c in cols if "(inc)" not in c and "(I)" not in c]
    for e in shown:
        for q in layout:
            key = q if threads else q[:1]
            j = [j for j, (nd, ex) in enumerate(rows) if nd is node_of[e.nid] and tuple(ex) == key]
            inp.check("rows", len(j) == 1, "%d rows for element %d of file %r" % (len(j), e.nid, q))
            row = df.iloc[j[0]]
            inp.check("labels", row["nid"] == e.nid and row["name"] == e.name() and row["type"] == e.tag and row["line"] == e.line
                      and row["file"] == e.file(), "element %d: %r" % (e.nid, dict(row)))
            inp.check("labels", row["module"] == MODS[e.lm] if e.lm else row["module"] is None or pd.isna(row["module"]))
            for m, c in enumerate(cols):
                want = val[q, e.nid, m]
                if c in excl:
                    for s in els:
                        if s.tag == "S" and s.encl() is e:
                            want = want - val[q, s.nid, m]
                inp.check("exclusive" if c in excl else "inclusive", inp.eqv(row[c], want),
                          "%s of element %d in file %r: %r, not %r" % (c, e.nid, q, row[c], want))
    check_lists(inp, gf, excl, [c for c in cols if c not in excl])


def kernel(inp):
    p = inp.params
    import hatchet.readers.hpctoolkit_reader as r
    import hatchet.cython_modules.libs.reader_modules as rm
    stride = inp.choice("stride", list(range(1, p["stride"] + 1)))
    num = inp.choice("num", list(range(0, p["num"] + 1)))
    nid, pnid = inp.choice("nid", list(range(1, stride + 1))), inp.choice("pnid", list(range(1, stride + 1)))
    extra = inp.choice("extra", [0, 1])
    n = num * stride + extra
    old = [inp.real("v%d" % i) for i in range(n)]
    a = np.empty(n, dtype=object if inp.symbolic else float)
    a[:] = old
    if p.get("view"):
        b = np.empty((n, 2), dtype=a.dtype)
        b[:, 1], b[:, 0] = a, 0.0
        a = b.T[1]
    with encoded(inp):
        getattr(r, "_crm", rm).subtract_exclusive_metric_vals(nid, pnid, a, num, stride)
    for i in range(n):
        want = old[i]
        if i < num * stride and i % stride == pnid - 1:
            want = old[i] - old[i - (pnid - 1) + (nid - 1)]
        inp.check("subtracted" if want is not old[i] else "others-kept", inp.eqv(a[i], want), "entry %d: %r, not %r" % (i, a[i], want))


def wide(inp):
    """Rows far into a long table, where narrower integers do not reach."""
    import hatchet.readers.hpctoolkit_reader as r
    import hatchet.cython_modules.libs.reader_modules as rm
    base = inp.choice("base", inp.params["bases"])
    far = inp.choice("far", ["nid", "pnid", "both", "stride"])
    num = inp.choice("num", [1, 2, 3])
    stride = 3
    nid, pnid = 2, 1
    if far == "stride":
        inp.assume(base < 2 ** 20)
        stride = base + 5
    else:
        nid, pnid = (nid + base if far != "pnid" else nid), (pnid + base if far != "nid" else pnid)
    n = max(nid, pnid) + num * stride + 4
    src = [nid - 1 + k * stride for k in range(num)]
    dst = [pnid - 1 + k * stride for k in range(num)]
    old = {i: inp.real("v%d" % j) for j, i in enumerate(src + dst)}
    if inp.symbolic:
        from symx.cyx import Sparse
        a = Sparse(n, old)
    else:
        import mmap
        # no memory is needed for the pages that are never touched
        mem = mmap.mmap(-1, 8 * n, flags=mmap.MAP_PRIVATE | mmap.MAP_ANONYMOUS | 0x4000)
        a = np.frombuffer(mem, dtype=np.float64)
        for i, v in old.items():
            a[i] = v
    with encoded(inp):
        getattr(r, "_crm", rm).subtract_exclusive_metric_vals(nid, pnid, a, num, stride)
    look = set(a.entries) if inp.symbolic else {j for i in list(old) for b in (0, 2 ** 15, 2 ** 16, 2 ** 31, 2 ** 32)
                                                for k in (-1, 0, 1) for j in (((i % b) if b else i) + k, i - b + k, n + i - 2 * b + k) if 0 <= j < n}
    for i in sorted(look):
        was = old.get(i, 0.0)
        want = was - old[src[dst.index(i)]] if i in dst else was
        inp.check("subtracted" if i in dst else "others-kept", inp.eqv(a[i], want), "entry %d: %r, not %r" % (i, a[i], want))


def harnesses(tier):
    q = tier == "quick"
    hs = []
    L = ["nodes", "frames", "links", "rows", "labels", "exclusive", "inclusive", "metric-lists"]
    USEC, SEC = ["CPUTIME (usec) (I)", "CPUTIME (usec) (E)"], ["CPUTIME (sec) (E)", "CPUTIME (sec) (I)"]
    FOUR = ["PAPI_TOT_CYC (I)", "CPUTIME (usec) (I)", "PAPI_TOT_CYC (E)", "CPUTIME (usec) (E)"]

    def add(name, bounds, validate=25, **kw):
        kw.setdefault("tags", ["S", "C", "L", "Pr", "Pr0"])
        kw.setdefault("ids", ["order"])
        kw.setdefault("layouts", ["serial"])
        kw.setdefault("mets", [USEC])
        hs.append(H(name, database, L, bounds, kw, validate=validate))
    add("shapes", "any element tree of %d elements (procedures, callsites, loops, inlined and unnamed procedures, statements), 1 file" % (5 if q else 6), n=5 if q else 6)
    add("ids", "element trees of 4 elements, node ids in any of 3 numberings (with unused ids), 2 ranks", n=4,
        ids=["order", "reversed", "gaps"], layouts=["ranks"])
    add("layouts", "trees of 3 elements (loops, statements), any of %d rank/thread layouts (uneven, sparse, GPU streams)" % len(LAYOUTS), n=3,
        tags=["S", "L"], layouts=list(LAYOUTS), validate=10)
    add("roots", "forests of 5 elements with up to 2 roots", n=5, roots=2, tags=["S", "L"], layouts=["threads"])
    add("metrics", "trees of 3 elements, several metric sets in any order of the table", n=3, tags=["S", "Pr0"], mets=[USEC, SEC, FOUR, USEC[:1], SEC[:1]],
        rev=True, layouts=["ranks"])
    hs.append(H("kernel", kernel, ["subtracted", "others-kept"], "any node and parent id, stride 1-%d, 0-%d executions" % ((4, 3) if q else (6, 4)),
                dict(stride=4 if q else 6, num=3 if q else 4)))
    hs.append(H("kernel-wide", wide, ["subtracted", "others-kept"], "node ids and strides around 2**15, 2**16, 2**31 and 2**32, 1-3 executions",
                {"bases": [2 ** 15 - 3, 2 ** 16 - 3, 2 ** 31 - 4] + ([2 ** 32 - 4] if not q else [])}, validate=10))
    hs.append(H("kernel-view", kernel, ["subtracted", "others-kept"], "a column of a 2-D array, any ids, stride 1-3, 0-3 executions",
                dict(stride=3, num=3, view=True)))
    if not q:
        add("shapes7", "any element tree of 7 elements without inlined procedures", n=7, tags=["S", "C", "L"])
        add("both", "any element tree of 4 elements, ranks and threads", n=4, layouts=["both", "uneven", "gpus"], ids=["order", "reversed"])
    return hs
