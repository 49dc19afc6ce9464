"""C26: the membership kernel marks exactly the missing rows."""
import contextlib

from .graphs import *
from .c11 import make_gf, key_of_node, same_key
from symx import cyx

PROPERTY = "C26"
LEVEL_NOTE = ("Bounded: every path of the kernels for all 64-bit keys within the length bounds in the evidence file. "
              "The kernels are encoded from the current .pyx source (Cython's parser, C integer semantics); "
              "counterexamples are replayed on the compiled extension. Trusted: the translation, symx, z3.")
ASSUMPTIONS = ["the compiled extension does what its .pyx source says (counterexamples are replayed on the extension)",
               "memory accesses outside a buffer are reported as errors, also where bounds checks are off"]

U64 = 2 ** 64 - 1


def encoded(inp):
    if inp.symbolic:
        return cyx.encoded("graphframe_modules", "reader_modules")
    return contextlib.nullcontext()


def kernels():
    import hatchet.graphframe as g
    import hatchet.cython_modules.libs.graphframe_modules as m
    return getattr(g, "_gfm_cy", m)


def table(inp, keys, rows):
    """The two-column array the kernel reads."""
    if inp.symbolic:
        a = np.empty((len(keys), 2), dtype=object)
        for i in range(len(keys)):
            a[i, 0], a[i, 1] = keys[i], rows[i]
        return a
    return np.array([[k, r] for k, r in zip(keys, rows)], dtype=np.uint64).reshape(len(keys), 2)


def perm(inp, n, full):
    if n <= full:
        left, out = list(range(n)), []
        for i in range(n):
            out.append(inp.choice("p%d" % i, left))
            left.remove(out[-1])
        return out
    k = inp.choice("perm", ["same", "reversed", "rotated"])
    r = list(range(n))
    return r if k == "same" else r[::-1] if k == "reversed" else r[n // 2:] + r[:n // 2]


def not_isin(inp):
    p = inp.params
    m = inp.choice("m", list(range(p["mlo"], p["m"] + 1)))
    n = inp.choice("n", list(range(p["nlo"], p["n"] + 1)))
    rows = perm(inp, m, p["full"])
    k1 = [inp.int("k%d" % i, 0, U64) for i in range(m)]
    k2 = [inp.int("s%d" % i, 0, U64) for i in range(n)]
    for k in (k1, k2):
        for i in range(1, len(k)):
            inp.assume(k[i - 1] < k[i] if p.get("strict") else k[i - 1] <= k[i])
    with encoded(inp):
        r = kernels().fast_not_isin(table(inp, k1, rows), table(inp, k2, list(range(n))), m, n)
    inp.check("one-mark-per-row", len(r) == m, "%d marks for %d rows" % (len(r), m))
    for i in range(m):
        missing = P.b_and(*[k1[i] != x for x in k2])
        got = bool(r[rows[i]])
        inp.check("mask", missing if got else P.b_not(missing), "row %d (key %r) marked %r among %r" % (i, k1[i], got, k2))


def ones(inp):
    p = inp.params
    n = inp.choice("n", list(range(1, p["n"] + 1)))
    m = inp.choice("m", list(range(0, min(n, p["m"]) + 1)))
    old = [inp.int("o%d" % i, -32768, 32767) for i in range(n)]
    ix = [inp.int("i%d" % i, 0, n - 1) for i in range(m)]
    if inp.symbolic:
        a = np.empty(n, dtype=object)
        a[:] = old
        x = np.empty(m, dtype=object)
        x[:] = ix
    else:
        a, x = np.array(old, dtype=np.short), np.array(ix, dtype=np.int64)
    with encoded(inp):
        kernels().insert_one_for_self_nodes(m, a, x)
    for i in range(n):
        hit = P.b_or(*[k == i for k in ix])
        inp.check("ones", P.b_implies(hit, a[i] == 1), "row %d not marked: %r" % (i, a[i]))
        inp.check("others-kept", P.b_or(hit, a[i] == old[i]), "row %d changed from %r to %r" % (i, old[i], a[i]))


def unify(inp):
    p = inp.params
    A = make_gf(inp, "a", p["n"], "tree", p["names"], p["levels"], ["time"], ("fin",), p.get("roots", 1), 1,
                p.get("holes", True), node_rows=False)
    a, anodes, aedges, anm, akeys, atab = A
    B = make_gf(inp, "b", p["m"], "tree", p["names"], p["levels"], ["time"], ("fin",), p.get("roots", 1), -1,
                p.get("holes", True), node_rows=False)
    b, _, bedges, bnm, bkeys, btab = B
    for gf, tab, k in ((a, atab, "a"), (b, btab, "b")):
        if p.get("empty") and inp.flag("empty_" + k):
            gf.dataframe = gf.dataframe.iloc[:0]
            tab.clear()
    if p.get("relabel"):
        # numbering of the nodes is arbitrary
        for gf, tag in ((a, "a"), (b, "b")):
            for i, nd in enumerate(all_nodes(gf.graph)):
                nd._hatchet_nid = inp.choice("%snid%d" % (tag, i), [7 - i, 3])
    left = [(akeys[i], ex) for i, ex in atab]
    right = [(bkeys[i], ex) for i, ex in btab]
    with encoded(inp):
        a.unify(b)
    got = rows_of(a.dataframe)
    marks = list(a.dataframe["_missing_node"].values) if "_missing_node" in a.dataframe.columns else [0] * len(got)
    n = 0
    for (nd, ex), mark in zip(got, marks):
        k = key_of_node(nd)
        l = [1 for kk, e in left if e == ex and same_key(kk, k)]
        r = [1 for kk, e in right if e == ex and same_key(kk, k)]
        inp.check("rows", len(l) + len(r) >= 1, "row %r %r in neither operand" % (k, ex))
        want = 0 if l and r else (1 if l else 2)
        inp.check("marks", mark == want, "row %r %r marked %r, not %r" % (k, ex, mark, want))
        n += len(l) + len(r)
    inp.check("rows", n == len(left) + len(right), "rows lost or repeated: %d of %d" % (n, len(left) + len(right)))
    inp.check("other-kept", len(b.dataframe) == len(btab))


def harnesses(tier):
    q = tier == "quick"
    K = ["one-mark-per-row", "mask"]
    U = ["rows", "marks", "other-kept"]
    hs = [
        H("small", not_isin, K, "0-3 searched rows in any numbering, 0-3 rows searched in, any sorted 64-bit keys (repeats allowed)",
          dict(mlo=0, m=3, nlo=0, n=3, full=3), validate=40),
        H("long", not_isin, K, "3 searched rows, 4-%d rows searched in, any distinct sorted 64-bit keys" % (6 if q else 9),
          dict(mlo=3, m=3, nlo=4, n=6 if q else 9, full=0, strict=True), validate=20),
        H("wide", not_isin, K, "4-%d searched rows, 3 rows searched in, any sorted 64-bit keys" % (5 if q else 7),
          dict(mlo=4, m=5 if q else 7, nlo=3, n=3, full=0), validate=20),
        H("one-key", not_isin, K, "1 searched row, 1-%d rows searched in, any sorted 64-bit keys" % (24 if q else 64),
          dict(mlo=1, m=1, nlo=1, n=24 if q else 64, full=0), validate=20),
        H("ones", ones, ["ones", "others-kept"], "1-4 marks of any value, 0-3 rows (repeats allowed)", dict(n=4, m=3), validate=20),
        H("unify", unify, U, "trees on %s nodes, names x/y, 2 ranks, any rows present or none" % ("2+1" if q else "2+2"), dict(n=2, m=1 if q else 2, names="two", levels="rank", empty=True)),
        H("unify-ids", unify, U, "trees on 2+2 nodes, any frames, any node numbering", dict(n=2, m=2, names="sym", levels="node", relabel=True, empty=True)),
        H("unify-forests", unify, U, "forests on 3+2 nodes, names x/y", dict(n=3, m=2, roots=2, names="two", levels="node", holes=False)),
    ]
    if not q:
        hs += [
            H("unify3", unify, U, "forests on 3+3 nodes, any frames", dict(n=3, m=3, roots=2, names="sym", levels="node", holes=False)),
            H("unify-rt", unify, U, "trees on 2+2 nodes, rank/thread rows", dict(n=2, m=2, names="two", levels="rt")),
            H("square", not_isin, K, "5 searched rows, 5 rows searched in, any sorted 64-bit keys", dict(mlo=5, m=5, nlo=5, n=5, full=0)),
        ]
    return hs
