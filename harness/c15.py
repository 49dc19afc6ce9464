"""C15: frames are value objects with a total order."""
from .common import *

PROPERTY = "C15"
KEYS = ["name", "file", "line"]


def attrs(inp, tag, keys, vals):
    return {k: val(inp, tag + k, vals) for k in keys}


def val(inp, nm, kind):
    if kind == "name":
        return inp.name(nm)
    if kind == "int":
        return inp.int(nm, -3, 3)
    if kind == "real":
        return inp.real(nm)
    if kind == "string":
        return inp.string(nm, 2, "ab")
    raise ValueError(kind)


def build(inp, tag, a):
    """One of the documented ways to construct a frame with attributes a."""
    ks = list(a)
    how = inp.choice(tag + "how", ["dict", "rev", "kwargs", "mixed", "override"])
    if how == "dict":
        return Frame({k: a[k] for k in ks})
    if how == "rev":
        return Frame({k: a[k] for k in reversed(ks)})
    if how == "kwargs":
        return Frame(**a)
    if how == "mixed":
        return Frame({ks[0]: a[ks[0]]}, **{k: a[k] for k in ks[1:]}) if len(ks) > 1 else Frame(a, **{})
    d = {k: a[k] for k in ks}
    d[ks[-1]] = "overridden"
    return Frame(d, **{ks[-1]: a[ks[-1]]})


def laws(inp):
    """Two frames with the same attribute names."""
    p = inp.params
    keys = p["keys"]
    a, b = attrs(inp, "a", keys, p["vals"]), attrs(inp, "b", keys, p["vals"])
    f, g = build(inp, "a", a), build(inp, "b", b)
    eq = inp.And(*[a[k] == b[k] for k in keys])
    e = bool(eq)
    inp.check("equality", (f == g) == e and (g == f) == e and (f != g) == (not e))
    if e:
        inp.check("hash", hash(f) == hash(g))
    lt, gt = bool(f < g), bool(f > g)
    inp.check("trichotomy", [lt, e, gt].count(True) == 1)
    inp.check("order-consistent", bool(g > f) == lt and bool(g < f) == gt and bool(f <= g) == (lt or e) and bool(f >= g) == (gt or e))
    # lexicographic in the sorted attribute names
    ks = sorted(keys)
    want = False
    for k in reversed(ks):
        want = inp.Or(a[k] < b[k], inp.And(a[k] == b[k], want))
    inp.check("lexicographic", inp.Iff(want, lt))
    inp.check("attributes", all(bool(f[k] == a[k]) and bool(f.get(k) == a[k]) for k in keys))
    inp.check("attributes", f["type"] == (a["type"] if "type" in a else "None") if "type" not in keys else True)
    v = f.values(keys + ["nope"])
    inp.check("attributes", len(v) == len(keys) + 1 and v[-1] is None and all(bool(x == a[k]) for x, k in zip(v, keys)))


def trans(inp):
    p = inp.params
    keys = p["keys"]
    fs = [Frame(attrs(inp, t, keys, p["vals"])) for t in "abc"]
    f, g, h = fs
    if f < g and g < h:
        inp.check("transitive", f < h and not h < f and f != h)
    if f == g and g == h:
        inp.check("eq-transitive", f == h)
    s = sorted([h, g, f])
    inp.check("sortable", all(not (s[i + 1] < s[i]) for i in range(2)))


def values(inp):
    """Copies and shared source dictionaries: frames do not influence each other."""
    keys = inp.params["keys"]
    a = attrs(inp, "a", keys, "name")
    how = inp.choice("how", ["copy", "shared-kwargs", "shared-plain", "later-change", "input-kept"])
    if how == "copy":
        f = build(inp, "a", a)
        if inp.flag("hashed"):
            hash(f)
        c = f.copy()
        inp.check("copy", c == f and not c != f and hash(c) == hash(f) and c is not f and c.attrs is not f.attrs)
        c.attrs["extra"] = "x"
        inp.check("copy", "extra" not in f.attrs and f.get("extra") is None)
        c2 = f.copy()
        inp.check("copy", c2 == f)
    elif how == "shared-kwargs":
        d = dict(a)
        x, y = inp.name("x"), inp.name("y")
        f = Frame(d, module=x)
        g = Frame(d, module=y)
        inp.check("independent", (f == g) == bool(x == y) and bool(f["module"] == x) and bool(g["module"] == y),
                  "frames made from one dictionary influence each other")
    elif how == "shared-plain":
        d = dict(a)
        f = Frame(d)
        g = Frame(d, extra=inp.name("x"))
        inp.check("independent", f != g and f.get("extra") is None and f == Frame(dict(a)))
    elif how == "later-change":
        d = dict(a)
        f = Frame(d)
        if inp.flag("hashed"):
            hash(f)
        d[keys[0]] = inp.name("x")
        inp.check("independent", f == Frame(dict(a)) and bool(f[keys[0]] == a[keys[0]]))
    else:
        d = dict(a)
        build(inp, "a", d)
        Frame(d)
        Frame(d, extra=1)
        inp.check("independent", set(d) == set(a), "the caller's dictionary was changed")


def kinds(inp):
    """Values of any kind, None and the empty ones among them: only the attributes decide."""
    vals = [None, "", 0, 1, False, 0.0, "None", "x", (), -1.5]
    absent = object()

    def one(t):
        d = {"name": inp.choice(t + "name", ["a", "b"])}
        v = inp.choice(t + "v", [absent] + vals)
        if v is not absent:
            d["file"] = v
        if inp.flag(t + "none"):
            d["type"] = None
        return d
    a, b = one("a"), one("b")
    f, g = Frame(a), Frame(**b)
    if inp.flag("used"):
        hash(f), str(g)
    fa, fb = dict({"type": "None"}, **a), dict({"type": "None"}, **b)
    e = set(fa) == set(fb) and all(type(fa[k]) is not type(absent) and bool(fa[k] == fb[k]) for k in fa)
    inp.check("equality", (f == g) == e and (g == f) == e and (f != g) == (not e), "%s and %s" % (a, b))
    if e:
        inp.check("hash", hash(f) == hash(g), "%s and %s" % (a, b))
    inp.check("attributes", all(f.get(k, absent) is fa[k] and f.values(k) is fa[k] for k in fa) and f.get("nope") is None
              and f.get("nope", 3) == 3 and f.values("nope") is None and dict(f.attrs) == fa, "%s has %s" % (a, f.attrs))
    c = f.copy()
    inp.check("copy", c == f and dict(c.attrs) == fa and c.attrs is not f.attrs)


def construct(inp):
    typ = inp.choice("type", [None, "function", "None", ""])
    a = attrs(inp, "a", ["name"], "name")
    if typ is not None:
        a["type"] = typ
    f = build(inp, "a", a)
    inp.check("default-type", f["type"] == ("None" if typ is None else typ))
    inp.check("default-type", (f == Frame(name=a["name"])) == (typ in (None, "None")))
    for bad in (lambda: Frame(), lambda: Frame({}), lambda: Frame(None)):
        try:
            bad()
            ok = False
        except ValueError:
            ok = True
        inp.check("empty-rejected", ok)


def harnesses(tier):
    q = tier == "quick"
    hs = []

    def add(name, fn, labels, bounds, **kw):
        hs.append(H(name, fn, labels, bounds, kw, validate=10))
    L = ["equality", "hash", "trichotomy", "order-consistent", "lexicographic", "attributes"]
    add("laws-name", laws, L, "two frames with 2 attributes of any text, 5 ways of construction each", keys=["name", "file"], vals="name")
    add("laws-3", laws, L, "two frames with 3 attributes of any text", keys=["name", "file", "module"], vals="name")
    add("laws-num", laws, L, "two frames with integer attributes in -3..3", keys=["line", "id"], vals="int")
    add("laws-real", laws, L, "two frames with real attributes", keys=["line"], vals="real")
    add("laws-str", laws, L, "two frames with attributes over strings of length <= 2", keys=["name"], vals="string")
    for v in ("name", "real"):
        add("trans-" + v, trans, ["transitive", "eq-transitive", "sortable"], "three frames with 2 attributes", keys=["name", "file"] if v == "name" else ["line", "id"], vals=v)
    add("kinds", kinds, ["equality", "hash", "attributes", "copy"], "two frames whose second attribute is missing or one of 10 values of any "
        "kind (None and empty ones), any type or None", keys=[], vals="")
    add("values", values, ["copy", "independent"], "copies, shared dictionaries, later changes", keys=["name", "file"])
    add("construct", construct, ["default-type", "empty-rejected"], "all ways of construction with and without type")
    return hs
