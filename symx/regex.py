"""Translate a (concrete) Python regular expression into a z3 regular expression."""
import re._parser as sre
import re._constants as C

import z3

from .core import Unsupported

_ANY = None


def _anychar():
    return z3.AllChar(z3.ReSort(z3.StringSort()))


def _not_newline():
    return z3.Intersect(_anychar(), z3.Complement(z3.Re("\n")))


def _cat(cat):
    name = str(cat)
    if name == "CATEGORY_DIGIT":
        return z3.Range("0", "9")
    if name == "CATEGORY_WORD":
        return z3.Union(z3.Range("0", "9"), z3.Range("a", "z"), z3.Range("A", "Z"), z3.Re("_"))
    if name == "CATEGORY_SPACE":
        return z3.Union(*[z3.Re(c) for c in " \t\n\r\x0b\x0c"])
    raise Unsupported("regex category %s" % name)


def _seq(parts):
    parts = [p for p in parts if p is not None]
    if not parts:
        return z3.Re("")
    if len(parts) == 1:
        return parts[0]
    return z3.Concat(*parts)


def _conv(tree):
    out = []
    for op, av in tree:
        if op is C.LITERAL:
            out.append(z3.Re(chr(av)))
        elif op is C.ANY:
            out.append(_not_newline())
        elif op is C.NOT_LITERAL:
            out.append(z3.Intersect(_anychar(), z3.Complement(z3.Re(chr(av)))))
        elif op is C.IN:
            neg = False
            alts = []
            for o, a in av:
                if o is C.NEGATE:
                    neg = True
                elif o is C.LITERAL:
                    alts.append(z3.Re(chr(a)))
                elif o is C.RANGE:
                    alts.append(z3.Range(chr(a[0]), chr(a[1])))
                elif o is C.CATEGORY:
                    alts.append(_cat(a))
                else:
                    raise Unsupported("regex set item %s" % o)
            u = alts[0] if len(alts) == 1 else z3.Union(*alts)
            out.append(z3.Intersect(_anychar(), z3.Complement(u)) if neg else u)
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, sub = av
            r = _conv(sub)
            if hi is C.MAXREPEAT:
                rep = z3.Star(r) if lo == 0 else _seq([r] * (lo - 1) + [z3.Plus(r)])
            else:
                rep = z3.Loop(r, lo, hi)
            out.append(rep)
        elif op is C.BRANCH:
            out.append(z3.Union(*[_conv(b) for b in av[1]]))
        elif op is C.SUBPATTERN:
            out.append(_conv(av[3]))
        elif op is C.AT:
            raise Unsupported("regex anchor inside pattern")
        else:
            raise Unsupported("regex op %s" % op)
    return _seq(out)


def to_z3(pattern, mode):
    """Regex accepted by re.<mode>(pattern, s) as a language over whole s."""
    tree = list(sre.parse(pattern))
    full_end = mode == "fullmatch"
    any_end = False
    anchored_start = mode != "search"
    while tree and tree[0][0] is C.AT and tree[0][1] in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
        anchored_start = True
        tree = tree[1:]
    nl_ok = False
    while tree and tree[-1][0] is C.AT and tree[-1][1] in (C.AT_END, C.AT_END_STRING):
        if tree[-1][1] is C.AT_END_STRING:
            full_end, nl_ok = True, False
        elif not full_end:
            full_end, nl_ok = True, True
        tree = tree[:-1]
    # an alternation at top level with a trailing anchor: "a|b\Z" parses as one BRANCH
    if len(tree) == 1 and tree[0][0] is C.BRANCH and not full_end:
        alts = []
        for b in tree[0][1][1]:
            alts.append(_alt(list(b), mode))
        return z3.Union(*alts) if len(alts) > 1 else alts[0]
    return _wrap(_conv(tree), anchored_start, full_end, nl_ok)


def _alt(tree, mode):
    full_end = mode == "fullmatch"
    anchored = mode != "search"
    nl_ok = False
    while tree and tree[0][0] is C.AT and tree[0][1] in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
        anchored = True
        tree = tree[1:]
    while tree and tree[-1][0] is C.AT and tree[-1][1] in (C.AT_END, C.AT_END_STRING):
        nl_ok = tree[-1][1] is C.AT_END and not full_end
        full_end = True
        tree = tree[:-1]
    return _wrap(_conv(tree), anchored, full_end, nl_ok)


def _wrap(r, anchored_start, full_end, nl_ok):
    star = z3.Star(_anychar())
    parts = []
    if not anchored_start:
        parts.append(star)
    parts.append(r)
    if not full_end:
        parts.append(star)
    elif nl_ok:
        parts.append(z3.Union(z3.Re(""), z3.Re("\n")))
    return _seq(parts)
