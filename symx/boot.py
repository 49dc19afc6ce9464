"""Interpreter set-up shared by checks and replays."""
import os
import sys
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
Z3DIR = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def boot(root, symbolic):
    warnings.simplefilter("ignore")
    sys.dont_write_bytecode = True
    import numpy, pandas  # noqa: the interpreter's own, before z3's directory is visible
    numpy.seterr(all="ignore")
    sys.path.append(Z3DIR)
    import z3  # noqa
    sys.path.remove(Z3DIR)
    if root in sys.path:
        sys.path.remove(root)
    sys.path.insert(0, root)
    if symbolic:
        from . import patches
        patches.install()
    import io
    o, e = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        import hatchet  # noqa
        import hatchet.query, hatchet.graphframe, hatchet.graph, hatchet.node, hatchet.frame  # noqa
    finally:
        sys.stdout, sys.stderr = o, e
    warnings.simplefilter("ignore")
    assert os.path.abspath(hatchet.__file__).startswith(root + os.sep), hatchet.__file__
    return hatchet
