"""Which functions of the code under test were executed symbolically."""
import sys
import tempfile
import os

from . import patches

_seen = set()
_root = None
_file = None


def start(root):
    global _root, _file
    _root = os.path.join(root, "hatchet") + os.sep
    fd, _file = tempfile.mkstemp(prefix="symx-cover-")
    os.close(fd)
    m = sys.monitoring
    m.use_tool_id(m.COVERAGE_ID, "symx")
    m.register_callback(m.COVERAGE_ID, m.events.PY_START, _cb)
    ev = m.events.PY_START
    if os.environ.get("SYMX_LINES"):          # (for development: the lines executed symbolically)
        m.register_callback(m.COVERAGE_ID, m.events.LINE, _line)
        ev |= m.events.LINE
    m.set_events(m.COVERAGE_ID, ev)


def _cb(code, off):
    fn = code.co_filename
    if fn.startswith(_root):
        if not patches.active:
            return None
        k = fn[len(_root):] + ":" + code.co_qualname
        if k not in _seen:
            _seen.add(k)
            with open(_file, "a") as f:
                f.write(k + "\n")
    return sys.monitoring.DISABLE


def _line(code, line):
    fn = code.co_filename
    if fn.startswith(_root):
        if not patches.active:
            return None
        with open(os.environ["SYMX_LINES"], "a") as f:
            f.write("%s:%d\n" % (fn[len(_root):], line))
    return sys.monitoring.DISABLE


def functions():
    try:
        with open(_file) as f:
            out = sorted(set(l.strip() for l in f if l.strip()))
        os.unlink(_file)
        return out
    except OSError:
        return []
