"""C30: the phase timer accounts every interval to its phase."""
import datetime as _dt
import re as _re
from fractions import Fraction as _Fraction

import hatchet.util.timer as ht
from hatchet.util.timer import Timer
from symx import proxies as P
from .common import *

PROPERTY = "C30"
CARRIER = 7000000.0


class Delta:
    """A length of time in microseconds, possibly symbolic."""

    def __init__(self, clock, us):
        self.clock, self.us = clock, us

    def _of(self, o):
        if isinstance(o, Delta):
            return o.us
        if isinstance(o, _dt.timedelta):
            return o // _dt.timedelta(microseconds=1)
        return None

    def __add__(self, o):
        us = self._of(o)
        return NotImplemented if us is None else Delta(self.clock, self.us + us)

    __radd__ = __add__

    def __sub__(self, o):
        us = self._of(o)
        return NotImplemented if us is None else Delta(self.clock, self.us - us)

    def __rsub__(self, o):
        us = self._of(o)
        return NotImplemented if us is None else Delta(self.clock, us - self.us)

    def __eq__(self, o):
        us = self._of(o)
        return NotImplemented if us is None else self.us == us

    def __bool__(self):
        return bool(self.us != 0)

    def _less(self, o, strict):
        us = self._of(o)
        if us is None:
            return NotImplemented
        return self.us < us if strict else self.us <= us

    def __lt__(self, o):
        return self._less(o, True)

    def __le__(self, o):
        return self._less(o, False)

    def __gt__(self, o):
        us = self._of(o)
        return NotImplemented if us is None else self.us > us

    def __ge__(self, o):
        us = self._of(o)
        return NotImplemented if us is None else self.us >= us

    def _part(self, below, unit):
        """us // unit, and us % below first; both divide what it is made of, so that no division is left"""
        us = self.us % below if below else self.us
        return us - us % unit

    @property
    def days(self):
        return Amount(self.clock, self._part(None, 86400 * 10 ** 6), 86400 * 10 ** 6)

    @property
    def seconds(self):
        return Amount(self.clock, self._part(86400 * 10 ** 6, 10 ** 6), 10 ** 6)

    @property
    def microseconds(self):
        return Amount(self.clock, self._part(10 ** 6, 1))

    def total_seconds(self):
        return Amount(self.clock, self.us, 10 ** 6)

    def __truediv__(self, o):
        us = self._of(o)
        return NotImplemented if us is None else Amount(self.clock, self.us, us)


class Amount:
    """A number of seconds, num/den with a symbolic num: what is computed from the parts of a length of time."""

    def __init__(self, clock, num, den=1):
        self.clock, self.num, self.den = clock, num, den

    def _frac(self, o):
        if isinstance(o, Amount):
            return o.num, o.den
        if isinstance(o, (int, float)):
            f = _Fraction(o)
            return f.numerator, f.denominator
        return None

    def __add__(self, o):
        f = self._frac(o)
        return NotImplemented if f is None else Amount(self.clock, self.num * f[1] + f[0] * self.den, self.den * f[1])

    __radd__ = __add__

    def __sub__(self, o):
        f = self._frac(o)
        return NotImplemented if f is None else Amount(self.clock, self.num * f[1] - f[0] * self.den, self.den * f[1])

    def __mul__(self, o):
        if not isinstance(o, (int, float)):
            return NotImplemented
        f = _Fraction(o).limit_denominator(10 ** 9)
        return Amount(self.clock, self.num * f.numerator, self.den * f.denominator)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if not isinstance(o, (int, float)):
            return NotImplemented
        f = _Fraction(o)
        return Amount(self.clock, self.num * f.denominator, self.den * f.numerator)

    def __bool__(self):
        return bool(self.num != 0)

    def _cmp(self, o):
        f = self._frac(o)
        return (self.num * f[1], f[0] * self.den)

    def __eq__(self, o):
        a, b = self._cmp(o)
        return a == b

    def __lt__(self, o):
        a, b = self._cmp(o)
        return a < b

    def __gt__(self, o):
        a, b = self._cmp(o)
        return a > b

    def __le__(self, o):
        return not self > o

    def __ge__(self, o):
        return not self < o

    def __float__(self):
        """A float that stands for it where it is printed."""
        self.clock.shown.append(self.num * 10 ** 6 if self.den == 1 else self.num * 10 ** 6 / self.den)
        return CARRIER + len(self.clock.shown) - 1

    def __format__(self, spec):
        return format(float(self), spec)


class Moment:
    def __init__(self, clock, us):
        self.clock, self.us = clock, us

    def __sub__(self, o):
        if isinstance(o, Moment):
            return Delta(self.clock, self.us - o.us)
        return NotImplemented

    def __bool__(self):
        return True


class Clock:
    """Stands for the module's datetime class: time passes only between the calls."""

    def __init__(self, inp):
        self.inp, self.us, self.shown = inp, 0, []

    def tick(self, us):
        self.us = self.us + us

    def now(self, tz=None):
        if self.inp.symbolic:
            return Moment(self, self.us)
        return _dt.datetime(2024, 2, 28, 23, 59) + _dt.timedelta(microseconds=self.us)

    utcnow = today = now


def micros(clock, d):
    if isinstance(d, Delta):
        return d.us
    return d // _dt.timedelta(microseconds=1)


class Left(Exception):
    pass


def history(inp):
    p = inp.params
    clock = Clock(inp)
    with clock_in(ht, clock):
        _history(inp, p, clock)


def _history(inp, p, clock):
    names = p["names"]
    t = Timer()
    active, since, want = None, None, {}
    log = []

    def pass_time(k):
        us = 10000 * inp.int("t%s" % k, 0, 10 ** 8)     # what differs shows in two decimals
        clock.tick(us)
        return us
    for k in range(p["steps"]):
        op = inp.choice("op%d" % k, p.get("ops", ["start", "end", "with", "with-raise"]))
        log.append(op)
        if op == "start":
            if active is not None:
                since = since + pass_time(k)
            ph = inp.choice("phase%d" % k, names)
            r = t.start_phase(ph)
            if active is None:
                inp.check("returned", r is None, "a length without a phase before, %s" % log)
            else:
                inp.check("returned", r is not None and inp.eqv(micros(clock, r), since), "%s returned %r" % (log, r))
                want[active] = want.get(active, 0) + since
            active, since = ph, 0
        elif op == "end":
            if active is None:
                try:
                    t.end_phase()
                    inp.check("no-phase", False, "end_phase without a phase, %s" % log)
                except AssertionError:
                    inp.check("no-phase", True)
                continue
            since = since + pass_time(k)
            t.end_phase()
            want[active] = want.get(active, 0) + since
            active = None
        else:
            ph = inp.choice("phase%d" % k, names)
            if active is not None:       # entering a phase ends the one before
                since = since + pass_time("%dbefore" % k)
                want[active] = want.get(active, 0) + since
                active = None
            us = None
            try:
                with t.phase(ph):
                    us = pass_time(k)
                    if op == "with-raise":
                        raise Left(k)
                inp.check("exception", op == "with", "the exception is lost, %s" % log)
            except Left as e:
                inp.check("exception", op == "with-raise" and e.args == (k,), str(log))
            want[ph] = want.get(ph, 0) + us
            # outside of phases time is nobody's
            pass_time("%dafter" % k)
    show(inp, clock, t, want, log)
    # printing changes nothing
    show(inp, clock, t, want, log)


def two(inp):
    """Timers know nothing of each other."""
    p = inp.params
    clock = Clock(inp)
    with clock_in(ht, clock):
        ts = [Timer(), Timer()]
        active, want = [None, None], [{}, {}]
        log = []

        def later(k):
            us = 10000 * inp.int("t%s" % k, 0, 10 ** 8)
            clock.tick(us)
            for i in (0, 1):
                if active[i] is not None:
                    active[i][1] = active[i][1] + us

        def close(i):
            if active[i] is not None:
                want[i][active[i][0]] = want[i].get(active[i][0], 0) + active[i][1]
                active[i] = None
        for k in range(p["steps"]):
            i = inp.choice("timer%d" % k, [0, 1])
            op = inp.choice("op%d" % k, ["start", "end"])
            log.append((i, op))
            later(k)
            if op == "end":
                inp.assume(active[i] is not None)
                ts[i].end_phase()
                close(i)
            else:
                ph = inp.choice("phase%d" % k, p["names"])
                ts[i].start_phase(ph)
                close(i)
                active[i] = [ph, 0]
        for i in (0, 1):
            show(inp, clock, ts[i], want[i], log)
        show(inp, clock, Timer(), {}, log)


def show(inp, clock, t, want, log):
    clock.shown.clear()
    text = str(t)
    lines = text.splitlines()
    inp.check("lines", lines[0] == "Times:" and len(lines) == 1 + len(want), "%s: %r, phases %s" % (log, text, list(want)))
    for line, (name, us) in zip(lines[1:], want.items()):
        m = _re.fullmatch(r"\s*%s:\s+(-?[0-9.]+)s" % _re.escape(name), line)
        inp.check("lines", m is not None, "%s: line %r for %r" % (log, line, name))
        if m is None:
            continue
        if inp.symbolic and float(m.group(1)) >= CARRIER:
            inp.check("format", _re.fullmatch(r"\d+\.00", m.group(1)) is not None, line)
            got = clock.shown[int(float(m.group(1)) - CARRIER)]
            inp.check("totals", inp.eqv(got, us), "%s: %s shown for %r, not %r" % (log, got, name, us))
        elif isinstance(us, P.SymNum):
            inp.check("totals", False, "%s: %r for %r" % (log, line, us))
        else:
            inp.check("format", m.group(1) == "%.2f" % (us / 1e6), "%s: %r for %r" % (log, line, us))


def harnesses(tier):
    q = tier == "quick"
    k = 4 if q else 5
    return [H("history", history, ["returned", "no-phase", "exception", "lines", "totals", "format"],
              "%d calls of start_phase, end_phase or a phase context that is left normally or by an exception, two phase names, any "
              "passing of time (0 to 10^8 hundredths of a second) within and between them; then printed twice" % k,
              dict(steps=k, names=["graph", "the frame"]), validate=30),
            H("phases", history, ["returned", "exception", "lines", "totals", "format"],
              "%d calls of start_phase or of a phase context, 3 phase names, any passing of time" % k,
              dict(steps=k, names=["read", "graph", "the frame"], ops=["start", "with"]), validate=30),
            H("two", two, ["lines", "totals", "format"],
              "%d calls of start_phase and end_phase of two timers, 2 phase names, any passing of time; the first two and a third one printed" % (k - 1),
              dict(steps=k - 1, names=["read", "graph"]), validate=30)]


ASSUMPTIONS = ["the module's datetime class is replaced by a clock whose readings are the inputs; time passes only between the calls"]
