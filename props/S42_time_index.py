"""create_time_index: number, distance and start of the time points.

The date arithmetic of pandas cannot be symbolic: while the function runs,
``pandas.date_range`` is a stand-in that records what it is asked for (and
texts like f"{interval}h" carry tokens that stand for symbolic values).  A
counterexample is replayed with the real ``date_range``.
"""
import datetime
import re

import pandas as pd
from oemof.solph import _helpers
from oemof.solph import create_time_index
from symsolph.api import *
from symsolph.engine import Unsupported

TOKEN = re.compile("\u27e6(\\d+)\u27e7")
UNITS = {"h": 3600, "H": 3600, "s": 1, "S": 1, "min": 60, "T": 60,
         "D": 86400, "d": 86400}


def read_start(start, S):
    """(year, rest of the date) of a start that may contain a token"""
    if isinstance(start, str) and TOKEN.search(start):
        toks = TOKEN.findall(start)
        if len(toks) != 1:
            raise Unsupported("start with several symbolic values")
        a, b = (pd.Timestamp(TOKEN.sub(y, start)) for y in ("2001", "2004"))
        if (a.year, b.year) != (2001, 2004) or a.replace(year=2004) != b:
            raise Unsupported("symbolic value is not the year of the start")
        return Z(S.tokens[int(toks[0])]), a.replace(year=2004)
    a = pd.Timestamp(start)
    return z3.RealVal(a.year), a.replace(year=2004)


def read_freq(freq, S):
    """length of the step in hours"""
    if isinstance(freq, str):
        m = re.fullmatch(f"({TOKEN.pattern}|[0-9.]*)([a-zA-Z]+)", freq)
        if not m or m.group(3) not in UNITS:
            raise Unsupported("frequency " + freq)
        if m.group(2):
            n = Z(S.tokens[int(m.group(2))])
        else:
            n = Z(float(m.group(1) or 1))
        return n * UNITS[m.group(3)] / 3600
    return Z(pd.Timedelta(freq) / pd.Timedelta(hours=1))


class Recorder:
    """stand-in for pandas.date_range"""

    def __init__(self, S):
        self.S = S

    def __call__(self, start=None, end=None, periods=None, freq=None, **kw):
        if kw or end is not None or periods is None or freq is None:
            raise Unsupported("date_range with other arguments")
        year, rest = read_start(start, self.S)
        self.n = Z(periods)
        self.year, self.rest = year, rest
        self.step = read_freq(freq, self.S)
        return self


STARTS = [datetime.datetime(2019, 3, 5, 7, 30), datetime.date(2020, 2, 29),
          pd.Timestamp("1999-12-31 23:00"), "2021-06-01"]


def run(S, **kw):
    if S.concrete:
        idx = create_time_index(**kw)
        step = {(b - a) / pd.Timedelta(hours=1) for a, b in zip(idx, idx[1:])}
        return W(m=None, n=Z(len(idx)), year=Z(idx[0].year),
                 rest=idx[0].replace(year=2004),
                 step=Z(step.pop()) if len(step) == 1 else None)
    orig = pd.date_range
    S.tokens = []
    _helpers.int = lambda x, *a: (
        (x.__floor__() if x >= 0 else x.__ceil__())
        if isinstance(x, SymReal) and not isinstance(x, SymInt)
        else x if isinstance(x, SymInt) else int(x, *a))
    rec = pd.date_range = Recorder(S)
    try:
        out = create_time_index(**kw)
    finally:
        pd.date_range = orig
        del _helpers.int
    if out is not rec:
        raise Unsupported("result of date_range is changed")
    return W(m=None, n=rec.n, year=rec.year, rest=rec.rest, step=rec.step)


def index(name, years=True, number=True, interval=True):
    def build(S):
        kw = {}
        if interval:
            kw["interval"] = S.integer("quarters", 1, 10 ** 5) * 0.25
        if years:
            kw["year"] = S.integer("year", 1900, 2200)
        else:
            kw["start"] = STARTS[S.choice("start", len(STARTS))]
        if number:
            kw["number"] = S.integer("number", 1, 10 ** 4)
        w = run(S, **kw)
        w.kw = kw
        return w

    def spec(S, w, X, A):
        kw = w.kw
        step = Z(kw.get("interval", 1))
        if number:
            A.eq("number of time points", w.n, Z(kw["number"]) + 1)
        else:
            y = Z(kw["year"])
            i = z3.ToInt(y)
            leap = z3.And(i % 4 == 0, z3.Or(i % 100 != 0, i % 400 == 0))
            hours = z3.If(leap, z3.RealVal(8784), z3.RealVal(8760))
            if interval:
                # the last interval ends closest to the end of the year
                A.le("not longer than the year", (w.n - 1) * step,
                     hours + step / 2)
                A.ge("not shorter than the year", (w.n - 1) * step,
                     hours - step / 2)
                A.prop("whole number", z3.IsInt(w.n))
            else:
                A.eq("a year of hours", w.n, hours + 1)
        if w.step is None:
            A.prop("all time steps have the same length", False,
                   guard=w.n > 2)
        else:
            A.eq("length of time steps", w.step, step, guard=w.n > 1)
        if years:
            A.eq("year of the start", w.year, Z(kw["year"]))
            A.prop("start of the year",
                   w.rest == pd.Timestamp("2004-01-01"))
        else:
            s = pd.Timestamp(kw["start"])
            A.eq("year of the start", w.year, Z(s.year))
            A.prop("start", w.rest == s.replace(year=2004))

    return Scenario(name, build, spec, bounds="1900-2200, intervals in "
                    "quarters of an hour")


def both(S):
    create_time_index(year=S.integer("year", 1900, 2200),
                      start=STARTS[S.choice("start", len(STARTS))],
                      **({"number": 3} if S.choice("number", 2) else {}))
    return W(m=None)


SCENARIOS = [
    index("default", number=False, interval=False),
    index("interval", number=False),
    index("number"),
    index("number-only", interval=False),
    index("start", years=False),
    index("start-hours", years=False, interval=False),
    Scenario("year-and-start", both, lambda S, w, X, A: A.prop(
        "accepted", True), bounds="4 starts",
        errors=lambda S: must_raise(True, ValueError)),
]
