"""processing.results: every value of the solution is found at its place."""
import pandas as pd
import pyomo.environ as po

from symsolph.api import *
from props.S25_results import system

N = solph.components  # noqa


def isnode(x):
    return not isinstance(x, (int, float))


def nan(x):
    return x is None or (isinstance(x, float) and x != x)


def expected(S, m, t):
    """{key: {name: (kind, {row: value})}} from the variables of the model"""
    out = {}
    for v in m.component_data_objects(po.Var):
        name = v.parent_component().local_name
        i = v.index()
        i = i if isinstance(i, tuple) else (i,)
        key = tuple(x for x in i if isnode(x))
        rest = i[len(key):]
        last = list(v.parent_component().index_set().subsets())[-1].name
        if last in ("TIMESTEPS", "TIMEPOINTS", "PERIODS"):
            kind = last
        elif not rest:
            kind, rest = "single", (0,)
        else:
            kind = "typical"
        if len(key) == 1:
            key = (key[0], None)
        col = out.setdefault(key, {}).setdefault(name, (kind, {}))
        col[1][rest if kind == "typical" else rest[-1]] = solution(S, v)
    return out


def same_index(A, label, index, want):
    A.prop(f"{label}: number of rows", len(index) == len(want))
    for x, y in zip(index, want):
        if isinstance(x, SymReal) or isinstance(y, SymReal):
            A.eq(f"{label}: row", Z(x), Z(y))
        else:
            A.prop(f"{label}: row {y}", x == y)


def column(A, label, series, want, length):
    """values of a column; everything else is empty"""
    for pos in range(length):
        x = series.iloc[pos]
        if pos in want:
            if nan(x):
                A.prop(f"{label}[{pos}] is given", False)
            else:
                A.eq(f"{label}[{pos}]", Z(x), want[pos])
        else:
            A.prop(f"{label}[{pos}] is empty", nan(x))


def build_for(mk, kinds, remove, duals=False, more=None, after=None):
    def build(S):
        t = mk(S)
        a, b, n = system(S, t, kinds)
        if more:
            more(S, t, a, b)
        m = model(t)
        if after:
            after(S, m, t)
        if duals:
            m.receive_duals()
        solve_stub(S, m)
        d = {}
        if duals:
            for k, c in m.BusBlock.balance.items():
                d[k] = S.real(f"dual{k[0]},{k[1]}")
                m.dual[c] = d[k]
        a_ = {} if remove is None else dict(remove_last_time_point=remove)
        if "tuples" in kinds:  # (the former way to get the results)
            res = m.results()
        else:
            res = solph.processing.results(m, **a_)
        return W(mm=m, t=t, a=a, b=b, n=n, res=res, d=d)

    return build


def standard(name, mk, bounds, kinds, remove=None, duals=False, after=None):
    """one period: scalars and sequences"""

    def spec(S, w, X, A):
        m, t, res = w.mm, w.t, w.res
        want = expected(S, m, t)
        idx = list(t.es.timeindex)[:t.T if remove else t.T + 1]
        buses = [n for n in (w.a, w.b) if duals]
        A.prop("keys", set(res) == set(want) | {(n, None) for n in buses})
        for k, data in want.items():
            r = res[k]
            A.prop(f"{k} parts", set(r) == {"scalars", "sequences"})
            sc = {x for x, (kind, _) in data.items()
                  if kind in ("PERIODS", "single")}
            A.prop(f"{k} scalars", set(r["scalars"].index) == sc
                   and len(r["scalars"]) == len(sc))
            for x in sc:
                A.eq(f"{k} {x}", Z(r["scalars"][x]), data[x][1][0])
            seq = r["sequences"]
            dual = {"duals"} if k in [(n, None) for n in buses] else set()
            A.prop(f"{k} sequences", set(seq.columns) == set(data) - sc | dual
                   and seq.shape[1] == len(data) - len(sc) + len(dual))
            same_index(A, f"{k}", seq.index, idx)
            for x in set(data) - sc:
                column(A, f"{k} {x}", seq[x], data[x][1], len(idx))
        for n in buses:
            seq = res[n, None]["sequences"]
            # (with variables of the bus, there is one row per time point)
            rows = len(idx) if (n, None) in want else t.T
            same_index(A, f"{n} duals", seq.index, idx[:rows])
            column(A, f"{n} duals", seq["duals"],
                   {s: Z(w.d[n, s]) for s in t.steps}, rows)

    return Scenario(name, build_for(mk, kinds, remove, duals, after=after),
                    spec, bounds=bounds)


def own(S, m, t):
    """variables of users, which belong to buses and flows"""
    buses = [n for n in m.es.nodes if isinstance(n, Bus)]
    m.own = po.Block()
    m.own.price = po.Var(buses, m.TIMESTEPS)
    m.own.size = po.Var(buses)
    m.own.share = po.Var(m.FLOWS, m.TIMESTEPS)


def periods(name, mk, bounds, kinds, remove=None, duals=False):
    """several periods: scalars per period and sequences"""

    def spec(S, w, X, A):
        m, t, res = w.mm, w.t, w.res
        want = expected(S, m, t)
        idx = list(t.es.timeindex)[:t.T]
        years = [t.es.periods[0][0].year + y for y in t.years]
        buses = [n for n in (w.a, w.b) if duals]
        A.prop("keys", set(res) == set(want) | {(n, None) for n in buses})
        for k, data in want.items():
            r = res[k]
            A.prop(f"{k} parts", set(r) == {"period_scalars", "sequences"})
            sc = {x for x, (kind, _) in data.items() if kind == "PERIODS"}
            ps = r["period_scalars"]
            A.prop(f"{k} scalars", set(ps.columns) == sc)
            same_index(A, f"{k} periods", ps.index, years)
            for x in sc:
                column(A, f"{k} {x}", ps[x], data[x][1], t.P)
            seq = r["sequences"]
            A.prop(f"{k} sequences",
                   set(seq.columns) == set(data) - sc)
            same_index(A, f"{k}", seq.index, idx)
            for x in set(data) - sc:
                column(A, f"{k} {x}", seq[x],
                       {s: v for s, v in data[x][1].items()}, t.T)
        for n in buses:
            seq = res[n, None]["sequences"]
            same_index(A, f"{n} duals", seq.index, idx)
            column(A, f"{n} duals", seq["duals"],
                   {s: Z(w.d[n, s]) for s in t.steps}, t.T)

    return Scenario(name, build_for(mk, kinds, remove, duals), spec,
                    bounds=bounds)


hours = lambda S: es_hours(S, 3)
four = lambda S: es_hours(S, 4)
sym = lambda S: es_sym(S, 3)
mp = lambda S: es_periods(S)
two = lambda S: es_hours(S, 2)
mpf = lambda S: es_periods(S, ((2030, 2), (2035, 3)), final=True)
mp3 = lambda S: es_periods(S, ((2030, 2), (2035, 3), (2042, 2)))
ALL = ("source", "invest", "optional", "offset", "onoff", "onoff-invest",
       "storage", "storage-invest", "storage-optional")
SCENARIOS = [
    standard("all-kinds", hours, "3 hours, all kinds of components", ALL),
    standard("all-kinds-cut", hours, "3 hours, all kinds of components", ALL,
             True),
    standard("two-steps", two, "2 hours",
             ("source", "storage", "onoff", "onoff-invest")),
    standard("two-steps-cut", two, "2 hours",
             ("source", "storage", "onoff", "storage-optional"), True),
    standard("explicitly-not-cut", four, "4 hours",
             ("source", "storage", "onoff", "storage-optional"), False),
    standard("arbitrary-steps", sym, "3 steps of any length",
             ("source", "onoff", "invest", "storage")),
    standard("arbitrary-steps-cut", sym, "3 steps of any length",
             ("source", "onoff", "storage-invest"), True),
    standard("tuple-labels", hours, "3 hours, tuples as labels",
             ("source", "storage", "invest", "onoff", "tuples"), duals=True),
    standard("duals", hours, "3 hours", ("source", "storage", "invest"),
             duals=True),
    standard("duals-cut", sym, "3 steps of any length", ("source", "invest"),
             True, duals=True),
    periods("multi-period", mp, "2 periods x 2 steps",
            ("source", "optional", "invest", "onoff", "storage",
             "storage-optional", "offset")),
    periods("multi-period-three", mp3, "3 periods of 2, 3 and 2 steps",
            ("source", "invest", "storage-invest")),
    periods("multi-period-cut", mp, "2 periods x 2 steps",
            ("source", "invest", "onoff", "storage"), True),
    periods("multi-period-final-point-cut", mpf, "2 periods x 2 steps, time "
            "index with the end of the last step",
            ("source", "invest", "onoff", "storage", "storage-invest"), True),
    periods("multi-period-duals", mp, "2 periods x 2 steps",
            ("source", "invest"), duals=True),
    standard("own-variables", hours, "3 hours, variables of users",
             ("source", "storage", "invest"), after=own),
    standard("own-variables-duals", hours, "3 hours, variables of users",
             ("source", "invest"), duals=True, after=own),
    standard("own-variables-duals-cut", hours, "3 hours, variables of users",
             ("source", "invest"), True, duals=True, after=own),
]
