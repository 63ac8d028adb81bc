"""solph.Results: every value of the solution is found at its place."""
import pandas as pd
import pyomo.environ as po
from oemof.network.network.nodes import QualifiedLabel

from symsolph.api import *


def system(S, t, kinds):
    """an energy system with the given kinds of components"""
    lt = dict(lifetime=20) if t.P > 1 else {}
    # (labels start with the labels of others)
    lab = {k: "u" + "2" * i for i, k in enumerate(("a", "b", *ALL))}.get
    if "tuples" in kinds:  # tuples which start with the same entry
        lab = {k: QualifiedLabel(("u", *[2] * i))
               for i, k in enumerate(("a", "b", *ALL))}.get
    a, b = Bus(lab("a")), Bus(lab("b"))
    t.es.add(a, b)
    n = {}
    inv = lambda name, **kw: Investment(
        ep_costs=S.real(f"ep_{name}"), **{**lt, **kw})
    if "source" in kinds:
        n["source"] = cmp.Source(lab("source"), outputs={a: Flow(
            nominal_capacity=S.pos("P"),
            variable_costs=S.reals("c", t.T))})
        n["feedin"] = cmp.Source(lab("feedin"), outputs={b: Flow(
            variable_costs=S.real("cf"))})
    if "invest" in kinds:
        n["invest"] = cmp.Sink(lab("invest"), inputs={b: Flow(
            nominal_capacity=inv("i"))})
    if "optional" in kinds:
        n["optional"] = cmp.Converter(
            lab("optional"), inputs={a: Flow()}, outputs={b: Flow(nominal_capacity=inv(
                "o", nonconvex=True, maximum=S.pos("mx"),
                offset=S.real("off")))})
    if "offset" in kinds:
        n["offset"] = cmp.Source(lab("offset"), outputs={b: Flow(
            nominal_capacity=inv("f", offset=S.real("offf"), nonconvex=True,
                                 maximum=S.pos("mxf")),
            variable_costs=S.reals("d", t.T))})
    if "onoff" in kinds:
        n["onoff"] = cmp.Source(lab("onoff"), outputs={a: Flow(
            nominal_capacity=S.pos("Q"), minimum=S.pos("mn"),
            nonconvex=NonConvex(startup_costs=S.real("su")))})
    if "onoff-invest" in kinds:
        n["onoff-invest"] = cmp.Source(lab("onoff-invest"), outputs={a: Flow(
            nominal_capacity=inv("n", maximum=S.pos("mxn")),
            minimum=S.pos("mnn"), nonconvex=NonConvex())})
    if "storage" in kinds:
        n["storage"] = cmp.GenericStorage(
            lab("storage"), inputs={a: Flow(variable_costs=S.real("cs"))},
            outputs={a: Flow()}, nominal_capacity=S.pos("E"))
    if "storage-invest" in kinds:
        n["storage-invest"] = cmp.GenericStorage(
            lab("storage-invest"), inputs={b: Flow()}, outputs={b: Flow()},
            nominal_capacity=inv("s"))
    if "storage-optional" in kinds:
        n["storage-optional"] = cmp.GenericStorage(
            lab("storage-optional"), inputs={b: Flow()}, outputs={b: Flow(
                nominal_capacity=inv("so", nonconvex=True,
                                     maximum=S.pos("mxso")))},
            nominal_capacity=inv(
                "sc", nonconvex=True, maximum=S.pos("mxs"),
                offset=S.real("offs")))
    if "both" in kinds:
        # one node with several flows
        n["both"] = cmp.Source(lab("both"), outputs={
            b: Flow(variable_costs=S.reals("cb", t.T),
                    nominal_capacity=inv("b", maximum=S.pos("mxb"))),
            a: Flow(variable_costs=S.reals("ca", t.T),
                    nominal_capacity=inv("a", offset=S.real("offa"),
                                         nonconvex=True,
                                         maximum=S.pos("mxa")))})
    t.es.add(*n.values())
    return a, b, n


def find(df, key):
    """column of a DataFrame, by its complete key"""
    key = key if isinstance(key, tuple) else (key,)
    norm = lambda c: c if isinstance(c, tuple) else (c,)
    hits = [i for i, c in enumerate(df.columns) if norm(c) == key]
    return df.iloc[:, hits[0]] if len(hits) == 1 else None


def values(name, mk, bounds, kinds, unset=False):
    def build(S):
        t = mk(S)
        a, b, n = system(S, t, kinds)
        m = model(t)
        skip = ()
        if unset:  # (the solver did not need these variables)
            m.own = po.Block()
            m.own.extra = po.Var(m.FLOWS, m.TIMESTEPS)
            skip = [v.name for k, v in m.own.extra.items()
                    if k[0] is a or k[-1] == 1]
            skip.append(m.flow[n["feedin"], b, 1].name)
            m.flow[n["feedin"], b, 1].value = None
            for x in m.component_data_objects(po.Objective):
                x.set_value(0)
        r = solve_stub(S, m, skip=skip)
        return W(mm=m, t=t, a=a, b=b, n=n, r=r, skip=skip)

    def spec(S, w, X, A):
        m, t, r = w.mm, w.t, w.r
        idx = t.es.timeindex
        names = {}
        for v in m.component_data_objects(po.Var):
            k = v.parent_component().local_name
            i = v.index()
            names.setdefault(k, []).append(
                (i if isinstance(i, tuple) else (i,), v))
        for k, data in sorted(names.items()):
            A.prop(f"{k} is a key", k in r and k in r.keys())
            df, df2 = r.get(k), r[k]
            sub = [str(s.name) for s in
                   data[0][1].parent_component().index_set().subsets()]
            last = sub[-1]
            rows = sorted({i[-1] for i, _ in data}) if last in (
                "TIMESTEPS", "TIMEPOINTS", "PERIODS") else None
            cols = {i[:-1] for i, _ in data}
            if rows is None:
                # at least nothing gets lost or moved
                for i, v in data:
                    c = find(df, i[:-1])
                    if c is None:
                        continue
                    A.eq(f"{k}{i}", Z(c[i[-1]]), solution(S, v))
                continue
            A.prop(f"{k}: number of rows", len(df) == len(rows))
            A.prop(f"{k}: number of columns", df.shape[1] == len(cols))
            label = list(rows)
            if last == "TIMESTEPS" or (
                    last == "TIMEPOINTS" and len(idx) == len(rows)):
                label = list(idx[:len(rows)])
            for x, y in zip(df.index, label):
                if isinstance(y, pd.Timestamp) or isinstance(y, int):
                    A.prop(f"{k}: row {y}", x == y)
                else:
                    A.eq(f"{k}: row", Z(x), Z(y))
            for i, v in data:
                c, c2 = find(df, i[:-1]), find(df2, i[:-1])
                A.prop(f"{k}{i}: column", c is not None and c2 is not None)
                if c is None or c2 is None:
                    continue
                if v.name in w.skip:
                    for x in (c, c2):
                        x = x.iloc[rows.index(i[-1])]
                        A.prop(f"{k}{i} is unknown", x is None or x != x)
                    continue
                A.eq(f"{k}{i}", Z(c.iloc[rows.index(i[-1])]),
                     solution(S, v))
                A.eq(f"{k}{i} by brackets",
                     Z(c2.iloc[rows.index(i[-1])]), solution(S, v))
        A.prop("time index", r.timeindex is idx)
        A.eq("objective", Z(r["objective"]), Z(m.objective()))
        for k in r.keys():
            A.prop(f"{k} in results", k in r)
        # (what the solver reports, as in former versions)
        sr = w.mm.solver_results
        for k in sr.keys():
            A.prop(f"{k} is a key", k in r and k in r.keys())
            A.prop(f"{k} of the solver", r[k] is sr[k])
        for k in ("nothing", "", "sources", 3, None):
            A.prop(f"{k!r} not in results", k not in r)
            A.prop(f"{k!r} has default", r.get(k, 42) == 42)
            A.prop(f"{k!r} has no value", r.get(k) is None)
            for f in (r.__getitem__, r.to_df):
                try:
                    f(k)
                    A.prop(f"{k!r} raises", False)
                except KeyError:
                    pass

    return Scenario(name, build, spec, bounds=bounds)


def economy(name, mk, bounds, kinds, weights=False, invest=True):
    """costs per flow and investment; they add up to the objective"""

    def build(S):
        t = mk(S)
        a, b, n = system(S, t, kinds)
        kw = {}
        if weights:
            kw["objective_weighting"] = S.reals("weight", t.T, 0)
        m = model(t, **kw)
        r = solve_stub(S, m)
        return W(mm=m, t=t, a=a, b=b, n=n, r=r)

    def spec(S, w, X, A):
        m, t, r, n = w.mm, w.t, w.r, w.n
        sol = lambda v: solution(S, v)
        P = lambda k: Z(S.params[k])
        var = r["variable_costs"]
        wt = [P(f"weight_{s}") if weights else Z(t.dt[s]) for s in t.steps]
        cost = {}
        if "source" in n:
            cost[n["source"], w.a] = [P(f"c_{s}") for s in t.steps]
            cost[n["feedin"], w.b] = [P("cf")] * t.T
        if "offset" in n:
            cost[n["offset"], w.b] = [P(f"d_{s}") for s in t.steps]
        if "storage" in n:
            cost[w.a, n["storage"]] = [P("cs")] * t.T
        if "both" in n:
            cost[n["both"], w.a] = [P(f"ca_{s}") for s in t.steps]
            cost[n["both"], w.b] = [P(f"cb_{s}") for s in t.steps]
        total = []
        A.prop("costs are keys", "variable_costs" in r.keys()
               and "variable_costs" in r
               and (not invest or "investment_costs" in r.keys()
                    and "investment_costs" in r))
        A.prop("a column per flow", var.shape == (t.T, len(m.FLOWS)))
        for i, o in m.FLOWS:
            c = find(var, (i, o))
            A.prop(f"column {i},{o}", c is not None)
            for s in t.steps:
                x = cost.get((i, o), [rv(0)] * t.T)[s] * sol(
                    m.flow[i, o, s]) * wt[s] * Z(t.w[s])
                A.eq(f"variable costs {i},{o}@{s}", Z(c.iloc[s]), x)
                total.append(x)
        if not invest:
            A.prop("no investments",
                   r.get("investment_costs").empty
                   and "investment_costs" not in r.keys())
            if t.P > 1:  # (not discounted)
                return
            A.eq("sum", Z(r["objective"]), Sum(total))
            return
        # (all optimised capacities)
        cap = r["investment_costs"]
        IF, IN = m.InvestmentFlowBlock, m.InvestNonConvexFlowBlock
        IS = getattr(m, "GenericInvestmentStorageBlock", None)
        exp = {}
        if "invest" in n:
            k = (w.b, n["invest"])
            exp[k] = P("ep_i") * sol(IF.invest[(*k, 0)])
        if "optional" in n:
            k = (n["optional"], w.b)
            exp[k] = (P("ep_o") * sol(IF.invest[(*k, 0)])
                      + P("off") * sol(IF.invest_status[(*k, 0)]))
        if "offset" in n:
            k = (n["offset"], w.b)
            exp[k] = (P("ep_f") * sol(IF.invest[(*k, 0)])
                      + P("offf") * sol(IF.invest_status[(*k, 0)]))
        if "both" in n:
            k = (n["both"], w.b)
            exp[k] = P("ep_b") * sol(IF.invest[(*k, 0)])
            k = (n["both"], w.a)
            exp[k] = (P("ep_a") * sol(IF.invest[(*k, 0)])
                      + P("offa") * sol(IF.invest_status[(*k, 0)]))
        if "onoff-invest" in n:
            k = (n["onoff-invest"], w.a)
            exp[k] = P("ep_n") * sol(IN.invest[(*k, 0)])
        if "storage-invest" in n:
            k = n["storage-invest"]
            exp[k] = P("ep_s") * sol(IS.invest[k, 0])
        if "storage-optional" in n:
            k = n["storage-optional"]
            exp[k] = (P("ep_sc") * sol(IS.invest[k, 0])
                      + P("offs") * sol(IS.invest_status[k, 0]))
            k = (n["storage-optional"], w.b)
            exp[k] = P("ep_so") * sol(IF.invest[(*k, 0)])
        A.prop("a column per investment", cap.shape == (1, len(exp)))
        for k, x in exp.items():
            c = find(cap, k)
            A.prop(f"column {k}", c is not None)
            if c is not None:
                A.eq(f"investment costs {k}", Z(c.iloc[0]), x)
            total.append(x)
        A.eq("sum", Z(r["objective"]), Sum(total))

    return Scenario(name, build, spec, bounds=bounds)


hours = lambda S: es_hours(S, 3)
sym = lambda S: es_sym(S, 3)
one = lambda S: es_sym(S, 1)
mp = lambda S: es_periods(S)
ts = lambda S: es_tsam(S, (0, 1, 0))
seg = lambda S: es_tsam(S, (0, 1, 0), segments=True)
tsm = lambda S: es_tsam_periods(S)
ALL = ("source", "invest", "optional", "offset", "onoff", "onoff-invest",
       "storage", "storage-invest", "storage-optional", "both")
SCENARIOS = [
    values("all-kinds", hours, "3 hours, all kinds of components", ALL),
    values("tuple-labels", hours, "3 hours, all kinds of components, tuples "
           "as labels", (*ALL, "tuples")),
    values("unset", hours, "3 hours, variables without value",
           ("source", "invest", "storage"), unset=True),
    values("arbitrary-steps", sym, "3 steps of any length",
           ("source", "onoff", "invest", "storage")),
    values("one-step", one, "1 step", ("source", "onoff-invest", "onoff",
                                       "storage")),
    values("multi-period", mp, "2 periods x 2 steps",
           ("source", "optional", "invest", "onoff", "storage",
            "storage-optional")),
    values("typical", ts, "2 typical periods",
           ("source", "optional", "onoff", "storage")),
    values("segments", seg, "2 typical periods with segments",
           ("source", "optional", "storage-invest")),
    values("typical-multi-period", tsm, "2 periods",
           ("source", "optional", "storage")),
    economy("costs", sym, "3 steps of any length", ("source", "storage"),
            invest=False),
    economy("costs-weighted", sym, "3 steps of any length",
            ("source", "storage"), weights=True, invest=False),
    economy("costs-hours", hours, "3 hours, all kinds of investments",
            tuple(k for k in ALL if k != "onoff")),
    economy("costs-tuple-labels", hours, "3 hours, tuples as labels",
            ("source", "invest", "optional", "storage-invest", "tuples")),
    economy("costs-invest", sym, "3 steps of any length",
            ("source", "invest", "optional")),
    economy("costs-storages", sym, "3 steps of any length",
            ("storage", "storage-invest")),
    economy("costs-storage-optional", sym, "3 steps of any length",
            ("storage-optional",)),
    economy("costs-several-flows", sym, "3 steps of any length",
            ("source", "both", "optional")),
    economy("costs-typical", ts, "2 typical periods",
            ("source", "optional", "offset", "storage")),
    economy("costs-typical-multi-period", tsm, "2 periods",
            ("source", "storage"), invest=False),
    economy("costs-multi-period", mp, "2 periods x 2 steps",
            ("source", "storage"), invest=False),
    economy("costs-segments", seg, "2 typical periods",
            ("source", "invest", "storage-invest")),
]
