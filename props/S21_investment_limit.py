"""Budgets for investments and limits of weighted capacities."""
from fractions import Fraction

from props.S07_invest_costs import FLOW_RATE
from props.S07_invest_costs import anf
from symsolph.api import *

C = solph.constraints
RATE = Fraction(7, 100)
EPS = Fraction(1, 10**9)


def unit(S, t, i, kind, b, cp=None):
    """one investment; kinds: flow, offset, onoff, onoff-offset, storage,
    storage-offset"""
    P = t.P
    ikw = dict(ep_costs=S.reals(f"ep{i}", P, 0) if P > 1
               else S.real(f"ep{i}", 0), maximum=S.pos(f"max{i}"))
    if P > 1:
        ikw["lifetime"] = 30
    if "offset" in kind:
        ikw.update(nonconvex=True, offset=S.reals(f"off{i}", P, 0)
                   if P > 1 else S.real(f"off{i}", 0))
    if cp is not None:
        ikw["custom_properties"] = cp
    inv = Investment(**ikw)
    if "storage" in kind:
        return cmp.GenericStorage(
            f"n{i}", inputs={b: Flow()}, outputs={b: Flow()},
            nominal_capacity=inv, balanced=False,
            **(dict(initial_storage_level=0) if P == 1 else {}))
    kw = dict(nonconvex=NonConvex()) if "onoff" in kind else {}
    return cmp.Source(f"n{i}", outputs={b: Flow(nominal_capacity=inv, **kw)})


def describe(S, w, X, A):
    """admissible operation; returns the invested capacities and decisions"""
    m, t = w.m, w.t
    PS = range(t.P)
    A.observe(m.flow)
    par = lambda n, p: Z(S.params[f"{n}_{p}"] if f"{n}_{p}" in S.params
                         else S.params[n])
    out = []
    for i, (kind, n) in enumerate(zip(w.kinds, w.nodes)):
        if "storage" in kind:
            B, key = m.GenericInvestmentStorageBlock, (n,)
        elif "onoff" in kind:
            B, key = m.InvestNonConvexFlowBlock, (n, w.b)
        else:
            B, key = m.InvestmentFlowBlock, (n, w.b)
        inv = [X.expr(B.invest[(*key, p)]) for p in PS]
        A.observe(B.invest)
        y = None
        if "offset" in kind:
            A.observe(B.invest_status)
            y = [X.expr(B.invest_status[(*key, p)]) for p in PS]
        for p in PS:
            A.ge(f"nonneg {i}@{p}", inv[p], 0)
            if y:
                A.prop(f"binary {i}@{p}", Or(y[p] == 0, y[p] == 1))
                A.le(f"max {i}@{p}", inv[p], y[p] * par(f"max{i}", p))
            else:
                A.le(f"max {i}@{p}", inv[p], par(f"max{i}", p))
        cap = [Sum(inv[:p + 1]) for p in PS]
        if hasattr(B, "total"):
            A.observe(B.total)
            for p in PS:
                A.eq(f"total {i}@{p}", X.expr(B.total[(*key, p)]), cap[p])
        out.append((inv, y))
        if "storage" in kind:
            A.observe(B.storage_content)
            c = [X.expr(B.storage_content[n, s]) for s in range(t.T + 1)]
            A.eq(f"start {i}", c[0], 0)
            for s in t.steps:
                fi = X.expr(m.flow[w.b, n, s])
                fo = X.expr(m.flow[n, w.b, s])
                A.ge(f"in {i}@{s}", fi, 0)
                A.ge(f"out {i}@{s}", fo, 0)
                A.eq(f"balance {i}@{s}", c[s + 1],
                     c[s] + (fi - fo) * Z(t.dt[s]))
                A.ge(f"content min {i}@{s}", c[s + 1], 0)
                A.le(f"content max {i}@{s}", c[s], cap[t.period[s]])
            A.le(f"content max {i} end", c[t.T], cap[-1])
        else:
            for s in t.steps:
                v = X.expr(m.flow[n, w.b, s])
                A.ge(f"lower {i}@{s}", v, 0)
                if "onoff" in kind:
                    A.observe(B.status)
                    st = X.expr(B.status[n, w.b, s])
                    A.prop(f"status {i}@{s}", Or(st == 0, st == 1))
                    A.prop(f"off {i}@{s}", Implies(st == 0, v == 0))
                q = t.period[s]
                if "onoff" in kind and t.P > 1:
                    # (earlier investments: not claimed)
                    A.le(f"upper {i}@{s}", v, cap[q], complete=False)
                    A.le(f"accepts {i}@{s}", v, inv[q], sound=False)
                else:
                    A.le(f"upper {i}@{s}", v, cap[q])
    return out


def expenses(S, w, out, p):
    """investment expenses in period p: amount and remaining value"""
    t = w.t
    par = lambda n, q: Z(S.params[f"{n}_{q}"] if f"{n}_{q}" in S.params
                         else S.params[n])
    tot, rem = rv(0), rv(0)
    for i, (kind, (inv, y)) in enumerate(zip(w.kinds, out)):
        c, o = par(f"ep{i}", p), rv(0)
        if y:
            o = par(f"off{i}", p)
        if t.P > 1:
            ir = RATE if "storage" in kind else FLOW_RATE
            d = min(t.end_year - t.years[p], 30)
            if w.remaining and t.end_year - t.years[p] < 30:
                rem = rem + inv[p] * (par(f"ep{i}", t.P - 1) - c)
                if y:
                    rem = rem + y[p] * (par(f"off{i}", t.P - 1) - o)
            c = c * rv(anf(30, ir) / anf(d, ir))
        tot = tot + inv[p] * c
        if y:
            tot = tot + y[p] * o
    return tot, rem


def magnitude(S, w, out):
    t = w.t
    s = rv(0)
    for i, (inv, y) in enumerate(out):
        for p in range(t.P):
            for nm in ("ep", "off"):
                for q in range(t.P):
                    n = f"{nm}{i}_{q}" if t.P > 1 else f"{nm}{i}"
                    if n in S.params:
                        s = s + Z(S.params[n]) * (
                            inv[p] if nm == "ep" else y[p])
    return s


def scn(name, kinds, bounds, mk=lambda S: es_hours(S, 2), total=True,
        per=None, remaining=False, ret=False, tier="quick"):
    def build(S):
        t = (mk(S, use_remaining_value=True) if remaining else mk(S))
        b = Bus("b", balanced=False)
        nodes = [unit(S, t, i, k, b) for i, k in enumerate(kinds)]
        t.es.add(b, *nodes)
        m = model(t, discount_rate=0.07) if t.P > 1 else model(t)
        if total:
            r = C.investment_limit(m, limit=S.real("budget"))
            assert r is m
        lim = None
        if per:
            lim = (S.reals("budget_of", t.P) if per == "list"
                   else S.real("budget_of"))
            r = C.investment_limit_per_period(m, limit=lim)
            assert r is m
            lim = list(lim) if per == "list" else [lim] * t.P
        return W(m=m, t=t, b=b, nodes=nodes, kinds=kinds, lim=lim,
                 remaining=remaining)

    def spec(S, w, X, A):
        out = describe(S, w, X, A)
        cost = rv(0)
        tol = EPS * magnitude(S, w, out) if w.t.P > 1 else None

        def limit(label, c, lim):
            if tol is None:
                A.le(label, c, lim)
            else:
                A.le(label, c - tol, lim, complete=False)
                A.le(label + " (accepts)", c + tol, lim, sound=False)

        for p in range(w.t.P):
            c, r = expenses(S, w, out, p)
            cost = cost + c + r
            if per:
                limit(f"budget of period {p}", c, Z(w.lim[p]))
        if total:
            limit("budget", cost, Z(S.params["budget"]))

    return Scenario(name, build, spec, bounds=bounds, tier=tier)


def weighted(name, kinds, props, bounds, mk=lambda S: es_hours(S, 2),
             two=False):
    """props: per unit None (no custom properties), '' (others), keyword"""

    def build(S):
        t = mk(S)
        b = Bus("b", balanced=False)
        nodes = []
        for i, (k, q) in enumerate(zip(kinds, props)):
            cp = None
            if q is not None:
                cp = {}
                for nm in q.split("+"):
                    cp[nm or "other"] = x = S.real(f"w{nm}{i}")
                    if nm:
                        S.assume(x != 0)
            nodes.append(unit(S, t, i, k, b, cp))
        t.es.add(b, *nodes)
        m = model(t)
        C.additional_investment_flow_limit(m, "space", limit=S.real("L"))
        if two:
            C.additional_investment_flow_limit(m, "staff", limit=S.real("M"))
        return W(m=m, t=t, b=b, nodes=nodes, kinds=kinds)

    def spec(S, w, X, A):
        out = describe(S, w, X, A)
        for nm, lim in (("space", "L"), ("staff", "M"))[:1 + two]:
            tot = Sum(x * Z(S.params[f"w{nm}{i}"])
                      for i, (inv, y) in enumerate(out) for x in inv
                      if f"w{nm}{i}" in S.params
                      and "storage" not in kinds[i])
            A.le(nm, tot, Z(S.params[lim]))
            A.eq("reported " + nm,
                 X.expr(getattr(w.m, "invest_limit_" + nm)), tot)

    return Scenario(name, build, spec, bounds=bounds)


def missing(name, multi):
    def build(S):
        t = mp(S) if multi else es_hours(S, 2)
        b = Bus("b", balanced=False)
        nodes = [unit(S, t, 0, "flow", b)]
        t.es.add(b, *nodes)
        m = model(t)
        if S.boolean("given"):
            C.investment_limit_per_period(m, limit=S.real("budget"))
        else:
            C.investment_limit_per_period(m)
        return W(m=m, t=t, b=b, nodes=nodes, kinds=["flow"],
                 remaining=False)

    def errors(S):
        return must_raise(not (multi and S.params["given"]), ValueError)

    def spec(S, w, X, A):
        out = describe(S, w, X, A)
        tol = EPS * magnitude(S, w, out)
        for p in range(w.t.P):
            c, r = expenses(S, w, out, p)
            A.le(f"budget@{p}", c - tol, S.params["budget"], complete=False)
            A.le(f"budget@{p} (accepts)", c + tol, S.params["budget"],
                 sound=False)

    return Scenario(name, build, spec, errors=errors,
                    bounds="single period" if not multi else "2 periods")


mp = lambda S, **kw: es_periods(S, ((2030, 1), (2035, 2)), dt=[1, 1, 1],
                                last=3, **kw)
B = "2 steps"
M = "2 periods (years 0, 5)"
SCENARIOS = [
    scn("flows", ("flow", "offset"), B),
    scn("storages", ("storage", "storage-offset"), B),
    scn("flow-and-storage", ("flow", "storage"), B),
    scn("on-off", ("onoff", "onoff-offset"), B),
    scn("all-kinds", ("flow", "storage", "onoff"), B),
    scn("multi-period-total", ("flow", "storage"), M, mp),
    scn("multi-period-offset", ("offset", "flow"), M, mp),
    scn("multi-period-offset-storage", ("storage-offset",), M, mp),
    scn("multi-period-offsets", ("offset", "storage-offset"), M, mp,
        tier="thorough"),
    scn("multi-period-each", ("flow", "storage"), M, mp, total=False,
        per="list"),
    scn("multi-period-each-scalar", ("offset",), M, mp, total=False,
        per="scalar"),
    scn("multi-period-several-flows", ("flow", "flow", "offset"), M, mp,
        total=False, per="list"),
    scn("multi-period-several-offsets", ("offset", "offset"), M, mp,
        total=False, per="scalar"),
    scn("multi-period-several-storages", ("storage", "storage-offset"), M, mp,
        total=False, per="list"),
    scn("multi-period-storages", ("storage", "storage"), M, mp,
        total=False, per="scalar"),
    scn("multi-period-both", ("storage-offset",), M, mp, per="list"),
    scn("multi-period-remaining", ("flow", "storage-offset"), M, mp,
        per="list", remaining=True),
    weighted("weighted", ("flow", "offset", "storage"),
             ("space", "space+staff", "space"), B, two=True),
    weighted("weighted-some", ("flow", "flow"), ("space", ""), B),
    weighted("weighted-without-properties", ("flow", "flow"),
             ("space", None), B),
    weighted("weighted-on-off", ("flow", "onoff"), ("space", "space"), B),
    weighted("weighted-multi-period", ("flow", "offset"),
             ("space", "space"), M, mp),
    weighted("weighted-multi-period-on-off", ("onoff", "flow"),
             ("space", "space"), M, mp),
    missing("per-period-invalid", False),
    missing("per-period-missing", True),
]
