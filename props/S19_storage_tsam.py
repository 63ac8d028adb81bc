"""Storages with aggregated time series: the content follows from running
through the typical periods in their original order."""
from symsolph.api import *


def scn(name, mk, bounds, kind="scalar", init=None, balanced=True,
        loss="", invest=False, n=1, end=False, costs=False, lims="scalar", falling=False,
        tier="quick"):
    def build(S):
        t = mk(S)
        a, b = Bus("a", balanced=False), Bus("b", balanced=False)
        t.es.add(a, b)
        nodes, par = [], {}
        for k in range(n):
            def seq(nm, lo=0, hi=None, kind=kind):
                if kind == "list":
                    v = S.reals(f"{nm}{k}", t.T, lo, hi)
                    par[nm, k] = list(v)
                else:
                    v = S.real(f"{nm}{k}", lo, hi)
                    par[nm, k] = [v] * t.T
                return v

            kw = {}
            kw["min_storage_level"] = seq("lo", 0, 1, lims)
            kw["max_storage_level"] = seq("hi", 0, 1, lims)
            kw["inflow_conversion_factor"] = seq("ei")
            kw["outflow_conversion_factor"] = seq("eo")
            for x in par["eo", k]:
                S.assume(x > 0)
            if "l" in loss:
                kw["loss_rate"] = seq("loss", 0, 1)
            if "r" in loss:
                kw["fixed_losses_relative"] = seq("rel")
            if "a" in loss:
                kw["fixed_losses_absolute"] = seq("abs")
            for nm in ("rel", "abs"):
                for x in par.get((nm, k), ()):
                    S.assume(x > 0)
            if falling:
                # (saves paths: the largest value is looked up)
                for x, y in zip(par["abs", k], par["abs", k][1:]):
                    S.assume(x >= y)
            if init is not None:
                kw["initial_storage_level"] = S.real(f"init{k}")
            if costs:
                kw["storage_costs"] = seq("sc", None, None, lims)
            ikw = {}
            if invest:
                ikw = dict(maximum=S.real(f"imax{k}", 0),
                           ep_costs=S.real(f"ep{k}"))
                if t.P > 1:
                    ikw["lifetime"] = 30
                else:
                    ikw["existing"] = S.real(f"ex{k}", 0)
                    if "a" in loss:
                        ikw["minimum"] = S.pos(f"imin{k}")
            nodes.append(cmp.GenericStorage(
                f"st{k}", inputs={a: Flow()}, outputs={b: Flow()},
                balanced=balanced, nominal_capacity=Investment(**ikw)
                if invest else S.pos(f"E{k}"), **kw))
        t.es.add(*nodes)
        return W(m=model(t), t=t, nodes=nodes, a=a, b=b, par=par)

    def spec(S, w, X, A):
        m, par, t = w.m, w.par, w.t
        B = m.GenericInvestmentStorageBlock if invest else (
            m.GenericStorageBlock)
        A.observe(m.flow)
        cost = z3.RealVal(0)
        P = lambda nm, k: Z(S.params[f"{nm}{k}"])
        for k, node in enumerate(w.nodes):
            if invest:
                A.observe(B.invest, B.total)
                tot = []
                for p in range(t.P):
                    inv = X.expr(B.invest[node, p])
                    tot.append(X.expr(B.total[node, p]))
                    A.ge(f"invest nonneg {k}@{p}", inv, 0)
                    A.le(f"invest max {k}@{p}", inv, P("imax", k))
                    if "a" in loss:
                        A.ge(f"invest min {k}@{p}", inv, P("imin", k))
                    if p:
                        A.eq(f"total {k}@{p}", tot[p], tot[p - 1] + inv)
                    else:
                        A.eq(f"total {k}@{p}", tot[0], inv + (
                            P("ex", k) if t.P == 1 else 0))
            else:
                tot = [P("E", k)] * t.P
            fl = {}
            for s in t.steps:
                fl[s] = (X.expr(m.flow[w.a, node, s]),
                         X.expr(m.flow[node, w.b, s]))
                A.ge(f"in nonneg {k}@{s}", fl[s][0], 0)
                A.ge(f"out nonneg {k}@{s}", fl[s][1], 0)

            def keep(s):
                return (Z((1 - par["loss", k][s]) ** t.dt[s])
                        if "l" in loss else z3.RealVal(1))

            def change(s, p):
                d = fl[s][0] * Z(par["ei", k][s]) - (
                    fl[s][1] * Z(1 / par["eo", k][s]))
                if "r" in loss:
                    d = d - Z(par["rel", k][s]) * tot[p]
                if "a" in loss:
                    d = d - Z(par["abs", k][s])
                return d * Z(t.dt[s])

            # auxiliary: changes within the typical periods
            for p in range(t.P):
                for c in range(t.typical[p]):
                    d = z3.RealVal(0)
                    A.define(B.intra_storage_delta[node, p, c, 0], d)
                    for g in range(t.per[p]):
                        s = t.offset[p] + c * t.per[p] + g
                        d = d * keep(s) + change(s, p)
                        A.define(B.intra_storage_delta[node, p, c, g + 1],
                                 d)
            A.observe(B.inter_storage_content[node, 0])
            content = first = X.expr(B.inter_storage_content[node, 0])
            if init is not None:
                A.eq(f"initial {k}", first, tot[0] * P("init", k))
            if invest and t.P == 1:
                # (follows from the limits below; eases the solver's task)
                A.le(f"content max at start {k}", first, tot[0])
            pos = 0
            for p in range(t.P):
                for c in t.order[p]:
                    for g in range(t.per[p]):
                        s = t.offset[p] + c * t.per[p] + g
                        # (a fixed initial level is checked beforehand)
                        given = (init is not None and not invest
                                 and lims == "scalar"
                                 and pos == 0 and g == 0)
                        A.ge(f"content min {k}@{p},{pos},{g}", content,
                             tot[p] * Z(par["lo", k][s]), complete=not given)
                        A.le(f"content max {k}@{p},{pos},{g}", content,
                             tot[p] * Z(par["hi", k][s]), complete=not given)
                        content = content * keep(s) + change(s, p)
                        if costs:
                            cost = cost + content * Z(par["sc", k][s])
                    pos += 1
                    A.define(B.inter_storage_content[node, pos], content)
                    if pos < sum(map(len, t.order)):
                        A.ge(f"content nonneg {k}@{p},{pos}", content, 0)
            if balanced:
                A.eq(f"balanced {k}", content, first)
            A.ge(f"content nonneg at end {k}", content, 0)
            if end:
                A.ge(f"content max at end {k}", tot[-1] * Z(par["hi", k][-1]),
                     content)
        if costs:
            A.objective(cost, "storage costs")

    def errors(S):
        if init is None:
            return must_raise(False, ValueError)
        bad = []
        for k in range(n):
            if f"init{k}" in S.params:
                q = "_0" if lims == "list" else ""
                v, lo, hi = (Z(S.params[x]) for x in (
                    f"init{k}", f"lo{k}{q}", f"hi{k}{q}"))
                bad.append(Or(v < lo, v > hi))
        return must_raise(Or(*bad), ValueError)

    return Scenario(name, build, spec, errors=errors, bounds=bounds,
                    tier=tier)


ts = lambda S: es_tsam(S, (1, 0, 1), 2)
hrs = lambda S: es_tsam(S, (0, 1, 0), 2, dt=[1, 1, 1, 1])
seg = lambda S: es_tsam(S, (1, 0, 1), 2, segments=True)
mp = lambda S: es_tsam_periods(
    S, ((2030, (0, 1, 0), 2), (2035, (1, 0), 2)), dt=[1] * 8)
B1 = "3 periods represented by 2 typical periods of 2 steps"
SCENARIOS = [
    scn("lossless", ts, B1),
    scn("losses", ts, B1, loss="lra", kind="list"),
    scn("losses-scalar", ts, B1, loss="lr"),
    scn("hourly", hrs, B1, loss="lr", kind="list"),
    scn("segments", seg, B1 + " (segments of 2 and 1 hours)", loss="lra",
        kind="list"),
    scn("initial", hrs, B1, init="sym", loss="l"),
    scn("two", hrs, B1 + ", 2 storages", n=2, loss="l"),
    scn("free-end", hrs, B1, balanced=False, init="sym"),
    scn("final-content", hrs, B1, balanced=False, end=True),
    scn("content-costs", hrs, B1, costs=True),
    scn("levels", hrs, B1, lims="list", balanced=False),
    scn("levels-initial", ts, B1, init="sym", lims="list", balanced=False),
    scn("periods-levels", mp, "2 periods with 3 and 2 original periods",
        lims="list"),
    scn("periods", mp, "2 periods with 3 and 2 original periods", loss="lr",
        kind="list"),
    scn("invest", hrs, B1, invest=True, balanced=False),
    scn("invest-losses", ts, B1, invest=True, loss="lr", kind="list",
        balanced=False),
    scn("invest-losses-absolute", ts, B1 + ", falling losses", invest=True,
        loss="a", kind="list", balanced=False, falling=True),
    scn("invest-losses-absolute-all", ts, B1, invest=True, loss="a",
        kind="list", balanced=False, tier="thorough"),
    scn("invest-levels", hrs, B1, invest=True, lims="list", balanced=False),
    scn("invest-levels-losses", hrs, B1, invest=True, lims="list",
        balanced=False, loss="l", kind="list"),
    scn("invest-segments", seg, B1 + " (segments of 2 and 1 hours)",
        invest=True, loss="lra", kind="list", balanced=False, falling=True),
    scn("invest-initial", hrs, B1, invest=True, init="sym", loss="l",
        balanced=False),
    scn("invest-balanced", hrs, B1, invest=True, balanced=True),
    scn("invest-periods", mp, "2 periods with 3 and 2 original periods",
        invest=True, loss="lr", balanced=False),
    scn("invest-periods-series", mp,
        "2 periods with 3 and 2 original periods",
        invest=True, loss="lr", kind="list", lims="list", balanced=False),
]
