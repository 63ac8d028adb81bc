"""Storages whose capacity is optimised (single period)."""
from symsolph import storespec
from symsolph.api import *


def scn(name, mk, bounds, kind="scalar", nonconvex=False, existing=False,
        init=None, balanced=True, rel="", loss="", lo="", limits=True,
        costs=False, flow_existing=False, fixed_cap=False, n=1,
        tier="quick"):
    def build(S):
        t = mk(S)
        a, b = Bus("a", balanced=False), Bus("b", balanced=False)
        t.es.add(a, b)
        nodes, par = [], {}
        for k in range(n):
            def seq(nm, lo=0, hi=None, extra=0, kind=kind):
                if kind == "list":
                    v = S.reals(f"{nm}{k}", t.T + extra, lo, hi)
                    par[nm, k] = list(v)
                else:
                    v = S.real(f"{nm}{k}", lo, hi)
                    par[nm, k] = [v] * (t.T + extra)
                return v

            kw, ikw = {}, {}
            if limits:
                ikw["maximum"] = S.real(f"imax{k}", 0)
                ikw["minimum"] = S.real(f"imin{k}", 0)
            if nonconvex:
                ikw["nonconvex"] = True
                ikw["offset"] = S.real(f"off{k}")
            if existing:
                ikw["existing"] = S.real(f"ex{k}", 0)
            if lo:
                kw["min_storage_level"] = seq("lo", 0, 1, 1)
                kw["max_storage_level"] = seq("hi", 0, 1, 1)
            elif kind == "list":
                kw["max_storage_level"] = seq("hi", 0, 1, 1)
            if "r" in loss:
                kw["fixed_losses_relative"] = seq("rel")
            if "a" in loss:
                kw["fixed_losses_absolute"] = seq("abs")
            if "l" in loss:
                kw["loss_rate"] = seq("loss", 0, 1)
            kw["inflow_conversion_factor"] = seq("ei")
            kw["outflow_conversion_factor"] = seq("eo")
            for x in par["eo", k]:
                S.assume(x > 0)
            if init is not None:
                kw["initial_storage_level"] = (
                    S.real(f"init{k}") if init == "sym" else init)
            if costs:
                kw["storage_costs"] = seq("sc", None)
            fin, fout = Flow(), Flow()
            fkw = lambda s: (dict(existing=S.real(f"fex{s}{k}", 0))
                             if flow_existing else {})
            if "i" in rel or "x" in rel:
                fin = Flow(nominal_capacity=Investment(
                    maximum=S.real(f"fi{k}", 0), ep_costs=1, **fkw("i")))
            if "o" in rel or "x" in rel:
                fout = Flow(nominal_capacity=Investment(
                    maximum=S.real(f"fo{k}", 0), ep_costs=1, **fkw("o")))
            if "i" in rel:
                kw["invest_relation_input_capacity"] = S.real(f"ri{k}", 0)
            if "o" in rel:
                kw["invest_relation_output_capacity"] = S.real(f"ro{k}", 0)
            if "x" in rel:
                kw["invest_relation_input_output"] = S.real(f"rx{k}", 0)
            if fixed_cap:
                cap = S.real(f"E{k}", 0)
            else:
                cap = Investment(ep_costs=S.real(f"ep{k}"), **ikw)
            nodes.append(cmp.GenericStorage(
                f"st{k}", inputs={a: fin}, outputs={b: fout},
                balanced=balanced, nominal_capacity=cap, **kw))
        t.es.add(*nodes)
        return W(m=model(t), t=t, nodes=nodes, a=a, b=b, par=par)

    def spec(S, w, X, A):
        m, par, T = w.m, w.par, w.t.T
        B = m.GenericStorageBlock if fixed_cap else (
            m.GenericInvestmentStorageBlock)
        A.observe(m.flow, B.storage_content)
        if not fixed_cap:
            A.observe(B.invest, B.total)
        if rel:
            A.observe(m.InvestmentFlowBlock.invest,
                      m.InvestmentFlowBlock.total)
        cost = z3.RealVal(0)
        P = lambda nm, k: Z(S.params[f"{nm}{k}"])
        for k, node in enumerate(w.nodes):
            c = [X.expr(B.storage_content[node, t]) for t in range(T + 1)]
            if fixed_cap:
                tot = P("E", k)
            else:
                inv = X.expr(B.invest[node, 0])
                tot = X.expr(B.total[node, 0])
                ex = P("ex", k) if existing else 0
                A.eq(f"total {k}", tot, inv + ex)
                A.ge(f"invest nonneg {k}", inv, 0)
                cost = cost + inv * P("ep", k)
            if nonconvex:
                y = X.expr(B.invest_status[node, 0])
                A.observe(B.invest_status[node, 0])
                A.prop(f"decision {k}", Or(y == 0, y == 1))
                A.le(f"invest max {k}", inv, y * P("imax", k))
                A.ge(f"invest min {k}", inv, y * P("imin", k))
                cost = cost + y * P("off", k)
            elif limits and not fixed_cap:
                A.le(f"invest max {k}", inv, P("imax", k))
                A.ge(f"invest min {k}", inv, P("imin", k))
            if init == "sym":
                A.eq(f"initial {k}", c[0], tot * P("init", k))
            elif init is not None:
                A.eq(f"initial {k}", c[0], tot * Z(init))
            if balanced:
                A.eq(f"balanced {k}", c[T], c[0])
            for t in range(T + 1):
                hi = Z(par["hi", k][t]) if ("hi", k) in par else 1
                A.le(f"content max {k}@{t}", c[t], tot * hi)
                low = Z(par["lo", k][t]) if lo else 0
                A.ge(f"content min {k}@{t}", c[t], tot * low)
            for t in w.t.steps:
                fi = X.expr(m.flow[w.a, node, t])
                fo = X.expr(m.flow[node, w.b, t])
                A.ge(f"in nonneg {k}@{t}", fi, 0)
                A.ge(f"out nonneg {k}@{t}", fo, 0)
                dt = w.t.dt[t]
                keep, fixed = z3.RealVal(1), z3.RealVal(0)
                if "l" in loss:
                    keep = Z((1 - par["loss", k][t]) ** dt)
                if "r" in loss:
                    fixed = fixed + Z(par["rel", k][t]) * tot * Z(dt)
                if "a" in loss:
                    fixed = fixed + Z(par["abs", k][t]) * Z(dt)
                if fixed_cap:
                    A.define(B.storage_losses[node, t],
                             c[t] * (1 - keep) + fixed)
                A.eq(f"balance {k}@{t}", c[t + 1],
                     c[t] * keep - fixed
                     + fi * Z(par["ei", k][t]) * Z(dt)
                     - fo * Z(dt) / Z(par["eo", k][t]))
                if costs:
                    cost = cost + c[t + 1] * Z(par["sc", k][t])
            if rel:
                IF = m.InvestmentFlowBlock
                ft = {}
                for s, key in (("i", (w.a, node)), ("o", (node, w.b))):
                    if s not in rel and "x" not in rel:
                        continue
                    fi = X.expr(IF.invest[(*key, 0)])
                    ft[s] = X.expr(IF.total[(*key, 0)])
                    A.ge(f"flow invest nonneg {s}{k}", fi, 0)
                    A.le(f"flow invest max {s}{k}", fi, P(f"f{s}", k))
                    A.eq(f"flow total {s}{k}", ft[s], fi + (
                        P(f"fex{s}", k) if flow_existing else 0))
                    for t in w.t.steps:
                        A.le(f"flow capacity {s}{k}@{t}",
                             X.expr(m.flow[(*key, t)]), ft[s])
                    cost = cost + fi
                if "i" in rel:
                    A.eq(f"input capacity {k}", ft["i"], tot * P("ri", k))
                if "o" in rel:
                    A.eq(f"output capacity {k}", ft["o"], tot * P("ro", k))
                if "x" in rel:
                    A.eq(f"input output {k}", ft["i"],
                         ft["o"] * P("rx", k))
        A.objective(cost, "costs")

    def errors(S):
        if init is None and "a" not in loss and not (
                nonconvex and existing) and rel != "iox":
            return must_raise(False, ValueError)
        bad = []
        for k in range(n):
            p = S.params
            if init == "sym" and f"init{k}" in p:
                v = Z(p[f"init{k}"])
                sfx = f"{k}_0" if kind == "list" else f"{k}"
                bad.append(Or(v < (Z(p["lo" + sfx]) if lo else 0),
                              v > (Z(p["hi" + sfx])
                                   if "hi" + sfx in p else 1)))
            if "a" in loss:
                allz = And(*[Z(x) == 0 for nm, x in p.items()
                             if nm == f"abs{k}"
                             or nm.startswith(f"abs{k}_")])
                ex = Z(p[f"ex{k}"]) if existing else z3.RealVal(0)
                mn = Z(p[f"imin{k}"]) if limits else z3.RealVal(0)
                bad.append(And(Not(allz), ex == 0, mn == 0))
            if nonconvex and existing and f"ex{k}" in p:
                bad.append(Z(p[f"ex{k}"]) != 0)
        if rel == "iox":
            bad.append(z3.BoolVal(True))
        return must_raise(Or(*bad), (AttributeError, ValueError))

    return Scenario(name, build, spec, errors=errors, bounds=bounds,
                    tier=tier)


s3 = lambda S: es_sym(S, 3)
s2 = lambda S: es_sym(S, 2)
h3 = lambda S: es_hours(S, 3)
SCENARIOS = [
    scn("plain", s3, "3 steps", limits=False),
    scn("limits-existing", s3, "3 steps", existing=True),
    scn("profiles", s2, "2 steps", kind="list", lo="y", existing=True,
        loss="rl"),
    scn("levels", s3, "3 steps", lo="y", existing=True, loss="l"),
    scn("absolute-losses", h3, "3 steps", loss="a", existing=True),
    scn("absolute-losses-profile", s2, "2 steps", loss="a", kind="list"),
    scn("relative-losses", h3, "3 steps", loss="r", existing=True),
    scn("nonconvex", h3, "3 steps", nonconvex=True),
    scn("nonconvex-two", s2, "2 steps, 2 storages", nonconvex=True, n=2,
        loss="l"),
    scn("nonconvex-existing", s2, "2 steps", nonconvex=True, existing=True),
    scn("initial", s2, "2 steps", init="sym", lo="y", existing=True),
    scn("initial-free-end", s2, "2 steps", init="sym", balanced=False),
    scn("initially-empty", h3, "3 steps", init=0, balanced=False,
        existing=True),
    scn("free-end", h3, "3 steps", balanced=False, kind="list"),
    scn("relation-in", h3, "3 steps", rel="i", existing=True),
    scn("relation-out", h3, "3 steps", rel="o", flow_existing=True),
    scn("relation-in-out", s2, "2 steps", rel="io", existing=True,
        flow_existing=True),
    scn("relation-flows", s2, "2 steps", rel="x", flow_existing=True),
    scn("relation-two", s2, "2 steps, 2 storages", rel="ix", n=2),
    scn("relation-overdetermined", s2, "2 steps", rel="iox"),
    scn("relation-fixed-capacity", s2, "2 steps", rel="x", fixed_cap=True,
        flow_existing=True),
    scn("content-costs", s3, "3 steps", costs=True, kind="list"),
    scn("content-costs-nonconvex", h3, "3 steps", costs=True,
        nonconvex=True),
]
# options in combination
USE = ("existing", "init", "balanced", "lo", "hi", "loss", "rel", "abs",
       "ei", "eo", "sc", "fout", "relation")
SCENARIOS += [
    *storespec.group("combined", lambda S: es_hours(S, 2), "2 hours",
                     use=USE, fixed={"cap": "invest", "fin": "invest"}),
    *storespec.group("combined-offset", lambda S: es_hours(S, 2), "2 hours",
                     use=[u for u in USE if u != "existing"],
                     fixed={"cap": "offset", "fin": "invest"}),
]
