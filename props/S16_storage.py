"""Content of storages with given capacity over time."""
from symsolph import storespec
from symsolph.api import *


def scn(name, mk, bounds, kind="list", init=None, balanced=True, n=1,
        loss=True, soc=False, costs=False, old_name=False, zeros=False, tier="quick"):
    def build(S):
        t = mk(S)
        a, b = Bus("a", balanced=False), Bus("b", balanced=False)
        t.es.add(a, b)
        nodes, par = [], {}
        for k in range(n):
            def seq(nm, lo=0, hi=None, extra=0, kind=kind):
                if kind == "list":
                    v = S.reals(f"{nm}{k}", t.T + extra, lo, hi)
                    par[nm, k] = list(v)
                else:
                    v = S.real(f"{nm}{k}", lo, hi)
                    par[nm, k] = [v] * (t.T + extra)
                return v

            cap = S.pos(f"E{k}") if soc else S.real(f"E{k}", 0)
            kw = {("nominal_storage_capacity" if old_name
                   else "nominal_capacity"): cap}
            kw["min_storage_level"] = seq("lo", 0, None, 1)
            kw["max_storage_level"] = seq("hi", 0, None, 1)
            if soc:
                for x in (par["hi", k]):
                    S.assume(x > 0)
            kw["inflow_conversion_factor"] = seq("ei")
            kw["outflow_conversion_factor"] = seq("eo")
            for x in par["eo", k]:
                S.assume(x > 0)
            if loss:
                kw["loss_rate"] = seq("loss", 0, 1)
                kw["fixed_losses_relative"] = seq("rel")
                kw["fixed_losses_absolute"] = seq("abs")
                if kind == "list" and not zeros:
                    for x in par["rel", k] + par["abs", k]:
                        S.assume(x > 0)  # (zeros: see other scenarios)
            if init is not None:
                kw["initial_storage_level"] = (
                    S.real(f"init{k}") if init == "sym" else init)
            fin = Flow()
            if soc:
                fin = Flow(nominal_capacity=S.real(f"P{k}", 0),
                           maximum=seq("mx"))
                kw["constant_soc_until"] = S.real(f"c{k}", 0, 1)
                S.assume(kw["constant_soc_until"] < 1)
                kw["fraction_saturation_charging"] = S.real(f"f{k}", 0, 1)
            if costs:
                kw["storage_costs"] = seq("sc", None)
            nodes.append(cmp.GenericStorage(
                f"st{k}", inputs={a: fin}, outputs={b: Flow()},
                balanced=balanced, **kw))
        t.es.add(*nodes)
        return W(m=model(t, other_weights=True), t=t, nodes=nodes, a=a, b=b, par=par)

    def spec(S, w, X, A):
        m, par, T = w.m, w.par, w.t.T
        B = m.GenericStorageBlock
        A.observe(m.flow, B.storage_content)
        cost = z3.RealVal(0)
        for k, node in enumerate(w.nodes):
            c = [X.expr(B.storage_content[node, t]) for t in range(T + 1)]
            E = Z(S.params[f"E{k}"])
            if init == "sym":
                A.eq(f"initial {k}", c[0], E * Z(S.params[f"init{k}"]))
            elif init is not None:
                A.eq(f"initial {k}", c[0], E * Z(init))
            if balanced:
                A.eq(f"balanced {k}", c[T], c[0])
            for t in range(T + 1):
                # a fixed initial content only is checked against the limits
                # when the node is created
                A.ge(f"content min {k}@{t}", c[t], E * Z(par["lo", k][t]),
                     complete=t > 0 or init is None)
                A.le(f"content max {k}@{t}", c[t], E * Z(par["hi", k][t]),
                     complete=t > 0 or init is None)
            for t in w.t.steps:
                fi = X.expr(m.flow[w.a, node, t])
                fo = X.expr(m.flow[node, w.b, t])
                A.ge(f"in nonneg {k}@{t}", fi, 0)
                A.ge(f"out nonneg {k}@{t}", fo, 0)
                dt = w.t.dt[t]
                keep, fixed = z3.RealVal(1), z3.RealVal(0)
                if loss:
                    keep = Z((1 - par["loss", k][t]) ** dt)
                    fixed = (Z(par["rel", k][t]) * E
                             + Z(par["abs", k][t])) * Z(dt)
                    A.define(B.storage_losses[node, t],
                             c[t] * (1 - keep) + fixed)
                else:
                    A.define(B.storage_losses[node, t], z3.RealVal(0))
                A.eq(f"balance {k}@{t}", c[t + 1],
                     c[t] * keep - fixed
                     + fi * Z(par["ei", k][t]) * Z(dt)
                     - fo * Z(dt) / Z(par["eo", k][t]))
                if soc:
                    P = Z(S.params[f"P{k}"]) * Z(par["mx", k][t])
                    f, cs = Z(S.params[f"f{k}"]), Z(S.params[f"c{k}"])
                    full = E * Z(par["hi", k][t])
                    A.le(f"power {k}@{t}", fi, P)
                    # from P at the level cs to f * P at a full storage
                    A.le(f"saturation {k}@{t}", fi * (1 - cs) * full,
                         P * ((1 - cs) * full
                              - (1 - f) * (c[t + 1] - cs * full)))
                if costs:
                    cost = cost + c[t + 1] * Z(par["sc", k][t])
        if costs:
            A.objective(cost, "storage costs")
        else:
            A.objective(z3.RealVal(0), "no costs")

    def errors(S):
        if init is None:
            return must_raise(False, ValueError)
        bad = []
        for k in range(n):
            if init == "sym" and f"init{k}" not in S.params:
                break  # the node before was rejected

            def first(nm):
                return Z(S.params[f"{nm}{k}_0" if kind == "list"
                                  else f"{nm}{k}"])
            v = Z(S.params[f"init{k}"]) if init == "sym" else Z(init)
            bad.append(Or(v < first("lo"), v > first("hi")))
        return must_raise(Or(*bad), ValueError)

    return Scenario(name, build, spec, errors=errors, bounds=bounds,
                    tier=tier)


sym = lambda S: es_sym(S, 3)
hrs = lambda S: es_hours(S, 3)
SCENARIOS = [
    scn("profiles", sym, "3 steps of arbitrary length, all data per step"),
    scn("profiles-zeros", lambda S: es_hours(S, 2), "2 hours, zero losses "
        "included", zeros=True),
    scn("scalars", sym, "3 steps of arbitrary length", kind="scalar"),
    scn("hourly", hrs, "3 hours", balanced=False),
    scn("initial", sym, "3 steps", init="sym", balanced=True),
    scn("initial-free-end", sym, "3 steps", init="sym", balanced=False,
        kind="scalar"),
    scn("initially-empty", sym, "3 steps", init=0, balanced=False),
    scn("lossless-two", sym, "3 steps, 2 storages", n=2, loss=False,
        kind="scalar"),
    scn("two-initial", hrs, "3 hours, 2 storages", n=2, init="sym",
        kind="scalar"),
    scn("old-name", hrs, "3 hours", kind="scalar", old_name=True),
    scn("saturation", lambda S: es_sym(S, 2), "2 steps", soc=True, loss=False),
    scn("saturation-loss", lambda S: es_hours(S, 2), "2 hours", soc=True,
        kind="scalar"),
    scn("content-costs", sym, "3 steps", costs=True),
    scn("content-costs-scalar", sym, "3 steps, 2 storages", n=2, loss=False,
        costs=True, kind="scalar", balanced=False),
    scn("long", lambda S: es_sym(S, 6), "6 steps", tier="thorough"),
]
# options in combination
USE = ("init", "balanced", "lo", "hi", "loss", "rel", "abs", "ei", "eo",
       "sc", "fc", "fin")
SCENARIOS += storespec.group(
    "combined", lambda S: es_hours(S, 2), "2 hours", use=USE,
    fixed={"cap": "fixed", "fout": "limits"})
SCENARIOS += storespec.group(
    "periods", lambda S: es_periods(S, ((2030, 1), (2034, 2)), last=2),
    "2 periods (years 0, 4), 3 steps", use=USE[:-1], seed=4,
    fixed={"cap": "fixed", "fin": "plain", "fout": "limits"})
