"""Deprecated spellings mean the same as their replacements."""
from symsolph.api import *
from oemof.solph import constraints as C
from symsolph import zoo


def pair(name, bounds, one, two, **kw):
    def build(S):
        return W(m=one(S), m2=two(S))

    def spec(S, w, X, A):
        zoo.equal_models(A, X, w.m2)

    return Scenario(name, build, spec, bounds=bounds, **kw)


def flows(mk, old, kind="list", invest=False, emissions=False):
    def f(S):
        t = mk(S)
        b = Bus("b", balanced=False)
        seq = lambda n, lo=0: (S.reals(n, t.T, lo) if kind == "list"
                               else S.real(n, lo))
        cap = (Investment(maximum=S.real("imax", 0), ep_costs=S.real("ep"),
                          **({"lifetime": 4} if t.P > 1 else {}))
               if invest else S.real("cap", 0))
        lo, up = seq("mn"), seq("mx")
        e = S.real("em")
        S.assume(e != 0)
        kw = ({"nominal_value": cap, "min": lo, "max": up,
               "custom_attributes": {"emission_factor": e}} if old else
              {"nominal_capacity": cap, "minimum": lo, "maximum": up,
               "custom_properties": {"emission_factor": e}})
        n = cmp.Source("n", outputs={b: Flow(
            variable_costs=S.real("vc"), **kw)})
        t.es.add(b, n)
        m = model(t)
        if emissions:
            C.emission_limit(m, limit=S.real("L"))
        return m

    return f


def some(mk, which):
    """only one of the old names, others left out"""
    def f(old):
        def g(S):
            t = mk(S)
            b = Bus("b", balanced=False)
            v = S.real("v", 0)
            new = {"nominal_value": "nominal_capacity", "min": "minimum",
                   "max": "maximum"}[which]
            kw = {which if old else new: v}
            if which != "nominal_value":
                kw["nominal_capacity"] = S.real("cap", 0)
            n = cmp.Sink("n", inputs={b: Flow(**kw)})
            t.es.add(b, n)
            return model(t)
        return g

    return f(True), f(False)


def negative(old):
    def f(S):
        t = es_hours(S, 2)
        b = Bus("b", balanced=False)
        lo = S.reals("mn", 2)
        n = cmp.Source("n", outputs={b: Flow(
            nominal_capacity=S.real("cap", 0),
            **{"min" if old else "minimum": lo})})
        t.es.add(b, n)
        return model(t)

    return f


def bidirectional(old, given):
    """bidirectional=True means minimum=-1 (unless a minimum is given)"""
    def f(S):
        t = es_hours(S, 2)
        b = Bus("b", balanced=False)
        kw = {"nominal_capacity": S.real("cap", 0),
              "maximum": S.real("mx", 0)}
        if given:
            kw["minimum"] = v = S.real("mn", hi=0)
            S.assume(v < 0)
            if old:
                kw["bidirectional"] = True
        elif old:
            kw["bidirectional"] = True
        else:
            kw["minimum"] = -1
        n = cmp.Source("n", outputs={b: Flow(**kw)})
        t.es.add(b, n)
        return model(t)

    return f


def storage(mk, old, invest):
    def f(S):
        t = mk(S)
        b = Bus("b", balanced=False)
        cap = (Investment(maximum=S.real("imax", 0), ep_costs=S.real("ep"))
               if invest else S.real("cap", 0))
        n = cmp.GenericStorage(
            "n", inputs={b: Flow()}, outputs={b: Flow()},
            loss_rate=S.real("loss", 0, 1), initial_storage_level=1 / 2,
            **{"nominal_storage_capacity" if old else "nominal_capacity":
               cap})
        t.es.add(b, n)
        return model(t)

    return f


def integral(old, lower):
    def f(S):
        t = es_hours(S, 2)
        b = Bus("b", balanced=False)
        w = S.real("w")
        S.assume(w != 0)
        n = cmp.Source("n", outputs={b: Flow(custom_properties={"w": w})})
        t.es.add(b, n)
        m = model(t)
        kw = {"limit" if old else "upper_limit": S.real("L")}
        if lower:
            kw["lower_limit"] = S.real("l")
        C.generic_integral_limit(m, "w", **kw)
        return m

    return f


def invest_properties(old, onoff):
    """custom_attributes of Investment and NonConvex"""
    def f(S):
        t = es_hours(S, 2)
        b = Bus("b", balanced=False)
        v = S.real("space")
        S.assume(v != 0)
        nm = "custom_attributes" if old else "custom_properties"
        kw = {}
        if onoff:
            kw = {"nonconvex": NonConvex(**{nm: {"other": S.real("o")}}),
                  "minimum": S.real("mn", 0)}
        n = cmp.Source("n", outputs={b: Flow(
            nominal_capacity=Investment(
                maximum=S.real("imax", 0), **{nm: {"space": v}}), **kw)})
        t.es.add(b, n)
        m = model(t)
        C.additional_investment_flow_limit(m, "space", limit=S.real("L"))
        return m

    return f


def increments(old, n=3):
    """timeincrement without timeindex"""
    def f(S):
        dt = [S.pos(f"dt{i}") for i in range(n)]
        if old:
            es = solph.EnergySystem(timeincrement=dt,
                                    infer_last_interval=False)
        else:
            pts = [0]
            for d in dt:
                pts.append(pts[-1] + d)
            es = solph.EnergySystem(timeindex=pts,
                                    infer_last_interval=False)
        b = Bus("b", balanced=False)
        s = cmp.GenericStorage(
            "s", inputs={b: Flow(variable_costs=S.real("c"))},
            outputs={b: Flow(nominal_capacity=S.real("cap", 0),
                             full_load_time_max=S.real("flt", 0))},
            nominal_capacity=S.real("scap", 0),
            fixed_losses_absolute=S.real("la", 0))
        es.add(b, s)
        return solph.Model(es)

    return f




def coefficients(series):
    """output = slope * input + offset * (nominal value of active units)"""
    def build(S):
        t = es_hours(S, 2)
        b, h = Bus("b", balanced=False), Bus("h", balanced=False)
        t.es.add(b, h)
        lo, up = S.pos("mn"), S.pos("mx")
        S.assume(lo < up)
        c0 = S.reals("c0", 2, hi=0) if series else S.real("c0", hi=0)
        c1 = S.reals("c1", 2, 0, lo_open=True) if series else S.pos("c1")
        if series:
            lo, up = [lo, lo], [up, up]
        n = cmp.OffsetConverter(
            label="n", inputs={b: Flow()},
            outputs={h: Flow(nominal_capacity=S.pos("P"), minimum=lo,
                             maximum=up, nonconvex=NonConvex())},
            coefficients=(c0, c1))
        t.es.add(n)
        return W(m=model(t), n=n, b=b, h=h, T=t.T)

    def spec(S, w, X, A):
        B = w.m.NonConvexFlowBlock
        A.observe(w.m.flow, B.status)
        P = Z(S.params["P"])
        for t in range(w.T):
            g = lambda q: Z(S.params[f"{q}_{t}" if series else q])
            x, y = X.expr(w.m.flow[w.b, w.n, t]), X.expr(
                w.m.flow[w.n, w.h, t])
            s = X.expr(B.status[w.n, w.h, t])
            A.prop(f"binary@{t}", Or(s == 0, s == 1))
            A.eq(f"part load@{t}", x,
                 (y - g("c0") * P * s) * Z(1 / g("c1")))
            A.ge(f"minimum@{t}", y, Z(S.params["mn"]) * P * s)
            A.le(f"maximum@{t}", y, Z(S.params["mx"]) * P * s)
            A.ge(f"nonneg@{t}", x, 0, complete=False)

    return Scenario("coefficients" + ("-series" if series else ""), build,
                    spec, bounds="2 steps")


OLD = (("nominal_value", "nominal_capacity"), ("min", "minimum"),
       ("max", "maximum"), ("custom_attributes", "custom_properties"))


def both(what):
    """old and new spelling together are refused"""

    def build(S):
        kw = {}
        v = {"q": 1} if what[0].startswith("custom") else S.real("v", 0, 1)
        if S.boolean("old"):
            kw[what[0]] = v
        if S.boolean("new"):
            kw[what[1]] = v
        mk = {"Flow": Flow, "Investment": Investment, "NonConvex": NonConvex,
              "GenericStorage": lambda **k: cmp.GenericStorage(
                  label="s", inputs={Bus("b"): Flow()}, **k)}[what[2]]
        if what[2] == "Flow" and what[1] != "nominal_capacity":
            kw["nominal_capacity"] = 5
        f = mk(**kw)
        return W(mm=f)

    def errors(S):
        return must_raise(S.params["old"] and S.params["new"],
                          AttributeError)

    def spec(S, w, X, A):
        given = S.params["old"] or S.params["new"]
        if what[0].startswith("custom"):
            q = (w.mm.custom_properties or {}).get("q")
            A.prop("kept", q == (1 if given else None))
            return
        nm = {"nominal_capacity": "nominal_storage_capacity"}.get(
            what[1], what[1]) if what[2] == "GenericStorage" else what[1]
        x = getattr(w.mm, nm)
        if not given:
            d = {"minimum": 0, "maximum": 1}.get(nm)
            A.prop("default", (x is None) if d is None else x[0] == d)
            return
        if nm in ("minimum", "maximum"):
            x = x[0]
        A.eq("kept", Z(x), S.params["v"])

    return Scenario(f"both-{what[2]}-{what[0]}", build, spec, errors=errors,
                    bounds="constructor")


H = lambda S: es_hours(S, 2)
MP = lambda S: es_periods(S, ((2030, 1), (2035, 1)))
SCENARIOS = [
    pair("flow", "2 steps", flows(H, True), flows(H, False)),
    pair("flow-scalars", "2 steps", flows(H, True, "scalar"),
         flows(H, False, "scalar")),
    pair("flow-invest", "2 steps", flows(H, True, invest=True),
         flows(H, False, invest=True)),
    pair("flow-emissions", "2 steps", flows(H, True, emissions=True),
         flows(H, False, emissions=True)),
    pair("flow-multi-period", "2 periods", flows(MP, True, invest=True),
         flows(MP, False, invest=True)),
    *[pair("only-" + k, "2 steps", *some(H, k))
      for k in ("nominal_value", "min", "max")],
    pair("negative-min", "2 steps", negative(True), negative(False)),
    pair("bidirectional", "2 steps", bidirectional(True, False),
         bidirectional(False, False)),
    pair("bidirectional-minimum", "2 steps", bidirectional(True, True),
         bidirectional(False, True)),
    pair("storage", "2 steps", storage(H, True, False),
         storage(H, False, False)),
    pair("storage-invest", "2 steps", storage(H, True, True),
         storage(H, False, True)),
    pair("integral", "2 steps", integral(True, False),
         integral(False, False)),
    pair("integral-range", "2 steps", integral(True, True),
         integral(False, True)),
    pair("invest-properties", "2 steps", invest_properties(True, False),
         invest_properties(False, False)),
    pair("on-off-properties", "2 steps", invest_properties(True, True),
         invest_properties(False, True)),
    pair("timeincrement", "3 steps", increments(True), increments(False)),
    coefficients(False), coefficients(True),
    *[both((*k, "Flow")) for k in OLD],
    both((*OLD[3], "Investment")), both((*OLD[3], "NonConvex")),
    both(("nominal_storage_capacity", "nominal_capacity",
          "GenericStorage")),
]
