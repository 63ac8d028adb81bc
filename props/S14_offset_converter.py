"""Part load behaviour of offset converters."""
from symsolph.api import *


def scn(name, mk, bounds, ref="out", kind="list", others=1, invest=False,
        lo="scalar", n=1, given=True, tier="quick"):
    def build(S):
        t = mk(S)
        nb = 2 + others
        buses = [Bus(f"b{i}", balanced=False) for i in range(nb)]
        t.es.add(*buses)
        nodes, par = [], {}
        for k in range(n):
            # node k: reference flow at bus 0; bus 1 on the other side;
            # further buses alternate
            def seq(nm):
                if kind == "scalar" or (kind == "mixed" and "s" in nm):
                    v = S.real(nm)
                    par[nm] = [Z(v)] * t.T
                else:
                    v = S.reals(nm, t.T + (2 if kind == "longer" else 0))
                    par[nm] = [Z(x) for x in v]
                return v

            cap = (Investment(maximum=S.real(f"imax{k}", 0), ep_costs=1)
                   if invest else S.real(f"P{k}", 0))
            reff = Flow(
                nominal_capacity=cap,
                minimum=S.real(f"mn{k}", 0) if lo == "scalar"
                else S.reals(f"mn{k}", t.T, 0),
                maximum=S.real(f"mx{k}", 0), nonconvex=NonConvex())
            ins, outs = {}, {}
            (ins if ref == "in" else outs)[buses[0]] = reff
            (outs if ref == "in" else ins)[buses[1]] = Flow()
            for j in range(2, nb):
                (ins if j % 2 else outs)[buses[j]] = Flow()
            kw = {}
            if given:
                kw["conversion_factors"] = {
                    buses[j]: seq(f"s{k}_{j}") for j in range(1, nb)}
                kw["normed_offsets"] = {
                    buses[j]: seq(f"o{k}_{j}") for j in range(1, nb)
                    if j != 2}
            nodes.append(cmp.OffsetConverter(
                label=f"oc{k}", inputs=ins, outputs=outs, **kw))
        t.es.add(*nodes)
        return W(m=model(t, other_weights=True), t=t, nodes=nodes, buses=buses, par=par)

    def spec(S, w, X, A):
        m = w.m
        B = m.InvestNonConvexFlowBlock if invest else m.NonConvexFlowBlock
        A.observe(m.flow, B.status)
        if invest:
            A.observe(B.invest)
        for k, node in enumerate(w.nodes):
            def fl(j, t):
                b = w.buses[j]
                at_in = b in node.inputs
                return X.expr(m.flow[(b, node, t) if at_in else (node, b, t)])

            key = ((w.buses[0], node) if ref == "in"
                   else (node, w.buses[0]))
            if invest:
                cap = X.expr(B.invest[(*key, 0)])
                A.ge(f"invest min {k}", cap, 0)
                A.le(f"invest max {k}", cap, S.params[f"imax{k}"])
            else:
                cap = Z(S.params[f"P{k}"])
            for t in w.t.steps:
                s = X.expr(B.status[(*key, t)])
                r = fl(0, t)
                mn = Z(S.params[f"mn{k}" if lo == "scalar"
                                else f"mn{k}_{t}"])
                A.prop(f"binary {k}@{t}", Or(s == 0, s == 1))
                A.prop(f"off {k}@{t}", Implies(s == 0, r == 0))
                A.prop(f"min {k}@{t}", Implies(s == 1, r >= cap * mn))
                A.prop(f"max {k}@{t}", Implies(
                    s == 1, r <= cap * Z(S.params[f"mx{k}"])))
                for j in range(1, len(w.buses)):
                    v = fl(j, t)
                    sl = w.par.get(f"s{k}_{j}", [rv(1)] * w.t.T)[t]
                    of = w.par.get(f"o{k}_{j}", [rv(0)] * w.t.T)[t]
                    A.ge(f"nonneg {k},{j}@{t}", v, 0)
                    A.prop(f"idle {k},{j}@{t}", Implies(s == 0, v == 0))
                    A.prop(f"part load {k},{j}@{t}", Implies(
                        s == 1, v == sl * r + of * cap))

    return Scenario(name, build, spec, bounds=bounds, tier=tier)


def helper(name, which):
    """efficiencies at minimum and maximum load are met"""

    def build(S):
        mx, mn = S.pos("mx"), S.real("mn", 0)
        e1, e0 = S.pos("eta_max"), S.pos("eta_min")
        S.assume(mx > mn)
        fn = (cmp.slope_offset_from_nonconvex_input if which == "in"
              else cmp.slope_offset_from_nonconvex_output)
        slope, off = fn(mx, mn, e1, e0)
        return W(slope=slope, off=off)

    def spec(S, w, X, A):
        P = Z(S.real("nominal", 0))
        p = {k: Z(S.params[k]) for k in ("mx", "mn", "eta_max", "eta_min")}
        for load, eta in (("mx", "eta_max"), ("mn", "eta_min")):
            x = p[load] * P
            y = Z(w.slope) * x + Z(w.off) * P
            if which == "in":
                A.eq(f"efficiency at {load}", y, p[eta] * x)
            else:
                A.eq(f"efficiency at {load}", y * p[eta], x)

    return Scenario(name, build, spec, bounds="all loads and efficiencies")


def old_style(name, T, kind):
    """deprecated: output = slope * input + offset * nominal"""

    def build(S):
        t = es_sym(S, T)
        a, b = Bus("a", balanced=False), Bus("b", balanced=False)
        if kind == "scalar":
            c = S.real("c0"), S.pos("c1")
            mx = S.pos("mx")
            S.assume(mx > c[0])
        else:
            c = S.reals("c0", T), [S.pos(f"c1_{i}") for i in range(T)]
            mx = [S.pos(f"mx_{i}") for i in range(T)]
            for i in range(T):
                S.assume(mx[i] > c[0][i])
        mn = []
        for i in range(T):
            m_, x, o = ((S.pos("mn"), mx, c[0]) if kind == "scalar"
                        else (S.pos(f"mn_{i}"), mx[i], c[0][i]))
            S.assume(m_ < x)
            S.assume(m_ > o)
            mn.append(m_)
            if kind == "scalar":
                break
        f = Flow(nominal_capacity=S.real("P", 0), maximum=mx,
                 minimum=mn[0] if kind == "scalar" else mn,
                 nonconvex=NonConvex())
        n = cmp.OffsetConverter(label="oc", inputs={a: Flow()},
                                outputs={b: f}, coefficients=c)
        t.es.add(a, b, n)
        return W(m=model(t, other_weights=True), t=t, n=n, a=a, b=b)

    def spec(S, w, X, A):
        m = w.m
        for t in w.t.steps:
            i = X.expr(m.flow[w.a, w.n, t])
            o = X.expr(m.flow[w.n, w.b, t])
            s = X.expr(m.NonConvexFlowBlock.status[w.n, w.b, t])
            g = lambda nm: Z(S.params[nm if kind == "scalar"
                                      else f"{nm}_{t}"])
            A.prop(f"old relation@{t}", Implies(
                s == 1, o == g("c1") * i + g("c0") * Z(S.params["P"])),
                complete=False)

    return Scenario(name, build, spec, bounds=f"{T} steps")


def errs(S):
    """misuse: reference flow missing / ambiguous, data for it given"""
    t = es_sym(S, 1)
    a, b = Bus("a", balanced=False), Bus("b", balanced=False)
    c = {x: S.boolean(x) for x in
         ("nc in", "nc out", "cf", "no", "inv in", "inv out")}
    ref = a if c["nc in"] else b

    def cap(x):
        return (Investment(maximum=S.real("i", 0), ep_costs=1)
                if c[x] else S.real("P", 0))

    fa = Flow(nominal_capacity=cap("inv in"),
              nonconvex=NonConvex() if c["nc in"] else None)
    fb = Flow(nominal_capacity=cap("inv out"),
              nonconvex=NonConvex() if c["nc out"] else None)
    other = b if ref is a else a
    n = cmp.OffsetConverter(
        label="oc", inputs={a: fa}, outputs={b: fb},
        conversion_factors={ref if c["cf"] else other: S.real("s")},
        normed_offsets={ref if c["no"] else other: S.real("o")})
    return W(n=n)


def errs_spec(S):
    p = {k: YN(S, k) for k in
         ("nc in", "nc out", "cf", "no", "inv in", "inv out")}
    one = p["nc in"] != p["nc out"]
    inv = Or(And(p["inv in"], Not(p["nc in"])),
             And(p["inv out"], Not(p["nc out"])))
    return must_raise(Or(Not(one), inv, p["cf"], p["no"]),
                      (ValueError, TypeError))


s1 = lambda S: es_sym(S, 1)
s2 = lambda S: es_sym(S, 2)
SCENARIOS = [
    scn("reference-output", s2, "2 steps"),
    scn("reference-input", s2, "2 steps", ref="in", lo="list"),
    scn("scalars", s2, "2 steps", kind="scalar"),
    scn("mixed", s2, "2 steps", ref="in", kind="mixed"),
    scn("more-flows", s1, "1 step, 5 flows", others=3),
    scn("more-flows-input", s1, "1 step, 5 flows", ref="in", others=3),
    scn("many-flows", s1, "1 step, 9 flows", others=7),
    scn("longer", s1, "1 step, longer series", kind="longer"),
    scn("defaults", s2, "2 steps, no data given", given=False, others=2),
    scn("two", s1, "1 step, 2 components", n=2),
    scn("invest", s1, "1 step", invest=True),
    scn("invest-input", s2, "2 steps", invest=True, ref="in",
        kind="scalar", others=2),
    scn("multi-period",
        lambda S: es_periods(S, ((2030, 1), (2035, 1))), "2 periods"),
    scn("tsam", lambda S: es_tsam(S, (0, 1, 0), 1),
        "2 typical periods x 1 step"),
    helper("helper-input", "in"),
    helper("helper-output", "out"),
    old_style("old-scalar", 1, "scalar"),
    old_style("old-profile", 2, "list"),
    Scenario("misuse", errs, errors=errs_spec, bounds="1 step"),
]
