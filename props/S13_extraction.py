"""Extraction turbines: fuel use and operating range of the two outputs."""
from symsolph.api import *


def scn(name, mk, bounds, kind="list", swap=False, n=1, main_first=True,
        tier="quick"):
    def build(S):
        t = mk(S)
        gas, el, th = (Bus(x, balanced=False) for x in ("g", "e", "h"))
        t.es.add(gas, el, th)
        nodes, eta = [], {}
        for k in range(n):
            def par(nm):
                # efficiencies are positive
                nm = f"{nm}{k}"
                if kind == "scalar" or (kind == "mixed" and nm[0] == "c"):
                    v = S.pos(nm)
                    eta[nm] = [Z(v)] * t.T
                else:
                    v = [S.pos(f"{nm}_{i}") for i in t.steps]
                    eta[nm] = [Z(x) for x in v]
                return v

            main, tap = (th, el) if swap else (el, th)
            outs = {main: Flow(), tap: Flow()}
            if not main_first:
                outs = {tap: Flow(), main: Flow()}
            nodes.append(cmp.ExtractionTurbineCHP(
                label=f"chp{k}",
                inputs={gas: Flow(nominal_capacity=S.real(f"P{k}", 0))},
                outputs=outs,
                conversion_factors={main: par("m"), tap: par("t")},
                conversion_factor_full_condensation={main: par("c")}))
        t.es.add(*nodes)
        return W(m=model(t, other_weights=True), t=t, nodes=nodes, gas=gas, main=main, tap=tap,
                 eta=eta)

    def spec(S, w, X, A):
        m = w.m
        A.observe(m.flow)
        for k, node in enumerate(w.nodes):
            for t in w.t.steps:
                f = X.expr(m.flow[w.gas, node, t])
                a = X.expr(m.flow[node, w.main, t])
                q = X.expr(m.flow[node, w.tap, t])
                em, et, ec = (w.eta[f"{x}{k}"][t] for x in "mtc")
                A.ge(f"fuel nonneg {k}@{t}", f, 0)
                A.le(f"fuel max {k}@{t}", f, S.params[f"P{k}"])
                A.ge(f"main nonneg {k}@{t}", a, 0)
                A.ge(f"tapped nonneg {k}@{t}", q, 0)
                # fuel = (main + tapped * loss index) / condensing efficiency
                A.eq(f"fuel {k}@{t}", f * ec * et, a * et + q * (ec - em))
                A.ge(f"range {k}@{t}", a * et, q * em)
                # the two characteristic operating points
                A.prop(f"full condensation {k}@{t}",
                       Implies(q == 0, a == f * ec), complete=False)
                A.prop(f"full extraction {k}@{t}",
                       Implies(a * et == q * em,
                               And(a == f * em, q == f * et)),
                       complete=False)
                A.prop(f"no more than full extraction {k}@{t}",
                       Implies(ec >= em, q <= f * et), complete=False)

    return Scenario(name, build, spec, bounds=bounds, tier=tier)


s2 = lambda S: es_sym(S, 2)
s1 = lambda S: es_sym(S, 1)
SCENARIOS = [
    scn("profiles", s2, "2 steps, efficiency profiles"),
    scn("scalars", s2, "2 steps", kind="scalar"),
    scn("mixed", s2, "2 steps", kind="mixed"),
    scn("heat-main", s2, "2 steps, other output is the main one",
        swap=True),
    scn("tapped-first", s2, "2 steps", main_first=False),
    scn("two", s1, "1 step, two turbines", n=2),
    scn("multi-period",
        lambda S: es_periods(S, ((2030, 1), (2035, 1))), "2 periods"),
    scn("tsam", lambda S: es_tsam(S, (0, 1, 0), 1),
        "2 typical periods x 1 step"),
]
