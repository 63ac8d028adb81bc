"""Operating region of generic combined heat and power plants."""
from symsolph.api import *


def scn(name, T, bounds, back=False, share_min=False, n=1, mk=None,
        cap=True, longer=0, tier="quick"):
    def build(S):
        t = mk(S) if mk else es_sym(S, T)
        gas, el, th = (Bus(x, balanced=False) for x in ("g", "e", "h"))
        t.es.add(gas, el, th)
        nodes, par = [], {}
        for k in range(n):
            def lst(nm, f):
                v = [f(f"{nm}{k}_{i}") for i in range(t.T + longer)]
                for i, x in enumerate(v):
                    par[nm, k, i] = Z(x)
                return v

            nonneg = lambda nm: S.real(nm, 0)
            pmin, pmax = lst("pmin", S.pos), lst("pmax", S.pos)
            for a, b in zip(pmin, pmax):
                S.assume(a < b)
            fuel = {"H_L_FG_share_max": lst("smax", nonneg)}
            if share_min:
                fuel["H_L_FG_share_min"] = lst("smin", nonneg)
            kw = {"nominal_capacity": S.real(f"cap{k}", 0)} if cap else {}
            nodes.append(cmp.GenericCHP(
                label=f"chp{k}",
                fuel_input={gas: Flow(custom_properties=fuel, **kw)},
                electrical_output={el: Flow(custom_properties={
                    "P_max_woDH": pmax, "P_min_woDH": pmin,
                    "Eta_el_max_woDH": lst("emax", S.pos),
                    "Eta_el_min_woDH": lst("emin", S.pos)})},
                heat_output={th: Flow(custom_properties={
                    "Q_CW_min": lst("qcw", nonneg)})},
                beta=lst("beta", nonneg), back_pressure=back))
        t.es.add(*nodes)
        return W(m=model(t, other_weights=True), t=t, nodes=nodes, gas=gas, el=el, th=th,
                 par=par)

    def spec(S, w, X, A):
        m = w.m
        B = m.GenericCHPBlock
        A.observe(m.flow, B.Y)
        for k, node in enumerate(w.nodes):
            for t in w.t.steps:
                g = lambda nm: w.par[nm, k, t]
                H = X.expr(m.flow[w.gas, node, t])
                P = X.expr(m.flow[node, w.el, t])
                Q = X.expr(m.flow[node, w.th, t])
                Y = X.expr(B.Y[node, t])
                tag = f"{k}@{t}"
                A.prop(f"binary {tag}", Or(Y == 0, Y == 1))
                for v, nm in ((H, "fuel"), (P, "power"), (Q, "heat")):
                    A.ge(f"{nm} nonneg {tag}", v, 0)
                    A.prop(f"{nm} off {tag}", Implies(Y == 0, v == 0))
                if cap:
                    A.le(f"capacity {tag}", H, S.params[f"cap{k}"])
                hmin, hmax = g("pmin") / g("emin"), g("pmax") / g("emax")
                on = lambda f: Implies(Y == 1, f)
                A.prop(f"fuel min {tag}", on(H >= hmin))
                A.prop(f"fuel max {tag}", on(H <= hmax))
                # without heat extraction the power would be wo, the fuel is
                # linear in it between the two given operating points
                wo = P + g("beta") * Q
                A.prop(f"power loss {tag}", on(
                    (H - hmin) * (g("pmax") - g("pmin"))
                    == (wo - g("pmin")) * (hmax - hmin)))
                loss = P + Q + g("smax") * H + g("qcw")
                A.prop(f"max heat {tag}",
                       on(loss == H if back else loss <= H))
                if share_min:
                    A.prop(f"min heat {tag}", on(
                        P + Q + g("smin") * H + g("qcw") >= H))
                A.define(B.H_F[node, t], H)
                A.define(B.P[node, t], P)
                A.define(B.Q[node, t], Q)
                A.define(B.P_woDH[node, t], wo)
                A.define(B.H_L_FG_max[node, t], g("smax") * H)
                A.define(B.H_L_FG_min[node, t],
                         g("smin") * H if share_min else rv(0))

    return Scenario(name, build, spec, bounds=bounds, tier=tier)


SCENARIOS = [
    scn("extraction", 2, "2 steps"),
    scn("back-pressure", 2, "2 steps", back=True),
    scn("motoric", 2, "2 steps, minimum flue gas losses", share_min=True),
    scn("motoric-back", 2, "2 steps, minimum losses and back pressure",
        share_min=True, back=True),
    scn("longer", 1, "1 step, longer series", share_min=True, longer=1),
    scn("three", 1, "1 step, 3 plants", n=3),
    scn("uncapped", 1, "1 step", cap=False),
    scn("two", 1, "1 step, 2 plants", n=2, share_min=True),
    scn("multi-period", 2, "2 periods", share_min=True,
        mk=lambda S: es_periods(S, ((2030, 1), (2035, 1)))),
]
