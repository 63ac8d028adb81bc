"""Compressed air energy storages."""
from symsolph.api import *

PAR = {"cmp_p_max_m": None, "cmp_p_max_b": None, "cmp_p_min": 0,
       "cmp_q_out_m": None, "cmp_q_out_b": None, "cmp_q_tes_share": 0,
       "exp_p_max_m": None, "exp_p_max_b": None, "exp_p_min": 0,
       "exp_q_in_m": None, "exp_q_in_b": None, "exp_q_tes_share": 0,
       "cav_e_in_m": None, "cav_e_in_b": None, "cav_e_out_m": None,
       "cav_e_out_b": None, "cav_eta_temp": 0, "cav_level_max": 0,
       "tes_level_max": 0}
VARS = ("cmp_st", "cmp_p", "cmp_p_max", "cmp_q_out_sum", "cmp_q_waste",
        "exp_st", "exp_p", "exp_p_max", "exp_q_in_sum", "exp_q_fuel_in",
        "exp_q_add_in", "cav_level", "cav_e_in", "cav_e_out", "tes_level",
        "tes_e_in", "tes_e_out")


def scn(name, bounds, mk, n=1, shared=False, offsets=True, tes=True,
        tier="quick"):
    """shared: one bus for electricity (instead of two)"""

    def build(S):
        t = mk(S)
        nodes = []
        b = Bus("b", balanced=False)
        g = Bus("g", balanced=False)
        h = b if shared else Bus("h", balanced=False)
        for i in range(n):
            par = {}
            for k, lo in PAR.items():
                if k.endswith("_b") and not offsets:
                    par[k] = 0
                elif not tes and k in ("cmp_q_tes_share", "exp_q_tes_share",
                                       "tes_level_max"):
                    par[k] = 0
                else:
                    # (pyomo drops summands with factors of zero)
                    par[k] = S.real(f"{k}{i}", lo)
                    if "share" in k:
                        S.assume(par[k] < 1)
                        S.assume(par[k] > 0)
                    elif k not in ("cav_level_max", "tes_level_max"):
                        S.assume(par[k] != 0)
            S.assume(par["cmp_p_max_m"] * par["cav_level_max"]
                     + par["cmp_p_max_b"] != 0)
            S.assume(par["exp_p_max_m"] * par["cav_level_max"]
                     + par["exp_p_max_b"] != 0)
            nodes.append(cmp.experimental.GenericCAES(
                label=f"caes{i}",
                electrical_input={b: Flow()}, fuel_input={g: Flow()},
                electrical_output={h: Flow()}, params=par))
        t.es.add(*{id(x): x for x in (b, g, h)}.values(), *nodes)
        m = model(t)
        return W(m=m, t=t, nodes=nodes, b=b, g=g, h=h)

    def spec(S, w, X, A):
        B = w.m.GenericCAESBlock
        A.observe(w.m.flow)
        for v in VARS:
            A.observe(getattr(B, v))
        for i, k in enumerate(w.nodes):
            q = {x: Z(k.params[x]) for x in PAR}
            f = lambda a, b, t: X.expr(w.m.flow[a, b, t])
            g = lambda v, t: X.expr(getattr(B, v)[k, t])
            for t in w.t.steps:
                L = f"@{i},{t}"
                dt = Z(w.t.dt[t])
                for v in VARS:
                    x = g(v, t)
                    if v.endswith("_st"):
                        A.prop(v + L, Or(x == 0, x == 1))
                    else:
                        A.ge(v + L, x, 0)
                level = g("cav_level", t - 1) if t else rv(0)
                heat = g("tes_level", t - 1) if t else rv(0)
                for s, fl in (("cmp", f(w.b, k, t)), ("exp", f(k, w.h, t))):
                    p, st = g(f"{s}_p", t), g(f"{s}_st", t)
                    m, b = q[f"{s}_p_max_m"], q[f"{s}_p_max_b"]
                    A.eq(f"{s} power" + L, fl, p)
                    A.eq(f"{s} possible power" + L, g(f"{s}_p_max", t),
                         m * level + b)
                    A.le(f"{s} upper" + L, p, m * level + b)
                    A.ge(f"{s} lower" + L, p, q[f"{s}_p_min"] * st)
                    A.le(f"{s} off" + L, p,
                         (m * q["cav_level_max"] + b) * st)
                st, p = g("cmp_st", t), g("cmp_p", t)
                out = q["cmp_q_out_m"] * p + q["cmp_q_out_b"] * st
                A.eq("heat of compression" + L, g("cmp_q_out_sum", t), out)
                A.eq("used heat" + L, g("tes_e_in", t),
                     q["cmp_q_tes_share"] * out)
                A.eq("waste heat" + L, g("cmp_q_waste", t),
                     (1 - q["cmp_q_tes_share"]) * out)
                cin = q["cav_e_in_m"] * p + q["cav_e_in_b"] * st
                A.eq("charge" + L, g("cav_e_in", t), cin)
                st, p = g("exp_st", t), g("exp_p", t)
                need = q["exp_q_in_m"] * p + q["exp_q_in_b"] * st
                A.eq("heat for expansion" + L, g("exp_q_in_sum", t), need)
                A.eq("fuel" + L, f(w.g, k, t), g("exp_q_fuel_in", t))
                A.eq("fuel share" + L, g("exp_q_fuel_in", t),
                     (1 - q["exp_q_tes_share"]) * need)
                A.eq("stored heat" + L,
                     g("tes_e_out", t) + g("exp_q_add_in", t),
                     q["exp_q_tes_share"] * need)
                cout = q["cav_e_out_m"] * p + q["cav_e_out_b"] * st
                A.eq("discharge" + L, g("cav_e_out", t), cout)
                A.eq("content" + L, q["cav_eta_temp"] * g("cav_level", t),
                     level + dt * (cin - cout))
                A.le("cavern" + L, g("cav_level", t), q["cav_level_max"])
                A.eq("heat storage" + L, g("tes_level", t), heat + dt * (
                    g("tes_e_in", t) - g("tes_e_out", t)))
                A.le("heat storage size" + L, g("tes_level", t),
                     q["tes_level_max"])

    return Scenario(name, build, spec, bounds=bounds, tier=tier)


SCENARIOS = [
    scn("plain", "2 steps of arbitrary length", lambda S: es_sym(S, 2)),
    scn("one-bus", "2 steps of arbitrary length", lambda S: es_sym(S, 2),
        shared=True),
    scn("two-plants", "2 steps", lambda S: es_hours(S, 2), n=2),
    scn("without-offsets", "2 steps of arbitrary length",
        lambda S: es_sym(S, 2), offsets=False),
    scn("without-heat-storage", "3 steps of arbitrary length",
        lambda S: es_sym(S, 3), tes=False),
    scn("three-steps", "3 steps of arbitrary length",
        lambda S: es_sym(S, 3), tier="thorough"),
]
