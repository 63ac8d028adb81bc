"""Piecewise linear converters follow their conversion function."""
import contextlib
import io

import pyomo.environ as po

from oemof.solph.components.experimental import PiecewiseLinearConverter
from symsolph.api import *


def scn(name, mk, bounds, rep, n_pts=3, nodes=1, moving=False, limits=False,
        bent=False, both_ways=False, tier="quick"):
    def build(S):
        t = mk(S)
        a, b = Bus("a", balanced=False), Bus("b", balanced=False)
        t.es.add(a, b)
        convs = []
        for i in range(nodes):
            if moving:
                pts = [S.real(f"p{i}_0")]
                for k in range(1, n_pts):
                    pts.append(pts[-1] + S.pos(f"d{i}_{k}"))
                cap = S.real(f"cap{i}", 0)
                S.assume(cap <= pts[-1])
            else:
                pts = [[0, 20, 100, 150], [-10, 5, 40, 90]][i % 2][:n_pts]
                if both_ways:
                    pts = [-60, -15, 50][:n_pts]
                cap = S.real(f"cap{i}", 0, pts[-1])

            def f(x, i=i):
                if i:
                    return x * x - 20 * x
                if bent:
                    return 300 - S.pos("f") * x * x
                c0, c1, c2 = (S.real(f"f{i}_{j}") for j in range(3))
                return c0 + c1 * x + c2 * x * x

            kw = {}
            if limits:
                kw = dict(minimum=S.reals("mn", t.T, 0),
                          maximum=S.reals("mx", t.T, 0))
            okw = {}
            if both_ways:
                kw = dict(minimum=-1)
                okw = dict(nominal_capacity=S.real(f"ocap{i}", 0),
                           minimum=-1)
            c = PiecewiseLinearConverter(
                f"c{i}", inputs={a: Flow(nominal_capacity=cap, **kw)},
                outputs={b: Flow(variable_costs=S.real("vc"), **okw)},
                in_breakpoints=pts if i == 0 else tuple(pts),
                conversion_function=f, pw_repn=rep)
            c._pts, c._f, c._cap = pts, f, cap
            convs.append(c)
        t.es.add(*convs)
        with contextlib.redirect_stdout(io.StringIO()):
            m = model(t)
        return W(m=m, t=t, a=a, b=b, convs=convs)

    def spec(S, w, X, A):
        m, B = w.m, w.m.PiecewiseLinearConverterBlock
        A.observe(m.flow)
        cost = 0
        for i, c in enumerate(w.convs):
            pts = [Z(p) for p in c._pts]
            val = [Z(c._f(p)) for p in c._pts]
            for s in w.t.steps:
                u = X.expr(m.flow[w.a, c, s])
                v = X.expr(m.flow[c, w.b, s])
                lab = f"{i}@{s}"
                lo = hi = None
                if limits:
                    lo = Z(c._cap) * Z(S.params[f"mn_{s}"])
                    hi = Z(c._cap) * Z(S.params[f"mx_{s}"])
                if both_ways:
                    lo = -Z(c._cap)
                    A.le(f"output max {lab}", v, Z(S.params[f"ocap{i}"]))
                A.ge(f"input min {lab}", u, lo if lo is not None else 0)
                A.le(f"input max {lab}", u, hi if limits else Z(c._cap))
                A.ge(f"output min {lab}", v,
                     -Z(S.params[f"ocap{i}"]) if both_ways else 0)
                A.ge(f"first point {lab}", u, pts[0])
                A.le(f"last point {lab}", u, pts[-1])
                for k in range(len(pts) - 1):
                    d = pts[k + 1] - pts[k]
                    A.prop(f"segment {k} {lab}", Implies(
                        And(u >= pts[k], u <= pts[k + 1]),
                        (v - val[k]) * d
                        == (val[k + 1] - val[k]) * (u - pts[k])))
                A.define(B.inflow[c, s], u)
                A.define(B.outflow[c, s], v)
                auxiliary(A, B.piecewise[c, s], rep, u, pts)
                cost = cost + v * Z(S.params["vc"]) * Z(w.t.dt[s])
        A.objective(cost)

    return Scenario(name, build, spec, bounds=bounds, tier=tier)


def auxiliary(A, P, rep, u, pts):
    """values of the auxiliary variables of each representation"""
    n = len(pts)
    inside, taken = [], []
    for k in range(n - 1):
        here = And(u >= pts[k], u <= pts[k + 1], *[Not(x) for x in taken])
        taken.append(here)
        inside.append(here)
    frac = [(u - pts[k]) / (pts[k + 1] - pts[k]) for k in range(n - 1)]
    weight = []
    for k in range(n):
        w = rv(0)
        if k > 0:
            w = If(inside[k - 1], frac[k - 1], w)
        if k < n - 1:
            w = If(inside[k], 1 - frac[k], w)
        weight.append(w)
    one = lambda c: If(c, rv(1), rv(0))
    if not any(True for _ in P.component_objects(po.Var)):
        return  # pyomo needs no such variables for a straight line
    if rep == "SOS2":
        for k in range(n):
            A.define(P.SOS2_y[k], weight[k])
    elif rep == "CC":
        for k in range(n):
            A.define(P.CC_lambda[k + 1], weight[k])
        for k in range(n - 1):
            A.define(P.CC_bin_y[k + 1], one(inside[k]))
    elif rep == "DCC":
        for k in range(n - 1):
            A.define(P.DCC_lambda[k + 1, k + 1],
                     If(inside[k], 1 - frac[k], rv(0)))
            A.define(P.DCC_lambda[k + 1, k + 2],
                     If(inside[k], frac[k], rv(0)))
            A.define(P.DCC_bin_y[k + 1], one(inside[k]))
    elif rep == "MC":
        for k in range(n - 1):
            A.define(P.MC_poly_x[k + 1], If(inside[k], u, rv(0)))
            A.define(P.MC_bin_y[k + 1], one(inside[k]))
    elif rep == "INC":
        for k in range(n - 1):
            after = Or(*inside[k + 1:]) if k < n - 2 else z3.BoolVal(False)
            A.define(P.INC_delta[k + 1], If(
                inside[k], frac[k], one(after)))
            if k < n - 2:
                A.define(P.INC_bin_y[k + 1], one(after))


def refused(name, ins, outs):
    """points have to cover the capacity; one flow on each side"""

    def build(S):
        flows = lambda n, **kw: {Bus(f"{n}{i}"): Flow(**kw) for i in range(n)}
        pts = [S.real(f"p{i}") for i in range(3)]
        n = PiecewiseLinearConverter(
            "n", inputs=flows(ins, nominal_capacity=S.pos("cap")),
            outputs=flows(outs), in_breakpoints=pts, pw_repn="CC",
            conversion_function=lambda x: 2 * x)
        return W(m=None, n=n, pts=pts)

    def errors(S):
        p = S.params
        cap = Z(p["cap"])
        return must_raise(Or(And(*[cap > Z(p[f"p{i}"]) for i in range(3)]),
                             z3.BoolVal(ins > 1 or outs > 1)), ValueError)

    def spec(S, w, X, A):
        for i, p in enumerate(w.pts):
            A.eq(f"point {i}", Z(w.n.in_breakpoints[i]), Z(p))
        A.prop("number of points", len(w.n.in_breakpoints) == 3)

    return Scenario(name, build, spec, errors=errors, bounds="3 points")


sym = lambda S: es_sym(S, 2)
one_step = lambda S: es_sym(S, 1)
SCENARIOS = [refused("checks", 1, 1), refused("checks-inputs", 2, 1),
             refused("checks-outputs", 1, 2)]
for r in ("SOS2", "CC", "DCC", "MC", "INC"):
    SCENARIOS += [
        scn(f"three-{r}", one_step, "1 step, 3 fixed points", r),
        scn(f"two-{r}", sym, "2 steps, 2 fixed points", r, 2),
        scn(f"steps-{r}", sym, "2 steps, 3 fixed points", r,
            tier="thorough"),
        scn(f"four-{r}", one_step, "1 step, 4 fixed points", r, 4,
            tier="quick" if r == "CC" else "thorough"),
        scn(f"limits-{r}", sym, "2 steps, 3 fixed points, limits", r,
            limits=True, bent=True),
        scn(f"several-{r}", sym, "2 steps, 2 converters", r, nodes=2,
            bent=True),
        scn(f"both-ways-{r}", one_step, "1 step, 3 fixed points, negative "
            "flows", r, both_ways=True),
        scn(f"both-ways-bent-{r}", one_step, "1 step, 2 converters, "
            "negative flows", r, both_ways=True, bent=True, nodes=2,
            tier="quick" if r == "SOS2" else "thorough"),
        scn(f"moving-{r}", one_step, "1 step, 3 points at any place", r,
            moving=True, tier="thorough"),
    ]
