"""Start-ups, shut-downs and status dependent costs."""
from symsolph.api import *
from symsolph import flowspec

COSTS = ("startup_costs", "shutdown_costs", "activity_costs",
         "inactivity_costs")


def coef(S, name, t):
    if f"{name}_{t}" in S.params:
        return Z(S.params[f"{name}_{t}"])
    return Z(S.params[name]) if name in S.params else rv(0)


def scn(name, mk, bounds, costs=(), kind="list", nup=False, ndown=False,
        init=0, invest=False, tsam=False, tier="quick", second=True):
    def build(S):
        t = mk(S)
        b = Bus("b", balanced=False)
        kw = {}
        for c in costs:
            kw[c] = S.reals(c, t.T) if kind == "list" else S.real(c)
        if nup:
            kw["maximum_startups"] = S.integer("N", 0, 5)
        if ndown:
            kw["maximum_shutdowns"] = S.integer("M", 0, 5)
        cap = (Investment(maximum=S.real("imax", 0), ep_costs=S.real("ep"))
               if invest else S.real("P", 0))
        n = cmp.Source("n", outputs={b: Flow(
            nominal_capacity=cap,
            nonconvex=NonConvex(initial_status=init, **kw))})
        t.es.add(b, n)
        if second:
            # a neighbour with the opposite initial status
            k = cmp.Sink("k", inputs={b: Flow(
                nominal_capacity=S.real("Q", 0),
                nonconvex=NonConvex(
                    initial_status=1 - init,
                    startup_costs=S.real("su2"),
                    maximum_shutdowns=S.integer("M2", 0, 5)))})
            t.es.add(k)
        return W(m=model(t), t=t, key=(n, b), key2=(b, k) if second else None)

    def events(S, X, A, B, key, init, t, tag, up, down, N, M):
        """status, start and stop indicators of one flow"""
        s = [X.expr(B.status[(*key, i)]) for i in t.steps]
        A.observe([B.status[(*key, i)] for i in t.steps])
        u = d = None
        for i in t.steps:
            A.prop(f"{tag}status@{i}", Or(s[i] == 0, s[i] == 1))
        prev = [rv(init)] + s[:-1]
        for flag, var, diff, nm in (
            (up, "startup", [a - b for a, b in zip(s, prev)], "start"),
            (down, "shutdown", [b - a for a, b in zip(s, prev)], "stop"),
        ):
            if not flag:
                continue
            V = getattr(B, var)
            e = [X.expr(V[(*key, i)]) for i in t.steps]
            A.observe([V[(*key, i)] for i in t.steps])
            for i in t.steps:
                A.prop(f"{tag}{nm} binary@{i}", Or(e[i] == 0, e[i] == 1))
                # (typical periods: the preceding step is not the
                # chronological one at their borders)
                A.prop(f"{tag}{nm} detected@{i}",
                       Implies(diff[i] == 1, e[i] == 1))
            lim = N if var == "startup" else M
            if lim is not None:
                A.le(f"{tag}max {nm}s", Sum(e), lim)
                # consequence for the status itself
                A.le(f"{tag}actual {nm}s",
                     Sum(If(x == 1, rv(1), rv(0)) for x in diff), lim,
                     complete=False)
            if var == "startup":
                u = e
            else:
                d = e
        return s, u, d

    def spec(S, w, X, A):
        m, t = w.m, w.t
        B = m.InvestNonConvexFlowBlock if invest else m.NonConvexFlowBlock
        up = "startup_costs" in costs or nup
        down = "shutdown_costs" in costs or ndown
        s, u, d = events(S, X, A, B, w.key, init, t, "", up, down,
                         S.params.get("N"), S.params.get("M"))
        cost = rv(0)
        for i in t.steps:
            wt = rv(t.w[i])
            if u:
                cost += u[i] * coef(S, "startup_costs", i) * wt
            if d:
                cost += d[i] * coef(S, "shutdown_costs", i) * wt
            cost += s[i] * coef(S, "activity_costs", i) * wt
            cost += (1 - s[i]) * coef(S, "inactivity_costs", i) * wt
        if w.key2:
            s2, u2, _ = events(S, X, A, m.NonConvexFlowBlock, w.key2,
                               1 - init, t, "second ", True, True, None,
                               S.params["M2"])
            for i in t.steps:
                cost += u2[i] * Z(S.params["su2"]) * rv(t.w[i])
        if invest:
            inv = X.expr(B.invest[(*w.key, 0)])
            cost += inv * Z(S.params["ep"])
        A.objective(cost, "costs")

    return Scenario(name, build, spec, bounds=bounds, tier=tier)


s3 = lambda S: es_sym(S, 3)
s4 = lambda S: es_sym(S, 4)
s2 = lambda S: es_sym(S, 2)
mp = lambda S: es_periods(S, ((2030, 1), (2035, 2)))
ts = lambda S: es_tsam(S, (0, 0, 1), 2)
SCENARIOS = [
    scn("all-costs", s3, "3 steps, symbolic cost profiles", COSTS),
    scn("scalar-costs", s3, "3 steps, running initially", COSTS,
        kind="scalar", init=1),
    scn("limits", s4, "4 steps", nup=True, ndown=True),
    scn("limits-running", s4, "4 steps", nup=True, ndown=True, init=1),
    scn("start-only", s3, "3 steps", ("startup_costs",), nup=True, init=1),
    scn("stop-only", s3, "3 steps", ("shutdown_costs",), ndown=True),
    scn("activity-only", s3, "3 steps", ("activity_costs",), second=False),
    scn("inactivity-only", s3, "3 steps", ("inactivity_costs",), init=1,
        second=False),
    scn("multi-period", mp, "2 periods, 1/2 steps", COSTS, nup=True),
    scn("tsam", ts, "2 typical periods x 2 steps", COSTS, second=True),
    scn("tsam-scalar", ts, "2 typical periods x 2 steps", COSTS,
        kind="scalar", second=False),
    scn("tsam-limits", ts, "2 typical periods x 2 steps", COSTS, nup=True,
        ndown=True, second=False),
    scn("invest", s2, "2 steps", COSTS, invest=True, nup=True, ndown=True),
    scn("invest-tsam", ts, "2 typical periods x 2 steps", COSTS,
        kind="scalar", invest=True, second=False),
]
# together with other options
USE = flowspec.ONOFF + ("cap", "minimum", "vc")
SCENARIOS += [
    *flowspec.group("combined", "sym", lambda S: es_sym(S, 3), "3 steps",
                    use=USE, fixed={"nonconvex": 1}),
    *flowspec.group("combined-mp", "mp",
                    lambda S: es_periods(S, ((2030, 1), (2033, 2))),
                    "2 periods, 1/2 steps", use=USE + ("life",),
                    fixed={"nonconvex": 1}, discount=True),
]
