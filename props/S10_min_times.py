"""Minimum up and down times, initial status."""
import operator

from symsolph.api import *
from symsolph import flowspec


def scn(name, T, up=None, down=None, init=0, invest=False, kind="scalar",
        tier="quick", mk=None, bounds=None):
    def build(S):
        t = mk(S) if mk else es_sym(S, T)
        b = Bus("b", balanced=False)
        kw = {"initial_status": init}
        for nm, lim, arg in (("up", up, "minimum_uptime"),
                             ("down", down, "minimum_downtime")):
            if lim is None:
                continue
            if kind == "scalar":
                kw[arg] = operator.index(S.integer(nm, *lim))
            else:
                kw[arg] = [operator.index(S.integer(f"{nm}{i}", *lim))
                           if i < kind else lim[0] for i in t.steps]
        cap = (Investment(maximum=S.real("imax", 0)) if invest
               else S.real("P", 0))
        n = cmp.Source("n", outputs={b: Flow(
            nominal_capacity=cap, minimum=S.real("mn", 0, 1),
            nonconvex=NonConvex(**kw))})
        # neighbour without minimum times but the opposite initial status
        k = cmp.Sink("k", inputs={b: Flow(
            nominal_capacity=S.real("Q", 0),
            nonconvex=NonConvex(initial_status=1 - init))})
        t.es.add(b, n, k)
        g = lambda arg, i: (
            0 if arg not in kw
            else kw[arg][i] if isinstance(kw[arg], list) else kw[arg])
        return W(m=model(t, other_weights=True), t=t, key=(n, b), key2=(b, k),
                 mu=[g("minimum_uptime", i) for i in t.steps],
                 md=[g("minimum_downtime", i) for i in t.steps])

    def spec(S, w, X, A):
        m, t = w.m, w.t
        B = m.InvestNonConvexFlowBlock if invest else m.NonConvexFlowBlock
        s = [X.expr(B.status[(*w.key, i)]) for i in t.steps]
        z = [X.expr(m.NonConvexFlowBlock.status[(*w.key2, i)])
             for i in t.steps]
        A.observe(B.status, m.NonConvexFlowBlock.status)
        n = len(s)
        for i in t.steps:
            A.prop(f"binary@{i}", Or(s[i] == 0, s[i] == 1))
            A.prop(f"second binary@{i}", Or(z[i] == 0, z[i] == 1))
        first = w.mu[0] if init else w.md[0]
        for i in range(min(first, n)):
            A.eq(f"initial status@{i}", s[i], init)
        prev = [rv(init)] + s[:-1]
        for i in t.steps:
            if i < first:
                continue
            for mt, on, nm in ((w.mu[i], 1, "up"), (w.md[i], 0, "down")):
                switch = And(prev[i] == 1 - on, s[i] == on)
                stay = And([s[j] == on for j in range(i, min(i + mt, n))])
                A.prop(f"min {nm}time@{i}", Implies(switch, stay))
                # A start the horizon leaves too little time for is not
                # claimed to be possible (it is in the last step).
                if nm == "up" and i < n - 1 and i + mt > n:
                    A.prop(f"late {nm}@{i}", Not(switch), sound=False)

    return Scenario(name, build, spec,
                    bounds=bounds or f"{T} steps, min. times {up} / {down}",
                    tier=tier)


ts = lambda S: es_tsam(S, (0, 1, 0), 3)
mp = lambda S: es_periods(S, ((2030, 3), (2035, 3)))
SCENARIOS = [
    scn("off", 5, (0, 3), (0, 3), 0),
    scn("on", 5, (0, 3), (0, 3), 1),
    scn("up-only", 5, (1, 4), None, 0),
    scn("down-only", 5, None, (1, 4), 1),
    scn("long", 7, (3, 5), (2, 4), 1, tier="thorough"),
    scn("profile", 4, (0, 2), (1, 1), 0, kind=4),
    scn("down-profile", 4, (1, 1), (0, 2), 1, kind=4),
    scn("profile-long", 5, (2, 3), None, 0, kind=5),
    scn("down-profile-long", 5, None, (2, 3), 1, kind=5),
    scn("beyond-horizon", 3, (0, 5), (0, 5), 1),
    scn("invest-beyond-horizon", 2, (0, 4), (0, 4), 0, invest=True),
    scn("invest-off", 4, (0, 2), (0, 2), 0, invest=True),
    scn("invest-on", 4, (0, 2), (0, 2), 1, invest=True),
    scn("multi-period", 6, (2, 2), (2, 2), 1, mk=mp,
        bounds="2 periods x 3 steps"),
]
# together with other options
USE = flowspec.ONOFF + ("cap", "minimum", "integer")
SCENARIOS += flowspec.group(
    "combined", "sym", lambda S: es_sym(S, 4), "4 steps",
    use=[u for u in USE if "downtime" not in u], objective=False,
    fixed={"nonconvex": 1, "downtime": 2})
