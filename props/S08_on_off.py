"""On/off operation of non-convex flows (fixed and optimised capacity)."""
from symsolph.api import *
from symsolph import flowspec


def par(S, name, t, default):
    if f"{name}_{t}" in S.params:
        return Z(S.params[f"{name}_{t}"])
    return Z(S.params[name]) if name in S.params else rv(default)


def scn(name, mk, bounds, invest=None, lo="list", hi="list", existing=False,
        lo_range=(0, None), direction="out", init=None, tier="quick"):
    def build(S):
        t = mk(S)
        b = Bus("b", balanced=False)
        kw = {}
        if lo:
            kw["minimum"] = (S.reals("mn", t.T, *lo_range) if lo == "list"
                             else S.real("mn", *lo_range))
        if hi:
            kw["maximum"] = (S.reals("mx", t.T, 0) if hi == "list"
                             else S.real("mx", 0))
        if invest:
            ikw = dict(ep_costs=S.real("ep"), maximum=S.real("imax", 0),
                       minimum=S.real("imin", 0))
            if existing:
                ikw["existing"] = S.real("ex", 0)
            if invest == "offset":
                ikw.update(nonconvex=True, offset=S.real("off"))
            cap = Investment(**ikw)
        else:
            cap = S.real("P", 0)
        nc = {}
        if init is not None:
            nc["initial_status"] = init
        f = Flow(nominal_capacity=cap, nonconvex=NonConvex(**nc), **kw)
        # another on/off flow with its own data
        g = Flow(nominal_capacity=S.real("Q", 0), minimum=S.real("gmn", 0),
                 nonconvex=NonConvex())
        h = Flow(nominal_capacity=Investment(maximum=S.real("hmax", 0),
                                             ep_costs=S.real("hep")),
                 nonconvex=NonConvex()) if invest else None
        if direction == "out":
            n = cmp.Source("n", outputs={b: f})
            key = (n, b)
        else:
            n = cmp.Sink("n", inputs={b: f})
            key = (b, n)
        k = cmp.Sink("k", inputs={b: g})
        t.es.add(b, n, k)
        key3 = None
        if h:
            q = cmp.Sink("q", inputs={b: h})
            key3 = (b, q)
            t.es.add(q)
        m = model(t, other_weights=True)
        return W(m=m, t=t, key=key, key2=(b, k), key3=key3)

    def spec(S, w, X, A):
        m = w.m
        B = m.InvestNonConvexFlowBlock if invest else m.NonConvexFlowBlock
        A.observe(m.flow, B.status, m.NonConvexFlowBlock.status)
        cap = None
        if invest:
            inv = X.expr(B.invest[(*w.key, 0)])
            hin = X.expr(B.invest[(*w.key3, 0)])
            A.observe(B.invest)
            A.ge("invest nonneg", inv, 0)
            A.ge("invest2 nonneg", hin, 0)
            A.le("invest2 max", hin, S.params["hmax"])
            if invest == "offset":
                y = X.expr(B.invest_status[(*w.key, 0)])
                A.observe(B.invest_status)
                A.prop("invest decision binary", Or(y == 0, y == 1))
                A.le("invest max", inv, y * Z(S.params["imax"]))
                A.ge("invest min", inv, y * Z(S.params["imin"]))
            else:
                A.le("invest max", inv, S.params["imax"])
                A.ge("invest min", inv, S.params["imin"])
            cap = inv + (Z(S.params["ex"]) if existing else 0)
            cost = inv * Z(S.params["ep"]) + hin * Z(S.params["hep"])
            if invest == "offset":
                cost = cost + y * Z(S.params["off"])
            A.objective(cost, "investment costs")
        else:
            cap = Z(S.params["P"])
        for t in w.t.steps:
            v = X.expr(m.flow[(*w.key, t)])
            g = X.expr(m.flow[(*w.key2, t)])
            s = X.expr(B.status[(*w.key, t)])
            sg = X.expr(m.NonConvexFlowBlock.status[(*w.key2, t)])
            A.prop(f"binary@{t}", Or(s == 0, s == 1))
            A.prop(f"g binary@{t}", Or(sg == 0, sg == 1))
            mn, mx = par(S, "mn", t, 0), par(S, "mx", t, 1)
            if lo_range[0] is not None or not lo:
                A.ge(f"nonneg@{t}", v, 0)
            A.prop(f"off@{t}", Implies(s == 0, v == 0))
            A.prop(f"on min@{t}", Implies(s == 1, v >= cap * mn))
            A.prop(f"on max@{t}", Implies(s == 1, v <= cap * mx))
            A.ge(f"g min@{t}", g, sg * Z(S.params["Q"]) * Z(S.params["gmn"]))
            A.le(f"g max@{t}", g, sg * Z(S.params["Q"]))
            A.ge(f"g nonneg@{t}", g, 0)
            if w.key3:
                h = X.expr(m.flow[(*w.key3, t)])
                sh = X.expr(B.status[(*w.key3, t)])
                A.ge(f"h nonneg@{t}", h, 0)
                A.prop(f"h binary@{t}", Or(sh == 0, sh == 1))
                A.prop(f"h off@{t}", Implies(sh == 0, h == 0))
                A.prop(f"h max@{t}", h <= hin)

    return Scenario(name, build, spec, bounds=bounds, tier=tier)


s2 = lambda S: es_sym(S, 2)
s3 = lambda S: es_sym(S, 3)
mp = lambda S: es_periods(S, ((2030, 1), (2035, 2)))
ts = lambda S: es_tsam(S, (0, 0, 1), 2)
SCENARIOS = [
    scn("plain", s3, "3 steps", lo=None, hi=None),
    scn("scalar", s3, "3 steps", lo="scalar", hi="scalar"),
    scn("profile", s3, "3 steps"),
    scn("sink", s3, "3 steps", direction="in", init=1),
    scn("bidirectional", s2, "2 steps, minimum of any sign",
        lo_range=(None, None)),
    scn("multi-period", mp, "2 periods, 1/2 steps"),
    scn("tsam", ts, "2 typical periods x 2 steps"),
    scn("invest", s2, "2 steps", invest="linear"),
    scn("invest-existing", s2, "2 steps", invest="linear", existing=True),
    scn("invest-plain", s3, "3 steps", invest="linear", lo=None, hi=None),
    scn("invest-scalar", s2, "2 steps", invest="linear", lo="scalar",
        hi="scalar", direction="in"),
    scn("invest-offset", s2, "2 steps", invest="offset"),
    scn("invest-tsam", ts, "2 typical periods x 2 steps", invest="offset",
        lo="scalar", hi="scalar"),
]
# together with other options
USE = ("minimum", "maximum", "integer", "cap", "existing", "flt", "grad",
       "initial", "uptime", "downtime", "startup", "direction")
SCENARIOS += [
    *flowspec.group("combined", "sym", lambda S: es_sym(S, 3), "3 steps",
                    use=USE, fixed={"nonconvex": 1}, objective=False),
    *flowspec.group("combined-mp", "mp",
                    lambda S: es_periods(S, ((2030, 1), (2033, 2))),
                    "2 periods, 1/2 steps", use=USE + ("life",),
                    fixed={"nonconvex": 1}, objective=False),
]
