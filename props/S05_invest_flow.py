"""Flows whose capacity is optimised (single period)."""
from symsolph.api import *
from symsolph import flowspec


def sequ(S, t, name, kind, lo=None, hi=None):
    return (S.reals(name, t.T, lo, hi) if kind == "list"
            else S.real(name, lo, hi))


def par(S, name, t):
    n = f"{name}_{t}"
    return Z(S.params[n] if n in S.params else S.params[name])


def scn(name, mk, bounds, lo=None, hi=None, fix=None, nonconvex=False,
        existing=False, flt=False, lo_range=(0, None), direction="out",
        limits=True, grad=False, inv_kw=()):
    def build(S):
        t = mk(S)
        b = Bus("b", balanced=False)
        kw, ikw = {}, {}
        if lo:
            kw["minimum"] = sequ(S, t, "mn", lo, *lo_range)
        if hi:
            kw["maximum"] = sequ(S, t, "mx", hi, 0)
        if fix:
            kw["fix"] = sequ(S, t, "fx", fix, 0)
        if flt:
            kw["full_load_time_max"] = S.real("fmax", 0)
            kw["full_load_time_min"] = S.real("fmin", 0)
        if limits:
            ikw["maximum"] = S.real("imax", 0)
            ikw["minimum"] = S.real("imin", 0)
        if nonconvex:
            ikw["nonconvex"] = True
            ikw["offset"] = S.real("off")
        if existing:
            ikw["existing"] = S.real("ex", 0)
        f = Flow(nominal_capacity=Investment(ep_costs=S.real("ep"), **ikw),
                 **kw)
        # second investment with its own data
        g = Flow(nominal_capacity=Investment(ep_costs=S.real("ep2"),
                                             maximum=S.real("jmax", 0)),
                 maximum=S.real("gmx", 0))
        if direction == "out":
            n = cmp.Source("n", outputs={b: f})
            key = (n, b)
        else:
            n = cmp.Sink("n", inputs={b: f})
            key = (b, n)
        k = cmp.Sink("k", inputs={b: g})
        t.es.add(b, n, k)
        m = model(t)
        return W(m=m, t=t, key=key, key2=(b, k))

    def spec(S, w, X, A):
        I = w.m.InvestmentFlowBlock
        inv = X.expr(I.invest[(*w.key, 0)])
        tot = X.expr(I.total[(*w.key, 0)])
        inv2 = X.expr(I.invest[(*w.key2, 0)])
        tot2 = X.expr(I.total[(*w.key2, 0)])
        A.observe(w.m.flow, I.invest, I.total)
        A.ge("invest nonneg", inv, 0)
        A.eq("total", tot, inv + (Z(S.params["ex"]) if existing else 0))
        A.ge("invest2 nonneg", inv2, 0)
        A.le("invest2 max", inv2, S.params["jmax"])
        A.eq("total2", tot2, inv2)
        if nonconvex:
            y = X.expr(I.invest_status[(*w.key, 0)])
            A.observe(I.invest_status)
            A.prop("binary decision", Or(y == 0, y == 1))
            A.le("invest max", inv, y * Z(S.params["imax"]))
            A.ge("invest min", inv, y * Z(S.params["imin"]))
        elif limits:
            A.le("invest max", inv, S.params["imax"])
            A.ge("invest min", inv, S.params["imin"])
        for t in w.t.steps:
            v = X.expr(w.m.flow[(*w.key, t)])
            g = X.expr(w.m.flow[(*w.key2, t)])
            if not lo or lo_range[0] is not None:
                A.ge(f"nonneg@{t}", v, 0)
            A.ge(f"g nonneg@{t}", g, 0)
            A.le(f"g upper@{t}", g, tot2 * Z(S.params["gmx"]))
            if fix:
                A.eq(f"fixed@{t}", v, tot * par(S, "fx", t))
                continue
            A.le(f"upper@{t}", v, tot * (par(S, "mx", t) if hi else 1))
            if lo:
                A.ge(f"lower@{t}", v, tot * par(S, "mn", t))
        if flt:
            e = Sum(X.expr(w.m.flow[(*w.key, t)]) * Z(w.t.dt[t]) * w.t.w[t]
                    for t in w.t.steps)
            A.le("full load max", e, tot * Z(S.params["fmax"]))
            A.ge("full load min", e, tot * Z(S.params["fmin"]))
        cost = inv * Z(S.params["ep"]) + inv2 * Z(S.params["ep2"])
        if nonconvex:
            cost = cost + y * Z(S.params["off"])
        A.objective(cost, "investment costs")

    return Scenario(name, build, spec, bounds=bounds)


sym = lambda S: es_sym(S, 3)
hrs = lambda S: es_hours(S, 2)
ts = lambda S: es_tsam(S, (1, 0, 1))
SCENARIOS = [
    scn("plain", sym, "3 steps", limits=False),
    scn("limits", sym, "3 steps", "scalar", "scalar"),
    scn("profile", sym, "3 steps", "list", "list", existing=True),
    scn("sink-profile", sym, "3 steps", None, "list", existing=True,
        direction="in"),
    scn("bidirectional", sym, "3 steps, minimum of any sign", "list", "list",
        lo_range=(None, None)),
    scn("fix", sym, "3 steps", fix="list", existing=True),
    scn("fix-scalar", sym, "3 steps", fix="scalar"),
    scn("full-load", sym, "3 steps of arbitrary length", flt=True,
        existing=True),
    scn("nonconvex", sym, "3 steps", "list", "list", nonconvex=True),
    scn("nonconvex-fix", sym, "3 steps", fix="list", nonconvex=True),
    scn("hourly", hrs, "2 steps", "list", "list", existing=True, flt=True),
    scn("tsam", ts, "2 typical periods x 2 steps", "list", "list",
        existing=True),
    scn("tsam-full-load", ts, "2 typical periods x 2 steps", flt=True),
]
# together with other options
USE = ("minimum", "maximum", "fix", "flt", "integer", "vc", "existing",
       "direction")
SCENARIOS += [
    *[s for c in ("invest", "offset") for n in (0, 1)
      for s in flowspec.group(
          f"combined-{c}{'-onoff' if n else ''}", "sym",
          lambda S: es_sym(S, 2), "2 steps",
          use=[u for u in USE if not (u == "existing" and c == "offset")
               and not (u == "fix" and n)],
          fixed={"cap": c, "nonconvex": n})],
    *flowspec.group("combined-tsam", "ts",
                    lambda S: es_tsam(S, (0, 1, 0), 1),
                    "2 typical periods x 1 step", use=USE,
                    fixed={"cap": "invest"}),
]
