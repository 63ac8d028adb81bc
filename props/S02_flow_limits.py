"""Dispatch limits of flows with fixed capacity."""
from symsolph.api import *
from symsolph import flowspec


def one(S, t, cap=True, direction="out", **kw):
    b = Bus("b", balanced=False)
    f = Flow(nominal_capacity=S.real("P", 0) if cap else None, **kw)
    if direction == "out":
        n = cmp.Source("n", outputs={b: f})
        key = (n, b)
    else:
        n = cmp.Sink("n", inputs={b: f})
        key = (b, n)
    # a second flow with other data: limits must not leak between flows
    b2 = Bus("b2", balanced=False)
    o = cmp.Source(
        "other",
        outputs={
            b2: Flow(nominal_capacity=S.real("Q", 0), maximum=S.real("qx", 0))
        },
    )
    t.es.add(b, b2, n, o)
    m = model(t, other_weights=True)
    return W(m=m, t=t, key=key, other=(o, b2))


def other_ok(S, w, A):
    for t in w.t.steps:
        v = w.m.flow[(*w.other, t)]
        A.ge(f"other lower@{t}", v, 0)
        A.le(f"other upper@{t}", v, Z(S.params["Q"]) * Z(S.params["qx"]))


def bounds(lo, hi):
    """lo/hi: None | scalar name | list"""

    def get(S, t, what, name, l, u):
        if what is None:
            return None
        if what == "scalar":
            return S.real(name, l, u)
        return S.reals(name, t.T, l, u)

    return get


def scn(name, mk, lo=None, hi=None, lo_range=(0, None), direction="out",
        bounds="", tier="quick", **extra):
    def build(S):
        t = mk(S)
        kw = {}
        if lo == "scalar":
            kw["minimum"] = S.real("mn", *lo_range)
        elif lo == "list":
            kw["minimum"] = S.reals("mn", t.T, *lo_range)
        if hi == "scalar":
            kw["maximum"] = S.real("mx")
        elif hi == "list":
            kw["maximum"] = S.reals("mx", t.T)
        return one(S, t, direction=direction, **kw)

    def spec(S, w, X, A):
        P = Z(S.params["P"])
        for t in w.t.steps:
            v = w.m.flow[(*w.key, t)]
            mn = {None: 0, "scalar": S.params.get("mn"),
                  "list": S.params.get(f"mn_{t}")}[lo]
            mx = {None: 1, "scalar": S.params.get("mx"),
                  "list": S.params.get(f"mx_{t}")}[hi]
            A.ge(f"lower@{t}", v, Z(mn) * P)
            A.le(f"upper@{t}", v, Z(mx) * P)
        other_ok(S, w, A)
        A.observe(w.m.flow)

    return Scenario(name, build, spec, bounds=bounds, tier=tier)


def fix_scn(name, mk, lst, bounds=""):
    def build(S):
        t = mk(S)
        fx = S.reals("fix", t.T) if lst else S.real("fix")
        return one(S, t, fix=fx)

    def spec(S, w, X, A):
        for t in w.t.steps:
            fx = S.params[f"fix_{t}"] if lst else S.params["fix"]
            A.eq(f"fixed@{t}", w.m.flow[(*w.key, t)],
                 Z(fx) * Z(S.params["P"]))
        other_ok(S, w, A)
        A.observe(w.m.flow)

    return Scenario(name, build, spec, bounds=bounds)


def uncapped(S):
    return one(S, es_sym(S, 3), cap=False)


def uncapped_spec(S, w, X, A):
    for t in w.t.steps:
        A.ge(f"lower@{t}", w.m.flow[(*w.key, t)], 0)
    other_ok(S, w, A)
    A.observe(w.m.flow)


def uncapped_both(S):
    return one(S, es_sym(S, 3), cap=False, bidirectional=True)


def uncapped_both_spec(S, w, X, A):
    """no limit at all"""
    other_ok(S, w, A)
    A.observe(w.m.flow)


def integer(S):
    return one(S, es_sym(S, 2), integer=True)


def integer_spec(S, w, X, A):
    for t in w.t.steps:
        v = X.expr(w.m.flow[(*w.key, t)])
        A.prop(f"whole number@{t}", z3.IsInt(v))
        A.ge(f"lower@{t}", v, 0)
        A.le(f"upper@{t}", v, S.params["P"])
    other_ok(S, w, A)
    A.observe(w.m.flow)


def life(with_age, lst=False):
    def build(S):
        t = es_periods(S, ((2030, 1), (2033, 1), (2040, 2)))
        kw = dict(lifetime=S.integer("life", 1, 14))
        if with_age:
            kw["age"] = S.integer("age", 0, 13)
            S.assume(kw["age"] <= kw["lifetime"])
        return one(S, t, **kw)

    def spec(S, w, X, A):
        left = Z(S.params["life"])
        if with_age:
            left = left - Z(S.params["age"])
        for t in w.t.steps:
            v = X.expr(w.m.flow[(*w.key, t)])
            alive = left > w.t.years[w.t.period[t]]
            A.ge(f"lower@{t}", v, 0)
            A.le(f"upper@{t}", v, If(alive, Z(S.params["P"]), rv(0)))
        other_ok(S, w, A)
        A.observe(w.m.flow)

    return Scenario(
        "lifetime-age" if with_age else "lifetime", build, spec,
        bounds="3 periods (start years 0, 3, 10), 1/1/2 steps; lifetime "
        "1..14 and age 0..13 years", max_paths=600,
    )


sym3 = lambda S: es_sym(S, 3)
mp = lambda S: es_periods(S)
ts = lambda S: es_tsam(S)
SCENARIOS = [
    scn("default-limits", sym3, bounds="3 steps"),
    scn("scalar-limits", sym3, "scalar", "scalar", bounds="3 steps"),
    scn("profile-limits", sym3, "list", "list", bounds="3 steps"),
    scn("profile-max-sink", sym3, None, "list", direction="in",
        bounds="3 steps"),
    scn("bidirectional-scalar", sym3, "scalar", "scalar", (None, None),
        bounds="3 steps; minimum of any sign"),
    scn("bidirectional-profile", sym3, "list", None, (None, None),
        direction="in", bounds="3 steps; minimum of any sign"),
    scn("multi-period", mp, "list", "list", bounds="2 periods x 2 steps",
        ),
    scn("tsam", ts, "scalar", "list", bounds="2 typical periods x 2 steps"),
    fix_scn("fix-profile", sym3, True, "3 steps"),
    fix_scn("fix-scalar", sym3, False, "3 steps"),
    fix_scn("fix-multi-period", mp, True, "2 periods x 2 steps"),
    fix_scn("fix-tsam", ts, True, "2 typical periods x 2 steps"),
    Scenario("no-capacity", uncapped, uncapped_spec, bounds="3 steps"),
    Scenario("no-capacity-bidirectional", uncapped_both, uncapped_both_spec,
             bounds="3 steps"),
    Scenario("integer", integer, integer_spec, bounds="2 steps"),
    life(False),
    life(True),
]
# options in combination
USE = ("minimum", "maximum", "fix", "integer", "nonconvex", "flt", "vc",
       "direction")
SCENARIOS += [
    *flowspec.group("combined", "sym", lambda S: es_sym(S, 2), "2 steps",
                    use=USE, objective=False),
    *flowspec.group("combined-mp", "mp",
                    lambda S: es_periods(S, ((2030, 1), (2033, 2))),
                    "2 periods, 1/2 steps", use=USE + ("life",),
                    objective=False),
]
