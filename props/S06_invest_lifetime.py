"""Capacities over several investment periods (commissioning and
decommissioning of flows)."""
from symsolph.api import *
from symsolph.flowspec import covering


def alive(years, q, p, life):
    """capacity built in period q still exists in period p"""
    return life > years[p] - years[q]


def expected_total(w, inv, p, ex, life, age):
    yrs = w.t.years
    tot = If(life - age > yrs[p], ex, rv(0)) if p else ex
    for q in range(p + 1):
        tot = tot + If(alive(yrs, q, p, life), inv[q], rv(0))
    return tot


def scn(name, mk, bounds, nonconvex=False, fix=False, lo=False,
        maxlife=12, age=True, fixed_age=None, minlife=1, overall=False, flt=False, lists=True,
        tier="quick", max_paths=900):
    def build(S):
        S.abstract_pow = True  # annuities are not part of this property
        t = mk(S)
        b = Bus("b", balanced=False)
        kw, ikw = {}, {}
        P = t.P
        seq = (lambda n, lo_: S.reals(n, P, lo_)) if lists else (
            lambda n, lo_: S.real(n, lo_))
        ikw["maximum"] = seq("imax", 0)
        ikw["minimum"] = seq("imin", 0)
        ikw["lifetime"] = S.integer("life", minlife, maxlife)
        if fixed_age is not None:
            ikw["age"] = fixed_age
        elif age:
            ikw["age"] = S.integer("age", 0, maxlife - 1)
            S.assume(ikw["age"] < ikw["lifetime"])
        if nonconvex:
            ikw["nonconvex"] = True
        else:
            ikw["existing"] = S.real("ex", 0)
        if overall:
            ikw["overall_maximum"] = S.real("omax")
            ikw["overall_minimum"] = S.real("omin")
        if fix:
            kw["fix"] = S.reals("fx", t.T, 0)
        else:
            kw["maximum"] = S.reals("mx", t.T, 0)
        if lo:
            kw["minimum"] = S.real("mn", 0)
        if flt:
            kw["full_load_time_max"] = S.real("fmax", 0)
            kw["full_load_time_min"] = S.real("fmin", 0)
        n = cmp.Source("n", outputs={
            b: Flow(nominal_capacity=Investment(**ikw), **kw)})
        # second unit with another, fixed lifetime
        k = cmp.Sink("k", inputs={b: Flow(nominal_capacity=Investment(
            existing=S.real("ex2", 0), lifetime=7, age=3,
            maximum=S.real("jmax", 0)))})
        t.es.add(b, n, k)
        m = model(t)
        return W(m=m, t=t, key=(n, b), key2=(b, k))

    def spec(S, w, X, A):
        I = w.m.InvestmentFlowBlock
        PS = range(w.t.P)
        life = Z(S.params["life"])
        ag = (z3.IntVal(fixed_age) if fixed_age is not None
                else Z(S.params["age"]) if age else z3.IntVal(0))
        ex = rv(0) if nonconvex else Z(S.params["ex"])
        inv = [X.expr(I.invest[(*w.key, p)]) for p in PS]
        tot = [X.expr(I.total[(*w.key, p)]) for p in PS]
        inv2 = [X.expr(I.invest[(*w.key2, p)]) for p in PS]
        tot2 = [X.expr(I.total[(*w.key2, p)]) for p in PS]
        A.observe(w.m.flow, I.invest, I.total)
        par = lambda n, p: Z(S.params[f"{n}_{p}" if lists else n])
        for p in PS:
            A.ge(f"invest nonneg@{p}", inv[p], 0)
            A.ge(f"invest2 nonneg@{p}", inv2[p], 0)
            A.le(f"invest2 max@{p}", inv2[p], S.params["jmax"])
            A.eq(f"total@{p}", tot[p],
                 expected_total(w, inv, p, ex, life, ag))
            A.eq(f"total2@{p}", tot2[p],
                 expected_total(w, inv2, p, Z(S.params["ex2"]),
                                z3.IntVal(7), z3.IntVal(3)))
            if nonconvex:
                y = X.expr(I.invest_status[(*w.key, p)])
                A.observe(I.invest_status)
                A.prop(f"binary@{p}", Or(y == 0, y == 1))
                A.le(f"invest max@{p}", inv[p], y * par("imax", p))
                A.ge(f"invest min@{p}", inv[p], y * par("imin", p))
            else:
                A.le(f"invest max@{p}", inv[p], par("imax", p))
                A.ge(f"invest min@{p}", inv[p], par("imin", p))
            if overall:
                A.le(f"overall max@{p}", tot[p], S.params["omax"])
        if overall:
            A.ge("overall min", tot[-1], S.params["omin"])
        for t in w.t.steps:
            v = X.expr(w.m.flow[(*w.key, t)])
            g = X.expr(w.m.flow[(*w.key2, t)])
            p = w.t.period[t]
            A.ge(f"nonneg@{t}", v, 0)
            A.ge(f"g nonneg@{t}", g, 0)
            A.le(f"g upper@{t}", g, tot2[p])
            if fix:
                A.eq(f"fixed@{t}", v, tot[p] * Z(S.params[f"fx_{t}"]))
                continue
            A.le(f"upper@{t}", v, tot[p] * Z(S.params[f"mx_{t}"]))
            if lo:
                A.ge(f"lower@{t}", v, tot[p] * Z(S.params["mn"]))
        if flt:
            e = Sum(X.expr(w.m.flow[(*w.key, t)]) * Z(w.t.dt[t]) * w.t.w[t]
                    for t in w.t.steps)
            A.le("full load max", e, Sum(tot) * Z(S.params["fmax"]))
            A.ge("full load min", e, Sum(tot) * Z(S.params["fmin"]))

    return Scenario(name, build, spec, bounds=bounds, tier=tier,
                    max_paths=max_paths)


two = lambda S: es_periods(S, ((2030, 2), (2035, 2)))
three = lambda S: es_periods(S, ((2030, 1), (2033, 1), (2040, 2)))
four = lambda S: es_periods(
    S, ((2030, 1), (2031, 1), (2032, 1), (2036, 1)), dt=[1, 1, 1, 1])
tsam = lambda S: es_tsam_periods(S)
dense = lambda S: es_periods(
    S, ((2030, 1), (2031, 1), (2032, 1), (2033, 1), (2034, 1)), dt=[1] * 5)
uneven = lambda S: es_periods(
    S, ((2030, 1), (2036, 2), (2038, 1), (2039, 1)), dt=[1, 2, 1, 1, 1])
TIMES = dict(two=two, three=three, four=four, tsam=tsam, dense=dense,
             uneven=uneven)
LEVELS = {
    "time": tuple(TIMES),
    "life": (1, 2, 3, 4, 5, 6, 9),
    "age": ("new", "mid", "old"),
    "nonconvex": (False, True),
    "shape": ("", "fix", "lo"),
    "overall": (False, True),
    "flt": (False, True),
    "lists": (True, False),
}


def ages(kw, life, age, tier):
    if age != "new" and tier != "quick":
        kw["age"] = True  # any
    elif age == "new":
        kw["age"] = False
    else:
        kw["fixed_age"] = life - 1 if age == "old" else life // 2


def group(name, strength, tier):
    rows = covering(LEVELS, lambda o: True, lambda need: need, strength, 5)
    out = []
    for i, o in enumerate(rows):
        kw = {}
        ages(kw, o["life"], o["age"], tier)
        out.append(scn(
            f"{name}-{i:03d}", TIMES[o["time"]],
            " ".join(f"{k}={v}" for k, v in o.items()), tier=tier,
            minlife=o["life"], maxlife=o["life"] + (tier != "quick"), **kw,
            nonconvex=o["nonconvex"], fix=o["shape"] == "fix",
            lo=o["shape"] == "lo", overall=o["overall"], flt=o["flt"],
            lists=o["lists"]))
    return out


SCENARIOS = [
    *group("any", 2, "quick"),
    *group("any3", 3, "thorough"),
    scn("two-periods", two, "2 periods (years 0, 5) x 2 steps, life 1..8",
        maxlife=8, overall=True, lo=True),
    scn("three-periods-short", three, "3 periods (years 0, 3, 10), life 1..4",
        maxlife=4, overall=True),
    scn("three-periods-medium", three,
        "3 periods (years 0, 3, 10), life 5..8, age 0..7",
        minlife=5, maxlife=8, lists=False),
    scn("three-periods-long", three,
        "3 periods (years 0, 3, 10), life 9..12, age 0..11",
        minlife=9, lists=False),
    scn("three-periods", three, "3 periods (years 0, 3, 10), life 1..12",
        overall=True, tier="thorough"),
    scn("four-periods", four, "4 periods (years 0, 1, 2, 6), life 1..7",
        maxlife=7, lists=False, age=False),
    scn("four-periods-age", four, "4 periods (years 0, 1, 2, 6), life 1..7",
        maxlife=7, lists=False, tier="thorough"),
    scn("fixed-profile", two, "2 periods x 2 steps, life 1..8", maxlife=8,
        fix=True, lists=False),
    scn("nonconvex", three, "3 periods, life 1..12", nonconvex=True,
        age=False, lists=False),
    scn("full-load", two, "2 periods x 2 steps of arbitrary length",
        maxlife=8, flt=True),
    scn("tsam", tsam, "2 periods of 2 typical periods x 2 steps, life 1..7",
        maxlife=7, flt=True, lists=False),
]
