"""Storages over several investment periods."""
from symsolph.api import *
from symsolph.flowspec import covering


def expected_total(w, inv, p, ex, life, age):
    yrs = w.t.years
    tot = If(life - age > yrs[p], ex, rv(0)) if p else ex
    for q in range(p + 1):
        tot = tot + If(life > yrs[p] - yrs[q], inv[q], rv(0))
    return tot


def scn(name, mk, bounds, nonconvex=False, maxlife=8, minlife=1, fixed_age=None, capped=None, age=True, lo=False,
        overall=False, rel="", losses=False, costs=False,
        lists=False, two=False, tier="quick"):
    def build(S):
        S.abstract_pow = True  # annuities are not part of this property
        t = mk(S)
        a, b = Bus("a", balanced=False), Bus("b", balanced=False)
        t.es.add(a, b)
        P = t.P
        seq = (lambda n: S.reals(n, P, 0)) if lists else (
            lambda n: S.real(n, 0))
        ikw = {}
        if S.boolean("capped") if capped is None else capped:
            ikw["maximum"] = seq("imax")
        elif nonconvex:
            ikw["maximum"] = seq("imax")
        ikw["minimum"] = seq("imin")
        ikw["lifetime"] = S.integer("life", minlife, maxlife)
        if fixed_age is not None:
            ikw["age"] = fixed_age
        elif age:
            ikw["age"] = S.integer("age", 0, maxlife - 1)
            S.assume(ikw["age"] < ikw["lifetime"])
        if nonconvex:
            ikw["nonconvex"] = True
        else:
            ikw["existing"] = S.real("ex", 0)
        if overall:
            ikw["overall_maximum"] = S.real("omax")
            ikw["overall_minimum"] = S.real("omin")
        kw = {}
        if lo:
            kw["min_storage_level"] = S.reals("lo", t.T, 0, 1)
            kw["max_storage_level"] = S.reals("hi", t.T, 0, 1)
        if losses:
            kw["loss_rate"] = S.real("loss", 0, 1)
            kw["fixed_losses_relative"] = S.real("rel", 0)
        if costs:
            kw["storage_costs"] = S.reals("sc", t.T)
        fin, fout = Flow(), Flow()
        if "i" in rel or "x" in rel:
            fin = Flow(nominal_capacity=Investment(
                maximum=S.real("fimax", 0), lifetime=6))
        if "o" in rel or "x" in rel:
            fout = Flow(nominal_capacity=Investment(
                maximum=S.real("fomax", 0), lifetime=6))
        for c, nm in (("i", "input_capacity"), ("o", "output_capacity"),
                      ("x", "input_output")):
            if c in rel:
                kw["invest_relation_" + nm] = (
                    S.reals("r" + c, P, 0) if lists else S.real("r" + c, 0))
        n = cmp.GenericStorage(
            "n", inputs={a: fin}, outputs={b: fout}, balanced=False,
            nominal_capacity=Investment(**ikw), **kw)
        nodes = [n]
        if two:
            nodes.append(cmp.GenericStorage(
                "k", inputs={a: Flow()}, outputs={b: Flow()},
                balanced=False, nominal_capacity=Investment(
                    existing=S.real("ex2", 0), lifetime=7, age=3,
                    maximum=S.real("jmax", 0))))
        t.es.add(*nodes)
        return W(m=model(t), t=t, nodes=nodes, a=a, b=b)

    def spec(S, w, X, A):
        m, yrs = w.m, w.t.years
        B = m.GenericInvestmentStorageBlock
        PS, T = range(w.t.P), w.t.T
        A.observe(m.flow, B.storage_content, B.invest, B.total)
        p_ = lambda n, i: Z(S.params[f"{n}_{i}"] if f"{n}_{i}" in S.params
                            else S.params[n])
        for k, node in enumerate(w.nodes):
            inv = [X.expr(B.invest[node, p]) for p in PS]
            tot = [X.expr(B.total[node, p]) for p in PS]
            if k:
                life, ag, ex = z3.IntVal(7), z3.IntVal(3), p_("ex2", 0)
            else:
                life = Z(S.params["life"])
                ag = (z3.IntVal(fixed_age) if fixed_age is not None
                else Z(S.params["age"]) if age else z3.IntVal(0))
                ex = rv(0) if nonconvex else Z(S.params["ex"])
            for p in PS:
                A.ge(f"invest nonneg {k}@{p}", inv[p], 0)
                A.eq(f"total {k}@{p}", tot[p],
                     expected_total(w, inv, p, ex, life, ag))
                if k:
                    A.le(f"invest max {k}@{p}", inv[p], S.params["jmax"])
                    continue
                if nonconvex:
                    y = X.expr(B.invest_status[node, p])
                    A.observe(B.invest_status)
                    A.prop(f"binary@{p}", Or(y == 0, y == 1))
                    A.le(f"invest max@{p}", inv[p], y * p_("imax", p))
                    A.ge(f"invest min@{p}", inv[p], y * p_("imin", p))
                else:
                    if capped or S.params["capped"]:
                        A.le(f"invest max@{p}", inv[p], p_("imax", p))
                    A.ge(f"invest min@{p}", inv[p], p_("imin", p))
                if overall:
                    A.le(f"overall max@{p}", tot[p], S.params["omax"])
            if overall and not k:
                A.ge("overall min", tot[-1], S.params["omin"])
            c = [X.expr(B.storage_content[node, t]) for t in range(T + 1)]
            A.eq(f"initially empty {k}", c[0], 0)
            for t in w.t.steps:
                p = w.t.period[t]
                fi = X.expr(m.flow[w.a, node, t])
                fo = X.expr(m.flow[node, w.b, t])
                A.ge(f"in nonneg {k}@{t}", fi, 0)
                A.ge(f"out nonneg {k}@{t}", fo, 0)
                hi = p_("hi", t) if lo and not k else 1
                low = p_("lo", t) if lo and not k else 0
                A.le(f"content max {k}@{t}", c[t], tot[p] * hi)
                A.ge(f"content min {k}@{t}", c[t], tot[p] * low)
                dt = w.t.dt[t]
                keep, fixed = z3.RealVal(1), z3.RealVal(0)
                if losses and not k:
                    keep = Z((1 - S.params["loss"]) ** dt)
                    fixed = Z(S.params["rel"]) * tot[p] * Z(dt)
                A.eq(f"balance {k}@{t}", c[t + 1], c[t] * keep - fixed
                     + fi * Z(dt) - fo * Z(dt))
            A.ge(f"content min {k}@{T}", c[T], 0)
            # the capacity of the last period limits the final content, too
            A.le(f"content max {k}@{T}", c[T], tot[-1], complete=False)
            A.le(f"content max at end {k}", c[T], tot[-1] * hi, sound=False)
            if rel and not k:
                IF = m.InvestmentFlowBlock
                A.observe(IF.invest, IF.total)
                ft = {}
                for s, key in (("i", (w.a, node)), ("o", (node, w.b))):
                    if s not in rel and "x" not in rel:
                        continue
                    fi = [X.expr(IF.invest[(*key, p)]) for p in PS]
                    ft[s] = [X.expr(IF.total[(*key, p)]) for p in PS]
                    for p in PS:
                        A.ge(f"flow invest nonneg {s}@{p}", fi[p], 0)
                        A.le(f"flow invest max {s}@{p}", fi[p],
                             S.params[f"f{s}max"])
                        A.eq(f"flow total {s}@{p}", ft[s][p],
                             expected_total(w, fi, p, rv(0), z3.IntVal(6),
                                            z3.IntVal(0)))
                    for t in w.t.steps:
                        A.le(f"flow capacity {s}@{t}",
                             X.expr(m.flow[(*key, t)]),
                             ft[s][w.t.period[t]])
                for p in PS:
                    if "i" in rel:
                        A.eq(f"input capacity@{p}", ft["i"][p],
                             tot[p] * p_("ri", p))
                    if "o" in rel:
                        A.eq(f"output capacity@{p}", ft["o"][p],
                             tot[p] * p_("ro", p))
                    if "x" in rel:
                        A.eq(f"input output@{p}", ft["i"][p],
                             ft["o"][p] * p_("rx", p))
        if costs:
            A.objective(Sum(
                X.expr(B.storage_content[w.nodes[0], t + 1]) * p_("sc", t)
                for t in w.t.steps), "storage costs")

    return Scenario(name, build, spec, bounds=bounds, tier=tier,
                    max_paths=900)


def misuse(name, what):
    """data that has no meaning in a multi-period system is rejected"""

    def build(S):
        t = two_p(S)
        b = Bus("b", balanced=False)
        kw = {}
        ikw = dict(lifetime=5, existing=1)
        if what == "initial":
            kw["initial_storage_level"] = S.real("x", 0, 1)
        elif what == "absolute":
            kw["fixed_losses_absolute"] = S.real("x")
        else:
            ikw = dict(existing=1)
        t.es.add(b, cmp.GenericStorage(
            "n", inputs={b: Flow()}, outputs={b: Flow()}, balanced=False,
            nominal_capacity=Investment(**ikw), **kw))
        return W(m=model(t), t=t)

    def errors(S):
        if what == "absolute":
            return must_raise(Z(S.params["x"]) != 0, ValueError)
        return must_raise(True, ValueError)

    return Scenario(name, build, lambda S, w, X, A: None, errors=errors,
                    bounds="2 periods")


def fixed_relation(name, mk, bounds):
    """fixed content, but optimised power: the relation of the powers holds
    in every period"""

    def build(S):
        S.abstract_pow = True  # annuities are not part of this property
        t = mk(S)
        a, b = Bus("a", balanced=False), Bus("b", balanced=False)
        flow = lambda n: Flow(nominal_capacity=Investment(
            maximum=S.real(n, 0), lifetime=6))
        n = cmp.GenericStorage(
            "n", inputs={a: flow("fimax")}, outputs={b: flow("fomax")},
            balanced=False, nominal_capacity=S.real("cap", 0),
            invest_relation_input_output=S.reals("rx", t.P, 0))
        t.es.add(a, b, n)
        return W(m=model(t), t=t, n=n, a=a, b=b)

    def spec(S, w, X, A):
        m, n = w.m, w.n
        B, IF = m.GenericStorageBlock, m.InvestmentFlowBlock
        A.observe(m.flow, B.storage_content, IF.invest, IF.total)
        ft = {}
        for s, key in (("i", (w.a, n)), ("o", (n, w.b))):
            fi = [X.expr(IF.invest[(*key, p)]) for p in range(w.t.P)]
            ft[s] = [X.expr(IF.total[(*key, p)]) for p in range(w.t.P)]
            for p in range(w.t.P):
                A.ge(f"flow invest nonneg {s}@{p}", fi[p], 0)
                A.le(f"flow invest max {s}@{p}", fi[p], S.params[f"f{s}max"])
                A.eq(f"flow total {s}@{p}", ft[s][p], expected_total(
                    w, fi, p, rv(0), z3.IntVal(6), z3.IntVal(0)))
            for t in w.t.steps:
                f = X.expr(m.flow[(*key, t)])
                A.ge(f"flow nonneg {s}@{t}", f, 0)
                A.le(f"flow capacity {s}@{t}", f, ft[s][w.t.period[t]])
        for p in range(w.t.P):
            A.eq(f"input output@{p}", ft["i"][p],
                 ft["o"][p] * Z(S.params[f"rx_{p}"]))
        c = [X.expr(B.storage_content[n, t]) for t in range(w.t.T + 1)]
        for t in range(w.t.T + 1):
            A.ge(f"content min@{t}", c[t], 0)
            A.le(f"content max@{t}", c[t], S.params["cap"])
        for t in w.t.steps:
            A.eq(f"balance@{t}", c[t + 1], c[t] + Z(w.t.dt[t]) * (
                X.expr(m.flow[w.a, n, t]) - X.expr(m.flow[n, w.b, t])))

    return Scenario(name, build, spec, bounds=bounds, max_paths=400)


two_p = lambda S: es_periods(S, ((2030, 2), (2035, 2)))
three = lambda S: es_periods(S, ((2030, 1), (2033, 1), (2040, 2)))
four = lambda S: es_periods(
    S, ((2030, 1), (2031, 1), (2032, 1), (2036, 1)), dt=[1, 1, 1, 1])
dense = lambda S: es_periods(
    S, ((2030, 1), (2031, 1), (2032, 1), (2033, 1), (2034, 1)), dt=[1] * 5)
uneven = lambda S: es_periods(
    S, ((2030, 1), (2036, 2), (2038, 1), (2039, 1)), dt=[1, 2, 1, 1, 1])
TIMES = dict(two=two_p, three=three, four=four, dense=dense, uneven=uneven)
LEVELS = {
    "time": tuple(TIMES),
    "life": (1, 2, 3, 4, 5, 6, 9),
    "age": ("new", "mid", "old"),
    "nonconvex": (False, True),
    "lo": (False, True),
    "losses": (False, True),
    "overall": (False, True),
    "rel": ("", "i", "o", "x", "io", "ix", "ox"),
    "lists": (True, False),
    "two": (False, True),
}


def ages(kw, life, age, tier):
    if age != "new" and tier != "quick":
        kw["age"] = True  # any
    elif age == "new":
        kw["age"] = False
    else:
        kw["fixed_age"] = life - 1 if age == "old" else life // 2


def group(name, strength, tier):
    rows = covering(LEVELS, lambda o: True, lambda need: need, strength, 5)
    out = []
    for i, o in enumerate(rows):
        kw = dict(o)
        lf = kw.pop("life")
        ages(kw, lf, kw.pop("age"), tier)
        out.append(scn(
            f"{name}-{i:03d}", TIMES[kw.pop("time")],
            " ".join(f"{k}={v}" for k, v in o.items()), tier=tier,
            minlife=lf, maxlife=lf + (tier != "quick"),
            capped=tier == "quick" or None, **kw))
    return out


SCENARIOS = [
    *group("any", 2, "quick"),
    *group("any3", 3, "thorough"),
    scn("two-periods", two_p, "2 periods (years 0, 5) x 2 steps, life 1..8",
        overall=True, two=True),
    scn("levels-losses", two_p, "2 periods x 2 steps", lo=True, losses=True,
        age=False, maxlife=6),
    scn("three-periods", three, "3 periods (years 0, 3, 10), life 1..12",
        maxlife=12, overall=True, lists=True),
    scn("four-periods", four, "4 periods (years 0, 1, 2, 6), life 1..7",
        maxlife=7, age=False),
    scn("four-periods-age", four, "4 periods (years 0, 1, 2, 6), life 1..7",
        maxlife=7, tier="thorough"),
    scn("nonconvex", two_p, "2 periods x 2 steps, life 1..8",
        nonconvex=True, age=False),
    scn("relations", two_p, "2 periods x 2 steps, life 1..8", rel="io",
        age=False, lists=True),
    scn("relation-flows", two_p, "2 periods x 2 steps, life 5..6", rel="x",
        age=False, lists=True, maxlife=6),
    scn("content-costs", two_p, "2 periods x 2 steps, life 1..2",
        costs=True, age=False, maxlife=2),
    fixed_relation("fixed-content-relation", lambda S: two_p(S),
                   "2 periods x 2 steps, power optimised, content fixed"),
    misuse("initial-level", "initial"),
    misuse("absolute-losses", "absolute"),
    misuse("no-lifetime", "life"),
]
