"""Operating and fixed costs in the objective (fixed capacities)."""
from symsolph.api import *
from symsolph import flowspec


def system(S, t, costs="list", **mkw):
    b1, b2 = Bus("b1"), Bus("b2")
    c = (lambda n: S.reals(n, t.T)) if costs == "list" else (
        lambda n: S.real(n))
    src = cmp.Source("src", outputs={
        b1: Flow(nominal_capacity=S.real("P", 0), variable_costs=c("c1"))})
    free = cmp.Source("free", outputs={b1: Flow()})
    conv = cmp.Converter(
        "conv",
        inputs={b1: Flow(variable_costs=c("c2"))},
        outputs={b2: Flow(variable_costs=S.real("c3"))},
        conversion_factors={b2: S.pos("eta")},
    )
    snk = cmp.Sink("snk", inputs={b2: Flow(variable_costs=c("c4"))})
    inv = cmp.Source("inv", outputs={
        b1: Flow(nominal_capacity=Investment(ep_costs=S.real("ep"),
                                             maximum=S.real("im", 0),
                                             lifetime=40),
                 variable_costs=c("c5"))})
    non = cmp.Source("non", outputs={
        b1: Flow(nominal_capacity=S.real("PN", 0), nonconvex=NonConvex(),
                 variable_costs=c("c6"))})
    t.es.add(b1, b2, src, free, conv, snk, inv, non)
    m = model(t, **mkw)
    return W(m=m, t=t, costs=costs, inv=(inv, b1), flows=dict(
        c1=(src, b1), c2=(b1, conv), c3=(conv, b2), c4=(b2, snk),
        c5=(inv, b1), c6=(non, b1)))


def variable(S, w, X, weight, disc=lambda t: 1):
    tot = []
    for n, k in w.flows.items():
        for t in w.t.steps:
            c = S.params[n] if n in S.params else S.params[f"{n}_{t}"]
            tot.append(X.expr(w.m.flow[(*k, t)]) * Z(c) * Z(weight(t))
                       * w.t.w[t] * disc(t))
    return Sum(tot)


def std_spec(S, w, X, A):
    inv = X.expr(w.m.InvestmentFlowBlock.invest[(*w.inv, 0)])
    A.objective(variable(S, w, X, lambda t: w.t.dt[t])
                + inv * Z(S.params["ep"]))


def weighted(S):
    t = es_sym(S, 3)
    w = system(S, t, objective_weighting=[S.real(f"ow{i}")
                                          for i in range(3)])
    return w


def weighted_spec(S, w, X, A):
    inv = X.expr(w.m.InvestmentFlowBlock.invest[(*w.inv, 0)])
    A.objective(variable(S, w, X, lambda t: S.params[f"ow{t}"])
                + inv * Z(S.params["ep"]))


def mp(S):
    t = es_periods(S, ((2030, 2), (2035, 2), (2037, 2)))
    b = Bus("b", balanced=False)
    fl = {}
    for i in range(2):
        s = cmp.Source(f"s{i}", outputs={
            b: Flow(nominal_capacity=S.real(f"P{i}", 0),
                    variable_costs=S.reals(f"c{i}", t.T))})
        t.es.add(s)
        fl[f"c{i}"] = (s, b)
    t.es.add(b)
    m = model(t, discount_rate=S.real("r", 0))
    return W(m=m, t=t, flows=fl)


def mp_spec(S, w, X, A):
    r = 1 + Z(S.params["r"])

    def disc(t):
        out = rv(1)
        for _ in range(w.t.years[w.t.period[t]]):
            out = out * r
        return rv(1) / out

    A.objective(variable(S, w, X, lambda t: w.t.dt[t], disc))


def fixed(kind, lst):
    def build(S):
        t = es_periods(S, ((2030, 2), (2032, 3)), last=3)
        b = Bus("b", balanced=False)
        n = t.end_year
        kw = dict(fixed_costs=S.reals("fc", n) if lst else S.real("fc"))
        if kind != "plain":
            kw["lifetime"] = S.integer("life", 1, 8)
        if kind == "age":
            kw["age"] = S.integer("age", 1, 8)
            S.assume(kw["age"] <= kw["lifetime"])
        s = cmp.Source("s", outputs={
            b: Flow(nominal_capacity=S.real("P", 0), **kw)})
        # other flow with capacity but without fixed costs
        o = cmp.Sink("o", inputs={b: Flow(nominal_capacity=S.real("Q", 0))})
        t.es.add(b, s, o)
        m = model(t, discount_rate=S.real("r", 0))
        return W(m=m, t=t)

    def spec(S, w, X, A):
        P = Z(S.params["P"])
        n = w.t.end_year
        left = None
        if kind != "plain":
            left = Z(S.params["life"])
        if kind == "age":
            left = left - Z(S.params["age"])
        tot = []
        for y in range(n):
            c = Z(S.params[f"fc_{y}"] if lst else S.params["fc"])
            term = P * c
            if left is not None:
                term = If(left > y, term, rv(0))
            tot.append(term)
        A.objective(Sum(tot))

    return Scenario(f"fixed-costs-{kind}-{'profile' if lst else 'scalar'}",
                    build, spec,
                    bounds="5 years (2 periods), lifetime/age 1..8")


SCENARIOS = [
    Scenario("profile", lambda S: system(S, es_sym(S, 3)), std_spec,
             bounds="3 steps of arbitrary length, 6 cost profiles"),
    Scenario("scalar", lambda S: system(S, es_sym(S, 3), "scalar"), std_spec,
             bounds="3 steps"),
    Scenario("tsam", lambda S: system(S, es_tsam(S)), std_spec,
             bounds="2 typical periods x 2 steps, order 0,1,0"),
    Scenario("objective-weighting", weighted, weighted_spec,
             bounds="3 steps"),
    Scenario("multi-period-discounting", mp, mp_spec,
             bounds="3 periods (years 0,5,7) x 2 steps"),
    fixed("plain", False),
    fixed("plain", True),
    fixed("lifetime", False),
    fixed("age", False),
    fixed("lifetime", True),
    fixed("age", True),
]
# together with other options
USE = ("vc", "minimum", "maximum", "integer", "nonconvex", "cap", "flt",
       "fix", "direction")
SCENARIOS += [
    *flowspec.group("combined", "sym", lambda S: es_sym(S, 2), "2 steps",
                    use=USE),
    *flowspec.group("combined-mp", "mp",
                    lambda S: es_periods(S, ((2030, 1), (2033, 2))),
                    "2 periods, 1/2 steps", use=USE + ("life", "fc"),
                    discount=True),
    *flowspec.group("combined-tsam", "ts",
                    lambda S: es_tsam(S, (0, 1, 0), 1),
                    "2 typical periods x 1 step", use=USE),
]
