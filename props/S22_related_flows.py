"""Coupled flows and variables, number of concurrently active flows."""
from symsolph.api import *

C = solph.constraints


# (a flow is picked by the keyword, whatever value it has)
VALUES = (True, 0, None, "", False, 1)


def sources(S, t, n, on=(), kws=None, invest=()):
    b = Bus("b", balanced=False)
    t.es.add(b)
    keys = []
    for i in range(n):
        kw = {}
        if i in on:
            kw["nonconvex"] = NonConvex()
        if kws:
            kw["custom_properties"] = {k: VALUES[i % 6] for k in kws[i]}
        cap = S.real(f"P{i}", 0)
        if i in invest:
            cap = Investment(maximum=cap, ep_costs=1)
        s = cmp.Source(f"n{i}", outputs={b: Flow(nominal_capacity=cap, **kw)})
        t.es.add(s)
        keys.append((s, b))
    return keys


def describe(S, w, X, A, on=(), invest=()):
    m, t = w.m, w.t
    A.observe(m.flow)
    v, st = {}, {}
    for i, k in enumerate(w.keys):
        cap = Z(S.params[f"P{i}"])
        B = m.NonConvexFlowBlock if i in on else m.InvestmentFlowBlock
        if i in invest:
            if i in on:
                B = m.InvestNonConvexFlowBlock
            A.observe(B.invest)
            inv = X.expr(B.invest[(*k, 0)])
            A.ge(f"invest {i}", inv, 0)
            A.le(f"invest max {i}", inv, cap)
            cap = inv
            if i not in on:
                A.observe(B.total)
                A.eq(f"total {i}", X.expr(B.total[(*k, 0)]), inv)
        for s in t.steps:
            v[i, s] = x = X.expr(m.flow[(*k, s)])
            A.ge(f"lower {i}@{s}", x, 0)
            A.le(f"upper {i}@{s}", x, cap)
            if i in on:
                A.observe(B.status)
                st[i, s] = y = X.expr(B.status[(*k, s)])
                A.prop(f"status {i}@{s}", Or(y == 0, y == 1))
                A.prop(f"off {i}@{s}", Implies(y == 0, x == 0))
    return v, st


def equal(name, mk, bounds, groups=((0, 1), (2,)), factor=True,
          by_keyword=False, second=False, n=4, iterators=False, zero=False,
          named=False):
    def build(S):
        t = mk(S)
        kws = [[k for k, g in zip(("one", "two"), groups) if i in g]
               for i in range(n)]
        keys = sources(S, t, n, kws=kws)
        m = model(t, other_weights=True)
        a = {}
        if factor:
            a["factor1"] = 0 if zero else S.real("factor")
        if named:
            a["name"] = "my_equation"
        if by_keyword:
            r = C.equate_flows_by_keyword(m, "one", "two", **a)
        else:
            r = C.equate_flows(
                m, *[(iter if iterators else list)([keys[i] for i in g])
                     for g in groups], **a)
        assert r is m
        if second:
            C.equate_flows(m, [keys[1]], [keys[3]], S.pos("factor2"),
                           **({} if named else {"name": "another"}))
        return W(m=m, t=t, keys=keys)

    def spec(S, w, X, A):
        v, _ = describe(S, w, X, A)
        f = Z(S.params["factor"]) if factor and not zero else rv(
            0 if zero else 1)
        for s in w.t.steps:
            A.eq(f"equal@{s}", f * Sum(v[i, s] for i in groups[0]),
                 Sum(v[i, s] for i in groups[1]))
            if second:
                A.eq(f"also equal@{s}", Z(S.params["factor2"]) * v[1, s],
                     v[3, s])

    return Scenario(name, build, spec, bounds=bounds)


def variables(name, what, bounds, factor=True, named=False, zero=False):
    """two variables of the model are tied to each other"""

    def build(S):
        t = es_sym(S, 2)
        keys = sources(S, t, 3, invest=(0, 1), on=(2,))
        m = model(t, other_weights=True)
        I = m.InvestmentFlowBlock
        x, y = {
            "invest": lambda: (I.invest[(*keys[0], 0)],
                               I.invest[(*keys[1], 0)]),
            "flow": lambda: (m.flow[(*keys[0], 0)], m.flow[(*keys[1], 1)]),
            "mixed": lambda: (m.flow[(*keys[2], 1)],
                              I.total[(*keys[1], 0)]),
        }[what]()
        a = {}
        if factor:
            a["factor1"] = 0 if zero else S.real("factor")
            S.assume(a["factor1"] != 0 or zero)
        if named:
            a["name"] = "my_equation"
        C.equate_variables(m, x, y, **a)
        if what != "flow":
            C.equate_variables(m, m.flow[(*keys[0], 0)],
                               m.flow[(*keys[0], 1)], factor1=S.pos("g"))
        return W(m=m, t=t, keys=keys, xy=(x, y))

    def spec(S, w, X, A):
        v, _ = describe(S, w, X, A, (2,), (0, 1))
        x, y = w.xy
        f = Z(S.params["factor"]) if factor and not zero else rv(
            0 if zero else 1)
        A.eq("tied", X.expr(x) * f, X.expr(y))
        if what != "flow":
            A.eq("tied steps", v[0, 0] * Z(S.params["g"]), v[0, 1])

    return Scenario(name, build, spec, bounds=bounds)


def count(name, mk, bounds, lo=False, up=True, listed=(0, 2, 3),
          on=(0, 1, 2, 3), by_keyword=False, invest=(), n=4, second=False):
    def build(S):
        t = mk(S)
        kws = [["busy"] if i in listed else [] for i in range(n)]
        keys = sources(S, t, n, on, kws=kws, invest=invest)
        m = model(t, other_weights=True)
        a = {}
        if lo:
            a["lower_limit"] = S.integer("least", 0, n)
        if up:
            a["upper_limit"] = S.integer("most", 0, n)
        if by_keyword:
            r = C.limit_active_flow_count_by_keyword(m, "busy", **a)
        else:
            r = C.limit_active_flow_count(
                m, "busy", [keys[i] for i in listed], **a)
        assert r is m
        if second:
            C.limit_active_flow_count(m, "second", keys[:2], upper_limit=1)
        return W(m=m, t=t, keys=keys)

    def spec(S, w, X, A):
        v, st = describe(S, w, X, A, on, invest)
        for s in w.t.steps:
            num = Sum(st[i, s] for i in listed)
            A.eq(f"reported number@{s}", X.expr(w.m.busy[s]), num)
            if up:
                A.le(f"at most@{s}", num, Z(S.params["most"]))
            if lo:
                A.ge(f"at least@{s}", num, Z(S.params["least"]))
            if second:
                A.le(f"second@{s}", st[0, s] + st[1, s], 1)

    return Scenario(name, build, spec, bounds=bounds)


sym = lambda S: es_sym(S, 3)
mp = lambda S: es_periods(S)
ts = lambda S: es_tsam(S, (0, 1, 0))
SCENARIOS = [
    equal("equal", sym, "3 steps"),
    equal("equal-default", sym, "3 steps", factor=False),
    equal("equal-overlapping", sym, "3 steps", ((0, 1), (1, 2, 3))),
    equal("equal-keyword", sym, "3 steps", ((0, 3), (1, 2)),
          by_keyword=True),
    equal("equal-keyword-default", sym, "3 steps", ((3,), (0, 1)),
          by_keyword=True, factor=False),
    equal("equal-keyword-empty", sym, "3 steps", ((1, 2), ()),
          by_keyword=True, factor=False),
    equal("equal-iterators", sym, "3 steps", iterators=True),
    equal("equal-two", sym, "3 steps", second=True),
    equal("equal-factor-zero", sym, "3 steps", zero=True),
    equal("equal-keyword-named", sym, "3 steps", ((0, 3), (1, 2)),
          by_keyword=True, named=True, second=True),
    equal("equal-named", sym, "3 steps", named=True, second=True),
    equal("equal-multi-period", mp, "2 periods x 2 steps"),
    equal("equal-tsam", ts, "2 typical periods x 2 steps", by_keyword=True),
    variables("variables-invest", "invest", "2 steps"),
    variables("variables-flow", "flow", "2 steps", named=True),
    variables("variables-zero", "invest", "2 steps", zero=True),
    variables("variables-mixed", "mixed", "2 steps", factor=False),
    count("count-upper", sym, "3 steps, 3 of 4 flows"),
    count("count-both", sym, "3 steps, 3 of 4 flows", lo=True),
    count("count-lower", sym, "3 steps, 3 of 4 flows", lo=True, up=False),
    count("count-two", sym, "3 steps, 2 limits", second=True),
    count("count-keyword", sym, "3 steps, 3 of 4 flows", by_keyword=True,
          lo=True),
    count("count-keyword-default", sym, "3 steps, 2 of 4 flows",
          listed=(1, 3), by_keyword=True),
    count("count-multi-period", mp, "2 periods x 2 steps", n=2, on=(0, 1),
          listed=(0, 1), lo=True),
    count("count-tsam", ts, "2 typical periods x 2 steps", n=2, on=(0, 1),
          listed=(0, 1), lo=True),
    count("count-invest", sym, "3 steps", n=3, on=(0, 1, 2),
          listed=(0, 1), invest=(1,)),
    count("count-invest-only", sym, "3 steps", n=2, on=(0, 1),
          listed=(0, 1), invest=(0, 1), lo=True),
    count("count-invest-keyword", sym, "3 steps", n=3, on=(0, 1, 2),
          listed=(0, 1), invest=(1,), by_keyword=True),
    count("count-invest-keyword-only", sym, "3 steps", n=2, on=(0, 1),
          listed=(1,), invest=(0, 1), by_keyword=True),
]
