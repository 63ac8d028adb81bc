"""Losses of links: directed, weighted transport between buses."""
from symsolph.api import *


def scn(name, mk, bounds, kind="list", pairs=((0, 1), (1, 0)), n=1,
        caps=True, invest=False, tier="quick"):
    nb = max(max(p) for p in pairs) + 1

    def build(S):
        t = mk(S)
        buses = [Bus(f"b{i}", balanced=False) for i in range(nb)]
        t.es.add(*buses)
        nodes, c = [], {}
        for k in range(n):
            cf = {}
            for a, b in pairs:
                nm = f"c{k}_{a}{b}"
                if kind == "zero" and a:
                    v = 0
                    c[k, a, b] = [rv(0)] * t.T
                elif kind == "scalar" or (kind == "mixed" and a):
                    v = S.real(nm)
                    c[k, a, b] = [Z(v)] * t.T
                else:
                    v = S.reals(nm, t.T + (1 if kind == "longer" else 0))
                    c[k, a, b] = [Z(x) for x in v]
                cf[buses[a], buses[b]] = v
            ins = {a for a, _ in pairs}
            outs = {b for _, b in pairs}
            link = cmp.Link(
                f"link{k}",
                inputs={buses[a]: Flow(nominal_capacity=(
                    Investment(maximum=S.real(f"im{k}_{a}", 0)) if invest
                    else S.real(f"P{k}_{a}", 0))) if caps else Flow()
                    for a in ins},
                outputs={buses[b]: Flow() for b in outs},
                conversion_factors=cf)
            nodes.append(link)
        t.es.add(*nodes)
        return W(m=model(t, other_weights=True), t=t, nodes=nodes, buses=buses, c=c)

    def spec(S, w, X, A):
        m = w.m
        A.observe(m.flow)
        if invest:
            A.observe(m.InvestmentFlowBlock.invest)
        for k, node in enumerate(w.nodes):
            for a in {a for a, _ in pairs}:
                if invest:
                    I = X.expr(m.InvestmentFlowBlock.invest[
                        w.buses[a], node, 0])
                    A.ge(f"invest min {k}{a}", I, 0)
                    A.le(f"invest max {k}{a}", I, S.params[f"im{k}_{a}"])
                for t in w.t.steps:
                    v = X.expr(m.flow[w.buses[a], node, t])
                    A.ge(f"in nonneg {k}{a}@{t}", v, 0)
                    if caps:
                        A.le(f"in max {k}{a}@{t}", v,
                             I if invest else S.params[f"P{k}_{a}"])
            for t in w.t.steps:
                for b in {b for _, b in pairs}:
                    A.ge(f"out nonneg {k}{b}@{t}",
                         X.expr(m.flow[node, w.buses[b], t]), 0)
                for a, b in pairs:
                    A.eq(f"link {k} {a}->{b}@{t}",
                         X.expr(m.flow[node, w.buses[b], t]),
                         w.c[k, a, b][t] * X.expr(
                             m.flow[w.buses[a], node, t]))

    return Scenario(name, build, spec, bounds=bounds, tier=tier)


def wrong(S):
    """conversion factor between buses the link is not connected to"""
    t = es_sym(S, 1)
    a, b, c = (Bus(x, balanced=False) for x in "abc")
    far = S.boolean("far")
    link = cmp.Link("l", inputs={a: Flow(), b: Flow()},
                    outputs={a: Flow(), b: Flow()},
                    conversion_factors={
                        (a, b): S.real("x"),
                        (b, c if far else a): S.real("y")})
    t.es.add(a, b, c, link)
    return W(m=model(t, other_weights=True))


s2 = lambda S: es_sym(S, 2)
s3 = lambda S: es_sym(S, 3)
SCENARIOS = [
    scn("both-ways", s3, "3 steps, factor profiles"),
    scn("both-ways-scalar", s3, "3 steps", kind="scalar"),
    scn("mixed", s3, "3 steps, profile and constant", kind="mixed"),
    scn("one-way", s3, "3 steps", pairs=((0, 1),)),
    scn("uncapped", s2, "2 steps", caps=False),
    scn("three-links", s2, "2 steps, 3 parallel links", n=3, kind="mixed"),
    scn("chain", s2, "2 steps, 3 buses",
        pairs=((0, 1), (1, 2), (2, 0))),
    scn("hub", s2, "2 steps, 4 buses, 6 connections",
        pairs=((0, 1), (1, 0), (0, 2), (2, 3), (3, 1), (1, 3))),
    scn("fan", s2, "2 steps, 1 input, 5 outputs", kind="mixed",
        pairs=tuple((0, b) for b in range(1, 6))),
    scn("zero", s2, "2 steps, a factor of zero", kind="zero"),
    scn("longer", s2, "2 steps, longer series", kind="longer"),
    scn("invest", s2, "2 steps", invest=True),
    scn("multi-period",
        lambda S: es_periods(S, ((2030, 1), (2035, 2))), "2 periods"),
    scn("tsam", lambda S: es_tsam(S, (0, 1, 0), 2),
        "2 typical periods x 2 steps"),
    Scenario("unconnected", wrong,
             errors=lambda S: must_raise(YN(S, "far"), (KeyError,)),
             bounds="1 step"),
]
