"""Linear conversion between the flows of a converter."""
import numpy as np
import pandas as pd

from symsolph.api import *


def scn(name, mk, bounds, nin=1, nout=1, given="all", kind="list",
        invest=False, nonneg=True, tier="quick", n=1):
    """n converters with nin inputs and nout outputs"""

    def build(S):
        t = mk(S)
        buses = [Bus(f"b{i}", balanced=False) for i in range(nin + nout)]
        t.es.add(*buses)
        eta, nodes = {}, []
        kws = {} if nonneg else {"minimum": -1, "nominal_capacity":
                                 S.real("P", 0)}
        for c in range(n):
            cf = {}
            for i, b in enumerate(buses):
                if given == "none" or (given == "out" and i < nin) or (
                    given == "mixed" and (i + c) % 2
                ):
                    eta[c, i] = [rv(1)] * t.T
                    continue
                nm = f"eta{c}_{i}"
                if kind == "zero" and i % 2:
                    v = 0 if i % 4 == 1 else [0] * t.T
                    eta[c, i] = [rv(0)] * t.T
                elif kind == "scalar" or (kind == "mixed" and i % 2):
                    v = S.real(nm)
                    eta[c, i] = [Z(v)] * t.T
                else:
                    # a series may be longer than the time axis
                    v = S.reals(nm, t.T + (2 if kind == "longer" else 0))
                    eta[c, i] = [Z(x) for x in v]
                    if kind == "array":
                        v = np.array(v, dtype=object)
                    elif kind == "series":
                        v = pd.Series(v, dtype=object)
                    elif kind == "tuple":
                        v = tuple(v)
                cf[b] = v
            outs = {b: Flow(**kws) for b in buses[nin:]}
            if invest:
                outs[buses[nin]] = Flow(nominal_capacity=Investment(
                    maximum=S.real(f"imax{c}", 0)))
            kw = {} if given == "none" else {"conversion_factors": cf}
            nodes.append(cmp.Converter(
                f"c{c}", inputs={b: Flow(**kws) for b in buses[:nin]},
                outputs=outs, **kw))
        t.es.add(*nodes)
        return W(m=model(t, other_weights=True), t=t, nodes=nodes, buses=buses, eta=eta)

    def spec(S, w, X, A):
        m = w.m
        A.observe(m.flow)
        for c, node in enumerate(w.nodes):
            for t in w.t.steps:
                vi = [X.expr(m.flow[b, node, t]) for b in w.buses[:nin]]
                vo = [X.expr(m.flow[node, b, t]) for b in w.buses[nin:]]
                for k, v in enumerate(vi + vo):
                    if nonneg:
                        A.ge(f"nonneg {c},{k}@{t}", v, 0)
                    else:
                        A.le(f"ub {c},{k}@{t}", v, S.params["P"])
                        A.ge(f"lb {c},{k}@{t}", v, -Z(S.params["P"]))
                for i, x in enumerate(vi):
                    for o, y in enumerate(vo):
                        A.eq(f"conversion {c}: {i}->{o}@{t}",
                             x * w.eta[c, nin + o][t], y * w.eta[c, i][t])
            if invest:
                B = m.InvestmentFlowBlock
                k = (node, w.buses[nin])
                A.observe([B.invest[(*k, p)] for p in m.PERIODS])
                I = X.expr(B.invest[(*k, 0)])
                A.le(f"imax {c}", I, S.params[f"imax{c}"])
                A.ge(f"imin {c}", I, 0)
                for t in w.t.steps:
                    A.le(f"cap {c}@{t}", X.expr(m.flow[(*k, t)]), I)

    return Scenario(name, build, spec, bounds=bounds, tier=tier)


s1 = lambda S: es_sym(S, 1)
s2 = lambda S: es_sym(S, 2)
s3 = lambda S: es_sym(S, 3)
mp = lambda S: es_periods(S, ((2030, 1), (2035, 2)))
ts = lambda S: es_tsam(S, (0, 1, 0), 2)
tp = lambda S: es_tsam_periods(S)
SCENARIOS = [
    scn("one-one", s3, "3 steps, factor profiles"),
    scn("one-one-scalar", s3, "3 steps, constant factors", kind="scalar"),
    scn("default", s2, "2 steps, no factors given", 2, 2, given="none"),
    scn("default-three", s1, "1 step, no factors given", 3, 4,
        given="none"),
    scn("default-some", s1, "1 step, some factors given", 4, 4,
        given="mixed"),
    scn("zero", s2, "2 steps, some factors zero", 2, 3, kind="zero"),
    scn("longer", s2, "2 steps, longer series", 2, 2, kind="longer"),
    scn("outputs-only", s3, "3 steps, factors of outputs", 2, 2,
        given="out"),
    scn("one-two", s3, "3 steps", 1, 2, kind="mixed"),
    scn("two-one", s3, "3 steps", 2, 1, kind="mixed"),
    scn("three-three", s2, "2 steps", 3, 3, kind="mixed"),
    scn("bidirectional", s2, "2 steps, flows of any sign", 1, 2,
        nonneg=False),
    scn("array", s2, "2 steps, object arrays", kind="array"),
    scn("series", s2, "2 steps, pandas series", kind="series"),
    scn("tuple", s2, "2 steps, tuples", kind="tuple"),
    scn("several", s2, "2 steps, 3 converters sharing buses", 1, 2, n=3,
        given="mixed"),
    scn("invest", s2, "2 steps", 1, 2, invest=True),
    scn("multi-period", mp, "2 periods", 1, 2),
    scn("tsam", ts, "2 typical periods x 2 steps", 1, 2),
    scn("tsam-periods", tp, "2 periods of typical periods", 1, 1),
    scn("wide", s1, "1 step, 5 inputs, 5 outputs", 5, 5, tier="thorough"),
]
