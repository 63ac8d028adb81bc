"""Bus balance."""
from symsolph.api import *


def topo(S, t, bus_kw=None):
    b1, b2 = Bus("b1"), Bus("b2", balanced=True)
    free = Bus("unbalanced", balanced=False)
    srcs = [
        cmp.Source(
            f"s{i}",
            outputs={
                b1: Flow(
                    nominal_capacity=S.real(f"P{i}", 0),
                    variable_costs=S.real(f"c{i}"),
                )
            },
        )
        for i in range(2)
    ]
    dem = cmp.Sink(
        "dem",
        inputs={
            b2: Flow(
                nominal_capacity=S.real("D", 0),
                fix=S.reals("fix", t.T, 0),
            )
        },
    )
    conv = cmp.Converter(
        "conv",
        inputs={b1: Flow()},
        outputs={b2: Flow()},
        conversion_factors={b2: S.pos("eta")},
    )
    side = cmp.Converter(
        "side",
        inputs={free: Flow()},
        outputs={b2: Flow()},
        conversion_factors={b2: S.pos("eta2")},
    )
    ex = cmp.Sink("ex", inputs={b1: Flow()})
    t.es.add(b1, b2, free, *srcs, dem, conv, side, ex)
    m = model(t, other_weights=True)
    return W(m=m, t=t, b1=b1, b2=b2, free=free, conv=conv, side=side, ex=ex,
             srcs=srcs, dem=dem)


def spec(S, w, X, A):
    m = w.m
    for t in w.t.steps:
        A.eq(
            f"b1@{t}",
            Sum(X.expr(m.flow[s, w.b1, t]) for s in w.srcs),
            Sum([X.expr(m.flow[w.b1, w.conv, t]),
                 X.expr(m.flow[w.b1, w.ex, t])]),
        )
        A.eq(
            f"b2@{t}",
            Sum([X.expr(m.flow[w.conv, w.b2, t]),
                 X.expr(m.flow[w.side, w.b2, t])]),
            m.flow[w.b2, w.dem, t],
        )
    # exactness
    for t in w.t.steps:
        for i, s in enumerate(w.srcs):
            A.ge(f"s{i}>=0@{t}", m.flow[s, w.b1, t], 0)
            A.le(f"s{i}<=P@{t}", m.flow[s, w.b1, t], S.real(f"P{i}", 0))
        A.eq(f"dem@{t}", m.flow[w.b2, w.dem, t],
             Z(S.params["D"]) * Z(S.params[f"fix_{t}"]))
        for a, b in ((w.b1, w.conv), (w.conv, w.b2), (w.free, w.side),
                     (w.side, w.b2), (w.b1, w.ex)):
            A.ge(f"nonneg {a}{b}@{t}", m.flow[a, b, t], 0)
        A.eq(f"conv@{t}", m.flow[w.conv, w.b2, t],
             X.expr(m.flow[w.b1, w.conv, t]) * Z(S.params["eta"]))
        A.eq(f"side@{t}", m.flow[w.side, w.b2, t],
             X.expr(m.flow[w.free, w.side, t]) * Z(S.params["eta2"]))
    A.observe(m.flow)


# every small topology: what feeds and drains two buses which may be
# balanced or not and may be connected directly, in both directions
EDGES = ("in1", "out1", "in2", "out2", "12", "21")


def many(number):
    """systems of independent pairs of buses, one per set of edges"""
    group = range(number * 16, number * 16 + 16)
    return [(f"g{k}", [e for i, e in enumerate(EDGES) if k >> i & 1],
             bool(k >> 6 & 1), bool(k >> 7 & 1)) for k in group]


def graphs(name, mk, numbers, bounds, tier="quick", flip=False):
    chosen = [g for n in numbers for g in many(n) if g[1]]

    def build(S):
        t = mk(S)
        out = []
        for g, edges, bal1, bal2 in chosen:
            b = {"1": Bus(f"{g}-1", balanced=bal1),
                 "2": Bus(f"{g}-2", balanced=bal2)}
            keys, nodes = {}, []
            for e in edges:
                if e.startswith("in"):
                    n = cmp.Source(f"{g}-{e}", outputs={b[e[-1]]: Flow()})
                    keys[e] = (n, b[e[-1]])
                elif e.startswith("out"):
                    n = cmp.Sink(f"{g}-{e}", inputs={b[e[-1]]: Flow()})
                    keys[e] = (b[e[-1]], n)
                else:
                    a, z = b[e[0]], b[e[1]]
                    if flip:
                        z.inputs[a] = Flow()
                    else:
                        a.outputs[z] = Flow()
                    keys[e] = (a, z)
                    continue
                nodes.append(n)
            nodes = [*b.values(), *nodes]
            t.es.add(*(nodes[::-1] if flip else nodes))
            out.append((g, keys, {"1": bal1, "2": bal2}))
        return W(m=model(t, other_weights=True), t=t, graphs=out)

    def spec(S, w, X, A):
        A.observe(w.m.flow)
        for g, keys, bal in w.graphs:
            for t in w.t.steps:
                v = {e: X.expr(w.m.flow[(*k, t)]) for e, k in keys.items()}
                for e, x in v.items():
                    A.ge(f"{g} {e} nonneg@{t}", x, 0)
                for n in bal:
                    if not bal[n]:
                        continue
                    o = "2" if n == "1" else "1"
                    A.eq(f"{g} bus {n}@{t}",
                         Sum(v[e] for e in (f"in{n}", o + n) if e in v),
                         Sum(v[e] for e in (f"out{n}", n + o) if e in v))

    return Scenario(name, build, spec, bounds=bounds, tier=tier)


def large(name, mk, n, bounds):
    """chain and star: one bus with n feeds and n drains each, followed by
    n buses connected to it"""

    def build(S):
        t = mk(S)
        hub = Bus("hub")
        keys = {"in": [], "out": [], "to": [], "from": []}
        nodes = [hub]
        for i in range(n):
            s = cmp.Source(f"s{i}", outputs={hub: Flow()})
            d = cmp.Sink(f"d{i}", inputs={hub: Flow()})
            b = Bus(f"b{i}", inputs={hub: Flow()})
            e = cmp.Sink(f"e{i}", inputs={b: Flow()})
            keys["in"].append((s, hub))
            keys["out"].append((hub, d))
            keys["to"].append((hub, b))
            keys["from"].append((b, e))
            nodes += [s, d, b, e]
        t.es.add(*nodes)
        return W(m=model(t, other_weights=True), t=t, keys=keys)

    def spec(S, w, X, A):
        A.observe(w.m.flow)
        for t in w.t.steps:
            v = {a: [X.expr(w.m.flow[(*k, t)]) for k in ks]
                 for a, ks in w.keys.items()}
            for a, xs in v.items():
                for i, x in enumerate(xs):
                    A.ge(f"{a}{i} nonneg@{t}", x, 0)
            A.eq(f"hub@{t}", Sum(v["in"]), Sum(v["out"] + v["to"]))
            for i in range(n):
                A.eq(f"bus {i}@{t}", v["to"][i], v["from"][i])

    return Scenario(name, build, spec, bounds=bounds)


one = lambda S: es_sym(S, 1)
two = lambda S: es_sym(S, 2)
SCENARIOS = [
    *[graphs(f"graphs-{n:02d}", one, [n],
             "16 topologies of two buses, 1 step", flip=n % 2)
      for n in range(16)],
    graphs("graphs-flipped", two, [2, 5, 11, 12],
           "64 topologies of two buses, 2 steps", flip=True),
    graphs("graphs-multi-period",
           lambda S: es_periods(S, ((2030, 1), (2035, 1))), [3, 6, 9, 13],
           "64 topologies of two buses, 2 periods"),
    graphs("graphs-tsam", lambda S: es_tsam(S, (0, 1, 0), 1), [7, 10, 14],
           "48 topologies of two buses, 2 typical periods"),
    large("hub", two, 4, "1 bus with 4 inputs, 4 outputs, 4 further buses"),
    large("hub-wide", one, 12, "1 bus with 12 inputs and 24 outputs"),
    Scenario("single-period", lambda S: topo(S, es_sym(S, 3)), spec,
             bounds="3 time steps of arbitrary length"),
    Scenario("multi-period", lambda S: topo(S, es_periods(S)), spec,
             bounds="2 periods x 2 steps"),
    Scenario("tsam", lambda S: topo(S, es_tsam(S)), spec,
             bounds="2 typical periods x 2 steps, order 0,1,0"),
    Scenario("tsam-multi-period", lambda S: topo(S, es_tsam_periods(S)), spec,
             bounds="2 periods x 2 typical periods x 2 steps"),
]
