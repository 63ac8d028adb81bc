"""The model depends on the system described, not on how it was put
together."""
import contextlib
import io

import pandas as pd
from oemof.network import Node
from oemof.network.network.nodes import QualifiedLabel

from symsolph.api import *
from symsolph import zoo


def pair(name, bounds, one, two):
    """two ways to get the same model"""

    def build(S):
        return W(m=one(S), m2=two(S))

    def spec(S, w, X, A):
        zoo.equal_models(A, X, w.m2)

    return Scenario(name, build, spec, bounds=bounds)


def direct(mk, system):
    def one(S):
        t = mk(S)
        t.es.add(*system(S, t, zoo.Data(S, t)))
        return model(t)

    return one


def reordered(mk, system, order):
    """nodes are added in another order"""

    def two(S):
        t = mk(S)
        nodes = system(S, t, zoo.Data(S, t))
        if order == "reversed":
            nodes = nodes[::-1]
        elif order == "rotated":
            k = len(nodes) // 2
            nodes = nodes[k:] + nodes[:k]
        elif order == "single":
            for n in nodes[1::2] + nodes[::2]:
                t.es.add(n)
            nodes = []
        t.es.add(*nodes)
        return model(t)

    return two


def again(mk, system):
    """the system is used for a model, solved and evaluated before"""

    def two(S):
        t = mk(S)
        t.es.add(*system(S, t, zoo.Data(S, t)))
        m = model(t)
        r = solve_stub(S, m)
        for k in list(r.keys()):
            r.get(k)
        if isinstance(t.es.timeindex, pd.DatetimeIndex):
            solph.processing.results(m)
        solph.processing.parameter_as_dict(t.es)
        return model(t)

    return two


def elsewhere(mk, system):
    """another system with the same time axis exists"""

    def two(S):
        t = mk(S)
        u = Time(solph.EnergySystem(
            timeindex=t.es.timeindex, infer_last_interval=False,
            **dict(timeincrement=t.dt) if not isinstance(
                t.es.timeindex, pd.DatetimeIndex) or t.P > 1 else {},
            **dict(periods=t.es.periods) if t.P > 1 else {},
            **dict(tsa_parameters=t.es.tsa_parameters)
            if t.es.tsa_parameters else {}),
            t.T, t.dt, t.w, t.period, t.years)
        t.es.add(*system(S, t, zoo.Data(S, t)))
        u.es.add(*system(S, u, zoo.Data(S, u)))
        model(t)
        return model(u)

    return two


def by_node(S, t, done=lambda S, t: model(t)):
    a, b = Bus("a"), Bus("b")
    src = cmp.Source("src", outputs={a: Flow(
        nominal_capacity=S.pos("P"), variable_costs=S.real("c"))})
    con = cmp.Converter("con", inputs={a: Flow(
        variable_costs=S.real("d"))}, outputs={b: Flow(
            nominal_capacity=Investment(ep_costs=S.real("ep")))},
        conversion_factors={b: S.pos("f")})
    st = cmp.GenericStorage("st", inputs={a: Flow(
        nominal_capacity=S.pos("I"))}, outputs={a: Flow(
            nominal_capacity=S.pos("O"))}, nominal_capacity=S.pos("E"))
    snk = cmp.Sink("snk", inputs={b: Flow(
        nominal_capacity=S.pos("Q"), fix=S.reals("x", t.T))})
    t.es.add(a, b, src, con, st, snk)
    return done(S, t)


def by_bus(S, t):
    """the flows are given to the buses (as far as possible)"""
    b0 = Bus("b")
    snk = cmp.Sink("snk", inputs={b0: Flow(
        nominal_capacity=S.pos("Q"), fix=S.reals("x", t.T))})
    st = cmp.GenericStorage("st", nominal_capacity=S.pos("E"))
    con = cmp.Converter("con", outputs={b0: Flow(
        nominal_capacity=Investment(ep_costs=S.real("ep")))},
        conversion_factors={b0: S.pos("f")})
    src = cmp.Source("src", outputs={})
    a = Bus("a", inputs={
        src: Flow(nominal_capacity=S.pos("P"), variable_costs=S.real("c")),
        st: Flow(nominal_capacity=S.pos("O"))},
        outputs={con: Flow(variable_costs=S.real("d")),
                 st: Flow(nominal_capacity=S.pos("I"))})
    con.conversion_factors.setdefault(a, solph.sequence(1))
    t.es.add(a, b0, src, con, st, snk)
    return model(t)


def stepwise(S, t):
    """the flows are attached to the nodes afterwards"""
    a, b = Bus("a"), Bus("b")
    src = cmp.Source("src", outputs={})
    snk = cmp.Sink("snk", inputs={})
    t.es.add(a, b, src, snk)
    src.outputs[a] = Flow(
        nominal_capacity=S.pos("P"), variable_costs=S.real("c"))
    con = cmp.Converter("con", inputs={a: Flow(
        variable_costs=S.real("d"))}, outputs={b: Flow(
            nominal_capacity=Investment(ep_costs=S.real("ep")))},
        conversion_factors={b: S.pos("f")})
    t.es.add(con)
    st = cmp.GenericStorage("st", inputs={a: Flow(
        nominal_capacity=S.pos("I"))}, outputs={a: Flow(
            nominal_capacity=S.pos("O"))}, nominal_capacity=S.pos("E"))
    t.es.add(st)
    snk.inputs[b] = Flow(
        nominal_capacity=S.pos("Q"), fix=S.reals("x", t.T))
    return model(t)


def extended(mk, system, use):
    """a first part of the system is used for a model, then the rest comes
    (the flows of the new components were not there before)"""

    def one(S):
        t = mk(S)
        a, b = Bus("a"), Bus("b", balanced=False)
        t.es.add(a, b, cmp.Source("s", outputs={a: Flow(
            nominal_capacity=S.pos("P"), variable_costs=S.real("c"))}),
            cmp.Sink("k", inputs={a: Flow(variable_costs=S.real("d"))}))
        if use == "model":
            model(t)
        elif use == "solved":
            solve_stub(S, model(t), prefix="first")
        elif use == "groups":
            t.es.groups
            t.es.flows()
        system(S, t, a, b)
        return model(t)

    return one


def more(S, t, a, b):
    """components of further kinds"""
    con = cmp.Converter("con", inputs={a: Flow()}, outputs={b: Flow(
        nominal_capacity=S.pos("Pc"), minimum=S.pos("mn"),
        nonconvex=NonConvex(startup_costs=S.real("su")))},
        conversion_factors={b: S.pos("f")})
    st = cmp.GenericStorage("st", inputs={a: Flow()}, outputs={a: Flow()},
                            nominal_capacity=S.pos("E"),
                            loss_rate=S.real("loss", 0, 1))
    t.es.add(con, st)
    t.es.add(cmp.GenericStorage(
        "st2", inputs={b: Flow()}, outputs={b: Flow()},
        nominal_capacity=Investment(ep_costs=S.real("ep"))))
    t.es.add(Bus("late", balanced=True))
    t.es.add(cmp.Source("src", outputs={
        t.es.node["late"]: Flow(nominal_capacity=Investment(
            ep_costs=S.real("ep2"), maximum=S.pos("mx")))}))
    t.es.add(cmp.Link("link", inputs={t.es.node["late"]: Flow()},
                      outputs={a: Flow(full_load_time_max=S.pos("fl"),
                                       nominal_capacity=S.pos("Pl"))},
                      conversion_factors={
                          (t.es.node["late"], a): S.pos("g")}))


def changed(mk, again):
    """data of the system are changed between two models"""

    def one(S):
        t = mk(S)
        first = (lambda n, v: S.pos(f"first {n}") if again else v)
        a = Bus("a")
        f = Flow(nominal_capacity=first("P", S.pos("P")),
                 variable_costs=first("c", S.real("c")),
                 full_load_time_max=first("fl", S.pos("fl")))
        inv = Investment(ep_costs=first("ep", S.real("ep")),
                         maximum=first("mx", S.pos("mx")))
        g = Flow(nominal_capacity=inv, maximum=first("gm", S.pos("gm")))
        con = cmp.Converter("con", inputs={a: Flow()}, outputs={
            a: Flow()}, conversion_factors={a: first("f", S.pos("f"))})
        st = cmp.GenericStorage(
            "st", inputs={a: Flow()}, outputs={a: Flow()},
            nominal_capacity=first("E", S.pos("E")),
            loss_rate=0.5 if again else S.real("loss", 0, 1))
        t.es.add(a, cmp.Source("s", outputs={a: f}), con, st,
                 cmp.Sink("k", inputs={a: g}))
        if again:
            model(t)
            f.nominal_capacity = S.pos("P")
            f.variable_costs = solph.sequence(S.real("c"))
            f.full_load_time_max = S.pos("fl")
            inv.ep_costs = solph.sequence(S.real("ep"))
            inv.maximum = solph.sequence(S.pos("mx"))
            g.maximum = solph.sequence(S.pos("gm"))
            con.conversion_factors[a] = solph.sequence(S.pos("f"))
            st.nominal_storage_capacity = S.pos("E")
            st.loss_rate = solph.sequence(S.real("loss", 0, 1))
        return model(t)

    return one


def piecewise(S, t):
    """construction of the model in steps"""
    m = model(t, auto_construct=False)
    m._construct()
    return m


def plant(S, t, make):
    """one component of every kind; ``make(cls, name, ...)`` creates it"""
    D = zoo.Data(S, t)
    a = make(Bus, "a", balanced=False)
    b = make(Bus, "b")
    c = make(Bus, "c", balanced=False)
    flow = lambda n: Flow(nominal_capacity=S.pos(f"P {n}"),
                          variable_costs=S.real(f"c {n}"))
    make(cmp.Source, "src", outputs={b: flow("src")})
    make(cmp.Sink, "snk", inputs={b: flow("snk")})
    make(cmp.Converter, "con", inputs={a: flow("con")},
         outputs={b: Flow(), c: Flow()},
         conversion_factors={b: S.pos("f b"), c: S.pos("f c")})
    make(cmp.Link, "link", inputs={a: Flow(), b: Flow()},
         outputs={a: flow("link"), b: Flow()},
         conversion_factors={(a, b): S.pos("l ab"), (b, a): S.pos("l ba")})
    make(cmp.ExtractionTurbineCHP, "turbine", inputs={a: flow("et")},
         outputs={b: Flow(), c: Flow()},
         conversion_factors={b: 0.25, c: 0.5},
         conversion_factor_full_condensation={b: 0.5})
    make(cmp.GenericStorage, "st", inputs={b: flow("in")},
         outputs={b: flow("out")}, nominal_capacity=S.pos("E"),
         loss_rate=0.125)
    make(cmp.OffsetConverter, "oc", inputs={a: Flow()},
         outputs={b: Flow(nominal_capacity=S.pos("P oc"), minimum=0.25,
                          nonconvex=NonConvex())},
         conversion_factors={a: S.pos("f oc")},
         normed_offsets={a: S.pos("o oc")})
    make(cmp.GenericCHP, "chp", fuel_input={a: Flow(custom_properties={
        "H_L_FG_share_max": D.series("hmax", 0, 1)})},
        electrical_output={b: Flow(custom_properties={
            "P_max_woDH": [200] * t.T, "P_min_woDH": [80] * t.T,
            "Eta_el_max_woDH": [0.5] * t.T,
            "Eta_el_min_woDH": [0.25] * t.T})},
        heat_output={c: Flow(custom_properties={
            "Q_CW_min": D.series("qcw", 0)})},
        beta=D.series("beta", 0), back_pressure=False)


def caes_plant(S, t, make):
    a = make(Bus, "a", balanced=False)
    with contextlib.redirect_stdout(io.StringIO()):
        make(cmp.experimental.PiecewiseLinearConverter, "pw",
             inputs={a: Flow(nominal_capacity=100)}, outputs={a: Flow(
                 variable_costs=S.real("c"))},
             in_breakpoints=[0, 25, 50, 100], pw_repn="CC",
             conversion_function=lambda x: x * x)
    make(cmp.experimental.GenericCAES, "caes",
         electrical_input={a: Flow()}, fuel_input={a: Flow()},
         electrical_output={a: Flow()}, params={
             k: 0.5 for k in (
                 "cmp_p_max_m", "cmp_p_max_b", "cmp_p_min", "cmp_q_out_m",
                 "cmp_q_out_b", "cmp_q_tes_share", "exp_p_max_m",
                 "exp_p_max_b", "exp_p_min", "exp_q_in_m", "exp_q_in_b",
                 "exp_q_tes_share", "cav_e_in_m", "cav_e_in_b",
                 "cav_e_out_m", "cav_e_out_b", "cav_eta_temp",
                 "cav_level_max", "tes_level_max")})


def short(label):
    """label without the names of the nodes around"""
    if isinstance(label, tuple):
        label = tuple(x for x in label if x not in ("house", "room", "x"))
        return label[0] if len(label) == 1 else label
    return label


def parts(fill, how):
    """the same components, differently labelled"""

    def build(S):
        t = es_hours(S, 2)

        def direct(cls, name, **kw):
            n = cls(label=name, **kw)
            t.es.add(n)
            return n

        fill(S, t, direct)
        m = model(t)
        t = es_hours(S, 2)
        house = Node("house")
        room = house.subnode(Node, "room")
        if how == "before":
            t.es.add(house)

        def nested(cls, name, **kw):
            if how == "tuples":
                n = cls(label=QualifiedLabel((name, "x")), **kw)
                t.es.add(n)
                return n
            home = house if cls in (Bus, cmp.Link, cmp.Sink) else room
            return home.subnode(cls, name, **kw)

        fill(S, t, nested)
        if how == "after":
            t.es.add(house)
        return W(m=m, m2=model(t))

    def spec(S, w, X, A):
        zoo.equal_models(A, X, w.m2, label=short)

    return Scenario(f"{fill.__name__}-{how}", build, spec,
                    bounds="2 hours")


sym = lambda S: es_sym(S, 3)
sym2 = lambda S: es_sym(S, 2)
hours = lambda S: es_hours(S, 3)
mp = lambda S: es_periods(S)
ts = lambda S: es_tsam_hours(S)
tp = lambda S: es_tsam_periods(S)
SCENARIOS = []
for f in (zoo.flows, zoo.onoff, zoo.invest, zoo.converters, zoo.offset,
          zoo.storages, zoo.generic_chp):
    nm = f.__name__
    one = direct(sym, f)
    for order in ("reversed", "rotated", "single"):
        if order == "reversed" or f is zoo.invest:
            SCENARIOS.append(pair(f"{nm}-{order}", "3 steps of any length",
                                  one, reordered(sym, f, order)))
    SCENARIOS.append(pair(f"{nm}-again", "3 hours", direct(hours, f),
                          again(hours, f)))
for nm, mk, fs in (("periods", mp, (zoo.invest, zoo.flows, zoo.offset)),
                   ("typical", ts, (zoo.flows, zoo.typical_storage)),
                   ("typical-periods", tp, (zoo.flows,
                                            zoo.typical_storage))):
    for f in fs:
        SCENARIOS.append(pair(f"{f.__name__}-{nm}-again", "2 periods or "
                              "typical periods x 2 steps", direct(mk, f),
                              again(mk, f)))
        SCENARIOS.append(pair(f"{f.__name__}-{nm}-elsewhere", "2 periods or "
                              "typical periods x 2 steps", direct(mk, f),
                              elsewhere(mk, f)))
        SCENARIOS.append(pair(f"{f.__name__}-{nm}-reversed", "2 periods or "
                              "typical periods x 2 steps", direct(mk, f),
                              reordered(mk, f, "reversed")))
for nm, f in (("bus", by_bus), ("stepwise", stepwise)):
    SCENARIOS.append(pair(f"flows-by-{nm}", "3 steps of any length",
                          lambda S: by_node(S, sym(S)),
                          lambda S, f=f: f(S, sym(S))))
SCENARIOS += [parts(f, how) for f in (plant, caes_plant)
              for how in ("before", "after", "tuples")]
SCENARIOS.append(pair("constructed-later", "3 steps of any length",
                      lambda S: by_node(S, sym(S)),
                      lambda S: by_node(S, sym(S), piecewise)))
for use in ("model", "solved", "groups"):
    SCENARIOS.append(pair(f"extended-{use}", "2 steps of any length",
                          extended(sym2, more, None),
                          extended(sym2, more, use)))
SCENARIOS.append(pair("changed", "2 steps of any length",
                      changed(sym2, False), changed(sym2, True)))
