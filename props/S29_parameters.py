"""Parameters of an energy system can be read back completely."""
import pandas as pd
from oemof.network import Node

from symsolph.api import *
from props.S26_processing import nan

read = solph.processing.parameter_as_dict


def check(A, label, data, want, keep_none):
    """want: {name: scalar or list}"""
    sc, seq = data["scalars"], data["sequences"]
    A.prop(f"{label}: parts", set(data) == {"scalars", "sequences"})
    A.prop(f"{label}: each name once",
           not set(sc.index) & set(seq.columns)
           and sc.index.is_unique and seq.columns.is_unique)
    for n, v in want.items():
        lab = f"{label}: {n}"
        if v is None:
            A.prop(f"{lab} is empty", (n in sc.index and sc[n] is None)
                   if keep_none else n not in sc.index)
            A.prop(f"{lab} is no sequence", n not in seq.columns)
        elif isinstance(v, list):
            A.prop(f"{lab} is a sequence", n in seq.columns)
            if n not in seq.columns:
                continue
            got = list(seq[n])
            A.prop(f"{lab} length", len(got) >= len(v))
            for i, x in enumerate(got):
                if i < len(v):
                    A.eq(f"{lab} {i}", Z(x), Z(v[i]))
                else:
                    A.prop(f"{lab} {i} is empty", nan(x))
        else:
            A.prop(f"{lab} is a scalar", n in sc.index)
            if n not in sc.index:
                continue
            if isinstance(v, (str, bool)):
                A.prop(lab, sc[n] == v)
            else:
                A.eq(lab, Z(sc[n]), Z(v))
    if not keep_none:
        A.prop(f"{label}: nothing undefined",
               not any(sc[n] is None for n in sc.index))


def parameters(name, mk, bounds, setup, with_model):
    """every value given by the user is found below its name"""

    def build(S):
        t = mk(S)
        want = setup(S, t)
        source = model(t) if with_model else t.es
        return W(mm=None, t=t, want=want, source=source)

    def spec(S, w, X, A):
        keys = {(n, None) for n in w.t.es.nodes} | set(w.t.es.flows())
        for none in (True, False):
            r = read(w.source, exclude_none=none)
            A.prop("keys", set(r) == keys)
            for k, want in w.want.items():
                check(A, f"{k} {none}", r[k], want, not none)
        r = read(w.source, exclude_attrs=["variable_c", "loss", "balanced"])
        A.prop("keys with excluded attributes", set(r) == keys)
        for k, want in w.want.items():
            cut = {n: v for n, v in want.items()
                   if not n.startswith(("variable_c", "loss", "balanced"))}
            check(A, f"{k} excluded", r[k], cut, False)
            for n in set(want) - set(cut):
                A.prop(f"{k} {n} excluded", n not in r[k]["scalars"].index
                       and n not in r[k]["sequences"].columns)

    return Scenario(name, build, spec, bounds=bounds)


def flows(S, t):
    a, b = Bus("a"), Bus("b", balanced=False)
    v = dict(variable_costs=S.reals("c", t.T), minimum=S.reals("mn", t.T, 0),
             maximum=S.real("mx", 1), nominal_capacity=S.pos("P"),
             full_load_time_max=S.real("fx"), full_load_time_min=S.real("fn"),
             integer=False, bidirectional=False)
    x = dict(fix=S.reals("x", t.T), nominal_capacity=S.pos("Q"))
    c = dict(variable_costs=S.real("cc"))
    fa, fb = S.real("fa"), S.reals("fb", t.T)
    src = cmp.Source("src", outputs={a: Flow(**v)})
    snk = cmp.Sink("snk", inputs={b: Flow(**x)})
    con = cmp.Converter("con", inputs={a: Flow(custom_properties={
        "emission_factor": S.real("em"), "kind": "gas"})}, outputs={
        b: Flow(**c)}, conversion_factors={a: fa, b: fb})
    t.es.add(a, b, src, snk, con)
    none = dict(fix=None, lifetime=None, positive_gradient_limit=None)
    one = S.reals("one", 1)
    con.values_of_one = list(one)
    return {
        (a, None): dict(label="a", balanced=True),
        (b, None): dict(label="b", balanced=False),
        (src, None): dict(label="src"),
        (con, None): dict(label="con", conversion_factors_a=fa,
                          conversion_factors_b=fb,
                          values_of_one=list(one)),
        (src, a): dict(v, **none),
        (b, snk): dict(x, full_load_time_max=None, minimum=0,
                       variable_costs=0, **{k: none[k] for k in none
                                            if k != "fix"}),
        (con, b): dict(c, minimum=0, nominal_capacity=None, **none),
        (a, con): dict(custom_properties_emission_factor=S.params["em"],
                       custom_properties_kind="gas"),
    }


def gradients(S, t):
    a, b = Bus("a"), Bus("b")
    v = dict(nominal_capacity=S.pos("P"),
             positive_gradient_limit=S.reals("up", t.T),
             negative_gradient_limit=S.real("dn"))
    tup = Bus(("pair", 3))
    src = cmp.Source("src", outputs={a: Flow(**v)})
    lnk = cmp.Sink("snk", inputs={tup: Flow()})
    t.es.add(a, b, tup, src, lnk)
    return {(src, a): v, (tup, None): dict(label="('pair', 3)"),
            (tup, lnk): dict(nominal_capacity=None, maximum=1)}


def storages(S, t):
    a = Bus("a")
    v = dict(loss_rate=S.reals("loss", t.T, 0, 1),
             fixed_losses_relative=S.real("rel", 0, 1),
             fixed_losses_absolute=S.reals("abs", t.T, 0),
             inflow_conversion_factor=S.real("in", 0, 1),
             outflow_conversion_factor=S.reals("out", t.T, 0, 1, lo_open=True),
             storage_costs=S.reals("sc", t.T), balanced=False)
    s1 = cmp.GenericStorage("s1", inputs={a: Flow()}, outputs={a: Flow()},
                            nominal_capacity=S.pos("E"), **v)
    t.es.add(a, s1)
    return {(s1, None): dict(v, nominal_storage_capacity=S.params["E"],
                             initial_storage_level=None)}


def points(S, t):
    """data for time steps and for time points"""
    a = Bus("a")
    v = dict(loss_rate=S.reals("loss", t.T, 0, 1),
             min_storage_level=S.reals("mn", t.T + 1, 0),
             max_storage_level=S.reals("mx", t.T + 1, 0))
    s1 = cmp.GenericStorage("s1", inputs={a: Flow()}, outputs={a: Flow()},
                            nominal_capacity=S.pos("E"), **v)
    t.es.add(a, s1)
    return {(s1, None): dict(v, nominal_storage_capacity=S.params["E"])}


def invests(S, t):
    """data for periods and for time steps"""
    a = Bus("a")
    lt = dict(lifetime=20) if t.P > 1 else {}
    costs = S.reals("ep", t.P) if t.P > 1 else S.real("ep")
    v = dict(ep_costs=costs, maximum=S.pos("mx"), existing=S.pos("ex"), **lt)
    f = dict(fix=S.reals("x", t.T), variable_costs=S.real("c"))
    s = dict(ep_costs=S.real("eps"), minimum=S.real("mn", 0), **lt)
    lr = S.reals("loss", t.T, 0, 1)
    src = cmp.Source("src", outputs={a: Flow(
        nominal_capacity=Investment(**v), **f)})
    st = cmp.GenericStorage("s1", inputs={a: Flow(
        nominal_capacity=Investment(ep_costs=0, **lt))}, outputs={a: Flow()},
                            nominal_capacity=Investment(**s), loss_rate=lr,
                            invest_relation_input_capacity=S.pos("ric"))
    o = dict(ep_costs=S.real("epo"), nonconvex=True, maximum=S.pos("mxo"),
             offset=S.real("off"), minimum=S.pos("mno"), **lt)
    opt = cmp.Source("opt", outputs={a: Flow(
        nominal_capacity=Investment(**o), variable_costs=S.real("co"))})
    so = dict(ep_costs=S.real("epso"), nonconvex=True, maximum=S.pos("mxso"),
              **lt)
    s2 = cmp.GenericStorage("s2", inputs={a: Flow()}, outputs={a: Flow(
        nominal_capacity=Investment(ep_costs=0, **lt))},
        nominal_capacity=Investment(**so))
    t.es.add(a, src, st, opt, s2)
    pre = lambda d: {f"investment_{k}": x for k, x in d.items()}
    return {(src, a): dict(pre(v), nominal_capacity=None, **f),
            (opt, a): dict(pre(o), variable_costs=S.params["co"]),
            (s2, None): pre(so),
            (st, None): dict(pre(s), loss_rate=lr,
                             nominal_storage_capacity=None,
                             invest_relation_input_capacity=S.params["ric"])}


def chp(S, t):
    a, b, c = Bus("a"), Bus("b"), Bus("c")
    lo, hi = S.reals("pmn", t.T, 0), S.reals("pmx", t.T, 0)
    for x, y in zip(lo, hi):
        S.assume(x < y)
    fuel = dict(H_L_FG_share_max=S.reals("share", t.T))
    el = dict(P_max_woDH=hi, P_min_woDH=lo,
              Eta_el_max_woDH=S.reals("emx", t.T, 1),
              Eta_el_min_woDH=S.reals("emn", t.T, 1))
    heat = dict(Q_CW_min=S.reals("qcw", t.T))
    beta = S.reals("beta", t.T)
    g = cmp.GenericCHP(
        label="g", fuel_input={a: Flow(custom_properties=fuel)},
        electrical_output={b: Flow(custom_properties=el)},
        heat_output={c: Flow(custom_properties=heat)},
        beta=beta, back_pressure=False)
    t.es.add(a, b, c, g)
    pre = lambda d: {f"custom_properties_{k}": x for k, x in d.items()}
    return {(a, g): pre(fuel), (g, b): pre(el), (g, c): pre(heat),
            (g, None): dict(beta=beta, back_pressure=False, label="g")}


def others(S, t):
    """further components"""
    a, b, c = Bus("a"), Bus("b"), Bus("c")
    f, g, h = S.reals("f", t.T), S.pos("g"), S.pos("h")
    for x in f:
        S.assume(x > 0)
    lnk = cmp.Link("lnk", inputs={b: Flow(), c: Flow()}, outputs={
        b: Flow(), c: Flow()}, conversion_factors={(b, c): f, (c, b): g})
    chp = cmp.ExtractionTurbineCHP(label="chp", inputs={a: Flow()}, outputs={
        b: Flow(), c: Flow()}, conversion_factors={b: f, c: g},
        conversion_factor_full_condensation={b: h})
    off = cmp.OffsetConverter(
        label="off", inputs={a: Flow()}, outputs={b: Flow(
            nominal_capacity=S.pos("P"), nonconvex=NonConvex())},
        conversion_factors={a: f}, normed_offsets={a: h})
    t.es.add(a, b, c, lnk, chp, off)
    return {(chp, None): dict(conversion_factors_b=f, conversion_factors_c=g,
                              conversion_factor_full_condensation_b=h),
            (off, None): dict(conversion_factors_a=f, conversion_factors_b=1,
                              normed_offsets_a=h),
            (lnk, None): {f"conversion_factors_{(b, c)}": f,
                          f"conversion_factors_{(c, b)}": g}}


def named(S, t):
    """tuples as labels, further properties of nodes and flows, parts of
    other nodes"""
    props = lambda n: dict(co2=S.real(f"{n}co2"), text=n,
                           area=S.reals(f"{n}area", 2))
    want = lambda n: {f"custom_properties_{k}": (list(v) if k == "area"
                                                 else v)
                      for k, v in props(n).items()}
    house = Node("house")
    t.es.add(house)
    out = {}

    def make(cls, n, **kw):
        node = house.subnode(cls, n, custom_properties=props(n), **kw)
        out[node, None] = dict(label=str((n, "house")), **want(n))
        return node

    def flow(n, **kw):
        return Flow(nominal_capacity=S.pos(f"P{n}"),
                    custom_properties=props(f"f{n}"), **kw)

    a, b, c = (make(Bus, n) for n in "abc")
    src = make(cmp.Source, "src", outputs={a: flow("src")})
    snk = make(cmp.Sink, "snk", inputs={b: flow("snk")})
    make(cmp.Converter, "con", inputs={a: flow("con")}, outputs={b: Flow()})
    make(cmp.GenericStorage, "st", inputs={a: Flow()}, outputs={a: Flow()},
         nominal_capacity=S.pos("E"))
    make(cmp.Link, "lnk", inputs={a: Flow()}, outputs={b: Flow()},
         conversion_factors={(a, b): S.pos("f")})
    make(cmp.ExtractionTurbineCHP, "chp", inputs={a: Flow()},
         outputs={b: Flow(), c: Flow()}, conversion_factors={b: 0.5},
         conversion_factor_full_condensation={b: S.pos("g")})
    make(cmp.OffsetConverter, "off", inputs={a: Flow()}, outputs={
        b: flow("off", nonconvex=NonConvex())},
        conversion_factors={a: 1}, normed_offsets={a: S.pos("h")})
    for k, n in (((src, a), "fsrc"), ((b, snk), "fsnk")):
        out[k] = dict(nominal_capacity=S.params["P" + n[1:]], **want(n))
    return out


h3 = lambda S: es_hours(S, 3)
h2 = lambda S: es_hours(S, 2)
mp = lambda S: es_periods(S)
SCENARIOS = [
    parameters(f"{f.__name__}-{'model' if m else 'system'}", mk, bounds, f, m)
    for m in (False, True)
    for f, mk, bounds in (
        (flows, h3, "3 hours"), (gradients, h2, "2 hours"),
        (storages, h2, "2 hours"), (points, h2, "2 hours"),
        (invests, h3, "3 hours"), (chp, h2, "2 hours"),
        (others, h3, "3 hours"), (named, h2, "2 hours"))
] + [
    parameters("periods-system", mp, "2 periods x 2 steps", invests, False),
    parameters("periods-model", mp, "2 periods x 2 steps", invests, True),
]
