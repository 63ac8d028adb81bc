"""A collection of systems, with all their numeric data drawn from ``D`` (so
that one system can be built several times, from the same data in different
forms)."""

import numpy as np
import pandas as pd

from .api import *  # noqa: F401,F403
from .extract import Extracted


class Data:
    """the same numbers in different forms

    form: how a value constant over time is given: "scalar", "list", "tuple",
    "array" or "series"
    """

    def __init__(self, S, t, form="scalar", plain=True):
        self.S, self.t, self.form = S, t, form

    def __call__(self, name, lo=None, hi=None, n=None, open_=False):
        """value that does not change over time"""
        x = self.S.real(name, lo, hi, lo_open=open_)
        return self.wrap([x] * (self.t.T if n is None else n), x)

    def pos(self, name, n=None):
        return self(name, 0, None, n, True)

    def one(self, name, lo=None, hi=None):
        """a single number"""
        return self.S.real(name, lo, hi)

    def size(self, name):
        return self.S.pos(name)

    def series(self, name, lo=None, hi=None, n=None):
        """values changing over time"""
        return self.wrap(
            self.S.reals(name, self.t.T if n is None else n, lo, hi))

    def periodic(self, name, lo=None, hi=None):
        """one value per period"""
        return self(name, lo, hi, n=self.t.P)

    def const(self, v, n=None):
        n = self.t.T if n is None else n
        return self.wrap([v] * n, v)

    def wrap(self, values, scalar=None):
        form = self.form
        if form == "scalar":
            return list(values) if scalar is None else scalar
        if form == "list":
            return list(values)
        if form == "tuple":
            return tuple(values)
        if any(not isinstance(v, (int, float)) for v in values):
            arr = np.empty(len(values), dtype=object)
            for i, v in enumerate(values):
                arr[i] = v
        else:
            arr = np.array(values)
        if form == "array":
            return arr
        if form == "series":
            return pd.Series(arr, index=range(10, 10 + len(arr)))
        raise ValueError(form)

    def invest(self, name, **kw):
        if self.t.P > 1:
            kw.setdefault("lifetime", 20)
        return Investment(ep_costs=self.periodic(f"ep_{name}"), **kw)


def flows(S, t, D):
    a, b = Bus("a"), Bus("b")
    lim = dict(minimum=D("mn", 0), maximum=D("mx", 0))
    src = cmp.Source("src", outputs={a: Flow(
        nominal_capacity=D.size("P"), variable_costs=D("c"), **lim)})
    fix = cmp.Source("fix", outputs={b: Flow(
        nominal_capacity=D.size("Q"), fix=D("x"))})
    grad = cmp.Sink("grad", inputs={a: Flow(
        nominal_capacity=D.size("R"), positive_gradient_limit=D("up"),
        negative_gradient_limit=D("dn"))})
    ser = cmp.Sink("ser", inputs={b: Flow(
        nominal_capacity=D.size("V"), maximum=D.series("mv", 1),
        variable_costs=D.series("cv"))})
    return [a, b, src, fix, grad, ser]


def onoff(S, t, D):
    a = Bus("a")
    n1 = cmp.Source("n1", outputs={a: Flow(
        nominal_capacity=D.size("P"), minimum=D("mn", 0),
        nonconvex=NonConvex(
            startup_costs=D("su"), shutdown_costs=D("sd"),
            activity_costs=D("ac"), inactivity_costs=D("ia")))})
    n2 = cmp.Source("n2", outputs={a: Flow(
        nominal_capacity=D.size("Q"), minimum=D("mq", 0), nonconvex=NonConvex(
            minimum_uptime=D.const(2), minimum_downtime=D.const(1)))})
    n3 = cmp.Source("n3", outputs={a: Flow(
        nominal_capacity=D.size("R"), nonconvex=NonConvex(
            positive_gradient_limit=D("up"),
            negative_gradient_limit=D("dn"), maximum_startups=1))})
    k = cmp.Sink("k", inputs={a: Flow()})
    return [a, n1, n2, n3, k]


def invest(S, t, D):
    a, b = Bus("a"), Bus("b")
    i1 = cmp.Source("i1", outputs={a: Flow(nominal_capacity=D.invest(
        "1", maximum=D.periodic("mx1", 0), minimum=D.periodic("mn1", 0)),
        variable_costs=D("c"))})
    i2 = cmp.Sink("i2", inputs={a: Flow(nominal_capacity=D.invest(
        "2", maximum=D.periodic("mx2", 0), offset=D.periodic("off2"),
        nonconvex=True), fix=D("x2", 0))})
    i3 = cmp.Converter("i3", inputs={a: Flow()}, outputs={b: Flow(
        nominal_capacity=D.invest("3"), minimum=D("mn3", 0),
        maximum=D("mx3", 0))}, conversion_factors={b: D.pos("f3")})
    k = cmp.Sink("k", inputs={b: Flow()})
    out = [a, b, i1, i2, i3, k]
    if t.P == 1:
        out.append(cmp.Source("i4", outputs={b: Flow(
            nominal_capacity=D.invest("4", maximum=D.periodic("mx4", 0),
                                      minimum=D.periodic("mn4", 0)),
            minimum=D("mq", 0), nonconvex=NonConvex(
                startup_costs=D("su"), activity_costs=D("ac")))}))
    return out


def converters(S, t, D):
    a, b, c = Bus("a"), Bus("b"), Bus("c")
    src = cmp.Source("src", outputs={a: Flow()})
    con = cmp.Converter("con", inputs={a: Flow()}, outputs={
        b: Flow(), c: Flow()}, conversion_factors={
        a: D.pos("fa"), b: D.pos("fb")})
    lnk = cmp.Link("lnk", inputs={b: Flow(), c: Flow()}, outputs={
        b: Flow(), c: Flow()}, conversion_factors={
        (b, c): D.pos("bc"), (c, b): D.pos("cb")})
    chp = cmp.ExtractionTurbineCHP(label="chp", inputs={a: Flow()}, outputs={
        b: Flow(), c: Flow()}, conversion_factors={
        b: D.pos("eb"), c: D.pos("ec")}, conversion_factor_full_condensation={
        b: D.pos("full")})
    k1 = cmp.Sink("k1", inputs={b: Flow()})
    k2 = cmp.Sink("k2", inputs={c: Flow()})
    return [a, b, c, src, con, lnk, chp, k1, k2]


def offset(S, t, D):
    a, b = Bus("a"), Bus("b")
    src = cmp.Source("src", outputs={a: Flow()})
    off = cmp.OffsetConverter(
        label="off", inputs={a: Flow()}, outputs={b: Flow(
            nominal_capacity=D.size("P"), minimum=D("mn", 0),
            nonconvex=NonConvex())},
        conversion_factors={a: D.pos("slope")},
        normed_offsets={a: D("offset")})
    k = cmp.Sink("k", inputs={b: Flow()})
    return [a, b, src, off, k]


def storages(S, t, D):
    a = Bus("a")
    lim = dict(min_storage_level=D("mn", 0, n=t.T + 1),
               max_storage_level=D("mx", 0, n=t.T + 1))
    com = dict(loss_rate=D("loss", 0, 1), fixed_losses_relative=D.pos("rel"),
               inflow_conversion_factor=D.pos("in"),
               outflow_conversion_factor=D("out", 0, 1, open_=True))
    s1 = cmp.GenericStorage("s1", inputs={a: Flow()}, outputs={a: Flow()},
                            nominal_capacity=D.size("E"),
                            fixed_losses_absolute=D.pos("abs"),
                            storage_costs=D("sc"), **lim, **com)
    s2 = cmp.GenericStorage("s2", inputs={a: Flow()}, outputs={a: Flow()},
                            nominal_capacity=D.invest(
                                "2", maximum=D.periodic("mx2", 0)),
                            **lim, **com)
    k = cmp.Sink("k", inputs={a: Flow()})
    return [a, s1, s2, k]


def typical_storage(S, t, D):
    a = Bus("a")
    s1 = cmp.GenericStorage("s1", inputs={a: Flow()}, outputs={a: Flow()},
                            nominal_capacity=D.size("E"),
                            loss_rate=D("loss", 0, 1),
                            inflow_conversion_factor=D("in", 0, 1))
    k = cmp.Sink("k", inputs={a: Flow(variable_costs=D("c"))})
    return [a, s1, k]


def generic_chp(S, t, D):
    a, b, c = Bus("a"), Bus("b"), Bus("c")
    src = cmp.Source("src", outputs={a: Flow()})
    lo, hi = D.series("pmn", 0), D.series("pmx", 0)
    for x, y in zip(lo, hi):
        S.assume(x < y)
    chp = cmp.GenericCHP(
        label="chp", fuel_input={a: Flow(custom_properties={
            "H_L_FG_share_max": D.series("share", 0)})},
        electrical_output={b: Flow(custom_properties={
            "P_max_woDH": hi, "P_min_woDH": lo,
            "Eta_el_max_woDH": D.series("emx", 1),
            "Eta_el_min_woDH": D.series("emn", 1)})},
        heat_output={c: Flow(custom_properties={
            "Q_CW_min": D.series("qcw", 0)})},
        beta=D.series("beta", 0), back_pressure=False)
    k1 = cmp.Sink("k1", inputs={b: Flow()})
    k2 = cmp.Sink("k2", inputs={c: Flow()})
    return [a, b, c, src, chp, k1, k2]


def equal_models(A, X, m2, label=None):
    """claim that both models have the same variables, the same feasible
    solutions and the same objective"""
    A.objective(transfer(A, X, m2, complete=True, label=label))


def key_of(v, label):
    """the name of a variable, or its place if nodes are labelled
    differently"""
    if label is None:
        return v.name
    key = []
    while v is not None and v.parent_component() is not None:
        index = v.index()
        index = index if isinstance(index, tuple) else (index,)
        key += [v.parent_component().local_name,
                *(label(i.label) if hasattr(i, "label") else i
                  for i in index)]
        v = v.parent_block()
    return tuple(key)


def transfer(A, X, m2, complete=True, label=None):
    """every constraint of m2 is implied by X (and, with complete, X excludes
    nothing else); returns the objective of m2 in terms of X"""
    Y = Extracted(m2, tag="'")
    mine = {key_of(v, label): v for v in X.vars}
    theirs = [key_of(v, label) for v in Y.vars]
    A.prop("same variables", set(mine) == set(theirs)
           and len(X.vars) == len(Y.vars))
    sub = []
    for v, k in zip(Y.vars, theirs):
        if k in mine:
            sub.append((Y.consts[id(v)], X.consts[id(mine[k])]))
    if complete:
        A.observe(X.vars)
    A.literal = True
    for r in Y.rows:
        if r.extra is not None:
            A.prop(r.name, z3.substitute(r.extra, *sub))
            continue
        body = z3.substitute(r.body, *sub)
        if r.eq:
            A.eq(r.name, body, r.ub)
            continue
        if r.lb is not None:
            A.ge(f"{r.name} (lower)", body, r.lb)
        if r.ub is not None:
            A.le(f"{r.name} (upper)", body, r.ub)
    obj = Y.objective()
    return z3.substitute(obj, *sub)
