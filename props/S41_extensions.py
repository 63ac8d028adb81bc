"""Components and constraints defined by users take part in the model."""
import pyomo.environ as po
from oemof.network import Node
from oemof.network import groupings as grp
from pyomo.core.base.block import ScalarBlock

from symsolph.api import *
from symsolph import zoo


class TollBlock(ScalarBlock):
    """throughput of every gate is limited and paid for"""

    CONSTRAINT_GROUP = True

    def _create(self, group=None):
        if group is None:
            return
        m = self.parent_block()
        self.GATES = po.Set(initialize=list(group))
        self.passes = po.Var(self.GATES, within=po.NonNegativeReals)
        self.ratio = po.Constraint(
            self.GATES, m.TIMESTEPS, rule=lambda b, n, t:
            m.flow[n.source, n, t] * n.share == m.flow[n, n.target, t])
        self.total = po.Constraint(
            self.GATES, rule=lambda b, n: b.passes[n] == sum(
                m.flow[n, n.target, t] * m.timeincrement[t]
                for t in m.TIMESTEPS))
        self.limit = po.Constraint(
            self.GATES, rule=lambda b, n: b.passes[n] <= n.quota)

    def _objective_expression(self):
        if not hasattr(self, "GATES"):
            return 0
        return sum(self.passes[n] * n.toll for n in self.GATES)


class Gate(Node):
    def __init__(self, label, source, target, share, quota, toll, **kw):
        super().__init__(label, inputs={source: Flow()},
                         outputs={target: Flow(**kw)})
        self.source, self.target = source, target
        self.share, self.quota, self.toll = share, quota, toll

    def constraint_group(self):
        return TollBlock


class WideGate(Gate):
    """subclass which belongs to the same group"""


class CapBlock(ScalarBlock):
    """the flows of a group share one limit"""

    def _create(self, group=None):
        if group is None:
            return
        m = self.parent_block()
        self.USERS = po.Set(initialize=[g[:2] for g in group])
        self.cap = po.Constraint(m.TIMESTEPS, rule=lambda b, t: sum(
            m.flow[i, o, t] for i, o in self.USERS) <= CapBlock.limit)

    def _objective_expression(self):
        m = self.parent_block()
        if not hasattr(self, "USERS"):
            return 0
        return sum(m.flow[i, o, t] * m.flows[i, o].fee for i, o in self.USERS
                   for t in m.TIMESTEPS)


class OwnFlow(Flow):
    def __init__(self, fee=None, **kw):
        super().__init__(**kw)
        self.fee = fee


def gates(name, mk, bounds, n=2, mixed=False, cap=False, late=False,
          place="system", named=False):
    """``cap``: flows with a fee share a limit (a group of its own)

    ``named``: the block of the components is given to the model, too
    """
    given = [CapBlock] * cap + [TollBlock] * named

    def build(S):
        t = mk(S)
        extra = {}
        if cap:
            CapBlock.limit = S.real("limit", 0)
            extra["groupings"] = [grp.FlowsWithNodes(
                constant_key=CapBlock,
                filter=lambda x: getattr(x[2], "fee", None) is not None)]
            t.es = solph.EnergySystem(
                timeindex=t.es.timeindex, infer_last_interval=False, **extra)
        a, b = Bus("a", balanced=False), Bus("b")
        t.es.add(a, b)
        k = []
        for i in range(2):
            F = OwnFlow if cap else Flow
            kw = dict(fee=S.real(f"fee{i}")) if cap else {}
            k.append(cmp.Sink(f"k{i}", inputs={b: F(**kw)}))
        plain = cmp.Sink("plain", inputs={b: Flow(
            variable_costs=S.real("cp"))})
        if late:
            # a model of the system without the gates first
            t.es.add(*k, plain)
            model(t, **dict(constraint_groups=given) if given else {})
        out = []
        for i in range(n):
            cls = WideGate if mixed and i % 2 else Gate
            g = cls(f"g{i}", a, b, S.pos(f"share{i}"),
                    S.real(f"quota{i}", 0), S.real(f"toll{i}"),
                    nominal_capacity=S.real(f"P{i}", 0),
                    variable_costs=S.real(f"c{i}"))
            out.append(g)
        if place == "inside":
            house = Node("house")
            house.add(*out)
            t.es.add(house, *k, plain)
        elif late:
            t.es.add(*out)
        else:
            t.es.add(*out, *k, plain)
        m = model(t, **dict(constraint_groups=given) if given else {})
        return W(m=m, t=t, a=a, b=b, out=out, k=k, plain=plain)

    def spec(S, w, X, A):
        m, t = w.m, w.t
        P = lambda n: Z(S.params[n])
        A.observe(m.flow)
        B = [x for x in m.component_data_objects(po.Block)
             if isinstance(x, TollBlock)]
        A.prop("one block", len(B) == 1)
        cost = rv(0)
        f = lambda i, o, s: X.expr(m.flow[i, o, s])
        for s in t.steps:
            for i, g in enumerate(w.out):
                x, y = f(w.a, g, s), f(g, w.b, s)
                A.ge(f"in {i}@{s}", x, 0)
                A.ge(f"out {i}@{s}", y, 0)
                A.le(f"capacity {i}@{s}", y, P(f"P{i}"))
                A.eq(f"ratio {i}@{s}", x * P(f"share{i}"), y)
                cost = cost + y * Z(t.dt[s]) * P(f"c{i}")
            used = [f(w.b, k, s) for k in w.k]
            rest = f(w.b, w.plain, s)
            for i, u in enumerate(used + [rest]):
                A.ge(f"use {i}@{s}", u, 0)
            A.eq(f"bus@{s}", Sum([f(g, w.b, s) for g in w.out]),
                 Sum(used) + rest)
            cost = cost + rest * Z(t.dt[s]) * P("cp")
            if cap:
                A.le(f"shared limit@{s}", Sum(used), P("limit"))
                cost = cost + Sum([u * P(f"fee{i}")
                                   for i, u in enumerate(used)])
        for i, g in enumerate(w.out):
            total = Sum([f(g, w.b, s) * Z(t.dt[s]) for s in t.steps])
            A.define(B[0].passes[g], total)
            A.le(f"quota {i}", total, P(f"quota{i}"))
            cost = cost + total * P(f"toll{i}")
        A.objective(cost, "costs")

    return Scenario(name, build, spec, bounds=bounds)


def derived(name, mk, bounds, wrap):
    """subclasses of components, flows and options behave alike"""

    def build(S):
        def one(own):
            t = mk(S)
            sub = (lambda c: type(f"Own{c.__name__}", (c,), {})) if own else (
                lambda c: c)
            F, I, N = sub(Flow), sub(Investment), sub(NonConvex)
            a, b = sub(Bus)("a", balanced=False), sub(Bus)("b")
            con = sub(cmp.Converter)("con", inputs={a: F()}, outputs={b: F(
                nominal_capacity=S.pos("P"), minimum=S.pos("mn"),
                nonconvex=N(startup_costs=S.real("su")))},
                conversion_factors={b: S.pos("f")})
            st = sub(cmp.GenericStorage)(
                "st", inputs={b: F(nominal_capacity=I(
                    ep_costs=S.real("epf")))}, outputs={b: F()},
                nominal_capacity=I(ep_costs=S.real("ep")),
                invest_relation_input_capacity=S.pos("r"),
                loss_rate=S.real("loss", 0, 1))
            st2 = sub(cmp.GenericStorage)(
                "st2", inputs={b: F()}, outputs={b: F()},
                nominal_capacity=S.pos("E"))
            lnk = sub(cmp.Link)("lnk", inputs={a: F(
                nominal_capacity=I(ep_costs=S.real("epl"), maximum=S.pos(
                    "mxl")), nonconvex=N())}, outputs={b: F()},
                conversion_factors={(a, b): S.pos("g")})
            chp = sub(cmp.ExtractionTurbineCHP)(
                label="chp", inputs={a: F()}, outputs={b: F(), a: F()},
                conversion_factors={b: 0.25, a: 0.5},
                conversion_factor_full_condensation={b: 0.5})
            off = sub(cmp.OffsetConverter)(
                label="off", inputs={a: F()}, outputs={b: F(
                    nominal_capacity=S.pos("Po"), nonconvex=N())},
                conversion_factors={a: S.pos("h")},
                normed_offsets={a: S.pos("o")})
            src = sub(cmp.Source)("src", outputs={b: F(
                variable_costs=S.real("c"))})
            snk = sub(cmp.Sink)("snk", inputs={b: F(
                nominal_capacity=S.pos("D"), fix=S.reals("x", t.T))})
            t.es.add(a, b, con, st, st2, lnk, chp, off, src, snk)
            return model(t)

        return W(m=one(False), m2=one(True))

    def spec(S, w, X, A):
        zoo.equal_models(A, X, w.m2)

    return Scenario(name, build, spec, bounds=bounds)


sym = lambda S: es_sym(S, 2)
hrs = lambda S: es_hours(S, 2)
SCENARIOS = [
    gates("component", sym, "2 steps of any length, 2 components"),
    gates("component-single", hrs, "2 hours, 1 component", n=1),
    gates("component-subclass", hrs, "2 hours, 3 components", n=3,
          mixed=True),
    gates("component-named", hrs, "2 hours, block given to the model, too",
          named=True),
    gates("component-late", hrs, "2 hours, components added after a first "
          "model", late=True),
    gates("component-inside", hrs, "2 hours, components are parts of a node",
          place="inside"),
    gates("group", hrs, "2 hours, own group of flows", cap=True),
    gates("group-late", hrs, "2 hours, own group of flows, components added "
          "after a first model", cap=True, late=True),
    derived("subclasses", sym, "2 steps of any length", True),
]
