"""What Model.solve reports, and the relaxation of integer decisions."""
import pyomo.environ as po
from pyomo.opt import SolverResults
from pyomo.opt import SolverStatus
from pyomo.opt import TerminationCondition

from symsolph.api import *

STATUS = [SolverStatus.ok, SolverStatus.warning, SolverStatus.error,
          SolverStatus.aborted, SolverStatus.unknown]
COND = [TerminationCondition.optimal, TerminationCondition.infeasible,
        TerminationCondition.unbounded, TerminationCondition.maxTimeLimit,
        TerminationCondition.feasible, TerminationCondition.unknown,
        TerminationCondition.infeasibleOrUnbounded,
        TerminationCondition.locallyOptimal,
        TerminationCondition.maxIterations, TerminationCondition.error]


def system(S, t):
    b = Bus("b")
    n = cmp.Source("n", outputs={b: Flow(
        nominal_capacity=S.pos("P"), variable_costs=S.reals("c", t.T))})
    k = cmp.Sink("k", inputs={b: Flow(
        nominal_capacity=S.pos("Q"), nonconvex=NonConvex(
            startup_costs=S.real("su")))})
    t.es.add(b, n, k)
    return n, b, k


def outcome(name, allow, positional=False):
    """an answer of the solver is only accepted if it is optimal"""

    def build(S):
        t = es_sym(S, 2)
        n, b, k = system(S, t)
        m = model(t)
        st = STATUS[S.choice("status", len(STATUS))]
        tc = COND[S.choice("condition", len(COND))]
        kw = {} if allow is None else dict(allow_nonoptimal=allow)
        calls = []
        r = solve_stub(S, m, st, tc, calls=calls, **kw)
        return W(mm=m, r=r, n=n, b=b, st=st, tc=tc, calls=calls)

    def bad(S):
        p = S.params
        return not (p["status"] == 0 and p["condition"] == 0)

    def errors(S):
        return must_raise(bad(S) and not allow, RuntimeError)

    def spec(S, w, X, A):
        good = w.st == "ok" and w.tc == "optimal"
        res = isinstance(w.r, solph.Results)
        A.prop("results only for optimal solutions", res == good)
        A.prop("solver is asked once",
               [c[0] for c in w.calls] == ["factory", "solve"])
        A.prop("solver gets this model", w.calls[1][1] is w.mm)
        raw = w.mm.solver_results
        A.prop("status is kept", raw.solver.status == w.st)
        A.prop("condition is kept",
               raw.solver.termination_condition == w.tc)
        A.prop("system keeps solver results", w.mm.es.results is raw)
        if not good:
            A.prop("raw answer is returned", w.r is raw)
        else:
            for s in w.mm.TIMESTEPS:
                A.eq(f"flow@{s}", Z(w.r["flow"][w.n, w.b].iloc[s]),
                     solution(S, w.mm.flow[w.n, w.b, s]))
            sol = lambda v: solution(S, v)
            tot = Sum(sol(w.mm.flow[w.n, w.b, s]) * Z(S.params[f"c_{s}"])
                      * Z(w.mm.timeincrement[s]) for s in w.mm.TIMESTEPS)
            NB = w.mm.NonConvexFlowBlock
            tot = tot + Sum(sol(v) for v in NB.startup.values()) * Z(
                S.params["su"])
            A.eq("objective value", Z(w.r["objective"]), tot)

    return Scenario(name, build, spec, errors=errors, bounds="2 steps, "
                    "5 solver states x 10 termination conditions")


def again(name):
    """the last answer counts if a model is solved several times"""

    def build(S):
        t = es_sym(S, 2)
        n, b, k = system(S, t)
        m = model(t)
        out = []
        for i in range(2):
            st = STATUS[S.choice(f"status{i}", 2)]
            tc = COND[S.choice(f"condition{i}", 2)]
            m.flow[n, b, 0].setub(S.real(f"limit{i}"))
            r = solve_stub(S, m, st, tc, prefix=f"run{i} ",
                           allow_nonoptimal=True)
            raw = m.solver_results
            out.append(W(
                r=r, st=st, tc=tc, raw=raw, es=m.es.results,
                kept=(raw.solver.status, raw.solver.termination_condition),
                flow=[r["flow"][n, b].iloc[s] for s in t.steps]
                if isinstance(r, solph.Results) else None))
        return W(mm=m, n=n, b=b, out=out, steps=t.steps)

    def spec(S, w, X, A):
        for i, o in enumerate(w.out):
            good = o.st == "ok" and o.tc == "optimal"
            A.prop(f"results {i}", isinstance(o.r, solph.Results) == good)
            A.prop(f"answer is kept {i}",
                   o.kept == (o.st, o.tc) and o.es is o.raw)
            if not good:
                A.prop(f"raw answer {i}", o.r is o.raw)
            elif o.flow:
                for s in w.steps:
                    A.eq(f"flow {i}@{s}", Z(o.flow[s]), solution(
                        S, w.mm.flow[w.n, w.b, s], f"run{i} "))

    return Scenario(name, build, spec, bounds="2 steps, 2 x 4 answers")


def options(name, solver, kwargs, cmdline, io):
    """the settings reach the solver interface unchanged"""

    def build(S):
        t = es_hours(S, 1)
        system(S, t)
        m = model(t)
        calls, kw = [], {}
        if solver:
            kw["solver"] = solver
        if io:
            kw["solver_io"] = io
        sk = {k: S.real("k_" + k) for k in kwargs}
        co = {k: S.real("o_" + k) for k in cmdline}
        if kwargs:
            kw["solve_kwargs"] = sk
        if cmdline:
            kw["cmdline_options"] = co
        solve_stub(S, m, calls=calls, **kw)
        return W(calls=calls, sk=sk, co=co)

    def spec(S, w, X, A):
        f, s = w.calls
        A.prop("solver", f[1][:1] == (solver or "cbc",))
        A.prop("interface", f[2].get("solver_io") == (io or "lp"))
        A.prop("keywords", set(s[2]) == set(kwargs))
        A.prop("options", set(s[3]) == set(cmdline))
        for k in kwargs:
            A.eq("keyword " + k, Z(s[2][k]), Z(w.sk[k]))
        for k in cmdline:
            A.eq("option " + k, Z(s[3][k]), Z(w.co[k]))

    return Scenario(name, build, spec, bounds="all values of the settings")


def relaxed(name, mk, bounds, invest=False, relax=True):
    """after relax_problem only the integrality is dropped"""

    def build(S):
        t = mk(S)
        b = Bus("b", balanced=False)
        cap = S.pos("P")
        if invest:
            cap = Investment(maximum=S.pos("P"), minimum=S.pos("Pmin"),
                             nonconvex=True, ep_costs=S.real("ep"),
                             offset=S.real("off"))
        kw = dict(nonconvex=NonConvex()) if not invest else {}
        n = cmp.Source("n", outputs={b: Flow(
            nominal_capacity=cap, minimum=S.pos("mn"), **kw)})
        k = cmp.Sink("k", inputs={b: Flow(integer=True)})
        t.es.add(b, n, k)
        m = model(t)
        if relax:
            r = m.relax_problem()
            assert r is m
        return W(m=m, t=t, n=n, b=b, k=k)

    def spec(S, w, X, A):
        m = w.m
        A.observe(m.flow)
        P, mn = Z(S.params["P"]), Z(S.params["mn"])
        for s in w.t.steps:
            v = X.expr(m.flow[w.n, w.b, s])
            u = X.expr(m.flow[w.b, w.k, s])
            A.ge(f"sink@{s}", u, 0)
            B = m.SimpleFlowBlock
            A.observe(B.integer_flow)
            A.eq(f"integer flow@{s}", u,
                 X.expr(B.integer_flow[w.b, w.k, s]))
            if not relax:
                A.prop(f"integer@{s}", z3.IsInt(u))
            if not invest:
                B = m.NonConvexFlowBlock
                A.observe(B.status)
                y = X.expr(B.status[w.n, w.b, s])
                if relax:
                    A.ge(f"status min@{s}", y, 0)
                    A.le(f"status max@{s}", y, 1)
                else:
                    A.prop(f"status@{s}", Or(y == 0, y == 1))
                A.ge(f"min@{s}", v, y * P * mn)
                A.le(f"max@{s}", v, y * P)
                A.ge(f"nonneg@{s}", v, 0)
        if invest:
            B = m.InvestmentFlowBlock
            A.observe(B.invest, B.total, B.invest_status)
            inv = X.expr(B.invest[w.n, w.b, 0])
            y = X.expr(B.invest_status[w.n, w.b, 0])
            if relax:
                A.ge("decision min", y, 0)
                A.le("decision max", y, 1)
            else:
                A.prop("decision", Or(y == 0, y == 1))
            A.eq("total", X.expr(B.total[w.n, w.b, 0]), inv)
            A.ge("invest nonneg", inv, 0)
            A.le("invest max", inv, P * y)
            A.ge("invest min", inv, Z(S.params["Pmin"]) * y)
            for s in w.t.steps:
                v = X.expr(m.flow[w.n, w.b, s])
                A.ge(f"nonneg@{s}", v, 0)
                A.ge(f"min@{s}", v, inv * mn)
                A.le(f"max@{s}", v, inv)

    return Scenario(name, build, spec, bounds=bounds)


def meta(name, undefined=None):
    """meta results report what the solver reported, and its gap"""

    def build(S):
        t = es_hours(S, 2)
        system(S, t)
        m = model(t)
        solve_stub(S, m)
        p, s = m.solver_results.problem, m.solver_results.solver
        p.upper_bound, p.lower_bound = S.real("ub"), S.real("lb")
        p.number_of_nonzeros = S.integer("nz", 0, 5)
        s.wallclock_time = S.real("wall")
        kw = {} if undefined is None else dict(undefined=undefined)
        return W(mm=m, r=solph.processing.meta_results(m, **kw))

    def spec(S, w, X, A):
        r = w.r
        p, raw = r["problem"], w.mm.es.results
        A.prop("parts", set(r) == {"objective", "problem", "solver"})
        v = lambda n: Z(S.params[n])
        ub, lb = v("ub"), v("lb")
        sol = lambda x: solution(S, x)
        tot = Sum(sol(x) * v(f"c_{i[-1]}") for i, x in w.mm.flow.items()
                  if isinstance(i[0], cmp.Source))
        tot = tot + Sum(sol(x) for x in
                        w.mm.NonConvexFlowBlock.startup.values()) * v("su")
        A.eq("objective", Z(r["objective"]), tot)
        A.eq("upper bound", Z(p["Upper bound"]), ub)
        A.eq("lower bound", Z(p["Lower bound"]), lb)
        A.eq("size", Z(p["Number of nonzeros"]), v("nz"))
        A.eq("time", Z(r["solver"]["Wallclock time"]), v("wall"))
        gap = p["MIPGap"]
        if isinstance(gap, float) and gap == float("inf"):
            A.prop("gap is only infinite without a reference",
                   And(ub + lb == 0, ub != lb))
        else:
            gap, ref = Z(gap), (ub + lb) / 2
            dif = If(ub >= lb, ub - lb, lb - ub)
            A.eq("gap", gap * If(ref >= 0, ref, -ref), dif)
            A.prop("no gap", Implies(ub == lb, gap == 0))
        for part in ("problem", "solver"):
            for k, x in raw[part.capitalize()][0].items():
                try:
                    undef = str(raw[part][0][k]) == "<undefined>"
                except TypeError:  # no text for a group without content
                    undef = True
                if undef:
                    A.prop(f"{k} is undefined", (k in r[part])
                           == bool(undefined))
                elif k in ("Status", "Termination condition", "Sense"):
                    A.prop(f"{k} is given",
                           k in r[part] and str(r[part][k]) == str(x.value))
            A.prop(f"{part} keys", set(r[part]) <= {
                *raw[part.capitalize()][0], "MIPGap"})

    return Scenario(name, build, spec, bounds="2 steps, all bounds")


sym = lambda S: es_sym(S, 3)
SCENARIOS = [
    outcome("default", None),
    outcome("strict", False),
    outcome("tolerant", True),
    again("again"),
    options("options-default", None, (), (), None),
    options("options-cbc", "cbc", ("tee", "keepfiles"), ("ratioGap", "sec"),
            None),
    options("options-other", "glpk", ("tee",), ("mipgap",), "nl"),
    meta("meta"),
    meta("meta-defined", False),
    meta("meta-undefined", True),
    relaxed("relaxed", sym, "3 steps"),
    relaxed("relaxed-invest", sym, "3 steps", True),
    relaxed("integer", sym, "3 steps", relax=False),
    relaxed("integer-invest", sym, "3 steps", True, relax=False),
]
