"""Time steps, periods and their lengths are those the user described."""
import numpy as np
import pandas as pd

from symsolph.api import *
from symsolph import zoo

ES = solph.EnergySystem


def series(A, label, got, want):
    got = list(got)
    A.prop(f"{label} length", len(got) == len(want))
    for i, x in enumerate(want):
        if i < len(got):
            A.eq(f"{label} {i}", Z(got[i]), Z(x))


def filled(es):
    """a system needs something to be optimised"""
    b = Bus("b")
    es.add(b, free_source(b), free_sink(b))
    return es


def points(name, n, form=list):
    """lengths of time steps are the differences of the time points"""

    def build(S):
        x = S.reals("x", n)
        with_es = S.choice("model", 2)
        es = ES(timeindex=form(x))
        m = model(filled(es)) if with_es else None
        return W(mm=m, es=es, x=x)

    def errors(S):
        x = [Z(S.params[f"x_{i}"]) for i in range(n)]
        return must_raise(Or(*[a >= b for a, b in zip(x, x[1:])]), TypeError)

    def spec(S, w, X, A):
        x = w.x
        want = [Z(b) - Z(a) for a, b in zip(x, x[1:])]
        series(A, "length", w.es.timeincrement, want)
        series(A, "time point", w.es.timeindex, x)
        A.prop("no periods", w.es.periods is None)
        A.prop("no typical periods", w.es.tsa_parameters is None)
        if w.mm is not None:
            model_axis(A, w.mm, [n - 1], want)

    return Scenario(name, build, spec, errors=errors,
                    bounds=f"{n} time points")


def model_axis(A, m, per, dt, weight=None):
    """sets of a model; per: number of time steps of each period"""
    T = sum(per)
    A.prop("time steps", list(m.TIMESTEPS) == list(range(T)))
    A.prop("time points", list(m.TIMEPOINTS) == list(range(T + 1)))
    A.prop("periods", list(m.PERIODS) == list(range(len(per))))
    of = [p for p, n in enumerate(per) for _ in range(n)]
    A.prop("time index", list(m.TIMEINDEX) == list(zip(of, range(T))))
    for p in range(len(per)):
        A.prop(f"steps of period {p}", list(m.TIMESTEPS_IN_PERIOD[p])
               == [t for t in range(T) if of[t] == p])
    A.prop("previous", m.previous_timesteps == {
        t: (t - 1) % T for t in range(T)})
    series(A, "model length", [m.timeincrement[t] for t in range(T)], dt)
    series(A, "weight", [m.objective_weighting[t] for t in range(T)],
           dt if weight is None else weight)


def increments(name, n, form=list, reset=None, weights=False):
    """lengths of time steps are given, possibly replaced in the model"""

    def build(S):
        x = S.reals("x", n)
        es = ES(timeincrement=form(x))
        kw = {}
        if reset:
            kw["timeincrement"] = reset([S.pos(f"y_{i}") for i in range(n)])
        if weights:
            kw["objective_weighting"] = S.reals("w", n)
        b = Bus("b")
        src = cmp.Source("s", outputs={b: Flow(variable_costs=S.real("c"))})
        es.add(b, src, cmp.Sink("k", inputs={b: Flow()}))
        return W(m=model(es, **kw), es=es, x=x, b=b, s=src)

    def errors(S):
        x = [Z(S.params[f"x_{i}"]) for i in range(n)]
        return must_raise(Or(*[a <= 0 for a in x]), TypeError)

    def spec(S, w, X, A):
        v = lambda k: [Z(S.params[f"{k}_{i}"]) for i in range(n)]
        x = v("x")
        series(A, "length", w.es.timeincrement, x)
        series(A, "time point", w.es.timeindex,
               [Sum(x[:i]) if i else rv(0) for i in range(n + 1)])
        dt = v("y") if reset else x
        weight = v("w") if weights else dt
        model_axis(A, w.m, [n], dt, weight)
        c = Z(S.params["c"])
        A.observe(w.m.flow)
        for t in range(n):
            u = X.expr(w.m.flow[w.s, w.b, t])
            k = [X.expr(z) for i, z in w.m.flow.items()
                 if i[0] is w.b and i[-1] == t]
            A.ge(f"flow {t}", u, 0)
            A.eq(f"balance {t}", u, k[0])
        A.objective(Sum(X.expr(w.m.flow[w.s, w.b, t]) * c * weight[t]
                        for t in range(n)))

    return Scenario(name, build, spec, errors=errors,
                    bounds=f"{n} time steps")


def conflict(name):
    """points and lengths exclude each other; a model needs one of them"""

    def build(S):
        k = S.choice("case", 4)
        x, y = S.reals("x", 3), [S.pos(f"y_{i}") for i in range(2)]
        S.assume(x[0] < x[1])
        S.assume(x[1] < x[2])
        kw = [dict(timeindex=x, timeincrement=y), dict(timeindex=x),
              dict(timeincrement=y), {}][k]
        es = ES(**kw)
        return W(m=None, mm=model(filled(es)), es=es)

    def errors(S):
        return must_raise(S.params["case"] in (0, 3), AttributeError)

    return Scenario(name, build, lambda S, w, X, A: A.prop(
        "steps", len(w.mm.TIMESTEPS) == 2), errors=errors, bounds="4 cases")


def calendar(name):
    """time points with dates, the last interval being inferred or not"""
    freqs = ["h", "15min", "D", "2h", "30s"]

    def build(S):
        k, f = S.choice("case", 5), freqs[S.choice("freq", len(freqs))]
        n = S.integer("n", 4, 6)
        idx = pd.date_range("2024-02-28 22:00", periods=int(n), freq=f)
        want = idx
        if k == 1:  # spacing has to be recognised
            idx = pd.DatetimeIndex(list(idx))
        if k == 2:  # no constant spacing
            idx = idx.delete(1)
        if k == 3:
            idx = [0, 1, 2]
        kw = dict(infer_last_interval=True)
        if k == 4:
            kw = {} if S.choice("default", 2) else dict(
                infer_last_interval=False)
        else:
            want = pd.date_range(want[0], periods=len(want) + 1, freq=f)
        return W(m=None, es=ES(timeindex=idx, **kw), f=f, want=want)

    def errors(S):
        p = S.params
        return must_raise(p["case"] == 2 or p["case"] == 3, AttributeError)

    def spec(S, w, X, A):
        h = {"h": 1, "15min": 1 / 4, "D": 24, "2h": 2, "30s": 1 / 120}[w.f]
        es = w.es
        A.prop("time points", list(es.timeindex) == list(w.want))
        A.prop("number of steps", len(es.timeincrement) == len(w.want) - 1)
        for i, x in enumerate(es.timeincrement):
            A.prop(f"length {i}", abs(float(x) - h) < 1e-9)

    return Scenario(name, build, spec, errors=errors,
                    bounds="5 frequencies, 4 to 6 time points")


class Stamp:
    def __init__(self, year):
        self.year = year


class Years:
    """time index of a period, as far as the calendar is concerned"""

    def __init__(self, first, last, n):
        self.first, self.last, self.n = first, last, n

    def min(self):
        return Stamp(self.first)

    def max(self):
        return Stamp(self.last)

    def __len__(self):
        return self.n

    @property
    def size(self):
        return self.n

    def __iter__(self):
        return iter([Stamp(self.first)] * (self.n - 1) + [Stamp(self.last)])

    def __getitem__(self, i):
        return list(self)[i]

    @property
    def year(self):
        return np.array([x.year for x in self], dtype=object)


def years(name, n):
    """distances of periods follow from their years"""

    def build(S):
        a = [S.integer(f"y{i}", 1990, 2100) for i in range(n)]
        d = [S.integer(f"d{i}", 0, 30) for i in range(n)]
        for i in range(n - 1):
            S.assume(a[i] + d[i] < a[i + 1])
        per = [Years(y, y + e, 2) for y, e in zip(a, d)]
        es = ES(timeindex=list(range(2 * n)),
                timeincrement=[S.pos(f"dt_{i}") for i in range(2 * n)],
                periods=per)
        return W(m=None, es=es, per=per, a=a, d=d)

    def spec(S, w, X, A):
        a, d, es = [Z(x) for x in w.a], [Z(x) for x in w.d], w.es
        series(A, "years", es.periods_years, [x - a[0] for x in a])
        A.prop("matrix", es.periods_matrix.shape == (n, n))
        for i in range(n):
            for j in range(n):
                A.eq(f"distance {i} {j}", Z(es.periods_matrix[i, j]),
                     a[j] - a[i] if j > i else rv(0))
            A.eq(f"duration {i}", Z(es.get_period_duration(i)), d[i] + 1)
        A.eq("end", Z(es.end_year_of_optimization),
             a[-1] + d[-1] + 1 - a[0])

    return Scenario(name, build, spec, bounds=f"{n} periods in any years")


def uneven(name, sizes):
    """time steps belong to the period they are listed in"""

    def build(S):
        per = [Years(2030 + 5 * i, 2030 + 5 * i, k)
               for i, k in enumerate(sizes)]
        T = sum(sizes)
        es = ES(timeindex=list(range(T)), periods=per,
                timeincrement=[S.pos(f"dt_{i}") for i in range(T)])
        kw = {}
        if S.choice("rate", 2):
            kw["discount_rate"] = S.real("r", 0, 1)
        return W(m=None, es=es, mm=model(filled(es), **kw))

    def spec(S, w, X, A):
        dt = [Z(S.params[f"dt_{i}"]) for i in range(sum(sizes))]
        model_axis(A, w.mm, list(sizes), dt)
        A.eq("discount rate", Z(w.mm.discount_rate), Z(
            S.params["r"] if S.params["rate"] else 0.02))

    return Scenario(name, build, spec, bounds=f"periods of {sizes} steps")


def typical(name, spec_, segments=False, given=False):
    """typical periods occur as often as listed; segments have lengths"""

    def build(S):
        pars, orders = [], []
        for p, (n, k, steps) in enumerate(spec_):
            order = [S.choice(f"o{p}_{i}", k) for i in range(n)]
            for c in range(k):  # each of them is used
                S.assume(z3.BoolVal(c in order))
            orders.append(order)
            par = {"timesteps_per_period": steps, "order": order}
            if segments and not (segments == "some" and p):
                par["segments"] = {
                    (c, g): S.real(f"s{p}_{c}_{g}")
                    for c in range(k) for g in range(steps)}
                par["timesteps_per_period"] = 7
            pars.append(par)
        T = sum(k * s for _, k, s in spec_)
        kw = {}
        if not segments or given:
            kw["timeincrement"] = [S.pos(f"dt_{i}") for i in range(T)]
        if len(spec_) > 1:
            kw["timeindex"] = list(range(T))
            kw["periods"] = [Years(2030 + p, 2030 + p, k * s)
                             for p, (_, k, s) in enumerate(spec_)]
            tp = pars
        else:
            tp = pars[0]
        es = ES(tsa_parameters=tp, **kw)
        return W(m=None, es=es, mm=model(filled(es)), orders=orders)

    def errors(S):
        return must_raise(bool(segments and given or segments == "some"),
                          AttributeError)

    def spec(S, w, X, A):
        m, es = w.mm, w.es
        dt, weight, typ, clus, start = [], [], [], [], 0
        for p, (n, k, steps) in enumerate(spec_):
            o = w.orders[p]
            A.prop(f"order {p}", list(es.tsa_parameters[p]["order"]) == o)
            A.prop(f"steps {p}", es.tsa_parameters[p]["timesteps"] == steps)
            for c in range(k):
                A.prop(f"occurrence {p} {c}",
                       es.tsa_parameters[p]["occurrences"][c] == o.count(c))
                for g in range(steps):
                    weight.append(o.count(c))
                    dt.append(Z(S.params[
                        f"s{p}_{c}_{g}" if segments else f"dt_{len(dt)}"]))
                    A.prop(f"position {p} {c} {g}",
                           m.get_timestep_from_tsam_timestep(p, c, g)
                           == len(dt) - 1)
                typ.append((p, c))
            clus += [(p, c) for c in range(n)]
        A.prop("aggregated", m.TSAM_MODE is True)
        series(A, "occurrence", m.tsam_weighting, weight)
        N = len(clus)
        st = lambda p: spec_[p][2]
        A.prop("original periods", list(m.CLUSTERS) == list(range(N)))
        A.prop("borders", list(m.CLUSTERS_OFFSET) == list(range(N + 1)))
        A.prop("typical periods", list(m.TYPICAL_CLUSTERS) == typ)
        A.prop("original index", m.TIMEINDEX_CLUSTER == [
            (p, c, g) for p, c in clus for g in range(st(p))])
        A.prop("typical index", m.TIMEINDEX_TYPICAL_CLUSTER == [
            (p, c, g) for p, c in typ for g in range(st(p))])
        A.prop("points in typical periods",
               m.TIMEINDEX_TYPICAL_CLUSTER_OFFSET == [
                   (p, c, g) for p, c in typ for g in range(st(p) + 1)])
        model_axis(A, m, [k * s for _, k, s in spec_], dt)

    return Scenario(name, build, spec, errors=errors,
                    bounds="(original, typical periods, steps): "
                    + str(spec_))


def in_model(system):
    """lengths of the time steps given to the model"""

    def build(S):
        def one(mk, **kw):
            t = mk(S)
            t.dt = [S.pos(f"dt_{i}") for i in range(t.T)]
            t.es.add(*system(S, t, zoo.Data(S, t)))
            return model(t, **kw)

        m = one(lambda S: es_sym(S, 3))
        return W(m=m, m2=one(lambda S: es_hours(S, 3), timeincrement=[
            S.pos(f"dt_{i}") for i in range(3)]))

    def spec(S, w, X, A):
        zoo.equal_models(A, X, w.m2)

    return Scenario(f"{system.__name__}-in-model", build, spec,
                    bounds="3 steps of any length, given to the model")


SCENARIOS = [
    points("points", 4),
    points("points-tuple", 3, tuple),
    points("points-series", 3, lambda x: pd.Series(x, dtype=object)),
    increments("lengths", 3),
    increments("lengths-tuple", 2, tuple),
    increments("lengths-reset", 3, reset=list),
    increments("lengths-reset-series", 3,
               reset=lambda x: pd.Series(x, dtype=object)),
    increments("lengths-weights", 3, weights=True),
    increments("lengths-reset-weights", 2, reset=list, weights=True),
    conflict("conflict"),
    calendar("calendar"),
    years("years-2", 2),
    years("years-3", 3),
    uneven("uneven", (2, 1, 3)),
    typical("typical", [(3, 2, 2)]),
    typical("typical-periods", [(3, 2, 2), (2, 1, 3)]),
    typical("typical-segments", [(3, 2, 2)], True),
    typical("typical-periods-segments", [(2, 2, 1), (3, 2, 3)], True),
    typical("typical-periods-segments-2", [(3, 3, 1), (2, 2, 2)], True),
    typical("typical-conflict", [(3, 2, 2)], True, True),
    typical("typical-incomplete", [(2, 2, 1), (2, 2, 2)], "some"),
]
for f in (zoo.flows, zoo.onoff, zoo.invest, zoo.converters, zoo.storages,
          zoo.generic_chp):
    SCENARIOS.append(in_model(f))
