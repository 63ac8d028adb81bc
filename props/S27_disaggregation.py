"""Results of models with typical periods are given for the original time
series."""
import pandas as pd

from symsolph.api import *
from props.S25_results import system
from props.S26_processing import build_for, column, expected, same_index

C = solph.constraints


def originals(t):
    """original periods: (period, number therein, typical period)"""
    return [(p, i, k) for p in range(len(t.order))
            for i, k in enumerate(t.order[p])]


def lossy(S, t, a, b):
    """a storage with all kinds of self-discharge"""
    st = cmp.GenericStorage(
        "lossy", inputs={a: Flow()}, outputs={b: Flow()},
        nominal_capacity=S.pos("El"), loss_rate=S.reals("loss", t.T, 0, 1),
        inflow_conversion_factor=S.pos("eta"))
    t.es.add(st)


def lossy_invest(S, t, a, b):
    lt = dict(lifetime=20) if t.P > 1 else {}
    st = cmp.GenericStorage(
        "lossy", inputs={a: Flow()}, outputs={b: Flow()},
        nominal_capacity=Investment(ep_costs=S.real("epl"), **lt),
        loss_rate=S.real("loss", 0, 1))
    t.es.add(st)


def multiplexer(S, t, a, b):
    """access to a storage depending on its content"""
    mux = Bus("mux")
    i = Bus("in", balanced=False, outputs={
        mux: Flow(nominal_capacity=S.pos("Pi"))})
    o = Bus("out", balanced=False, inputs={
        mux: Flow(nominal_capacity=S.pos("Po"))})
    st = cmp.GenericStorage("st", inputs={mux: Flow()}, outputs={mux: Flow()},
                            nominal_capacity=S.pos("El"))
    t.es.add(mux, i, o, st)
    t.levels = (st, mux, {i: S.real("li", 0, 1)}, {o: S.real("lo", 0, 1)})


def with_levels(S, m, t):
    C.storage_level_constraint(
        m, "multiplexer", t.levels[0], t.levels[1],
        input_levels=t.levels[2], output_levels=t.levels[3])


def disaggregated(name, mk, bounds, kinds, more=None, remove=None,
                   after=None):
    def spec(S, w, X, A):
        m, t, res = w.mm, w.t, w.res
        want = expected(S, m, t)
        multi = t.es.periods is not None
        scalars = "period_scalars" if multi else "scalars"
        lengths = getattr(t, "lengths", None)

        def dur(p, k, g):
            return lengths[k][g] if lengths else 1

        # time index of the original time series
        idx = []
        for p in range(len(t.order)):
            start = (t.es.periods[p] if multi else t.es.timeindex)[0]
            n = sum(dur(p, k, g) for k in t.order[p]
                    for g in range(t.per[p]))
            idx += list(pd.date_range(start, periods=n, freq="h"))

        def step(p, k, g):
            return t.offset[p] + k * t.per[p] + g

        for k, data in want.items():
            if len(k) > 2 or k not in res:
                # (inner quantities of the time series aggregation)
                A.prop(f"{k} is reported", len(k) > 2)
                continue
            r = res[k]
            A.prop(f"{k} parts", set(r) == {scalars, "sequences"})
            sc = {x for x, (kind, _) in data.items() if kind == "PERIODS"}
            seq = r["sequences"]
            same_index(A, f"{k}", seq.index, idx)
            for x in sc:
                col = r[scalars][x]
                if multi:
                    column(A, f"{k} {x}", col, data[x][1], t.P)
                else:
                    A.eq(f"{k} {x}", Z(col), data[x][1][0])
            storage = isinstance(k[0], cmp.GenericStorage) and k[1] is None
            A.prop(f"{k} names", set(seq.columns) == (
                {"soc"} if storage else
                {x for x, (kind, _) in data.items()
                 if kind in ("TIMESTEPS", "typical")}))
            if not storage:
                for x in seq.columns:
                    vals = []
                    for p, i, c in originals(t):
                        for g in range(t.per[p]):
                            v = data[x][1]
                            v = v[(p, c, g) if data[x][0] == "typical"
                                  else step(p, c, g)]
                            vals += [v] * dur(p, c, g)
                    column(A, f"{k} {x}", seq[x], dict(enumerate(vals)),
                           len(idx))
                continue
            st = k[0]
            inter = {i: v for (i,), v in
                     data["inter_storage_content"][1].items()}
            delta = data["intra_storage_delta"][1]
            points = []
            for n, (p, i, c) in enumerate(originals(t)):
                keep = z3.RealVal(1)
                for g in range(t.per[p]):
                    s = step(p, c, g)
                    points.append((inter[n] * keep + delta[p, c, g],
                                   dur(p, c, g)))
                    rate = S.params.get(f"loss_{s}", S.params.get("loss", 0)
                                        if st.label == "lossy" else 0)
                    if st.label != "lossy":
                        rate = 0
                    keep = keep * Z((1 - rate) ** t.dt[s])
            p, i, c = originals(t)[-1]
            end = inter[len(originals(t)) - 1] * keep + delta[p, c, t.per[p]]
            vals = []
            for (x, d), (y, _) in zip(points, points[1:] + [(end, 0)]):
                vals += [x + (y - x) * rv(j) / d for j in range(d)]
            column(A, f"{k} content", seq["soc"], dict(enumerate(vals)),
                   len(idx))

    return Scenario(name, build_for(mk, kinds, remove, more=more, after=after), spec,
                    bounds=bounds)


ts = lambda S: es_tsam_hours(S, (0, 1, 0))
ts2 = lambda S: es_tsam_hours(S, (1, 0, 2, 1), 3)
seg = lambda S: es_tsam_segments(S)
segm = lambda S: es_tsam_segments(S, (1, 0, 1), spec=(2030, 2035))
tsm = lambda S: es_tsam_periods(S)
tsm2 = lambda S: es_tsam_periods(
    S, ((2030, (1, 0, 1), 2), (2035, (0, 0), 3), (2040, (0, 1), 2)))
ALL = ("source", "invest", "optional", "offset", "onoff", "onoff-invest",
       "storage", "storage-invest", "storage-optional")
MULTI = tuple(k for k in ALL if k != "onoff-invest")
SCENARIOS = [
    disaggregated("typical", ts, "2 typical periods x 2 hours, order 0,1,0",
                  ALL),
    disaggregated("typical-losses", ts2, "3 typical periods x 3 hours, order "
                  "1,0,2,1", ("source",), lossy),
    disaggregated("typical-losses-invest", ts2, "3 typical periods x 3 hours",
                  ("onoff",), lossy_invest, True),
    disaggregated("segments", seg, "2 typical periods of segments with 1, 3, "
                  "2 and 2 hours", ("source", "onoff", "optional"), lossy),
    disaggregated("tuple-labels", ts, "2 typical periods x 2 hours, tuples as "
                  "labels", ("source", "invest", "onoff", "tuples")),
    disaggregated("levels", ts2, "3 typical periods x 3 hours", ("source",),
                  multiplexer, after=with_levels),
    disaggregated("levels-segments", seg, "2 typical periods of segments",
                  ("source",), multiplexer, after=with_levels),
    disaggregated("levels-multi-period", tsm, "2 periods", ("source",),
                  multiplexer, after=with_levels),
    disaggregated("segments-invest", seg, "2 typical periods of segments",
                  ("source",), lossy_invest),
    disaggregated("multi-period", tsm, "2 periods", MULTI),
    disaggregated("multi-period-losses", tsm2, "3 periods with different "
                  "typical periods, steps of any length",
                  ("source", "optional"), lossy),
    disaggregated("multi-period-invest", tsm2, "3 periods",
                  ("source",), lossy_invest, True),
    disaggregated("multi-period-segments", segm, "2 periods",
                  ("source", "invest"), lossy),
]
