"""Building blocks shared by the property scenarios."""

import warnings

import pandas as pd
import pyomo.environ as po  # noqa: F401
from oemof import solph

from .engine import SymBool  # noqa: F401
from .engine import SymInt  # noqa: F401
from .engine import SymReal  # noqa: F401
from .engine import rv  # noqa: F401
from .engine import to_z3  # noqa: F401
from .engine import z3
from .prove import Scenario  # noqa: F401
from .prove import World as W  # noqa: F401

warnings.simplefilter("ignore")

Flow = solph.Flow
Bus = solph.Bus
Investment = solph.Investment
NonConvex = solph.NonConvex
cmp = solph.components
And, Or, Not, Implies, If = z3.And, z3.Or, z3.Not, z3.Implies, z3.If
Z = to_z3


def Sum(xs):
    xs = list(xs)
    return z3.Sum(*xs) if xs else z3.RealVal(0)


class Time:
    """description of the time axis of a scenario (for the specs)"""

    def __init__(self, es, T, dt, w=None, period=None, years=None):
        self.es = es
        self.T = T
        self.steps = range(T)
        self.dt = dt
        self.w = w or [1] * T
        self.period = period or [0] * T
        self.years = years or [0]
        self.P = len(self.years)


def es_sym(S, T=3, name="dt"):
    """single period, symbolic (positive) lengths of the time steps"""
    dt = [S.pos(f"{name}_{t}") for t in range(T)]
    es = solph.EnergySystem(timeincrement=dt, infer_last_interval=False)
    return Time(es, T, dt)


def es_hours(S, T=3):
    idx = pd.date_range("2030-01-01", periods=T + 1, freq="h")
    es = solph.EnergySystem(timeindex=idx, infer_last_interval=False)
    return Time(es, T, [1] * T)


def es_periods(S, spec=((2030, 2), (2035, 2)), dt=None, last=1, final=False,
               **kw):
    """multi-period system; spec = ((start year, number of time steps), ...)

    Every period is represented by hourly steps; the last period lasts
    ``last`` year(s), i.e. its time index also contains a stamp in the year
    ``start + last - 1``. final: the last stamp is the end of the last step.
    """
    periods = []
    for i, (y, n) in enumerate(spec):
        if i + 1 < len(spec) or last == 1:
            periods.append(pd.date_range(f"{y}-01-01", periods=n, freq="h"))
        else:
            assert n >= 2
            first = pd.date_range(f"{y}-01-01", periods=n - 1, freq="h")
            periods.append(
                first.append(
                    pd.DatetimeIndex([pd.Timestamp(f"{y + last - 1}-06-01")])
                )
            )
    tindex = periods[0]
    for p in periods[1:]:
        tindex = tindex.append(p)
    N = len(tindex) - final
    dt = dt if dt is not None else [S.pos(f"dt_{t}") for t in range(N)]
    es = solph.EnergySystem(
        timeindex=tindex,
        timeincrement=dt,
        periods=periods,
        infer_last_interval=False,
        **kw,
    )
    period = [p for p, (_, n) in enumerate(spec) for _ in range(n)][:N]
    years = [y - spec[0][0] for y, _ in spec]
    t = Time(es, N, dt, period=period, years=years)
    t.end_year = years[-1] + last
    t.spec = spec
    return t


def es_tsam(S, order=(0, 1, 0), steps=2, dt=None, segments=False):
    """single period time series aggregation: typical periods of ``steps``
    time steps, repeated in ``order``; symbolic lengths of the time steps"""
    k = max(order) + 1
    T = k * steps
    params = {"timesteps_per_period": steps, "order": list(order)}
    kw = {}
    if segments:
        # lengths of the segments (whole hours in practice)
        dt = dt if dt is not None else [2, 1] * (T // 2)
        seg = {
            (c, i): dt[c * steps + i] for c in range(k) for i in range(steps)
        }
        params["segments"] = seg
        params["timesteps_per_period"] = 3 if dt == [2, 1] * (T // 2) else 0
        kw["timeindex"] = pd.date_range("2030-01-01", periods=T, freq="h")
    else:
        dt = dt if dt is not None else [S.pos(f"dt_{t}") for t in range(T)]
        kw["timeincrement"] = dt
    es = solph.EnergySystem(
        tsa_parameters=params, infer_last_interval=False, **kw
    )
    w = [list(order).count(i) for i in range(k) for _ in range(steps)]
    t = Time(es, T, dt, w=w)
    t.order = [list(order)]
    t.typical = [k]
    t.per = [steps]
    t.offset = [0]
    return t


def es_tsam_periods(
    S,
    spec=((2030, (0, 1, 0), 2), (2035, (1, 0), 2)),
    dt=None,
    last=1,
    **kw,
):
    """multi-period time series aggregation;
    spec = ((year, order, steps per typical period), ...)"""
    periods, params, w, period = [], [], [], []
    order_, typ, per, off = [], [], [], []
    for p, (y, order, steps) in enumerate(spec):
        k = max(order) + 1
        n = k * steps
        off.append(len(w))
        periods.append(pd.date_range(f"{y}-01-01", periods=n, freq="h"))
        params.append({"timesteps_per_period": steps, "order": list(order)})
        w += [list(order).count(i) for i in range(k) for _ in range(steps)]
        period += [p] * n
        order_.append(list(order))
        typ.append(k)
        per.append(steps)
    tindex = periods[0]
    for q in periods[1:]:
        tindex = tindex.append(q)
    N = len(tindex)
    dt = dt if dt is not None else [S.pos(f"dt_{t}") for t in range(N)]
    es = solph.EnergySystem(
        timeindex=tindex,
        timeincrement=dt,
        periods=periods,
        tsa_parameters=params,
        infer_last_interval=False,
        **kw,
    )
    t = Time(
        es,
        N,
        dt,
        w=w,
        period=period,
        years=[s[0] - spec[0][0] for s in spec],
    )
    t.end_year = t.years[-1] + last
    t.order, t.typical, t.per, t.offset = order_, typ, per, off
    return t


def model(es, other_weights=False, **kw):
    if other_weights:
        # weights of the time steps in the objective matter only for costs
        kw["objective_weighting"] = [7 + i for i in range(es.T)]
    return solph.Model(es.es if isinstance(es, Time) else es, **kw)


def flowvars(m):
    return list(m.flow.values())


def free_source(bus, label="free", **kw):
    return cmp.Source(label, outputs={bus: Flow(**kw)})


def free_sink(bus, label="dump", **kw):
    return cmp.Sink(label, inputs={bus: Flow(**kw)})


def YN(S, name):
    """a decided yes/no parameter as a term (for specifications)"""
    return z3.BoolVal(bool(S.params.get(name, False)))


def must_raise(cond, types, may=False):
    """error specification from plain truth values"""
    as_term = lambda c: c if z3.is_expr(c) else z3.BoolVal(bool(c))
    return as_term(cond), types, as_term(may)


def solve_stub(S, m, status="ok", condition="optimal", prefix="", lo=None,
               calls=None, skip=(), **kw):
    """run the real Model.solve() with a stand-in for the external solver,
    which reports an arbitrary (symbolic) solution

    The stand-in fills every free variable with a symbolic value; with
    ``lo``, values are bounded from below.
    """
    import oemof.solph._models as models
    from pyomo.opt import SolverResults

    class Opt:
        def __init__(self):
            self.options = {}

        def solve(self, model, **kwargs):
            if calls is not None:
                calls.append(("solve", model, kwargs, dict(self.options)))
            for v in model.component_data_objects(po.Var):
                if v.fixed or v.name in skip:
                    continue
                n = f"{prefix}{v.name}".replace(" ", "")
                x = S.real(n, 0 if v.is_binary() else lo,
                           1 if v.is_binary() else None)
                v.set_value(x, skip_validation=True)
            r = SolverResults()
            r.solver.status = status
            r.solver.termination_condition = condition
            return r

    def factory(*a, **k):
        o = Opt()
        if calls is not None:
            calls.append(("factory", a, k))
        return o

    old = models.SolverFactory
    models.SolverFactory = factory
    try:
        return m.solve(**kw)
    finally:
        models.SolverFactory = old


def solution(S, v, prefix=""):
    """value of a variable reported by solve_stub (or its fixed value)"""
    n = f"{prefix}{v.name}".replace(" ", "")
    if n in S.params:
        return Z(S.params[n])
    return Z(v.value)


def es_tsam_hours(S, order=(0, 1, 0), steps=2):
    """single period time series aggregation with an hourly time index"""
    k = max(order) + 1
    T = k * steps
    es = solph.EnergySystem(
        timeindex=pd.date_range("2030-01-01", periods=T, freq="h"),
        tsa_parameters={"timesteps_per_period": steps, "order": list(order)},
        infer_last_interval=True,
    )
    w = [list(order).count(i) for i in range(k) for _ in range(steps)]
    t = Time(es, T, [1] * T, w=w)
    t.order, t.typical, t.per, t.offset = [list(order)], [k], [steps], [0]
    return t


def es_tsam_segments(S, order=(0, 1, 0), lengths=((1, 3), (2, 2)), spec=None):
    """time series aggregation with segments of whole hours; with spec =
    (year, ...), the same is used for several periods"""
    steps = len(lengths[0])
    k, T = len(lengths), len(lengths) * steps
    years = spec or (2030,)
    params = [{
        "timesteps_per_period": sum(lengths[0]),
        "order": list(order),
        "segments": {(c, i): lengths[c][i] for c in range(k)
                     for i in range(steps)},
    } for _ in years]
    kw = {}
    idx = [pd.date_range(f"{y}-01-01", periods=T, freq="h") for y in years]
    tindex = idx[0]
    for q in idx[1:]:
        tindex = tindex.append(q)
    if spec:
        kw["periods"] = idx
    es = solph.EnergySystem(
        timeindex=tindex, tsa_parameters=params, infer_last_interval=False,
        **kw)
    P = len(years)
    w = [list(order).count(i) for i in range(k) for _ in range(steps)] * P
    dt = [lengths[c][i] for c in range(k) for i in range(steps)] * P
    t = Time(es, T * P, dt, w=w,
             period=[p for p in range(P) for _ in range(T)],
             years=[y - years[0] for y in years])
    t.order, t.typical = [list(order)] * P, [k] * P
    t.per, t.offset = [steps] * P, [p * T for p in range(P)]
    t.lengths = lengths
    t.end_year = t.years[-1] + 1
    return t


# pandas does not interpolate objects: do the same for symbolic values
def _interpolated(column):
    vals = list(column)
    known = [i for i, v in enumerate(vals)
             if not (v is None or (isinstance(v, float) and v != v))]
    if not known:
        return column
    out = []
    for i, v in enumerate(vals):
        left = [j for j in known if j <= i]
        right = [j for j in known if j >= i]
        if not left:
            out.append(float("nan"))
        elif not right or left[-1] == i:
            out.append(vals[left[-1]])
        else:
            a, b = left[-1], right[0]
            out.append(vals[a] + (vals[b] - vals[a]) * (i - a) / (b - a))
    return pd.Series(out, index=column.index, name=column.name, dtype=object)


def _wrap_interpolate(cls):
    original = cls.interpolate

    def interpolate(self, *args, **kw):
        frame = self.to_frame() if isinstance(self, pd.Series) else self
        sym = [i for i in range(frame.shape[1])
               if any(isinstance(x, SymReal) for x in frame.iloc[:, i])]
        if not sym:
            return original(self, *args, **kw)
        if args[:1] == ("linear",):
            args = args[1:]
        if args or not set(kw.items()) <= {("method", "linear"),
                                            ("axis", 0)}:
            raise NotImplementedError("interpolation of symbolic values")
        cols = []
        for i in range(frame.shape[1]):
            c = frame.iloc[:, i]
            cols.append(_interpolated(c) if i in sym
                        else original(c, *args, **kw))
        if isinstance(self, pd.Series):
            return cols[0]
        out = pd.concat(cols, axis=1)
        out.columns = frame.columns
        return out

    cls.interpolate = interpolate


_wrap_interpolate(pd.DataFrame)
_wrap_interpolate(pd.Series)
