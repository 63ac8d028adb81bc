"""Limits of the weighted energy (e.g. emissions) of a set of flows."""
from symsolph.api import *

C = solph.constraints


def system(S, t, kw="co2", kinds=("scalar", "list", None)):
    """one bus, a source per entry; None: flow without the property"""
    b = Bus("b", balanced=False)
    t.es.add(b)
    keys, fac, flows = [], {}, {}
    for i, kind in enumerate(kinds):
        cp = {}
        if kind == "scalar":
            cp[kw] = S.real(f"f{i}")
            fac[i] = [cp[kw]] * t.T
        elif kind == "list":
            cp[kw] = S.reals(f"f{i}", t.T)
            fac[i] = list(cp[kw])
        elif kind in ("zero-first", "zero-last"):
            cp[kw] = list(S.reals(f"f{i}", t.T))
            cp[kw][0 if kind == "zero-first" else -1] = 0
            fac[i] = list(cp[kw])
        elif kind == "zero":
            cp[kw] = 0
            fac[i] = [0] * t.T
        elif kind == "other":
            cp["something_else"] = S.real(f"f{i}")
        for x in fac.get(i, ()):
            if not (isinstance(x, int) and x == 0):
                S.assume(x != 0)
        f = Flow(nominal_capacity=S.real(f"P{i}", 0),
                 custom_properties=cp)
        n = cmp.Source(f"n{i}", outputs={b: f})
        t.es.add(n)
        keys.append((n, b))
        flows[n, b] = f
    return keys, fac, flows


def base(S, w, X, A):
    t, v = w.t, {}
    for i, k in enumerate(w.keys):
        for s in t.steps:
            v[i, s] = X.expr(w.m.flow[(*k, s)])
            A.ge(f"lower {i}@{s}", v[i, s], 0)
            A.le(f"upper {i}@{s}", v[i, s], Z(S.params[f"P{i}"]))
    A.observe(w.m.flow)
    return v


def amount(w, v, fac, steps=None, only=None):
    t = w.t
    return Sum(
        v[i, s] * Z(fac[i][s]) * Z(t.dt[s]) * t.w[s]
        for i in fac if only is None or i in only
        for s in (t.steps if steps is None else steps))


def total(name, mk, bounds, up=True, low=False, given=None,
          fn="generic", kinds=("scalar", "list", None), lname=None,
          deprecated=False):
    kw = "emission_factor" if fn == "emission" else "co2"

    def build(S):
        t = mk(S)
        keys, fac, flows = system(S, t, kw, kinds)
        m = model(t, other_weights=True)
        a = {}
        if given is not None:
            a["flows"] = {keys[i]: flows[keys[i]] for i in given}
        if deprecated:
            a["limit"] = S.real("UB")
        elif up:
            a["limit" if fn == "emission" else "upper_limit"] = S.real("UB")
        if low:
            a["lower_limit"] = S.real("LB")
        if lname:
            a["limit_name"] = lname
        if fn == "emission":
            C.emission_limit(m, **a)
        else:
            C.generic_integral_limit(m, "co2", **a)
        return W(m=m, t=t, keys=keys, fac=fac)

    def spec(S, w, X, A):
        v = base(S, w, X, A)
        tot = amount(w, v, w.fac, only=given)
        if up or deprecated:
            A.le("upper limit", tot, Z(S.params["UB"]))
        if low:
            A.ge("lower limit", tot, Z(S.params["LB"]))
        e = getattr(w.m, lname or "integral_limit_" + kw)
        A.eq("reported amount", X.expr(e), tot)

    return Scenario(name, build, spec, bounds=bounds)


def several(name, mk, bounds):
    """independent limits in one model"""

    def build(S):
        t = mk(S)
        keys, fac, flows = system(S, t, "co2", ("scalar", "list"))
        so2 = {}
        for i, k in enumerate(keys):
            so2[i] = S.reals(f"s{i}", t.T)
            for x in so2[i]:
                S.assume(x != 0)
            flows[k].custom_properties["so2"] = so2[i]
        m = model(t, other_weights=True)
        C.generic_integral_limit(m, "co2", upper_limit=S.real("U1"))
        C.generic_integral_limit(m, "so2", upper_limit=S.real("U2"),
                                 lower_limit=S.real("L2"))
        C.generic_integral_limit(
            m, "co2", flows={keys[1]: flows[keys[1]]},
            upper_limit=S.real("U3"), limit_name="second_only")
        return W(m=m, t=t, keys=keys, fac=fac, so2=so2)

    def spec(S, w, X, A):
        v = base(S, w, X, A)
        P = lambda n: Z(S.params[n])
        A.le("co2", amount(w, v, w.fac), P("U1"))
        A.le("so2 max", amount(w, v, w.so2), P("U2"))
        A.ge("so2 min", amount(w, v, w.so2), P("L2"))
        A.le("co2 second", amount(w, v, w.fac, only=[1]), P("U3"))

    return Scenario(name, build, spec, bounds=bounds)


def periodic(name, mk, bounds, kind="list", fn="generic", given=None,
             kinds=("scalar", "list", "other"), two=False):
    kw = "emission_factor" if fn == "emission" else "co2"

    def build(S):
        t = mk(S)
        keys, fac, flows = system(S, t, kw, kinds)
        so2 = {}
        if two:
            for i, k in enumerate(keys):
                if i in fac:
                    so2[i] = S.reals(f"s{i}", t.T)
                    for x in so2[i]:
                        S.assume(x != 0)
                    flows[k].custom_properties["so2"] = so2[i]
        m = model(t, other_weights=True)
        lim = S.reals("UB", t.P) if kind == "list" else S.real("UB")
        a = {}
        if given is not None:
            a["flows"] = {keys[i]: flows[keys[i]] for i in given}
        if fn == "emission":
            C.emission_limit_per_period(m, limit=lim, **a)
        else:
            C.generic_periodical_integral_limit(m, "co2", limit=lim, **a)
        if two:
            C.generic_periodical_integral_limit(
                m, "so2", limit=S.reals("UC", t.P))
        lim = list(lim) if kind == "list" else [lim] * t.P
        return W(m=m, t=t, keys=keys, fac=fac, lim=lim, so2=so2)

    def spec(S, w, X, A):
        v = base(S, w, X, A)
        for p in range(w.t.P):
            steps = [s for s in w.t.steps if w.t.period[s] == p]
            A.le(f"limit@{p}", amount(w, v, w.fac, steps, given),
                 Z(w.lim[p]))
            if two:
                A.le(f"second limit@{p}", amount(w, v, w.so2, steps),
                     Z(S.params[f"UC_{p}"]))

    return Scenario(name, build, spec, bounds=bounds)


def invalid(name, multi=False):
    def build(S):
        t = es_periods(S) if multi else es_sym(S, 2)
        keys, fac, flows = system(S, t, "co2", ("scalar", None))
        m = model(t, other_weights=True)
        a = {}
        if S.boolean("upper"):
            a["limit" if multi else "upper_limit"] = S.real("UB")
        if not multi and S.boolean("lower"):
            a["lower_limit"] = S.real("LB")
        if S.boolean("wrong flow"):
            a["flows"] = {k: flows[k] for k in keys}
        if multi or S.boolean("per period"):
            if not multi:
                a.pop("upper_limit", 0)
                a.pop("lower_limit", 0)
                a["limit"] = S.real("UC")
            C.generic_periodical_integral_limit(m, "co2", **a)
        else:
            C.generic_integral_limit(m, "co2", **a)
        return W(m=m, t=t, keys=keys, fac=fac)

    def errors(S):
        p = S.params
        y = lambda n: bool(p.get(n, False))
        if y("wrong flow"):
            return must_raise(True, (AttributeError, ValueError))
        bad = not y("upper") and not y("lower")
        if not multi:
            bad = bad or y("per period")
        return must_raise(bad, ValueError)

    def spec(S, w, X, A):
        v = base(S, w, X, A)
        p = S.params
        if not multi:
            tot = amount(w, v, w.fac)
            if p.get("upper"):
                A.le("upper limit", tot, Z(p["UB"]))
            if p.get("lower"):
                A.ge("lower limit", tot, Z(p["LB"]))
        else:
            for q in range(w.t.P):
                steps = [s for s in w.t.steps if w.t.period[s] == q]
                A.le(f"limit@{q}", amount(w, v, w.fac, steps), Z(p["UB"]))

    return Scenario(name, build, spec, errors=errors,
                    bounds="2 steps" if not multi else "2 periods x 2 steps")


sym = lambda S: es_sym(S, 3)
mp = lambda S: es_periods(S)
mp3 = lambda S: es_periods(S, ((2030, 2), (2032, 1), (2037, 2)))
ts = lambda S: es_tsam(S, (0, 1, 0))
tsm = lambda S: es_tsam_periods(S)
SCENARIOS = [
    total("upper", sym, "3 steps of arbitrary length"),
    total("lower", sym, "3 steps", up=False, low=True),
    total("both", sym, "3 steps", low=True),
    total("both-listed-flows", sym, "3 steps", low=True, given=[1],
          kinds=("scalar", "list", "other")),
    total("named", sym, "3 steps", lname="my_limit"),
    total("deprecated-name", sym, "3 steps", deprecated=True),
    total("emission", sym, "3 steps", fn="emission"),
    total("emission-listed-flows", sym, "3 steps", fn="emission",
          given=[0]),
    total("zero-factors", sym, "3 steps, factors of zero in some steps",
          low=True, kinds=("zero-first", "zero-last", "scalar")),
    total("zero-scalar", sym, "3 steps, one factor of zero", low=True,
          kinds=("zero", "scalar")),
    total("no-listed-flow", sym, "3 steps, no flow limited", given=[],
          kinds=("scalar", "list")),
    total("multi-period", mp, "2 periods x 2 steps", low=True),
    total("tsam", ts, "2 typical periods x 2 steps, order 0,1,0", low=True),
    total("tsam-multi-period", tsm, "2 periods", low=True),
    several("several", sym, "3 steps, three limits"),
    periodic("per-period", mp3, "3 periods with 2, 1 and 2 steps"),
    periodic("per-period-scalar", mp3, "3 periods with 2, 1 and 2 steps",
             kind="scalar", given=[1, 0]),
    periodic("per-period-emission", mp3, "3 periods with 2, 1 and 2 steps",
             fn="emission"),
    periodic("per-period-emission-listed", mp, "2 periods x 2 steps",
             fn="emission", given=[1]),
    periodic("per-period-zero-factors", mp, "2 periods x 2 steps, factors "
             "of zero in some steps", kinds=("zero-first", "zero-last")),
    periodic("per-period-tsam", tsm, "2 periods"),
    periodic("per-period-several", mp, "2 periods x 2 steps", two=True),
    invalid("invalid"),
    invalid("invalid-multi-period", True),
]
