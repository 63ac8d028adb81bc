"""Full load time limits and gradient limits of flows with fixed capacity."""
from symsolph.api import *
from symsolph import flowspec


def build_with(mk, kwf, cap=True):
    def build(S):
        t = mk(S)
        b = Bus("b", balanced=False)
        f = Flow(nominal_capacity=S.real("P", 0), maximum=S.real("mx", 0),
                 **kwf(S, t))
        n = cmp.Source("n", outputs={b: f})
        # second flow with its own limits
        g = Flow(nominal_capacity=S.real("Q", 0),
                 full_load_time_max=S.real("gmax"),
                 positive_gradient_limit=S.real("gup", 0),
                 negative_gradient_limit=S.real("gdown", 0))
        k = cmp.Sink("k", inputs={b: g})
        t.es.add(b, n, k)
        m = model(t, other_weights=True)
        return W(m=m, t=t, key=(n, b), key2=(b, k))

    return build


def base(S, w, X, A):
    T = w.t.steps
    v = {t: X.expr(w.m.flow[(*w.key, t)]) for t in T}
    g = {t: X.expr(w.m.flow[(*w.key2, t)]) for t in T}
    P, Q = Z(S.params["P"]), Z(S.params["Q"])
    for t in T:
        A.ge(f"lower@{t}", v[t], 0)
        A.le(f"upper@{t}", v[t], P * Z(S.params["mx"]))
        A.ge(f"g lower@{t}", g[t], 0)
        A.le(f"g upper@{t}", g[t], Q)
        if t:
            A.le(f"g up@{t}", g[t] - g[t - 1], Q * Z(S.params["gup"]))
            A.le(f"g down@{t}", g[t - 1] - g[t], Q * Z(S.params["gdown"]))
    A.le("g max", energy(w, g), Q * Z(S.params["gmax"]))
    A.observe(w.m.flow)
    return v, P


def energy(w, v):
    return Sum(v[t] * Z(w.t.dt[t]) * w.t.w[t] for t in w.t.steps)


def flt(name, mk, lo, hi, bounds):
    def kwf(S, t):
        kw = {}
        if lo:
            kw["full_load_time_min"] = S.real("fmin")
        if hi:
            kw["full_load_time_max"] = S.real("fmax")
        return kw

    def spec(S, w, X, A):
        v, P = base(S, w, X, A)
        if hi:
            A.le("full load max", energy(w, v), P * Z(S.params["fmax"]))
        if lo:
            A.ge("full load min", energy(w, v), P * Z(S.params["fmin"]))

    return Scenario(name, build_with(mk, kwf), spec, bounds=bounds)


def grad(name, mk, up, down, lst, bounds):
    def kwf(S, t):
        kw = {}
        f = (lambda n: S.reals(n, t.T, 0)) if lst else (
            lambda n: S.real(n, 0))
        if up:
            kw["positive_gradient_limit"] = f("up")
        if down:
            kw["negative_gradient_limit"] = f("down")
        return kw

    def spec(S, w, X, A):
        v, P = base(S, w, X, A)
        p = lambda n, t: Z(S.params[f"{n}_{t}" if lst else n])
        for t in list(w.t.steps)[1:]:
            if up:
                A.le(f"up@{t}", v[t] - v[t - 1], P * p("up", t))
            if down:
                A.le(f"down@{t}", v[t - 1] - v[t], P * p("down", t))

    return Scenario(name, build_with(mk, kwf), spec, bounds=bounds)


def nonconvex_grad(name, arg, sign):
    """gradient limit given for the on/off operation (known finding)"""

    def build(S):
        t = es_sym(S, 2)
        b = Bus("b", balanced=False)
        n = cmp.Source("n", outputs={b: Flow(
            nominal_capacity=S.real("P", 0),
            nonconvex=NonConvex(**{arg: S.real("limit", 0)}))})
        t.es.add(b, n)
        return W(m=model(t, other_weights=True), t=t, key=(n, b))

    def spec(S, w, X, A):
        v = [X.expr(w.m.flow[(*w.key, t)]) for t in w.t.steps]
        d = v[1] - v[0] if sign > 0 else v[0] - v[1]
        A.le("change", d, Z(S.params["P"]) * Z(S.params["limit"]),
             complete=False)

    return Scenario(name, build, spec, bounds="2 steps")


sym = lambda S: es_sym(S, 4)
mp = lambda S: es_periods(S)
ts = lambda S: es_tsam(S, (1, 1, 0))
SCENARIOS = [
    flt("full-load-max", sym, False, True, "4 steps of arbitrary length"),
    flt("full-load-min", sym, True, False, "4 steps of arbitrary length"),
    flt("full-load-both", sym, True, True, "4 steps of arbitrary length"),
    flt("full-load-multi-period", mp, True, True, "2 periods x 2 steps"),
    flt("full-load-tsam", ts, True, True,
        "2 typical periods x 2 steps, order 1,1,0"),
    grad("gradient-up", sym, True, False, False, "4 steps"),
    grad("gradient-down", sym, False, True, False, "4 steps"),
    grad("gradient-both-profile", sym, True, True, True, "4 steps"),
    grad("gradient-multi-period", mp, True, True, True, "2 periods x 2"),
    nonconvex_grad("nonconvex-gradient-up", "positive_gradient_limit", 1),
    nonconvex_grad("nonconvex-gradient-down", "negative_gradient_limit", -1),
]
# together with other options
USE = ("flt", "grad", "minimum", "integer", "nonconvex", "cap", "vc",
       "initial", "direction", "existing")
SCENARIOS += [
    *flowspec.group("combined", "sym", lambda S: es_sym(S, 3), "3 steps",
                    use=USE, objective=False),
    *flowspec.group("combined-mp", "mp",
                    lambda S: es_periods(S, ((2030, 1), (2033, 2))),
                    "2 periods, 1/2 steps", use=USE + ("life",),
                    objective=False),
    *flowspec.group("combined-tsam", "ts",
                    lambda S: es_tsam(S, (0, 1, 0), 1),
                    "2 typical periods x 1 step", use=USE,
                    objective=False),
]
