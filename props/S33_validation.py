"""Contradictory or incomplete input is refused, all other input is kept."""
import sys

from symsolph.api import *

INVEST_BLOCK = sys.modules[
    cmp.GenericStorage.__module__].GenericInvestmentStorageBlock
INF = float("inf")
PICK = lambda S, name, *o: o[S.choice(name, len(o))]


def was(S, name, k):
    return S.params[name] == k


def some(xs, c):
    """condition on any of the values"""
    return Or(*[c(Z(x)) for x in xs])


def kept(A, label, got, want):
    """a series has the given values"""
    if want is None:
        A.prop(f"{label} is empty", got is None)
        return
    for i, x in enumerate(want):
        A.eq(f"{label} {i}", Z(got[i]), Z(x))


# ---- flows ---------------------------------------------------------------
def flow_limits(name, which, T=3):
    """limits (relative to a capacity) need a capacity"""

    def build(S):
        cap = PICK(S, "cap", None, S.real("P", 0), Investment())
        kw, want = {}, {}
        for a in which:
            n = S.choice(a, 3)
            if a.startswith("full"):
                v = [None, S.real(f"v_{a}"), S.real(f"v_{a}")][n]
                want[a] = v
            else:
                v = [None, S.real(f"v_{a}", None), S.reals(f"v_{a}", T)][n]
                want[a] = [v] * T if n == 1 else v
            if n:
                kw[a] = v
        f = Flow(nominal_capacity=cap, **kw)
        return W(m=None, f=f, cap=cap, want=want)

    def errors(S):
        p = S.params

        def vals(a):
            n = p.get(a, 0)
            if n == 0:
                return []
            if n == 1 or a.startswith("full"):
                return [p[f"v_{a}"]]
            return [p[f"v_{a}_{i}"] for i in range(T)]

        no_cap = was(S, "cap", 0)
        bad, may = [], []
        mn, mx = vals("minimum"), vals("maximum")
        if p.get("fix", 0):
            # a given number which is the default says nothing
            for a, x, d in (("minimum", mn, 0), ("maximum", mx, 1)):
                if p.get(a, 0) == 2:
                    bad.append(z3.BoolVal(True))
                else:
                    bad.append(some(x, lambda z: z != d))
        if no_cap:
            for a in ("fix", "full_load_time_max", "full_load_time_min"):
                bad.append(z3.BoolVal(bool(vals(a))))
            bad.append(some(mx, lambda z: z != 1))
            # -1 stands for a bidirectional flow without limits
            neg = And(*[Z(x) == -1 for x in mn]) if mn else False
            if mn:
                bad.append(And(some(mn, lambda z: z != 0), Not(neg)))
        return must_raise(Or(*bad), AttributeError)

    def spec(S, w, X, A):
        f = w.f
        n = S.params["cap"]
        A.prop("investment", f.investment is (w.cap if n == 2 else None))
        if n == 1:
            A.eq("capacity", Z(f.nominal_capacity), Z(S.params["P"]))
        else:
            A.prop("no fixed capacity", f.nominal_capacity is None)
        for a, v in w.want.items():
            d = {"minimum": [0] * T, "maximum": [1] * T}.get(a)
            if a.startswith("full"):
                if v is None:
                    A.prop(f"{a} is empty", getattr(f, a) is None)
                else:
                    A.eq(a, Z(getattr(f, a)), Z(v))
            else:
                kept(A, a, getattr(f, a), v or d)
        mn = w.want.get("minimum") or [0] * T
        A.prop("bidirectional", some(mn, lambda z: z < 0)
               == z3.BoolVal(bool(f.bidirectional)))

    return Scenario(name, build, spec, errors=errors,
                    bounds=f"series of {T} values")


def flow_gradients(name):
    def build(S):
        kw, nc = {}, {}
        for a in ("positive_gradient_limit", "negative_gradient_limit"):
            if S.choice("flow_" + a, 2):
                kw[a] = S.real("f_" + a)
            if S.choice("nonconvex_" + a, 2):
                nc[a] = S.real("n_" + a)
        if S.choice("nonconvex", 2):
            kw["nonconvex"] = NonConvex(**nc)
        f = Flow(nominal_capacity=S.pos("P"), **kw)
        return W(m=None, f=f, kw=kw, nc=nc)

    names = ("positive_gradient_limit", "negative_gradient_limit")

    def errors(S):
        p = S.params
        bad = p["nonconvex"] and any(p["flow_" + a] for a in names) and any(
            p["nonconvex_" + a] for a in names)
        return must_raise(bool(bad), ValueError)

    def spec(S, w, X, A):
        for a in names:
            kept(A, a, getattr(w.f, a), [w.kw[a]] if a in w.kw else None)
            if w.f.nonconvex:
                kept(A, "nonconvex " + a, getattr(w.f.nonconvex, a),
                     [w.nc[a]] if a in w.nc else None)
        A.prop("nonconvex", w.f.nonconvex is w.kw.get("nonconvex"))

    return Scenario(name, build, spec, errors=errors, bounds="all choices")


def flow_infinite(name):
    """capacities and limits of flows with given capacity are finite"""

    def build(S):
        k = S.choice("case", 9)
        P, x = S.real("P", 0), S.real("x", 0)
        f = [
            lambda: Flow(nominal_capacity=INF),
            lambda: Flow(nominal_capacity=P, maximum=INF),
            lambda: Flow(nominal_capacity=P, maximum=[x, INF]),
            lambda: Flow(nominal_capacity=P, maximum=[INF, x]),
            lambda: Flow(nominal_capacity="100"),
            lambda: Flow(nominal_capacity=[P]),
            lambda: Flow(nominal_capacity=Investment(), maximum=[x, x]),
            lambda: Flow(nominal_capacity=P, maximum=[x, x]),
            lambda: Flow(),
        ][k]()
        return W(m=None, f=f)

    def errors(S):
        return must_raise(S.params["case"] < 6, ValueError)

    return Scenario(name, build, lambda S, w, X, A: A.prop(
        "accepted", S.params["case"] >= 6), errors=errors,
        bounds="9 cases")


def flow_invest(name):
    """on/off status needs a finite investment"""

    def build(S):
        nc = S.choice("nonconvex", 2)
        mx = PICK(S, "maximum", INF, S.real("x"), [S.real("x"), INF],
                  [INF, S.real("x")], S.reals("x", 2))
        inv = Investment(maximum=mx)
        f = Flow(nominal_capacity=inv,
                 nonconvex=NonConvex() if nc else None)
        return W(m=None, f=f, inv=inv)

    def errors(S):
        p = S.params
        return must_raise(bool(p["nonconvex"] and p["maximum"] in (0, 2, 3)),
                          AttributeError)

    return Scenario(name, build, lambda S, w, X, A: A.prop(
        "kept", w.f.investment is w.inv), errors=errors, bounds="10 cases")


# ---- investments -----------------------------------------------------------
def investment(name, P=1):
    """P: number of periods for which data is given"""

    def build(S):
        ex = S.real("existing")
        seq = lambda n: S.real(n, 0) if P == 1 else S.reals(n, P, 0)
        nc = PICK(S, "nonconvex", False, True, 1, None)
        mx = PICK(S, "maximum", INF, seq("mx"),
                  [*S.reals("mx", P, 0), INF])
        off = (S.real("offset") if P == 1 else S.reals("offset", P))
        life = PICK(S, "lifetime", None, S.real("l")) if P == 1 else None
        age = S.real("a")
        mn, ep = seq("mn"), seq("ep")
        inv = Investment(maximum=mx, minimum=mn, ep_costs=ep, existing=ex,
                         nonconvex=nc, offset=off, lifetime=life, age=age)
        return W(m=None, inv=inv, nc=nc, mx=mx, off=off, mn=mn, ep=ep, ex=ex,
                 life=life, age=age)

    def errors(S):
        p = S.params
        v = lambda n: Z(p[n])
        nc = p["nonconvex"]
        vals = lambda n: [p[n]] if P == 1 else [
            p[f"{n}_{i}"] for i in range(P)]
        bad = [z3.BoolVal(nc >= 2)]
        if nc == 1:
            bad += [v("existing") != 0,
                    z3.BoolVal(p["maximum"] in (0, 2))]
        if nc == 0:
            bad.append(some(vals("offset"), lambda z: z != 0))
        if p.get("lifetime"):
            bad.append(v("a") >= v("l"))
        return must_raise(Or(*bad), AttributeError)

    def spec(S, w, X, A):
        i = w.inv
        lst = lambda x: x if isinstance(x, list) else [x]
        for a, x in (("minimum", w.mn), ("ep_costs", w.ep),
                     ("offset", w.off)):
            kept(A, a, getattr(i, a), lst(x))
        for j, x in enumerate(lst(w.mx)):
            if x is INF:
                A.prop(f"maximum {j}", i.maximum[j] == INF)
            else:
                A.eq(f"maximum {j}", Z(i.maximum[j]), Z(x))
        A.eq("existing", Z(i.existing), Z(w.ex))
        A.prop("nonconvex", i.nonconvex is w.nc)
        A.eq("age", Z(i.age), Z(w.age))
        if w.life is None:
            A.prop("no lifetime", i.lifetime is None)
        else:
            A.eq("lifetime", Z(i.lifetime), Z(w.life))

    return Scenario(name, build, spec, errors=errors,
                    bounds=f"data for {P} periods", max_paths=800)


# ---- storages ----------------------------------------------------------------
def storage_flows(name):
    """at most one flow each"""

    def build(S):
        i, o = S.choice("inputs", 3), S.choice("outputs", 3)
        fl = lambda n, k: {Bus(f"{k}{j}"): Flow() for j in range(n)}
        s = cmp.GenericStorage("s", inputs=fl(i, "i"), outputs=fl(o, "o"),
                               nominal_capacity=S.pos("E"))
        return W(m=None, s=s, i=i, o=o)

    def errors(S):
        p = S.params
        return must_raise(p["inputs"] > 1 or p["outputs"] > 1,
                          AttributeError)

    return Scenario(name, build, lambda S, w, X, A: A.prop(
        "flows", len(w.s.inputs) == w.i and len(w.s.outputs) == w.o),
        errors=errors, bounds="up to 2 flows on each side")


def storage_levels(name, series):
    def build(S):
        q = lambda n: S.reals(n, 3) if series else S.real(n)
        mn, mx = q("mn"), q("mx")
        lvl = PICK(S, "level", None, S.real("x"))
        s = cmp.GenericStorage(
            "s", inputs={Bus("a"): Flow()}, outputs={Bus("b"): Flow()},
            nominal_capacity=S.pos("E"), min_storage_level=mn,
            max_storage_level=mx, initial_storage_level=lvl)
        return W(m=None, s=s, mn=mn, mx=mx, lvl=lvl)

    def errors(S):
        p = S.params
        v = lambda n: Z(p[n + "_0" if series else n])
        if not p["level"]:
            return must_raise(False, ValueError)
        x = Z(p["x"])
        return must_raise(Or(x < v("mn"), x > v("mx")), ValueError)

    def spec(S, w, X, A):
        lst = lambda x: x if isinstance(x, list) else [x]
        kept(A, "minimum", w.s.min_storage_level, lst(w.mn))
        kept(A, "maximum", w.s.max_storage_level, lst(w.mx))
        if w.lvl is None:
            A.prop("no initial level", w.s.initial_storage_level is None)
        else:
            A.eq("initial level", Z(w.s.initial_storage_level), Z(w.lvl))

    return Scenario(name, build, spec, errors=errors, bounds="3 points")


def storage_relations(name):
    """capacities can only be related if they are optimised"""
    R = ("input_output", "input_capacity", "output_capacity")

    def build(S):
        def cap(n):
            return Investment() if S.choice(n, 2) else S.pos("c_" + n)

        kw = {}
        for r in R:
            if S.choice(r, 2):
                kw["invest_relation_" + r] = S.pos("r_" + r)
        i, o, c = cap("i"), cap("o"), cap("c")
        s = cmp.GenericStorage(
            "s", inputs={Bus("a"): Flow(nominal_capacity=i)},
            outputs={Bus("b"): Flow(nominal_capacity=o)},
            nominal_capacity=c, **kw)
        return W(m=None, s=s, c=c, kw=kw)

    def errors(S):
        p = S.params
        io, ic, oc = (p[r] for r in R)
        bad = (io and not (p["i"] and p["o"])
               or ic and not (p["i"] and p["c"])
               or oc and not (p["o"] and p["c"])
               or io and ic and oc)
        return must_raise(bool(bad), AttributeError)

    def spec(S, w, X, A):
        for r in R:
            n = "invest_relation_" + r
            kept(A, n, getattr(w.s, n), [w.kw[n]] if n in w.kw else None)
        if S.params["c"]:
            A.prop("investment", w.s.investment is w.c)
        else:
            A.eq("capacity", Z(w.s.nominal_storage_capacity), Z(w.c))
        A.prop("kind", (w.s.constraint_group()
                        is INVEST_BLOCK)
               == bool(S.params["c"]))

    return Scenario(name, build, spec, errors=errors, bounds="all choices")


def storage_losses(name):
    """absolute losses need a capacity to be sure"""

    def build(S):
        inv = Investment(existing=S.real("ex", 0), minimum=S.real("mn", 0))
        l = PICK(S, "series", S.real("l", 0), S.reals("l", 3, 0))
        s = cmp.GenericStorage(
            "s", inputs={Bus("a"): Flow()}, outputs={Bus("b"): Flow()},
            nominal_capacity=inv, fixed_losses_absolute=l)
        return W(m=None, s=s, l=l)

    def errors(S):
        p = S.params
        ls = [p["l"]] if not p["series"] else [p[f"l_{i}"] for i in range(3)]
        return must_raise(And(some(ls, lambda z: z != 0),
                              Z(p["ex"]) == 0, Z(p["mn"]) == 0),
                          AttributeError)

    def spec(S, w, X, A):
        lst = w.l if isinstance(w.l, list) else [w.l]
        kept(A, "losses", w.s.fixed_losses_absolute, lst)

    return Scenario(name, build, spec, errors=errors, bounds="3 steps")


def storage_charging(name):
    """limits depending on the content need a given capacity and an input"""

    def build(S):
        kw = {}
        if S.choice("until", 2):
            kw["constant_soc_until"] = S.real("u", 0, 1)
        if S.choice("fraction", 2):
            kw["fraction_saturation_charging"] = S.real("f", 0, 1)
        ins = {Bus("a"): Flow(nominal_capacity=S.pos("P"))}
        if not S.choice("input", 2):
            ins = {}
        cap = PICK(S, "invest", S.pos("E"), Investment())
        s = cmp.GenericStorage("s", inputs=ins, outputs={Bus("b"): Flow()},
                               nominal_capacity=cap, **kw)
        return W(m=None, s=s)

    def errors(S):
        p = S.params
        some_ = p["until"] or p["fraction"]
        if p["invest"]:
            return must_raise(bool(some_), NotImplementedError)
        return must_raise(bool(some_ and not p["input"]),
                          NotImplementedError)

    return Scenario(name, build, lambda S, w, X, A: A.prop(
        "accepted", True), errors=errors, bounds="all choices")


SCENARIOS = [
    flow_limits("flow-limits", ("minimum", "maximum", "fix")),
    flow_limits("flow-hours", ("fix", "full_load_time_max",
                               "full_load_time_min")),
    flow_gradients("flow-gradients"),
    flow_infinite("flow-infinite"),
    flow_invest("flow-invest"),
    investment("investment"),
    investment("investment-periods", 2),
    storage_flows("storage-flows"),
    storage_levels("storage-levels", False),
    storage_levels("storage-levels-series", True),
    storage_relations("storage-relations"),
    storage_losses("storage-losses"),
    storage_charging("storage-charging"),
]
