"""Flows with any combination of options and what the options mean.

``make`` builds a flow with symbolic data from a dictionary of options,
``claims`` states the documented meaning of every one of these options.
Used to check that options keep their meaning in combination.
"""
from .api import *

# options and their levels; the first level means "not used"
LEVELS = {
    "cap": ("fixed", "none", "invest", "offset"),
    "existing": (0, 1),
    "minimum": (None, "scalar", "list", "any"),
    "maximum": (None, "scalar", "list"),
    "fix": (None, "scalar", "list"),
    "flt": (None, "max", "min", "both"),
    "grad": (None, "up", "down", "both"),
    "integer": (0, 1),
    "vc": (None, "scalar", "list"),
    "nonconvex": (0, 1),
    "initial": (0, 1),
    "uptime": (None, 2, 1),
    "downtime": (None, 2, 1),
    "startup": (None, "scalar", "list"),
    "shutdown": (None, "scalar", "list"),
    "activity": (None, "scalar", "list"),
    "inactivity": (None, "scalar", "list"),
    "max_startups": (0, 1),
    "max_shutdowns": (0, 1),
    "life": (None, "life", "age"),
    "fc": (None, "scalar"),
    "direction": ("out", "in"),
    "extra": (0, 2),  # entries of series beyond the time axis
}
ONOFF = ("initial", "uptime", "downtime", "startup", "shutdown", "activity",
         "inactivity", "max_startups", "max_shutdowns")


def valid(o, time):
    """combinations which are allowed and whose meaning is claimed"""
    inv = o["cap"] in ("invest", "offset")
    if o["cap"] == "none" and (
        o["minimum"] or o["maximum"] or o["fix"] or o["flt"] or o["grad"]
        or o["nonconvex"] or o["fc"]
    ):
        return False
    if o["fix"] and (o["minimum"] or o["maximum"]):
        return False
    if o["existing"] and not inv:
        return False
    if o["cap"] == "offset" and o["existing"]:
        return False
    if inv and o["grad"]:  # limits refer to a given capacity
        return False
    if o["integer"] and (o["minimum"] == "any" or o["fix"]):
        return False
    if o["fix"] and (o["uptime"] or o["downtime"]):
        return False  # contradict each other for most of the data
    if not o["nonconvex"] and any(o[k] for k in ONOFF):
        return False
    if time != "mp" and (o["life"] or o["fc"]):
        return False
    if time == "mp" and inv:
        return False  # other properties
    if o["fc"] and o["cap"] != "fixed":
        return False
    if o["life"] and o["fc"]:
        return False  # other property (needs yearly series)
    if time == "ts" and (o["grad"] or o["uptime"] or o["downtime"]):
        return False  # steps are not in chronological order
    return True


def _implied(need):
    """options which others need"""
    if any(need.get(k) for k in ONOFF):
        if need.get("nonconvex", 1) != 1:
            return None
        need["nonconvex"] = 1
    if need.get("existing") and "cap" not in need:
        need["cap"] = "invest"
    return need


def combinations(time, strength=2, seed=1, fixed=(), use=None):
    return covering(LEVELS, lambda o: valid(o, time), _implied, strength,
                    seed, fixed, use)


def covering(levels, ok, implied, strength=2, seed=1, fixed=(), use=None,
             tries=30):
    """covering array: every valid combination of ``strength`` levels of
    different options is part of at least one row (deterministic)"""
    import itertools
    import random

    rnd = random.Random(seed)
    names = list(levels) if use is None else list(use)
    names += [k for k in dict(fixed) if k not in names]
    base = {k: v[0] for k, v in levels.items()}
    fixed = dict(fixed)

    def complete(part):
        """extend a partial assignment to a valid row or None"""
        need = implied(dict(part))
        if need is None:
            return None
        row = {**base, **need}
        return row if ok(row) else None

    todo = {}
    for ks in itertools.combinations(names, strength):
        for ls in itertools.product(*(levels[k] for k in ks)):
            part = {**fixed, **dict(zip(ks, ls))}
            if any(fixed.get(k, l) != l for k, l in zip(ks, ls)):
                continue
            if complete(part):
                todo[tuple(zip(ks, ls))] = True
    rows = []
    while todo:
        best, gain = None, -1
        first = next(iter(todo))
        for _ in range(tries):
            row = complete({**fixed, **dict(first)})
            order = names[:]
            rnd.shuffle(order)
            for k in order:
                if k in fixed or k in dict(first):
                    continue
                ls = list(levels[k])
                rnd.shuffle(ls)
                for l in ls[:2]:
                    if ok({**row, k: l}):
                        row[k] = l
                        break
            g = sum(all(row[k] == l for k, l in c) for c in todo)
            if g > gain:
                best, gain = row, g
        rows.append(best)
        for c in [c for c in todo if all(best[k] == l for k, l in c)]:
            del todo[c]
    return rows


def describe(o, levels=LEVELS):
    return " ".join(
        k if v == 1 else f"{k}={v}" for k, v in o.items()
        if v != levels[k][0])


class Numbers:
    """stand-in for the symbolic data: definite, distinct numbers (for
    neighbours, which must not influence each other)"""

    VALUES = dict(mn=0.125, mx=0.75, fx=0.25, fmax=64.0, fmin=0.0625, gu=1.5,
                  gd=1.25, P=8.0, imax=9.0, imin=2.0, ex=3.0, off=5.0,
                  ep=2.5, fc=1.75, life=9, age=2, N=2, M=2)

    def __init__(self, S):
        self.S, self.n = S, 0

    def _value(self, name, key):
        self.n += 1
        v = self.VALUES.get(key[1:], 3.5)
        if isinstance(v, float):
            v *= 1 + self.n / 64
        if key[1:] == "P":
            v = 8.0
        self.S.params[name] = v
        return v

    def real(self, name, lo=None, hi=None):
        return self._value(name, name)

    def reals(self, name, n, lo=None, hi=None):
        return [self._value(f"{name}_{i}", name) for i in range(n)]

    def integer(self, name, lo, hi):
        return self._value(name, name)

    def assume(self, cond):
        assert cond


def make(S, t, o, p):
    """flow with the options ``o``; names of parameters start with ``p``"""
    seq = lambda n, kind, lo=None, hi=None: (
        S.reals(f"{p}{n}", t.T + o.get("extra", 0), lo, hi) if kind in ("list", "any")
        else S.real(f"{p}{n}", lo, hi))
    kw = {}
    if o["minimum"]:
        kw["minimum"] = seq("mn", o["minimum"],
                            None if o["minimum"] == "any" else 0)
    if o["maximum"]:
        kw["maximum"] = seq("mx", o["maximum"], 0)
    if o["fix"]:
        kw["fix"] = seq("fx", o["fix"], 0)
    if o["flt"] in ("max", "both"):
        kw["full_load_time_max"] = S.real(f"{p}fmax", 0)
    if o["flt"] in ("min", "both"):
        kw["full_load_time_min"] = S.real(f"{p}fmin", 0)
    if o["grad"] in ("up", "both"):
        kw["positive_gradient_limit"] = seq("gu", "list", 0)
    if o["grad"] in ("down", "both"):
        kw["negative_gradient_limit"] = seq("gd", "scalar", 0)
    if o["integer"]:
        kw["integer"] = True
    if o["vc"]:
        kw["variable_costs"] = seq("vc", o["vc"])
    if o["life"]:
        kw["lifetime"] = S.integer(f"{p}life", 1, 14)
        if o["life"] == "age":
            kw["age"] = S.integer(f"{p}age", 1, 13)
            S.assume(kw["age"] <= kw["lifetime"])
    if o["fc"]:
        kw["fixed_costs"] = S.real(f"{p}fc")
    if o["nonconvex"]:
        nc = {"initial_status": o["initial"]}
        for k, a in (("uptime", "minimum_uptime"),
                     ("downtime", "minimum_downtime")):
            if o[k]:
                nc[a] = o[k]
        for k, n in (("startup", "su"), ("shutdown", "sd"),
                     ("activity", "ac"), ("inactivity", "ic")):
            if o[k]:
                nc[f"{k}_costs"] = seq(n, o[k])
        if o["max_startups"]:
            nc["maximum_startups"] = S.integer(f"{p}N", 0, 4)
        if o["max_shutdowns"]:
            nc["maximum_shutdowns"] = S.integer(f"{p}M", 0, 4)
        kw["nonconvex"] = NonConvex(**nc)
    if o["cap"] == "fixed":
        kw["nominal_capacity"] = S.real(f"{p}P", 0)
    elif o["cap"] in ("invest", "offset"):
        ik = dict(ep_costs=S.real(f"{p}ep"), maximum=S.real(f"{p}imax", 0),
                  minimum=S.real(f"{p}imin", 0))
        if o["existing"]:
            ik["existing"] = S.real(f"{p}ex", 0)
        if o["cap"] == "offset":
            ik.update(nonconvex=True, offset=S.real(f"{p}off"))
        kw["nominal_capacity"] = Investment(**ik)
    return Flow(**kw)


def claims(S, t, m, X, A, o, p, key, disc=lambda i: rv(1)):
    """claims about a flow; returns its part of the objective"""
    inv = o["cap"] in ("invest", "offset")
    P = lambda n: Z(S.params[p + n])

    def par(n, i, default=None):
        if f"{p}{n}_{i}" in S.params:
            return Z(S.params[f"{p}{n}_{i}"])
        return P(n) if p + n in S.params else rv(default)

    v = [X.expr(m.flow[(*key, i)]) for i in t.steps]
    A.observe([m.flow[(*key, i)] for i in t.steps])
    cost = rv(0)
    B = None
    if o["nonconvex"]:
        B = m.InvestNonConvexFlowBlock if inv else m.NonConvexFlowBlock
    elif inv:
        B = m.InvestmentFlowBlock
    cap = None
    if o["cap"] == "fixed":
        cap = P("P")
    if inv:
        x = X.expr(B.invest[(*key, 0)])
        A.observe([B.invest[(*key, 0)]])
        A.ge(f"{p} invest nonneg", x, 0)
        y = rv(1)
        if o["cap"] == "offset":
            y = X.expr(B.invest_status[(*key, 0)])
            A.observe([B.invest_status[(*key, 0)]])
            A.prop(f"{p} decision binary", Or(y == 0, y == 1))
            cost += y * P("off")
        A.le(f"{p} invest max", x, y * P("imax"))
        A.ge(f"{p} invest min", x, y * P("imin"))
        cap = x + (P("ex") if o["existing"] else 0)
        cost += x * P("ep")
        if not o["nonconvex"]:
            A.eq(f"{p} total", X.expr(B.total[(*key, 0)]), cap)
            A.observe([B.total[(*key, 0)]])
    s = None
    if o["nonconvex"]:
        s = [X.expr(B.status[(*key, i)]) for i in t.steps]
        A.observe([B.status[(*key, i)] for i in t.steps])
    dead = lambda i: z3.BoolVal(False)
    if o["life"]:
        left = P("life") - (P("age") if o["life"] == "age" else 0)
        dead = lambda i: left <= t.years[t.period[i]]
    for i in t.steps:
        mn, mx = par("mn", i, 0), par("mx", i, 1)
        A.prop(f"{p} lifetime@{i}", Implies(dead(i), v[i] == 0))
        if o["integer"]:
            A.prop(f"{p} whole number@{i}", z3.IsInt(v[i]))
        if o["vc"]:
            cost += (v[i] * par("vc", i) * Z(t.dt[i]) * rv(t.w[i]) * disc(i))
        if o["minimum"] != "any" and not o["fix"]:
            A.ge(f"{p} nonneg@{i}", v[i], 0)
        if o["fix"]:
            A.eq(f"{p} fixed@{i}", v[i], cap * par("fx", i))
            if s:
                A.prop(f"{p} status binary@{i}", Or(s[i] == 0, s[i] == 1))
                A.prop(f"{p} off@{i}", Implies(s[i] == 0, v[i] == 0))
                # not claimed: fixed above the capacity and on/off status
                A.le(f"{p} on max@{i}", v[i], cap, sound=False)
        elif s:
            A.prop(f"{p} status binary@{i}", Or(s[i] == 0, s[i] == 1))
            A.prop(f"{p} off@{i}", Implies(s[i] == 0, v[i] == 0))
            A.prop(f"{p} on min@{i}", Implies(s[i] == 1, v[i] >= cap * mn))
            A.prop(f"{p} on max@{i}", Implies(s[i] == 1, v[i] <= cap * mx))
        elif cap is not None:
            A.ge(f"{p} min@{i}", v[i], cap * mn)
            A.le(f"{p} max@{i}", v[i], cap * mx)
    if o["flt"]:
        e = Sum(v[i] * Z(t.dt[i]) * rv(t.w[i]) for i in t.steps)
        if o["flt"] in ("max", "both"):
            A.le(f"{p} full load max", e, cap * P("fmax"))
        if o["flt"] in ("min", "both"):
            A.ge(f"{p} full load min", e, cap * P("fmin"))
    for i in list(t.steps)[1:]:
        if o["grad"] in ("up", "both"):
            A.le(f"{p} up@{i}", v[i] - v[i - 1], cap * par("gu", i))
        if o["grad"] in ("down", "both"):
            A.le(f"{p} down@{i}", v[i - 1] - v[i], cap * par("gd", i))
    if o["fc"]:
        cost += P("P") * P("fc") * rv(t.end_year)
    if not s:
        return cost
    init, n = rv(o["initial"]), len(s)
    prev = [init] + s[:-1]
    mu, md = o["uptime"] or 0, o["downtime"] or 0
    first = mu if o["initial"] else md
    for i in range(min(first, n)):
        A.eq(f"{p} initial status@{i}", s[i], init)
    for i in range(first, n):
        for mt, on, nm in ((mu, 1, "up"), (md, 0, "down")):
            switch = And(prev[i] == 1 - on, s[i] == on)
            A.prop(f"{p} min {nm}time@{i}", Implies(switch, And(
                [s[j] == on for j in range(i, min(i + mt, n))])))
            if nm == "up" and i < n - 1 and i + mt > n:
                A.prop(f"{p} late {nm}@{i}", Not(switch), sound=False)
    for nm, cst, cn, lim, ln, d in (
        ("startup", "startup", "su", "max_startups", "N",
         [a - b for a, b in zip(s, prev)]),
        ("shutdown", "shutdown", "sd", "max_shutdowns", "M",
         [b - a for a, b in zip(s, prev)]),
    ):
        if not (o[cst] or o[lim]):
            continue
        E = [getattr(B, nm)[(*key, i)] for i in t.steps]
        e = [X.expr(k) for k in E]
        A.observe(E)
        for i in t.steps:
            A.prop(f"{p} {nm} binary@{i}", Or(e[i] == 0, e[i] == 1))
            A.prop(f"{p} {nm} detected@{i}", Implies(d[i] == 1, e[i] == 1))
            if o[cst]:
                cost += e[i] * par(cn, i) * rv(t.w[i])
        if o[lim]:
            A.le(f"{p} max {nm}s", Sum(e), P(ln))
    for i in t.steps:
        if o["activity"]:
            cost += s[i] * par("ac", i) * rv(t.w[i])
        if o["inactivity"]:
            cost += (1 - s[i]) * par("ic", i) * rv(t.w[i])
    return cost


def attach(t, b, f, o, label):
    if o["direction"] == "out":
        n = cmp.Source(label, outputs={b: f})
        key = (n, b)
    else:
        n = cmp.Sink(label, inputs={b: f})
        key = (b, n)
    t.es.add(n)
    return key


def scn(name, mk, opts, bounds, tier="quick", discount=False,
        swap=False, objective=True):
    def build(S):
        t = mk(S)
        b = Bus("b", balanced=False)
        t.es.add(b)
        keys = {}
        # one flow with arbitrary data and a neighbour with definite data
        for p, o in (list(zip("fg", opts))[::-1] if swap
                     else zip("fg", opts)):
            data = S if p == "f" else Numbers(S)
            keys[p] = attach(t, b, make(data, t, o, p), o, f"n{p}")
        kw = {"discount_rate": rate(S)} if discount else {}
        return W(m=model(t, **kw), t=t, keys=keys)

    def spec(S, w, X, A):
        disc = lambda i: rv(1)
        if discount:
            r = 1 + Z(S.params["r"])

            def disc(i):
                out = rv(1)
                for _ in range(w.t.years[w.t.period[i]]):
                    out = out * r
                return rv(1) / out
        cost = Sum([claims(S, w.t, w.m, X, A, o, p, w.keys[p], disc)
                    for p, o in zip("fg", opts)])
        if objective:
            A.objective(cost, "costs")

    return Scenario(name, build, spec, tier=tier, max_paths=300,
                    bounds=bounds + "; options " + " / ".join(
                        describe(o) for o in opts))


def rate(S):
    return S.real("r", 0)


def group(prefix, time, mk, bounds, strength=2, seed=1, tier="quick",
          fixed=(), use=None, **kw):
    """scenarios for a covering array of the options; ``fixed`` levels,
    varying only the options in ``use``"""
    rows = combinations(time, strength, seed, fixed, use)
    return [scn(f"{prefix}-{i:02d}", mk, (rows[i], rows[i - 1]), bounds,
                tier=tier, swap=i % 2, **kw) for i in range(len(rows))]
