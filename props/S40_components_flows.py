"""Components keep their equations, whatever options their flows have."""
from symsolph import flowspec
from symsolph.api import *

FLOWS = {
    "plain": dict(),
    "limits": dict(cap="fixed", minimum="scalar", maximum="list",
                   vc="list"),
    "fix": dict(cap="fixed", fix="list", vc="scalar"),
    "onoff": dict(cap="fixed", nonconvex=1, minimum="list",
                  startup="scalar", initial=1),
    "flt": dict(cap="fixed", flt="both", integer=1),
    "grad": dict(cap="fixed", grad="both"),
    "life": dict(cap="fixed", life="age"),
    "invest": dict(cap="invest", maximum="list"),
    "invest-offset": dict(cap="offset", minimum="scalar"),
    "invest-onoff": dict(cap="invest", nonconvex=1, minimum="scalar",
                         activity="list"),
    "any-sign": dict(cap="fixed", minimum="any"),
}
LEVELS = {
    "comp": ("converter", "link", "chp", "offset", "offset-in", "buses",
             "multi"),
    "f1": tuple(FLOWS), "f2": tuple(FLOWS), "f3": tuple(FLOWS),
}


def options(kind):
    base = {k: v[0] for k, v in flowspec.LEVELS.items()}
    return {**base, **FLOWS[kind]}


def valid(o, time):
    kinds = [o["f1"], o["f2"], o["f3"]]
    if any(k.startswith("invest") for k in kinds) and time == "mp":
        return False
    if "life" in kinds and time != "mp":
        return False
    if "grad" in kinds and time == "ts":
        return False
    if o["comp"] == "buses" and o["f3"] != "plain":
        return False
    if o["comp"].startswith("offset"):
        # one flow with on/off status, the other ones are free or limited
        if o["f1"] not in ("onoff", "invest-onoff"):
            return False
        if any("invest" in o[k] or "onoff" in o[k] for k in ("f2", "f3")):
            return False
    return True


def implied(o):
    if o.get("comp", "").startswith("offset"):
        o.setdefault("f1", "onoff")
    return o


def data(S, t, name, positive=True, sym=True):
    if not sym:
        S.n += 1
        v = 0.5 + S.n / 8
        return v, [rv(v)] * t.T
    v = [S.pos(f"{name}_{i}") for i in t.steps]
    return v, [Z(x) for x in v]


def make(S, t, o, p, sym):
    """component, keys of its flows and its equations"""
    b = [Bus(f"{p}b{i}", balanced=False) for i in range(3)]
    if sym:
        # (zeros among the options of a flow are part of other properties)
        for k in ("f1", "f2", "f3"):
            q = options(o[k])
            if q["cap"] in ("invest", "offset"):
                S.pos(f"{p}{k}#imin")
            if q["cap"] == "offset":
                S.pos(f"{p}{k}#off")
            if q["minimum"] == "scalar":
                S.pos(f"{p}{k}#mn")
            if q["nonconvex"] and q["minimum"] == "list":
                for i in t.steps:
                    S.pos(f"{p}{k}#mn_{i}")
    f = {k: flowspec.make(S, t, options(o[k]), f"{p}{k}#")
         for k in ("f1", "f2", "f3")}
    c, par = o["comp"], {}

    def eta(nm):
        v, par[nm] = data(S, t, f"{p}{nm}", sym=sym)
        return v

    label = f"{p}comp"
    if c == "converter":
        n = cmp.Converter(
            label, inputs={b[0]: f["f1"], b[1]: f["f2"]},
            outputs={b[2]: f["f3"]},
            conversion_factors={b[0]: eta("e0"), b[2]: eta("e2")})
        keys = {"f1": (b[0], n), "f2": (b[1], n), "f3": (n, b[2])}
    elif c == "link":
        n = cmp.Link(
            label, inputs={b[0]: f["f1"]},
            outputs={b[1]: f["f2"], b[2]: f["f3"]},
            conversion_factors={(b[0], b[1]): eta("e1"),
                                (b[0], b[2]): eta("e2")})
        keys = {"f1": (b[0], n), "f2": (n, b[1]), "f3": (n, b[2])}
    elif c == "chp":
        n = cmp.ExtractionTurbineCHP(
            label=label, inputs={b[0]: f["f1"]},
            outputs={b[1]: f["f2"], b[2]: f["f3"]},
            conversion_factors={b[1]: eta("e1"), b[2]: eta("e2")},
            conversion_factor_full_condensation={b[1]: eta("ec")})
        keys = {"f1": (b[0], n), "f2": (n, b[1]), "f3": (n, b[2])}
    elif c == "offset":
        n = cmp.OffsetConverter(
            label=label, inputs={b[1]: f["f2"]},
            outputs={b[0]: f["f1"], b[2]: f["f3"]},
            conversion_factors={b[1]: eta("s1"), b[2]: eta("s2")},
            normed_offsets={b[1]: eta("o1"), b[2]: eta("o2")})
        keys = {"f1": (n, b[0]), "f2": (b[1], n), "f3": (n, b[2])}
    elif c == "offset-in":
        n = cmp.OffsetConverter(
            label=label, inputs={b[0]: f["f1"], b[1]: f["f2"]},
            outputs={b[2]: f["f3"]},
            conversion_factors={b[1]: eta("s1"), b[2]: eta("s2")},
            normed_offsets={b[1]: eta("o1"), b[2]: eta("o2")})
        keys = {"f1": (b[0], n), "f2": (b[1], n), "f3": (n, b[2])}
    elif c == "buses":
        n = Bus(label, inputs={b[0]: f["f1"]}, outputs={b[1]: f["f2"]})
        keys = {"f1": (b[0], n), "f2": (n, b[1])}
        b = b[:2]
    else:
        n = cmp.Source(label, outputs={b[0]: f["f1"], b[1]: f["f2"]})
        k = cmp.Sink(f"{label} 2", inputs={b[1]: f["f3"]})
        b.append(k)
        keys = {"f1": (n, b[0]), "f2": (n, b[1]), "f3": (b[1], k)}
    t.es.add(*b, n)
    return keys, par


def claims(S, t, m, X, A, o, p, keys, par):
    c = o["comp"]
    cost = Sum([
        flowspec.claims(S, t, m, X, A, options(o[f]), f"{p}{f}#", k)
        for f, k in keys.items()])
    v = {f: [X.expr(m.flow[(*k, i)]) for i in t.steps]
         for f, k in keys.items()}
    for i in t.steps:
        e = {k: x[i] for k, x in par.items()}
        w = [v[f][i] for f in keys]
        tag = f"{p} {c}"
        if c == "converter":
            A.eq(f"{tag} a@{i}", w[2] * e["e0"], w[0] * e["e2"])
            A.eq(f"{tag} b@{i}", w[2], w[1] * e["e2"])
        elif c == "link":
            A.eq(f"{tag} a@{i}", w[1], w[0] * e["e1"])
            A.eq(f"{tag} b@{i}", w[2], w[0] * e["e2"])
        elif c == "chp":
            A.eq(f"{tag} fuel@{i}", w[0] * e["ec"] * e["e2"],
                 w[1] * e["e2"] + w[2] * (e["ec"] - e["e1"]))
            A.ge(f"{tag} range@{i}", w[1] * e["e2"], w[2] * e["e1"])
        elif c.startswith("offset"):
            inv = o["f1"].startswith("invest")
            B = m.InvestNonConvexFlowBlock if inv else m.NonConvexFlowBlock
            s = X.expr(B.status[(*keys["f1"], i)])
            cap = (X.expr(B.invest[(*keys["f1"], 0)]) if inv
                   else Z(S.params[f"{p}f1#P"]))
            for j in (1, 2):
                A.prop(f"{tag} off {j}@{i}", Implies(s == 0, w[j] == 0))
                A.prop(f"{tag} on {j}@{i}", Implies(
                    s == 1, w[j] == e[f"s{j}"] * w[0] + e[f"o{j}"] * cap))
        elif c == "buses":
            A.eq(f"{tag}@{i}", w[0], w[1])
    return cost


class Numbers(flowspec.Numbers):
    def _value(self, name, key):
        return super()._value(name, "f" + key.split("#")[-1])

    def pos(self, name):
        return self.real(name)


def scn(name, mk, opts, bounds, swap=False, discount=False, tier="quick"):
    def build(S):
        t = mk(S)
        parts = {}
        for p, o in (list(zip("fg", opts))[::-1] if swap
                     else zip("fg", opts)):
            d = S if p == "f" else Numbers(S)
            parts[p] = make(d, t, o, p, p == "f")
        kw = {"discount_rate": 0} if discount else {}
        return W(m=model(t, **kw), t=t, parts=parts)

    def spec(S, w, X, A):
        # (the neighbour may be unable to run: claims hold all the same)
        A.objective(Sum([
            claims(S, w.t, w.m, X, A, o, p, *w.parts[p])
            for p, o in zip("fg", opts)]), "costs")

    return Scenario(name, build, spec, tier=tier, max_paths=300,
                    bounds=bounds + "; " + " / ".join(
                        " ".join(o.values()) for o in opts))


def group(prefix, time, mk, bounds, seed=1, strength=2, tier="quick", **kw):
    rows = flowspec.covering(LEVELS, lambda o: valid(o, time), implied,
                             strength, seed)
    quiet = dict(comp="multi", f1="limits", f2="invest", f3="plain")
    if time == "mp":
        quiet["f2"] = "onoff"
    out = []
    for i, o in enumerate(rows):
        out.append(scn(f"{prefix}-{i:03d}", mk, (o, quiet), bounds,
                       swap=i % 2, tier=tier, **kw))
    return out


SCENARIOS = [
    *group("single", "sym", lambda S: es_sym(S, 2), "2 steps"),
    *group("multi", "mp", lambda S: es_periods(S, ((2030, 1), (2033, 1))),
           "2 periods", discount=True),
    *group("typical", "ts", lambda S: es_tsam(S, (0, 1, 0), 1),
           "2 typical periods x 1 step"),
    *group("single3", "sym", lambda S: es_sym(S, 2), "2 steps", strength=3,
           tier="thorough"),
    *group("multi3", "mp", lambda S: es_periods(S, ((2030, 1), (2033, 1))),
           "2 periods", discount=True, strength=3, tier="thorough"),
    *group("typical3", "ts", lambda S: es_tsam(S, (0, 1, 0), 1),
           "2 typical periods x 1 step", strength=3, tier="thorough"),
]
