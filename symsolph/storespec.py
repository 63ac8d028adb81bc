"""Storages with any combination of options and what the options mean
(single period; see flowspec for the options of their flows)."""
from . import flowspec
from .api import *

FLOWS = {
    "plain": dict(),
    "limits": dict(cap="fixed", minimum="scalar", maximum="list"),
    "costs": dict(vc="list"),
    "onoff": dict(cap="fixed", nonconvex=1, minimum="scalar",
                  startup="scalar", initial=1),
    "flt": dict(cap="fixed", flt="both", grad="up"),
    "invest": dict(cap="invest", existing=1, maximum="list"),
    "invest-onoff": dict(cap="invest", nonconvex=1, activity="list"),
}
LEVELS = {
    "cap": ("fixed", "invest", "offset"),
    "existing": (0, 1),
    "init": (None, "sym", 0),
    "balanced": (1, 0),
    "lo": (None, "scalar", "list"),
    "hi": (None, "scalar", "list"),
    "loss": (None, "scalar", "list"),
    "rel": (None, "scalar", "list"),
    "abs": (None, "scalar", "list"),
    "ei": (None, "scalar", "list"),
    "eo": (None, "scalar", "list"),
    "sc": (None, "scalar", "list"),
    "fc": (None, "scalar"),
    "relation": ("", "i", "o", "io", "x", "ix", "ox"),
    "fin": tuple(FLOWS),
    "fout": tuple(FLOWS),
}


def valid(o):
    if o["existing"] and o["cap"] != "invest":
        return False
    if o["fc"] and o["cap"] != "fixed":
        return False  # (several periods only)
    if o["init"] == 0 and o["lo"]:
        return False  # below the lowest level
    if o["relation"]:
        if o["cap"] == "fixed" and o["relation"] != "x":
            return False
        for s, f in (("i", "fin"), ("o", "fout")):
            if (s in o["relation"] or "x" in o["relation"]) and (
                    o[f] != "invest"):
                return False
    return True


def implied(o):
    r = o.get("relation", "")
    if r:
        if r != "x":
            o.setdefault("cap", "invest")
        if "i" in r or "x" in r:
            o.setdefault("fin", "invest")
        if "o" in r or "x" in r:
            o.setdefault("fout", "invest")
    if o.get("existing"):
        o.setdefault("cap", "invest")
    if o.get("fc"):
        o.setdefault("cap", "fixed")
    return o


def flow_options(kind):
    base = {k: v[0] for k, v in flowspec.LEVELS.items()}
    return {**base, **FLOWS[kind]}


class Numbers(flowspec.Numbers):
    VALUES = dict(
        flowspec.Numbers.VALUES, E=16.0, lo=0.125, hi=0.75, loss=0.0625,
        rel=0.03125, abs=0.125, ei=0.75, eo=0.5, imax=32.0, imin=8.0,
        ex=4.0, init=0.25, ri=0.5, ro=0.75, rx=0.875, sc=1.25, fc=1.5)

    def _value(self, name, key):
        if "#" in key:  # a flow of the storage
            return super()._value(name, "f" + key.split("#")[1])
        if key[1:] == "eo":  # (exactly invertible)
            self.n += 1
            self.S.params[name] = 0.5 ** (1 + self.n % 2)
            return self.S.params[name]
        return super()._value(name, key)


def make(S, t, o, p, a, b):
    """storage with the options ``o`` between the buses a and b; returns
    the node and its data per step"""
    par = {}

    def seq(nm, kind, lo=0, hi=None, extra=0):
        if kind == "list":
            v = S.reals(f"{p}{nm}", t.T + extra, lo, hi)
            par[nm] = list(v)
        else:
            v = S.real(f"{p}{nm}", lo, hi)
            par[nm] = [v] * (t.T + extra)
        return v

    kw = {"balanced": bool(o["balanced"])}
    for nm, arg, args in (
        ("lo", "min_storage_level", dict(hi=1, extra=1)),
        ("hi", "max_storage_level", dict(hi=1, extra=1)),
        ("loss", "loss_rate", dict(hi=1)),
        ("rel", "fixed_losses_relative", {}),
        ("abs", "fixed_losses_absolute", {}),
        ("ei", "inflow_conversion_factor", {}),
        ("eo", "outflow_conversion_factor", {}),
        ("sc", "storage_costs", dict(lo=None)),
    ):
        if o[nm]:
            kw[arg] = seq(nm, o[nm], **args)
            if nm == "eo" or nm in ("rel", "abs", "ei"):
                for x in par[nm]:  # (zeros: other properties)
                    S.assume(x > 0)
    if o["init"] == "sym":
        kw["initial_storage_level"] = S.real(f"{p}init", 0, 1)
    elif o["init"] is not None:
        kw["initial_storage_level"] = o["init"]
    if o["init"] == "sym":
        if o["lo"]:
            S.assume(kw["initial_storage_level"] >= par["lo"][0])
        if o["hi"]:
            S.assume(kw["initial_storage_level"] <= par["hi"][0])
    for s in "iox":
        if s in o["relation"]:
            kw["invest_relation_" + dict(
                i="input_capacity", o="output_capacity", x="input_output",
            )[s]] = S.real(f"{p}r{s}", 0)
    if o["cap"] == "fixed":
        cap = S.real(f"{p}E", 0)
        if o["fc"]:
            kw["fixed_costs"] = S.real(f"{p}fc")
    else:
        ik = dict(ep_costs=S.real(f"{p}ep"), maximum=S.real(f"{p}imax", 0),
                  minimum=S.real(f"{p}imin", 0))
        if o["abs"]:
            S.assume(ik["minimum"] > 0)  # required
        if o["existing"]:
            ik["existing"] = S.real(f"{p}ex", 0)
            S.assume(ik["existing"] > 0)
        if o["cap"] == "offset":
            ik.update(nonconvex=True, offset=S.real(f"{p}off"))
        cap = Investment(**ik)
    fl = [flowspec.make(S, t, flow_options(o[f]), f"{p}{f}#")
          for f in ("fin", "fout")]
    node = cmp.GenericStorage(
        f"st{p}", inputs={a: fl[0]}, outputs={b: fl[1]},
        nominal_capacity=cap, **kw)
    return node, par


def claims(S, t, m, X, A, o, p, node, par, a, b):
    """claims about the storage and its flows; returns its costs"""
    P = lambda n: Z(S.params[p + n])
    T = t.T
    inv = o["cap"] != "fixed"
    B = m.GenericInvestmentStorageBlock if inv else m.GenericStorageBlock
    c = [X.expr(B.storage_content[node, i]) for i in range(T + 1)]
    A.observe([B.storage_content[node, i] for i in range(T + 1)])
    keys = {"fin": (a, node), "fout": (node, b)}
    cost = Sum([flowspec.claims(S, t, m, X, A, flow_options(o[f]),
                                f"{p}{f}#", k) for f, k in keys.items()])
    if inv:
        x, cap = X.expr(B.invest[node, 0]), X.expr(B.total[node, 0])
        A.observe([B.invest[node, 0], B.total[node, 0]])
        A.eq(f"{p} total", cap, x + (P("ex") if o["existing"] else 0))
        A.ge(f"{p} invest nonneg", x, 0)
        y = rv(1)
        if o["cap"] == "offset":
            y = X.expr(B.invest_status[node, 0])
            A.observe([B.invest_status[node, 0]])
            A.prop(f"{p} decision", Or(y == 0, y == 1))
            cost += y * P("off")
        A.le(f"{p} invest max", x, y * P("imax"))
        A.ge(f"{p} invest min", x, y * P("imin"))
        cost += x * P("ep")
    else:
        cap = P("E")
        if o["fc"]:
            cost += cap * P("fc") * getattr(t, "end_year", 1)
    at = lambda n, i, d: Z(par[n][i]) if n in par else rv(d)
    if o["init"] is not None:
        v = P("init") if o["init"] == "sym" else rv(0)
        A.eq(f"{p} initial", c[0], cap * v)
    if o["balanced"]:
        A.eq(f"{p} balanced", c[T], c[0])
    for i in range(T + 1):
        A.ge(f"{p} content min@{i}", c[i], cap * at("lo", i, 0))
        A.le(f"{p} content max@{i}", c[i], cap * at("hi", i, 1))
    for i in t.steps:
        fi = X.expr(m.flow[(*keys["fin"], i)])
        fo = X.expr(m.flow[(*keys["fout"], i)])
        dt = t.dt[i]
        keep = rv(1)
        if "loss" in par:
            keep = Z((1 - par["loss"][i]) ** dt)
        fixed = (at("rel", i, 0) * cap + at("abs", i, 0)) * Z(dt)
        if not inv:
            A.define(B.storage_losses[node, i], c[i] * (1 - keep) + fixed)
        A.eq(f"{p} balance@{i}", c[i + 1],
             c[i] * keep - fixed + fi * at("ei", i, 1) * Z(dt)
             - fo * Z(dt) / at("eo", i, 1))
        cost += c[i + 1] * at("sc", i, 0)
    for s, f in (("i", "fin"), ("o", "fout")):
        if s in o["relation"]:
            A.eq(f"{p} relation {s}",
                 X.expr(m.InvestmentFlowBlock.total[(*keys[f], 0)]),
                 cap * P("r" + s))
    if "x" in o["relation"]:
        tot = m.InvestmentFlowBlock.total
        A.eq(f"{p} relation x", X.expr(tot[(*keys["fin"], 0)]),
             X.expr(tot[(*keys["fout"], 0)]) * P("rx"))
    return cost


def scn(name, mk, opts, bounds, tier="quick", swap=False):
    def build(S):
        t = mk(S)
        a, b = Bus("a", balanced=False), Bus("b", balanced=False)
        t.es.add(a, b)
        nodes = {}
        for p, o in (list(zip("fg", opts))[::-1] if swap
                     else zip("fg", opts)):
            data = S if p == "f" else Numbers(S)
            nodes[p] = make(data, t, o, p, a, b)
            t.es.add(nodes[p][0])
        return W(m=model(t), t=t, nodes=nodes, a=a, b=b)

    def spec(S, w, X, A):
        A.objective(Sum([
            claims(S, w.t, w.m, X, A, o, p, *w.nodes[p], w.a, w.b)
            for p, o in zip("fg", opts)]), "costs")

    return Scenario(name, build, spec, tier=tier, max_paths=300,
                    bounds=bounds + "; options " + " / ".join(
                        flowspec.describe(o, LEVELS) for o in opts))


def group(prefix, mk, bounds, strength=2, seed=1, tier="quick", fixed=(),
          use=None, **kw):
    rows = flowspec.covering(LEVELS, valid, implied, strength, seed, fixed,
                             use)
    return [scn(f"{prefix}-{i:02d}", mk, (rows[i], rows[i - 1]), bounds,
                tier=tier, swap=i % 2, **kw) for i in range(len(rows))]
