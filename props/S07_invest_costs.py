"""Investment expenses, fixed costs and remaining values of flows and
storages in multi-period systems."""
from fractions import Fraction

from symsolph.api import *
from symsolph.flowspec import covering

FLOW_RATE = Fraction(1, 20)  # flows: fixed rate of 5 %


def anf(n, ir):
    """annuity factor, exact"""
    q = (1 + ir) ** n
    return ir * q / (q - 1)


def unit_cost(cost, now, last_cost, life, end, remaining, ir=FLOW_RATE):
    """present value of expenses ``cost`` for one unit built in year ``now``"""
    d = min(end - now, life)
    c = cost * rv(anf(life, ir) / anf(d, ir))
    if remaining and end - now < life:
        c = c + (last_cost - cost)
    return c


def scn(name, spec_, life, bounds, last=1, remaining=False, age=0,
        nonconvex=False, fixed=None, storage=False, lists=True,
        tier="quick"):
    """fixed: None | 'scalar' | 'list'"""

    def build(S):
        t = es_periods(S, spec_, last=last,
                       **(dict(use_remaining_value=True) if remaining
                          else {}))
        P = t.P
        seq = (lambda n: S.reals(n, P)) if lists else (lambda n: S.real(n))
        ikw = dict(ep_costs=seq("ep"), lifetime=life, age=age,
                   maximum=S.real("imax", 0))
        if nonconvex:
            ikw.update(nonconvex=True, offset=seq("off"))
        else:
            ikw.update(existing=S.real("ex", 0))
        if fixed == "scalar":
            ikw["fixed_costs"] = S.real("fc")
        elif fixed:
            ikw["fixed_costs"] = S.reals("fc", t.end_year)
        b = Bus("b", balanced=False)
        if storage:
            n = cmp.GenericStorage(
                "n", inputs={b: Flow()}, outputs={b: Flow()},
                nominal_capacity=Investment(**ikw))
        else:
            n = cmp.Source("n", outputs={
                b: Flow(nominal_capacity=Investment(**ikw))})
        k = cmp.Sink("k", inputs={b: Flow(nominal_capacity=Investment(
            ep_costs=S.real("kep"), lifetime=9, fixed_costs=S.real("kfc"),
            existing=S.real("kex", 0), age=7))})
        t.es.add(b, n, k)
        m = model(t, discount_rate=0.07) if storage else model(t)
        return W(m=m, t=t, key=(n, b), n=n, key2=(b, k))

    def spec(S, w, X, A):
        yrs, end = w.t.years, w.t.end_year
        PS = range(w.t.P)
        par = lambda n, i: Z(S.params[f"{n}_{i}"] if f"{n}_{i}" in S.params
                             else S.params[n])
        if storage:
            B = w.m.GenericInvestmentStorageBlock
            inv = [X.expr(B.invest[w.n, p]) for p in PS]
            st = (lambda p: X.expr(B.invest_status[w.n, p]))
        else:
            B = w.m.InvestmentFlowBlock
            inv = [X.expr(B.invest[(*w.key, p)]) for p in PS]
            st = (lambda p: X.expr(B.invest_status[(*w.key, p)]))
        # first: the part of the block of n; second: the part of flow k
        tot = {(k, w_): [[] for _ in PS] for k in "nk" for w_ in ("i", "f")}
        for p in PS:
            i, f = tot["n", "i"][p], tot["n", "f"][p]
            i.append(inv[p] * unit_cost(
                par("ep", p), yrs[p], par("ep", w.t.P - 1), life, end,
                remaining, Fraction(7, 100) if storage else FLOW_RATE))
            if nonconvex:
                o = par("off", p)
                if remaining and end - yrs[p] < life:
                    o = o + (par("off", w.t.P - 1) - o)
                i.append(st(p) * o)
            if fixed:
                for y in range(yrs[p], min(end, yrs[p] + life)):
                    f.append(inv[p] * par("fc", y))
        if fixed and not nonconvex:
            for y in range(min(end, life - age)):
                tot["n", "f"][0].append(Z(S.params["ex"]) * par("fc", y))
        inv2 = [X.expr(w.m.InvestmentFlowBlock.invest[(*w.key2, p)])
                for p in PS]
        for p in PS:
            tot["k", "i"][p].append(inv2[p] * unit_cost(
                Z(S.params["kep"]), yrs[p], Z(S.params["kep"]), 9, end,
                remaining))
            for y in range(yrs[p], min(end, yrs[p] + 9)):
                tot["k", "f"][p].append(inv2[p] * Z(S.params["kfc"]))
        for y in range(min(end, 2)):
            tot["k", "f"][0].append(Z(S.params["kex"]) * Z(S.params["kfc"]))
        add = lambda ks, kind, ps=PS: Sum(
            [x for k in ks for p in ps for x in tot[k, kind][p]])
        # documented: the parts can be read from the blocks
        tiny = Fraction(1, 10**9)
        blocks = [(w.m.InvestmentFlowBlock, "k" if storage else "nk")]
        if storage:
            blocks.append((B, "n"))
        for blk, ks in blocks:
            A.eq(f"investment costs {ks}", X.expr(blk.investment_costs),
                 add(ks, "i"), rounding=tiny)
            A.eq(f"fixed costs {ks}", X.expr(blk.fixed_costs),
                 add(ks, "f"), rounding=tiny)
            A.eq(f"costs {ks}", X.expr(blk.costs),
                 add(ks, "i") + add(ks, "f"), rounding=tiny)
            if not remaining:
                for p in PS:
                    A.eq(f"period costs {ks}@{p}",
                         X.expr(blk.period_investment_costs[p]),
                         add(ks, "i", [p]), rounding=tiny)
        tot = [add("nk", "i"), add("nk", "f")]
        A.objective(Sum(tot), rounding=Fraction(1, 10**9))

    return Scenario(name, build, spec, bounds=bounds, tier=tier)


two = ((2030, 2), (2035, 2))
three = ((2030, 1), (2033, 1), (2040, 2))
B2 = "2 periods (years 0, 5), "
B3 = "3 periods (years 0, 3, 10), "
LEVELS = {
    "periods": (two, three, ((2030, 1), (2031, 1), (2035, 1), (2036, 2))),
    "last": (1, 2, 5),
    "life": (1, 2, 4, 5, 6, 7, 9, 12, 40),
    "age": (0, 1, "old"),
    "remaining": (False, True),
    "nonconvex": (False, True),
    "fixed": (None, "scalar", "list"),
    "storage": (False, True),
    "lists": (True, False),
}


def group(name, strength, tier):
    rows = covering(LEVELS, lambda o: o["life"] > 1 or o["age"] == 0,
                    lambda need: need, strength, 3)
    out = []
    for i, o in enumerate(rows):
        o = dict(o)
        if o["age"] == "old":
            o["age"] = o["life"] - 1
        out.append(scn(
            f"{name}-{i:03d}", o.pop("periods"), o.pop("life"),
            " ".join(f"{k}={v}" for k, v in rows[i].items()), tier=tier,
            **o))
    return out


SCENARIOS = [
    *group("any", 2, "quick"),
    *group("any3", 3, "thorough"),
    scn("short-life", two, 3, B2 + "life 3", last=4),
    scn("long-life", two, 20, B2 + "life 20", last=4),
    scn("three", three, 8, B3 + "life 8", last=5),
    scn("three-scalar", three, 12, B3 + "life 12", lists=False),
    scn("remaining", three, 8, B3 + "life 8", last=5, remaining=True),
    scn("remaining-long", two, 20, B2 + "life 20", last=2, remaining=True),
    scn("nonconvex", two, 6, B2 + "life 6", last=4, nonconvex=True),
    scn("nonconvex-remaining", two, 6, B2 + "life 6", last=4,
        nonconvex=True, remaining=True),
    scn("fixed-scalar", two, 6, B2 + "life 6, age 2", last=4, age=2,
        fixed="scalar"),
    scn("fixed-list", three, 8, B3 + "life 8, age 3", last=4, age=3,
        fixed="list"),
    scn("fixed-long", three, 40, B3 + "life 40, age 3", last=4, age=3,
        fixed="list"),
    scn("storage", three, 8, B3 + "life 8", last=5, storage=True),
    scn("storage-remaining", two, 6, B2 + "life 6", last=4, storage=True,
        remaining=True),
    scn("storage-nonconvex", two, 6, B2 + "life 6", last=4, storage=True,
        nonconvex=True, remaining=True),
    scn("storage-fixed-list", three, 8, B3 + "life 8, age 3", last=4, age=3,
        fixed="list", storage=True),
    scn("storage-fixed-scalar", two, 20, B2 + "life 20", last=4,
        fixed="scalar", storage=True, lists=False),
]
