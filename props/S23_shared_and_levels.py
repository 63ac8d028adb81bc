"""Shared limits of several components and access to a storage depending on
its content."""
from symsolph.api import *

C = solph.constraints


def shared(name, mk, bounds, what="content", lo=True, hi=True, picked=(0, 2),
           second=False, zero=False):
    """what: content of storages, status of flows"""

    def build(S):
        t = mk(S)
        b = Bus("b", balanced=False)
        t.es.add(b)
        nodes = []
        for i in range(3):
            if what == "content":
                n = cmp.GenericStorage(
                    f"n{i}", inputs={b: Flow()}, outputs={b: Flow()},
                    nominal_capacity=S.real(f"P{i}", 0), balanced=False)
            else:
                n = cmp.Source(f"n{i}", outputs={b: Flow(
                    nominal_capacity=S.real(f"P{i}", 0),
                    nonconvex=NonConvex())})
            nodes.append(n)
        t.es.add(*nodes)
        m = model(t, other_weights=True)
        a = {}
        if lo:
            a["lower_limit"] = S.real("low")
        if hi:
            a["upper_limit"] = S.real("high")
        ws = [S.real(f"w{i}") for i in picked]
        for x in ws:
            S.assume(x != 0)
        if zero:
            ws[0] = 0
        if what == "content":
            q, cs = m.GenericStorageBlock.storage_content, nodes
        else:
            q, cs = m.NonConvexFlowBlock.status, [(n, b) for n in nodes]
        C.shared_limit(m, q, "common", [cs[i] for i in picked], ws, **a)
        if second:
            C.shared_limit(m, q, "other", cs[:2], [1, S.pos("v")],
                           upper_limit=S.real("high2"))
        return W(m=m, t=t, b=b, nodes=nodes)

    def spec(S, w, X, A):
        m, t = w.m, w.t
        A.observe(m.flow)
        q = {}
        for i, n in enumerate(w.nodes):
            P = Z(S.params[f"P{i}"])
            if what == "content":
                B = m.GenericStorageBlock
                A.observe(B.storage_content)
                c = [X.expr(B.storage_content[n, s]) for s in range(t.T + 1)]
                for s in range(t.T + 1):
                    q[i, s] = c[s]
                    A.ge(f"content min {i}@{s}", c[s], 0)
                    A.le(f"content max {i}@{s}", c[s], P)
                for s in t.steps:
                    fi = X.expr(m.flow[w.b, n, s])
                    fo = X.expr(m.flow[n, w.b, s])
                    A.ge(f"in {i}@{s}", fi, 0)
                    A.ge(f"out {i}@{s}", fo, 0)
                    A.eq(f"balance {i}@{s}", c[s + 1],
                         c[s] + (fi - fo) * Z(t.dt[s]))
                continue
            A.observe(m.NonConvexFlowBlock.status)
            for s in t.steps:
                v = X.expr(m.flow[n, w.b, s])
                q[i, s] = y = X.expr(m.NonConvexFlowBlock.status[n, w.b, s])
                A.prop(f"status {i}@{s}", Or(y == 0, y == 1))
                A.ge(f"lower {i}@{s}", v, 0)
                A.le(f"upper {i}@{s}", v, P)
                A.prop(f"off {i}@{s}", Implies(y == 0, v == 0))
        for s in t.steps:
            tot = Sum(q[i, s] * Z(S.params[f"w{i}"]) for i in picked[zero:])
            A.eq(f"reported@{s}", X.expr(m.common[s]), tot)
            # (documented default: nothing negative)
            A.ge(f"lower limit@{s}", tot, Z(S.params["low"]) if lo else 0)
            if hi:
                A.le(f"upper limit@{s}", tot, Z(S.params["high"]))
            if second:
                tot = q[0, s] + q[1, s] * Z(S.params["v"])
                A.ge(f"second lower@{s}", tot, 0)
                A.le(f"second upper@{s}", tot, Z(S.params["high2"]))

    return Scenario(name, build, spec, bounds=bounds)


def levels(name, mk, bounds, nin=2, nout=2, loss=False, tier="quick"):
    """flows between buses and the storage need a suitable content"""

    def build(S):
        t = mk(S)
        mux = Bus("mux", balanced=True)
        t.es.add(mux)
        ins, outs = {}, {}
        for i in range(nin):
            b = Bus(f"i{i}", balanced=False, outputs={
                mux: Flow(nominal_capacity=S.pos(f"Pi{i}"))})
            ins[b] = S.real(f"li{i}", 0, 1)
            t.es.add(b)
        for i in range(nout):
            b = Bus(f"o{i}", balanced=False, inputs={
                mux: Flow(nominal_capacity=S.pos(f"Po{i}"))})
            outs[b] = S.real(f"lo{i}", 0, 1)
            S.assume(outs[b] > 0)
            t.es.add(b)
        st = cmp.GenericStorage(
            "st", inputs={mux: Flow()}, outputs={mux: Flow()},
            nominal_capacity=S.pos("E"), balanced=False,
            **(dict(loss_rate=S.reals("loss", t.T, 0, 1)) if loss else {}))
        t.es.add(st)
        m = model(t, other_weights=True)
        C.storage_level_constraint(
            m, "level", st, mux, input_levels=ins, output_levels=outs)
        return W(m=m, t=t, st=st, mux=mux, ins=list(ins), outs=list(outs))

    def spec(S, w, X, A):
        m, t, mux, st = w.m, w.t, w.mux, w.st
        B = m.GenericStorageBlock
        E = Z(S.params["E"])
        A.observe(m.flow)
        tsam = hasattr(t, "order")
        fi, fo, io = {}, {}, {}
        for s in t.steps:
            io[s] = (X.expr(m.flow[mux, st, s]), X.expr(m.flow[st, mux, s]))
            A.ge(f"charge@{s}", io[s][0], 0)
            A.ge(f"discharge@{s}", io[s][1], 0)
            tot = io[s][1] - io[s][0]
            for i, b in enumerate(w.ins):
                x = fi[i, s] = X.expr(m.flow[b, mux, s])
                A.ge(f"in lower {i}@{s}", x, 0)
                A.le(f"in upper {i}@{s}", x, Z(S.params[f"Pi{i}"]))
                tot = tot + x
            for i, b in enumerate(w.outs):
                x = fo[i, s] = X.expr(m.flow[mux, b, s])
                A.ge(f"out lower {i}@{s}", x, 0)
                A.le(f"out upper {i}@{s}", x, Z(S.params[f"Po{i}"]))
                tot = tot - x
            A.eq(f"bus@{s}", tot, 0)

        def keep(s):
            return (Z((1 - S.params[f"loss_{s}"]) ** t.dt[s]) if loss
                    else z3.RealVal(1))

        def change(s):
            return (io[s][0] - io[s][1]) * Z(t.dt[s])

        # sequence of the original time steps
        if tsam:
            seq = [t.offset[p] + c * t.per[p] + g
                   for p in range(len(t.order)) for c in t.order[p]
                   for g in range(t.per[p])]
            A.observe(B.inter_storage_content, B.intra_storage_delta)
            content = X.expr(B.inter_storage_content[st, 0])
            D = {}
            for p in range(len(t.order)):
                for c in range(t.typical[p]):
                    for g in range(t.per[p] + 1):
                        D[p, c, g] = X.expr(B.intra_storage_delta[st, p, c, g])
                    A.eq(f"typical period starts at zero {p},{c}",
                         D[p, c, 0], 0)
                    for g in range(t.per[p]):
                        s = t.offset[p] + c * t.per[p] + g
                        A.eq(f"change in typical period {p},{c},{g}",
                             D[p, c, g + 1], D[p, c, g] * keep(s) + change(s))
            todo = [(p, c) for p in range(len(t.order)) for c in t.order[p]]
        else:
            seq = list(t.steps)
            A.observe(B.storage_content)
            content = X.expr(B.storage_content[st, 0])
        A.ge("content min start", content, 0)
        A.le("content max start", content, E)
        high = {(i, s): z3.BoolVal(False) for i, s in fi}
        for pos, s in enumerate(seq):
            if tsam:
                # linear in the reported quantities
                per = t.per[0]
                i, g = divmod(pos, per)
                p, c = todo[i]
                if g == 0:
                    start, share = content, z3.RealVal(1)
                share = share * keep(s)
                new = start * share + D[p, c, g + 1]
                if g + 1 == per:
                    x = X.expr(B.inter_storage_content[st, i + 1])
                    A.eq(f"content after original period {i}", x, new)
                    new = x
            else:
                x = X.expr(B.storage_content[st, s + 1])
                A.eq(f"balance@{pos}", x, content * keep(s) + change(s))
                new = x
            last = tsam and pos + 1 == len(seq)
            A.ge(f"content min@{pos}", new, 0)
            A.le(f"content max@{pos}", new, E, sound=not last)
            for i in range(nin):
                lim = E * Z(S.params[f"li{i}"])
                high[i, s] = Or(high[i, s], content > lim)
                A.prop(f"in {i} only below level@{pos}",
                       Implies(fi[i, s] > 0, content <= lim))
            for i in range(nout):
                A.prop(f"out {i} only above level@{pos}",
                       Implies(fo[i, s] > 0,
                               new >= E * Z(S.params[f"lo{i}"])))
            content = new
        # auxiliary binary variables
        key = lambda s: s
        if tsam:
            idx = {t.offset[p] + c * t.per[p] + g: (p, c, g)
                   for p in range(len(t.order))
                   for c in range(t.typical[p]) for g in range(t.per[p])}
            key = lambda s: idx[s]
        one = lambda c: If(c, z3.RealVal(1), z3.RealVal(0))
        ai, ao = m.level_active_input, m.level_active_output
        for s in t.steps:
            k = key(s) if isinstance(key(s), tuple) else (key(s),)
            for i, b in enumerate(w.ins):
                A.define(ai[(b, *k)], one(high[i, s]))
            for i, b in enumerate(w.outs):
                A.define(ao[(b, *k)], one(fo[i, s] > 0))

    return Scenario(name, build, spec, bounds=bounds, tier=tier)


sym = lambda S: es_sym(S, 3)
two = lambda S: es_sym(S, 2)
mp = lambda S: es_periods(S)
ts = lambda S: es_tsam(S, (0, 1, 0))
tsm = lambda S: es_tsam_periods(S, ((2030, (0, 1), 2), (2035, (0, 0), 2)))
SCENARIOS = [
    shared("content", sym, "3 steps, 2 of 3 storages"),
    shared("content-upper", sym, "3 steps, 2 of 3 storages", lo=False),
    shared("content-all", sym, "3 steps, 3 storages, 2 limits",
           picked=(2, 0, 1), second=True),
    shared("content-weight-zero", sym, "3 steps, one weight zero",
           zero=True),
    shared("content-multi-period", mp, "2 periods x 2 steps, 2 of 3 "
           "storages"),
    shared("status", sym, "3 steps, 2 of 3 flows", "status"),
    shared("status-tsam", ts, "2 typical periods x 2 steps", "status"),
    levels("levels", sym, "3 steps, 2 inputs, 2 outputs"),
    levels("levels-losses", two, "2 steps, 1 input, 2 outputs", nin=1,
           loss=True),
    levels("levels-multi-period", mp, "2 periods x 2 steps", 1, 1),
    levels("levels-tsam", ts, "2 typical periods x 2 steps, order 0,1,0",
           1, 1),
    levels("levels-tsam-losses", ts, "2 typical periods x 2 steps, order "
           "0,1,0", 1, 1, loss=True),
    levels("levels-tsam-multi-period", tsm, "2 periods", 1, 1),
]
