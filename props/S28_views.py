"""Views on results give the values of the results, completely."""
import pandas as pd
from oemof.network import Node

from symsolph.api import *
from props.S26_processing import build_for, nan

V = solph.views
STO = cmp.GenericStorage


def same(A, label, x, y):
    if nan(x) or nan(y):
        A.prop(f"{label} empty", nan(x) and nan(y))
    else:
        A.eq(label, Z(x), Z(y))


def cells(A, label, got, want, rows):
    """columns {key: Series} and the columns of a frame agree"""
    cols = list(got.columns)
    A.prop(f"{label} columns", len(cols) == len(want)
           and set(cols) == set(want))
    A.prop(f"{label} rows", len(got) == len(rows))
    for i, c in enumerate(cols):
        if c in want and len(got) == len(want[c]):
            for r in range(len(got)):
                same(A, f"{label} {c} {r}", got.iloc[r, i], want[c].iloc[r])


def text(k, keep):
    return tuple(None if x is None and keep else str(x) for x in k)


def views(name, mk, bounds, kinds, remove=None, more=None):
    def spec(S, w, X, A):
        t, res = w.t, w.res
        part = "scalars" if t.P == 1 else "period_scalars"
        nodes = [n for k in res for n in k if n is not None]
        nodes = list(dict.fromkeys(nodes))

        # a single node
        for n in nodes:
            for form in ("object", "text"):
                for keep in (False, True):
                    for multi in (False, True):
                        if form == "object" and not keep:
                            names = lambda k: k
                        else:
                            names = lambda k: (
                                k if form == "object" else text(k, keep))
                        lab = f"{n} {form} keep={keep} multi={multi}"
                        f = V.node(res, n if form == "object" else str(n),
                                   multiindex=multi, keep_none_type=keep)
                        one = lambda k, c: (
                            (*names(k), c) if multi else (names(k), c))
                        want = {one(k, c): r["sequences"][c]
                                for k, r in res.items() if n in k
                                for c in r["sequences"].columns}
                        A.prop(f"{lab} sequences", (
                            "sequences" in f) == bool(want))
                        if want:
                            some = next(iter(want.values()))
                            cells(A, lab, plain(f["sequences"]), want, some)
                            for x, y in zip(f["sequences"].index, some.index):
                                A.prop(f"{lab} row {y}", x is y or x == y)
                        rows = {one(k, i): r[part].loc[i]
                                for k, r in res.items() if n in k
                                and not r[part].empty
                                for i in r[part].index}
                        # scalars per period need not exist for all of them
                        A.prop(f"{lab} {part}", (part in f) == bool(rows))
                        if rows:
                            g = f[part]
                            idx = [fix(i) for i in g.index]
                            A.prop(f"{lab} {part} keys", len(idx) == len(rows)
                                   and set(idx) == set(rows))
                            for pos, i in enumerate(idx):
                                if i not in rows:
                                    continue
                                x, y = g.iloc[pos], rows[i]
                                if t.P == 1:
                                    same(A, f"{lab} {i}", x, y)
                                else:
                                    for c in x.index:
                                        same(A, f"{lab} {i} {c}", x[c],
                                             y.get(c, float("nan")))
                                    A.prop(f"{lab} {i} complete",
                                           set(y.index) <= set(x.index))
                        A.prop(f"{lab} nothing else", set(f) <= {
                            "sequences", part})

        # by type
        # (classes include the classes derived from them)
        for typ in (STO, cmp.Source, cmp.Sink, cmp.Converter, Bus, Node):
            for f, sel, c3 in (
                (V.node_weight_by_type, lambda k: isinstance(k[0], typ)
                 and k[1] is None, lambda k, c: (k[0], c)),
                (V.node_input_by_type, lambda k: isinstance(k[1], typ),
                 lambda k, c: (*k, c)),
                (V.node_output_by_type, lambda k: isinstance(k[0], typ)
                 and k[1] is not None, lambda k, c: (*k, c)),
            ):
                lab = f"{f.__name__} {typ.__name__}"
                want = {c3(k, c): r["sequences"][c]
                        for k, r in res.items() if sel(k)
                        for c in r["sequences"].columns}
                got = f(res, typ)
                A.prop(f"{lab} exists", (got is not None) == any(
                    sel(k) for k in res))
                if want and got is not None:
                    cells(A, lab, plain(got), want,
                          next(iter(want.values())))

        # net flow of storages
        got = V.net_storage_flow(res, STO)
        st = [n for n in nodes if isinstance(n, STO)]
        A.prop("net flow exists", (got is not None) == bool(st))
        if st:
            got = plain(got)
            A.prop("net flow of all storages", set(got.columns) == {
                (s, list(s.outputs)[0], "net_flow") for s in st})
            for s in st:
                i, o = list(s.inputs)[0], list(s.outputs)[0]
                col = got[(s, o, "net_flow")]
                inp = res[i, s]["sequences"]["flow"]
                out = res[s, o]["sequences"]["flow"]
                A.prop(f"net flow {s} rows", len(col) == len(inp))
                for r in range(min(t.T, len(col))):
                    A.eq(f"net flow {s} {r}", Z(col.iloc[r]),
                         Z(out.iloc[r]) - Z(inp.iloc[r]))

        # selecting nodes
        opts = V.NodeOption
        src = {k[0] for k in res} - {None}
        dst = {k[1] for k in res} - {None}
        for o, want in ((opts.All, src | dst), (opts.HasOutputs, src),
                        (opts.HasInputs, dst), (opts.HasOnlyOutputs,
                                                src - dst),
                        (opts.HasOnlyInputs, dst - src)):
            for spell in (o, o.value):
                A.prop(f"filter {spell}",
                       set(V.filter_nodes(res, spell)) == want)
                A.prop(f"filter {spell} without buses",
                       set(V.filter_nodes(res, spell, exclude_busses=True))
                       == {n for n in want if not isinstance(n, Bus)})
        # some of the results
        for j in range(3):
            part = {k: v for i, (k, v) in enumerate(res.items())
                    if i % 3 != j}
            src = {k[0] for k in part} - {None}
            dst = {k[1] for k in part} - {None}
            for o, want in (
                (opts.All, src | dst), (opts.HasOutputs, src),
                (opts.HasInputs, dst), (opts.HasOnlyOutputs, src - dst),
                (opts.HasOnlyInputs, dst - src),
            ):
                A.prop(f"filter some {j} {o}",
                       set(V.filter_nodes(part, o)) == want)
        for n in nodes:
            A.prop(f"find {n}", V.get_node_by_name(res, str(n)) is n)
        found = V.get_node_by_name(
            res, *[str(n) for n in nodes], "unknown")
        A.prop("find all", len(found) == len(nodes) + 1 and all(
            x is y for x, y in zip(found, nodes + [None])))
        A.prop("find none", V.get_node_by_name(res, "unknown") is None)
        for keep in (False, True):
            conv = solph.processing.convert_keys_to_strings(res, keep)
            A.prop(f"text keys, keep={keep}", len(conv) == len(res) and all(
                conv.get(text(k, keep)) is v for k, v in res.items()))

    return Scenario(name, build_for(mk, kinds, remove, more=more), spec,
                    bounds=bounds)


def fix(i):
    """missing nodes may be given as NaN in a MultiIndex"""
    f = lambda x: (tuple(f(y) for y in x) if isinstance(x, tuple)
                   else None if nan(x) else x)
    return f(i)


def plain(df):
    df = df.copy()
    df.columns = pd.Index([fix(c) for c in df.columns], tupleize_cols=False)
    return df


class BusStop(cmp.Sink):
    """a component whose class is named like a bus"""


def busstop(S, t, a, b):
    t.es.add(BusStop("stop", inputs={b: Flow()}))


hours = lambda S: es_hours(S, 2)
sym = lambda S: es_sym(S, 3)
mp = lambda S: es_periods(S)
ts = lambda S: es_tsam_hours(S)
ALL = ("source", "invest", "optional", "offset", "onoff", "onoff-invest",
       "storage", "storage-invest", "storage-optional")
SCENARIOS = [
    views("flows-only", hours, "2 hours", ("source", "onoff"), more=busstop),
    views("storages", hours, "2 hours", ("source", "storage",
                                         "storage-invest")),
    views("all-kinds", hours, "2 hours, all kinds of components", ALL),
    views("tuple-labels", hours, "2 hours, tuples as labels",
          ("source", "invest", "onoff", "storage", "tuples")),
    views("all-kinds-cut", sym, "3 steps of any length, all kinds of "
          "components", ALL, True),
    views("multi-period", mp, "2 periods x 2 steps",
          ("source", "invest", "onoff", "storage", "storage-optional")),
    views("typical-periods", ts, "4 original periods, 2 typical periods",
          ("source", "invest", "onoff", "storage", "storage-invest")),
]
