"""Numbers and iterables as time series."""
import numpy as np
import pandas as pd

from oemof.solph._plumbing import sequence, valid_sequence
from symsolph.api import *


def arr(xs):
    a = np.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
        a[i] = x
    return a


FORMS = {"list": list, "tuple": tuple, "array": arr,
         "series": lambda x: pd.Series(arr(x), index=range(5, 5 + len(x)))}


def constant(name, given):
    """a number is a series of this number"""

    def build(S):
        x = S.real("x")
        n = [None, 0, 1, 2, 3, 5, 300][S.choice("n", 7) if given else 0]
        s = sequence(x, n) if given else sequence(x)
        return W(m=None, x=x, n=n, s=s)

    def spec(S, w, X, A):
        s, x = w.s, Z(w.x)
        for i in (0, 1, 2, 7, 400, -1):
            A.eq(f"[{i}]", Z(s[i]), x)
        A.eq("value", Z(s.value), x)
        A.eq("max", Z(s.max()), x)
        A.eq("min", Z(s.min()), x)
        if not given or w.n is None:
            A.prop("unknown length", s.size is None)
            A.prop("sum of unknown length", s.sum() == np.inf)
            try:
                s.to_numpy()
                A.prop("unknown length is not filled in", False)
            except ValueError:
                pass
        for n in ([w.n] if w.n is not None else [1, 2, 4, 500]):
            if w.n is None:
                s = sequence(w.x)
                A.prop("length is accepted", valid_sequence(s, n) is True)
                A.prop("length is kept", s.size == n)
            A.prop(f"length {n}", len(s) == n and s.size == n)
            vals = list(s)
            A.prop(f"number of values {n}", len(vals) == n)
            for i, v in enumerate(vals):
                A.eq(f"{n} [{i}] by iteration", Z(v), x)
            A.eq(f"sum {n}", Z(s.sum()), x * n)
            a = s.to_numpy()
            A.prop(f"array {n}", a.shape == (n,))
            for i in range(n):
                A.eq(f"array {n} [{i}]", Z(a[i]), x)
            for k in (0, 1, 2, 9):
                for u in (s, sequence(w.x)):
                    a = u.to_numpy(k)
                    A.prop(f"array of length {k}", a.shape == (k,))
                    for i in range(k):
                        A.eq(f"array of length {k} [{i}]", Z(a[i]), x)
            for k in (0, 1, 2, n - 1, n + 1, 2 * n, 700):
                A.prop(f"valid for {k} if it has {n}",
                       valid_sequence(s, k) is (k == n))
            A.prop(f"length is not changed {n}", s.size == n)

    return Scenario(name, build, spec, bounds="7 lengths")


def arithmetic(name):
    def build(S):
        x, y = S.real("x"), S.pos("y")
        n = [None, 3, 300][S.choice("n", 3)]
        s = sequence(x, n)
        return W(m=None, x=Z(x), y=Z(y), n=n, s=s,
                 p=s * y, q=y * s, d=s / y)

    def spec(S, w, X, A):
        for k, s, v in (("product", w.p, w.x * w.y),
                        ("product from the left", w.q, w.x * w.y),
                        ("quotient", w.d, w.x * Z(1 / S.params["y"]))):
            for i in (0, 2, 99):
                A.eq(f"{k} [{i}]", Z(s[i]), v)
            A.prop(f"{k} length", s.size == w.n)
        A.eq("unchanged", Z(w.s[1]), w.x)

    return Scenario(name, build, spec, bounds="3 lengths")


def values(name, form, wanted, n):
    """iterables are kept value by value, if they have the right length"""

    def build(S):
        xs = S.reals("x", n)
        k = S.integer("length", 1, 2 * n) if wanted else None
        given = FORMS[form](xs)
        s = sequence(given, length=k) if wanted else sequence(given)
        return W(m=None, xs=xs, s=s, k=k, given=given)

    def errors(S):
        if not wanted:
            return must_raise(False, ValueError)
        return must_raise(Z(S.params["length"]) != n, ValueError)

    def spec(S, w, X, A):
        A.prop("number of values", len(w.s) == n and w.s.size == n)
        A.prop("array", isinstance(w.s, np.ndarray))
        for i, x in enumerate(w.xs):
            A.eq(f"[{i}]", Z(w.s[i]), Z(x))
        for k in {0, 1, n - 1, n, n + 1, 2 * n}:
            try:
                v = valid_sequence(w.s, k)
                A.prop(f"valid for {k}", v is True and k <= n)
            except ValueError:
                A.prop(f"not valid for {k}", k > n)
        # the series is not affected by later changes of the source
        if form == "list":
            w.given[0] = 12345
            A.eq("independent", Z(w.s[0]), Z(w.xs[0]))

    return Scenario(name, build, spec, errors=errors,
                    bounds=f"{n} values, wanted lengths up to {2 * n}")


def other(name):
    def build(S):
        return W(m=None, x=S.real("x"))

    def spec(S, w, X, A):
        x = w.x
        A.prop("nothing", sequence(None) is None)
        A.prop("nothing is not valid", valid_sequence(None, 3) is False)
        A.prop("text", sequence("text") == "text")
        A.prop("text is not valid", not valid_sequence("text", 4))
        A.prop("plain numbers are not valid", not valid_sequence(3.0, 1))
        for bad in ([[x, x], [x, x]], [[x], [x]], np.ones((2, 2)),
                    pd.DataFrame({"a": [1, 2]}), np.ones((1, 2, 1))):
            try:
                sequence(bad)
                A.prop("tables are refused", False)
            except ValueError:
                pass
        e = sequence([])
        A.prop("empty", len(e) == 0)

    return Scenario(name, build, spec)


SCENARIOS = [constant("number", False), constant("number-length", True),
             arithmetic("arithmetic"), other("other")]
for f in FORMS:
    SCENARIOS.append(values(f"{f}", f, False, 3))
    SCENARIOS.append(values(f"{f}-length", f, True, 3))
SCENARIOS += [values("one", "list", False, 1),
              values("one-length", "array", True, 1),
              values("long", "list", False, 300),
              values("long-length", "list", True, 300),
              values("long-array-length", "array", True, 600)]
