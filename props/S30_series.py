"""A number acts like the series repeating it, in any container."""
from symsolph.api import *
from symsolph import zoo


def same(name, mk, bounds, system, form, ref="scalar"):
    def build(S):
        ms = []
        for f in (ref, form):
            t = mk(S)
            t.es.add(*system(S, t, zoo.Data(S, t, f)))
            ms.append(model(t))
        return W(m=ms[0], m2=ms[1])

    def spec(S, w, X, A):
        zoo.equal_models(A, X, w.m2)

    return Scenario(name, build, spec, bounds=bounds)


sym = lambda S: es_sym(S, 3)
mp = lambda S: es_periods(S)
ts = lambda S: es_tsam(S)
SCENARIOS = []
for f in (zoo.flows, zoo.onoff, zoo.invest, zoo.converters, zoo.offset,
          zoo.storages):
    for form in ("list", "tuple", "array", "series"):
        SCENARIOS.append(same(f"{f.__name__}-{form}", sym,
                              "3 steps of any length", f, form))
for f in (zoo.invest, zoo.flows):
    SCENARIOS.append(same(f"{f.__name__}-periods", mp,
                          "2 periods x 2 steps", f, "list"))
for f in (zoo.invest, zoo.flows, zoo.typical_storage):
    SCENARIOS.append(same(f"{f.__name__}-typical", ts,
                          "2 typical periods x 2 steps", f, "list"))
for form in ("tuple", "array"):
    SCENARIOS.append(same(f"generic_chp-{form}", sym,
                          "3 steps of any length", zoo.generic_chp, form,
                          "list"))
