"""Options of storages keep their meaning in any combination."""
from symsolph.api import *
from symsolph.storespec import group

SCENARIOS = [
    *group("hours", lambda S: es_hours(S, 2), "2 hours"),
    *group("steps", lambda S: es_sym(S, 2), "2 steps of arbitrary length",
           seed=2),
    *group("hours3", lambda S: es_hours(S, 2), "2 hours", strength=3,
           tier="thorough"),
    *group("steps3", lambda S: es_sym(S, 2), "2 steps of arbitrary length",
           seed=2, strength=3, tier="thorough"),
]
