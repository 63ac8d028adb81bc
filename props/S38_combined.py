"""Options of flows keep their meaning in any combination."""
from symsolph.api import *
from symsolph.flowspec import group

s3 = lambda S: es_sym(S, 3)
s4 = lambda S: es_sym(S, 4)
mp = lambda S: es_periods(S, ((2030, 1), (2033, 2)))
ts = lambda S: es_tsam(S, (0, 1, 0), 2)
SCENARIOS = [
    *group("single", "sym", s3, "3 steps"),
    *group("multi", "mp", mp, "2 periods, 1/2 steps", discount=True),
    *group("typical", "ts", ts, "2 typical periods x 2 steps"),
    *group("single3", "sym", s3, "3 steps", strength=3, tier="thorough"),
    *group("multi3", "mp", mp, "2 periods, 1/2 steps", discount=True,
           strength=3, tier="thorough"),
    *group("typical3", "ts", ts, "2 typical periods x 2 steps", strength=3,
           tier="thorough"),
]
