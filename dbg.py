import sys
sys.path.insert(0,'/verif')
import logging; logging.disable(50)
from symsolph.cli import load
from symsolph.prove import *
from symsolph import engine as E
prop,scn=sys.argv[1:3]
mod=load(prop)
s=next(x for x in mod.SCENARIOS if x.name==scn)
outs,p=E.explore(lambda S: run_scenario(s,S),max_paths=5)
r=outs[0].result
print(outs[0].cond)
if r.exc: print(r.tb)
else:
  lab=sys.argv[3] if len(sys.argv)>3 else None
  for a in r.A.atoms:
    if lab is None or a.label==lab: print(a.label,a.kind,z3.simplify(a.a-a.b,som=True) if a.b is not None else a.a)
  if lab=='rows':
    for row in r.X.rows: print(row.name,row.formula())
if lab == 'paths':
    for o in outs: print(len(outs), o.cond if not callable(o.cond) else '')
