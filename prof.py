import os,sys
sys.path.insert(0,'/verif')
from symx import env; env.setup()
import importlib, json, cProfile, pstats
from symx import core, reg
prop, name, case, paths = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
idx=json.load(open('/verif/checks/index.json'))
importlib.import_module('checks.'+idx[prop]['module'])
h=[h for h in reg.HARNESSES[prop] if h.name==name][0]
params=h.quick[case]
core.explore(h.fn, params, [[]], 5, 100)
pr=cProfile.Profile(); pr.enable()
r=core.explore(h.fn, params, [[]], paths, 100)
pr.disable()
print(r[2], r[0].paths)
pstats.Stats(pr).sort_stats('tottime').print_stats(32)
