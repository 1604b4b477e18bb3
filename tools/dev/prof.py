import sys; sys.path.insert(0,'/verif')
import cProfile,pstats,importlib
from pyvc import api
P=sys.argv[1]
importlib.import_module('contracts.'+P.lower())
v=[v for v in api.VCS[P.upper()] if v.name==sys.argv[2]][0]
api.sys.setprofile=lambda f:None
pr=cProfile.Profile(); pr.enable(); print({k:v for k,v in api.run_vc(v).items() if k in('status','info','obligations','paths','solver')}); pr.disable()
pstats.Stats(pr).sort_stats(sys.argv[3] if len(sys.argv)>3 else 'cumtime').print_stats(40)
