import sys
sys.path.insert(0, "/verif"); sys.path.insert(0, "/repo/src"); sys.dont_write_bytecode = True
import check, cProfile, pstats, time
mod = check.load(sys.argv[1], symbolic=True)
from vp import explore, ctx as cm
from vp.sym import Stats
explore.quiet()
h = next(h for h in mod.HARNESSES if h.name == sys.argv[2])
q=[([],{})]; st=Stats()
def go():
    t=time.time(); n=0
    while q and n<60:
        pre,a=q.pop()
        run,err=cm.run_path(h,h.quick,a,pre,st,True)
        q.extend(run.pending); n+=1
    print(n,(time.time()-t)/n)
pr=cProfile.Profile(); pr.runcall(go)
pstats.Stats(pr).sort_stats("tottime").print_stats(28)
