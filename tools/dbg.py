"""dbg.py PROP HARNESS tier k=v ... : one concrete run with Redis command trace."""
import sys, json, os
sys.path.insert(0, "/verif"); sys.path.insert(0, os.environ.get("VP_DEV_SRC", "/repo/src")); sys.dont_write_bytecode = True
import check
prop, hname = sys.argv[1:3]
trace = "-t" in sys.argv
kv = dict(a.split("=") for a in sys.argv[3:] if "=" in a)
mod = check.load(prop, symbolic=False)
from vp import explore, redis_model, clock, ctx as cm
from vp.sym import Stats
if "-l" not in sys.argv: explore.quiet()
else:
    import logging; logging.basicConfig(level=logging.INFO)
h = next(h for h in mod.HARNESSES if h.name == hname)
if trace:
    orig = redis_model.Store.call
    def call(self, name, *a):
        r = orig(self, name, *a)
        print(clock.CLOCK.now_us()-clock.BASE_US, name, a, "->", r)
        return r
    redis_model.Store.call = call
    o2 = redis_model.ModelRedis._do
    def do(self, name, args):
        if name.startswith("__eval"): print(clock.CLOCK.now_us()-clock.BASE_US, "EVAL", [k for k,v in self.store.scripts.items()].index(args[0]) if args[0] in self.store.scripts else args[0], args[2])
        return o2(self, name, args)
    redis_model.ModelRedis._do = do
run, err = cm.run_path(h, h.quick, {k: int(v) for k, v in kv.items()}, [], Stats(), False)
print(err); print(run.violations); print(run.observations, run.stats.reached)
