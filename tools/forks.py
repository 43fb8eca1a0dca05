"""forks.py PROP HARNESS [TIER] [N]: where the first N paths fork."""
import collections
import random
import sys
import traceback
sys.path.insert(0, "/verif"); sys.path.insert(0, "/repo/src"); sys.dont_write_bytecode = True
import check
mod = check.load(sys.argv[1], symbolic=True)
from vp import explore, ctx as cm, sym
from vp.sym import Stats
explore.quiet()
h = next(h for h in mod.HARNESSES if h.name == sys.argv[2])
tier = sys.argv[3] if len(sys.argv) > 3 else "quick"
N = int(sys.argv[4]) if len(sys.argv) > 4 else 300
sites = collections.Counter()
class P(list):
    def append(self, x):
        st = [f for f in traceback.extract_stack()[:-1]]
        tail = [f"{f.filename.rsplit('/',1)[-1]}:{f.lineno}({f.name})" for f in st if "/vp/sym.py" not in f.filename]
        sites[" < ".join(reversed(tail[-4:]))] += 1
        list.append(self, x)
init = sym.Run.__init__
def ni(self, *a, **k):
    init(self, *a, **k); self.pending = P()
sym.Run.__init__ = ni
params = dict(h.quick if tier == "quick" else {**h.quick, **(h.thorough or {})})
q = [([], {})]; st = Stats(); n = 0
random.seed(1)
while q and n < N:
    pre, a = q.pop(random.randrange(len(q)))
    run, err = cm.run_path(h, params, a, pre, st, True)
    q.extend(run.pending); n += 1
print(n, "paths,", len(q), "pending")
for s, c in sites.most_common(25): print(c, s)
