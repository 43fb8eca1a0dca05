"""pytest plugin: run the repository's own tests against the Redis model."""
import sys
sys.path.insert(0, "/verif")
from vp import clock, redis_model
clock.CLOCK.real = True
redis_model.install_fake_burner()
_orig = redis_model.ModelRedis.__init__
def _init(self, store=None):
    _orig(self, store if store is not None else redis_model.Store())
redis_model.ModelRedis.__init__ = _init

def pytest_sessionfinish(session):
    import os
    p = os.environ.get("VP_MODEL_COUNT")
    if p:
        with open(p, "a") as f:
            f.write(f"{redis_model.LUA_CALLS}\n")
