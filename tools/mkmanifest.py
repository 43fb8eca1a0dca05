"""Writes MANIFEST.json from the harness modules present and the NA list."""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
NA = {
    "C34": "Exporters and propagators live in third-party OpenTelemetry packages and global process state; there is no path from them to an assertion that a solver could decide over docket's own code within reach.",
    "C35": "Needs real network peers (cluster and sentinel topologies, TLS handshakes) implemented in redis-py and the operating system; the code docket adds is URL plumbing whose correctness is defined by those peers, which cannot be encoded here.",
}
NOT_YET = "No check is claimed for this property yet."
LEVEL = ("Bounded symbolic execution of the real Python and Lua source: within the stated bounds the solver decides every assertion over all values of the "
         "symbolic inputs and all explored branch sides; completeness per harness is reported in the evidence. Trusted: the Redis server model and Lua translator "
         "(validated by running the repository's own tests on them), z3, decimal timestamps instead of binary floats, zero-latency Redis operations unless a harness delays them.")
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(ROOT, "harness", i.lower() + ".py")):
        checks.append({
            "property": i,
            "quick_cmd": f"/opt/venv/bin/python check.py {i} --tier quick",
            "thorough_cmd": f"/opt/venv/bin/python check.py {i} --tier thorough",
            "technique": "symbolic execution of the real code (concolic, path-exhaustive within bounds) with z3 deciding every branch and assertion",
            "level": "model_checking",
            "level_note": LEVEL,
        })
    else:
        na.append({"property": i, "reason": NA.get(i, NOT_YET)})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", len(na), "not applicable")
