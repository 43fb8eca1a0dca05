#!/opt/venv/bin/python
"""check.py PROPERTY [--tier quick|thorough] [--harness NAME] | --replay FILE

Exit 0: the property held on everything explored.  Exit 1: VIOLATION line(s).
Exit 2: the machinery could not decide (never a verdict).
"""

from __future__ import annotations

import argparse
import hashlib
import importlib
import json
import os
import subprocess
import sys
import time
from typing import Any

HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("VP_DEV_SRC") or "/repo/src")  # VP_DEV_SRC: only while developing a fix
for k in list(os.environ):
    if k.startswith("DOCKET_") or k.startswith("OTEL_"):
        del os.environ[k]

EVID = os.environ.get("VP_EVIDENCE_DIR") or os.path.join(HERE, "evidence")
KNOWN = os.path.join(HERE, "KNOWN_FINDINGS.txt")


def load(prop: str, symbolic: bool) -> Any:
    """Import docket (from /repo's working tree), the stand-ins, the harnesses."""
    from vp import clock, ctx, redis_model

    redis_model.install_fake_burner()
    import pkgutil

    import docket

    assert docket.__file__.startswith(sys.path[0] if "VP_DEV_SRC" in os.environ else "/repo/src/"), docket.__file__
    for m in pkgutil.walk_packages(docket.__path__, "docket."):
        if m.name != "docket.__main__" and not m.name.endswith("__main__"):
            try:
                importlib.import_module(m.name)
            except ImportError:
                pass
    clock.patch_modules(clock_only=not symbolic)
    ctx.patch_ids()
    return importlib.import_module(f"harness.{prop.lower()}")


def known_findings(prop: str) -> list[dict[str, str]]:
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if not line.startswith("finding:"):
                continue
            head, _, desc = line[len("finding:"):].partition("--")
            kv = dict(p.split("=", 1) for p in head.split())
            if kv.get("property") == prop:
                kv["desc"] = desc.strip()
                out.append(kv)
    return out


def source_digest() -> str:
    h = hashlib.sha1()
    for root, _, files in sorted(os.walk("/repo/src/docket")):
        for f in sorted(files):
            if f.endswith(".py"):
                h.update(open(os.path.join(root, f), "rb").read())
    return h.hexdigest()


def do_replay(path: str) -> int:
    """Concrete re-execution of a counterexample on the real code: plain ints
    and datetimes, only the clock and the Redis server stood in for."""
    from vp import explore
    from vp.ctx import run_path
    from vp.sym import Stats

    spec = json.load(open(path))
    mod = load(spec["property"], symbolic=False)
    explore.quiet()
    h = next(h for h in mod.HARNESSES if h.name == spec["harness"])
    run, err = run_path(h, spec["params"], spec["assignment"], [], Stats(), False)
    if err:
        print("replay error:", err)
        return 2
    if run.violations:
        v = run.violations[0]
        print(f"reproduced: {v['label']}: {v['detail']}")
        return 1
    print("not reproduced")
    return 0


def functions_encoded(prop: str, mod: Any) -> list[str]:
    return list(getattr(mod, "FUNCTIONS", []))


def main() -> int:
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--harness")
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.replay:
        return do_replay(a.replay)
    t0 = time.time()
    tier = "thorough" if a.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    prop = a.prop.upper()
    mod = load(prop, symbolic=True)
    from vp import explore
    from vp.sym import Stats

    todo = []
    for h in mod.HARNESSES:
        if a.harness and h.name != a.harness:
            continue
        if tier not in h.tiers:
            continue
        params = dict(h.quick)
        if tier == "thorough" and h.thorough is not None:
            params.update(h.thorough)
        todo.append((h, params, h.budget_thorough if tier == "thorough" else h.budget_quick))
    wall_cap = 780.0 if tier == "quick" else 6 * 3600.0
    wall_cap = float(os.environ.get("VP_WALL_CAP", wall_cap))
    results = explore.explore(todo, seed, wall_cap)

    total = Stats()
    known = known_findings(prop)
    errors: list[str] = []
    confirmed: list[tuple[str, dict[str, Any]]] = []
    known_hits: dict[str, str] = {}
    unconfirmed: list[str] = []
    rdir = os.path.join(EVID, "replays")
    os.makedirs(rdir, exist_ok=True)
    per: list[dict[str, Any]] = []
    for (h, params, budget), r in zip(todo, results):
        total.merge(r.stats)
        missing = [x for x in h.reach if x not in r.stats.reached]
        for e in r.errors[:2]:
            errors.append(f"[{h.name}] {e}")
        by: dict[str, list[dict[str, Any]]] = {}
        for v in r.viol:
            by.setdefault(v["label"], []).append(v)
        n_new = 0
        for label, vs in sorted(by.items()):
            kf = [k for k in known if k.get("harness") == h.name and k.get("label") == label.replace(" ", "_")]
            done = False
            for i, v in enumerate(vs[:6]):
                path = os.path.join(rdir, f"{prop}-{h.name}-{hashlib.sha1(label.encode()).hexdigest()[:6]}-{i}.json")
                json.dump(
                    {"property": prop, "harness": h.name, "tier": tier, "params": params, "label": label,
                     "detail": v["detail"], "assignment": v["assignment"],
                     "replay_cmd": f"{sys.executable} {HERE}/check.py --replay {path}"},
                    open(path, "w"), indent=1)
                p = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), "--replay", path],
                                   capture_output=True, text=True, timeout=300)
                if p.returncode == 1:
                    done = True
                    got = p.stdout.strip().split("\n")[-1]
                    if kf:
                        known_hits[label] = kf[0]["desc"]
                    else:
                        confirmed.append((path, v))
                        n_new += 1
                        print(f"counterexample [{h.name}] {label}: {v['detail'][-600:]}")
                        print(f"  inputs: {json.dumps(v['assignment'])}")
                        print(f"  replay: {got[:300]}")
                    break
                if a.v or p.returncode not in (0, 1):
                    print(f"  (replay of {label} -> rc={p.returncode}: {p.stdout[-400:]}{p.stderr[-800:]})")
            if not done:
                unconfirmed.append(f"[{h.name}] {label}: {vs[0]['detail'][-800:]} {vs[0]['assignment']}")
        if missing and not n_new and not by and not r.exhaustive and r.stats.paths:
            print(f"note: [{h.name}] not reached within the budget: {missing}")
        elif missing and not n_new and not by:
            errors.append(f"[{h.name}] vacuous: never reached {missing}")
        per.append({
            "harness": h.name, "bounds": h.bounds, "params": params, "paths": r.stats.paths,
            "exhausted_within_bounds": r.exhaustive, "unexplored_branch_sides": r.unexplored,
            "branches": r.stats.branches, "queries": r.stats.queries, "solver_s": round(r.stats.solver_s, 3),
            "assertions": r.stats.checks, "assertion_queries": r.stats.check_queries,
            "cpu_s": round(r.cpu, 2), "reached": dict(sorted(r.stats.reached.items())),
            "checked": dict(sorted(r.stats.check_labels.items())),
            "pins": r.stats.pins, "truncated": r.stats.truncated, "divergences": r.stats.divergences,
            "unknown": r.stats.unknown, "assumptions": h.assumptions,
        })
        if a.v:
            print(json.dumps(per[-1]))
            for s in r.samples:
                if "MISMATCH" in s or "DIVERGED" in s:
                    print(json.dumps(s)[:3000])
    if total.unknown:
        errors.append(f"{total.unknown} solver queries came back unknown")
    if total.replay_mismatch and total.replay_mismatch <= max(3, total.replayed * 3 // 100):
        # ties that come out the other way in floating point; in the evidence as validation.mismatches
        print(f"note: {total.replay_mismatch} of {total.replayed} sampled paths came out differently in concrete floating point")
    elif total.replay_mismatch:
        errors.append(f"{total.replay_mismatch} of {total.replayed} sampled paths behaved differently when executed concretely: "
                      + json.dumps([s for r in results for s in r.samples if "MISMATCH" in s][:1])[:1500])
    samples = [s for r in results for s in r.samples if "MISMATCH" not in s and "DIVERGED" not in s][:8]
    if os.path.isdir(EVID) or not a.harness:
        evidence = {
            "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
            "coverage": {
                "states": total.redis_ops + total.branches,
                "transitions": total.redis_ops,
                "traces_validated_against_impl": total.replayed - total.replay_mismatch,
                "samples": samples,
                "exhaustive": all(r.exhaustive for r in results),
                "explanation": "states = symbolic branch points plus Redis commands executed on symbolic stores; transitions = Redis commands executed; "
                               "traces_validated = explored paths re-executed concretely with the same observations",
                "paths": total.paths, "branches_decided": total.branches, "queries": total.queries,
                "queries_sat": total.sat, "queries_unsat": total.unsat, "queries_unknown": total.unknown,
                "solver_s": round(total.solver_s, 3), "assertions_checked": total.checks,
                "assertion_queries": total.check_queries, "lua_scripts_evaluated": total.lua_evals,
                "distinct_lua_scripts": len(total.scripts), "redis_commands": dict(sorted(total.commands.items())),
                "functions_encoded": functions_encoded(prop, mod), "source_sha1": source_digest(),
                "harnesses": per,
            },
            "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + [x for h, _, _ in todo for x in h.assumptions],
            "wall_s": round(time.time() - t0, 3),
            "violations": len(confirmed),
        }
        os.makedirs(EVID, exist_ok=True)
        if not a.harness:
            tmp = os.path.join(EVID, f".{prop}.json.tmp")
            json.dump(evidence, open(tmp, "w"), indent=1)
            os.replace(tmp, os.path.join(EVID, f"{prop}.json"))
    for label, desc in known_hits.items():
        print(f"KNOWN-FINDING: property={prop} {desc}")
    print(f"{prop} {tier}: {total.paths} paths, {total.queries} queries ({total.solver_s:.1f}s solver), {total.checks} assertions, "
          f"{total.replayed} traces validated, exhaustive={all(r.exhaustive for r in results)}, {time.time() - t0:.1f}s")
    for path, v in confirmed:
        print(f"VIOLATION property={prop} replay={path}")
    if confirmed:
        return 1
    if unconfirmed:
        print("unconfirmed counterexamples (machinery error):")
        for u in unconfirmed:
            print("  ", u)
        return 2
    if errors:
        print("errors:")
        for e in errors[:5]:
            print("  ", e)
        return 2
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except BaseException:
        import traceback

        traceback.print_exc()
        rc = 2  # no answer: never mistaken for a violation
    sys.stdout.flush()
    os._exit(rc)
