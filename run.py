#!/usr/bin/env python3
"""
Decide a property by monitoring executions of /repo's working tree.

usage: run.py PROPERTY            run the check (VERIF_TIER, VERIF_SEED)
       run.py setup               make sure that everything needed is there
       run.py replay FILE         run again the case recorded by a violation
       run.py all [PROPERTY...]   run every check of MANIFEST.json, one after another
"""

from __future__ import annotations

import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
PYTHON = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
WORKERS = 8
WALL = {"quick": 60.0, "thorough": 600.0}
LEVEL = "exploration"


def findings(prop: str) -> list[dict]:
    """Known (unrepaired) findings of a property. ``fixed`` entries suppress nothing."""
    ret = []
    with open(os.path.join(VERIF, "known_findings.txt")) as f:
        for line in f:
            if line.startswith("known:"):
                entry = json.loads(line[len("known:"):])
                if entry["property"] == prop:
                    ret.append(entry)
    return ret


def launch(cfg: dict, workdir: str, tag: str) -> tuple[subprocess.Popen, dict]:
    cfg = dict(cfg, out=os.path.join(workdir, tag + ".out"))
    path = os.path.join(workdir, tag + ".json")
    with open(path, "w") as f:
        json.dump(cfg, f)
    env = dict(os.environ, PYTHONHASHSEED=str(1 + (cfg["seed"] * 31 + cfg["first"]) % 1000), PYTHONDONTWRITEBYTECODE="1")
    env.pop("PYTHONPATH", None)
    proc = subprocess.Popen(
        [PYTHON, "-B", os.path.join(VERIF, "vh", "worker.py"), path],
        cwd=workdir,
        env=env,
        stdin=subprocess.DEVNULL,
        stdout=open(os.path.join(workdir, tag + ".log"), "w"),
        stderr=subprocess.STDOUT,
        start_new_session=True,
    )
    return proc, cfg


def collect(proc: subprocess.Popen, cfg: dict, timeout: float) -> dict:
    try:
        proc.wait(timeout)
    except subprocess.TimeoutExpired:
        os.killpg(proc.pid, signal.SIGKILL)
        proc.wait()
    if os.path.exists(cfg["out"]):
        with open(cfg["out"]) as f:
            return json.load(f)
    at = None
    try:
        at = int(open(cfg["out"] + ".at").read())
    except (OSError, ValueError):
        pass
    return {"died": proc.returncode, "at": at, "backend": cfg["backend"]}


def write_replay(v: dict) -> str:
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    path = os.path.join(VERIF, "replays", f"{v['property']}-{v['backend']}-{v['seed']}-{v['case']}.json")
    with open(path, "w") as f:
        json.dump(v, f, indent=1)
    return path


def load(prop: str):
    """Constants of a property module (read without importing rebulk)."""
    sys.path.insert(0, VERIF)
    import ast

    consts = {}
    with open(os.path.join(VERIF, "props", prop + ".py")) as f:
        for node in ast.parse(f.read()).body:
            if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
                try:
                    consts[node.targets[0].id] = ast.literal_eval(node.value)
                except ValueError:
                    pass
    return consts


def check(prop: str) -> int:
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in WALL:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.monotonic()
    consts = load(prop)
    backends = consts.get("BACKENDS", ["re", "regex"])
    count = consts["QUICK"] if tier == "quick" else consts.get("THOROUGH", consts["QUICK"] * 40)
    wall = WALL[tier]
    workdir = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    violation = None
    errors: list[str] = []
    results: list[dict] = []
    try:
        procs = []
        base = {"prop": prop, "seed": seed, "repo": REPO, "wall": wall, "count": count, "step": WORKERS, "tier": tier}
        for w in range(WORKERS):
            procs.append(launch(dict(base, first=w, backend=backends[w % len(backends)]), workdir, f"w{w}"))
        for proc, cfg in procs:
            res = collect(proc, cfg, wall + 330)
            if "died" in res:
                # Crashed (or killed): run its last case again, alone, to know whether it is the case.
                again = None
                if res["at"] is not None:
                    proc2, cfg2 = launch(dict(cfg, only=[res["at"]], wall=300), workdir, f"again{cfg['first']}")
                    again = collect(proc2, cfg2, 330)
                if again is not None and "died" in again and again["died"] not in (0, -signal.SIGKILL):
                    violation = violation or {
                        "property": prop,
                        "seed": seed,
                        "backend": cfg["backend"],
                        "case": res["at"],
                        "message": f"the interpreter died (status {again['died']}) while running the case",
                        "workload": [],
                        "traceback": "",
                    }
                elif again is not None and again.get("violation"):
                    violation = violation or again["violation"]
                else:
                    errors.append(f"worker {cfg['first']} died with status {res['died']} at case {res['at']}")
                continue
            results.append(res)
            if res["error"]:
                errors.append(res["error"])
            if res["violation"] and violation is None:
                violation = res["violation"]
    finally:
        shutil.rmtree(workdir, ignore_errors=True)

    distinct: set[str] = set()
    counts: dict[str, int] = {}
    samples: list[str] = []
    per_backend: dict[str, int] = {}
    for res in results:
        distinct.update(res["distinct"])
        for k, n in res["counts"].items():
            counts[k] = counts.get(k, 0) + n
        samples.extend(res["samples"][:1])
        per_backend[res["backend"]] = per_backend.get(res["backend"], 0) + res["cases"]
    cases = sum(r["cases"] for r in results)
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": LEVEL,
        "coverage": {
            "evaluations": cases,
            "distinct_nontrivial": len(distinct),
            "rule": consts["RULE"],
            "samples": samples[:6],
            "oracle_evaluations": sum(r["checks"] for r in results),
            "observed": dict(sorted(counts.items())),
            "cases_per_backend": per_backend,
            "planned_cases": count,
            "case_timeouts": sum(r["timeouts"] for r in results),
        },
        "wall_s": round(time.monotonic() - t0, 2),
    }
    if violation:
        evidence["coverage"]["violation"] = violation["message"][:500]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)

    for entry in findings(prop):
        print(f"KNOWN-FINDING: property={prop} {entry['what']}")
    if violation:
        path = write_replay(violation)
        print(violation["message"][:1500])
        for line in violation["workload"]:
            print("   ", line[:400])
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        print("INCONCLUSIVE:", "\n".join(errors)[:3000])
        return 2
    if cases == 0 or not distinct:
        print("INCONCLUSIVE: the monitors observed nothing")
        return 2
    print(
        f"{prop}: held on {cases} cases, {evidence['coverage']['oracle_evaluations']} oracle evaluations, "
        f"{len(distinct)} distinct executions, {evidence['wall_s']} s"
    )
    return 0


def replay(path: str) -> int:
    with open(path) as f:
        v = json.load(f)
    workdir = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        proc, cfg = launch(
            {"prop": v["property"], "seed": v["seed"], "repo": REPO, "wall": 300, "only": [v["case"]], "first": v["case"] % WORKERS, "backend": v["backend"], "tier": "quick"},
            workdir,
            "replay",
        )
        res = collect(proc, cfg, 600)
    finally:
        shutil.rmtree(workdir, ignore_errors=True)
    print(json.dumps(res.get("violation") or {k: x for k, x in res.items() if k != "distinct"}, indent=1))
    return 1 if res.get("violation") or "died" in res else 0


def main() -> int:
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == "setup":
        # nothing to build: only make sure that the interpreter, the engines and the modules are there
        code = "import regex, sys; sys.path[:0] = [%r, %r]; import rebulk, vh.core" % (REPO, VERIF)
        return subprocess.run([PYTHON, "-B", "-c", code], cwd="/").returncode
    if sys.argv[1] == "replay":
        return replay(sys.argv[2])
    if sys.argv[1] == "all":
        props = sys.argv[2:] or [c["property"] for c in json.load(open(os.path.join(VERIF, "MANIFEST.json")))["checks"]]
        return max(check(p) for p in props)
    return check(sys.argv[1])


if __name__ == "__main__":
    sys.exit(main())
