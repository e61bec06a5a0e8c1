"""
Runs the cases of one property assigned to one worker process, against /repo's working tree.

usage: worker.py CONFIG.json   (writes CONFIG["out"])
"""

from __future__ import annotations

import importlib
import json
import os
import random
import resource
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_WALL_S = 30.0
STEP_BUDGET = 6_000_000


def main() -> None:
    cfg = json.load(open(sys.argv[1]))
    os.environ.pop("REBULK_CHECK_DECLARED_KEYS", None)
    if cfg["backend"] == "regex":
        os.environ["REBULK_REGEX_ENABLED"] = "1"
    else:
        os.environ.pop("REBULK_REGEX_ENABLED", None)
    sys.dont_write_bytecode = True
    sys.path[:0] = [cfg["repo"], VERIF]
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    from vh.core import CaseTimeout, Rec, StepBudget, Violation

    result = {"violation": None, "error": None, "timeouts": 0}
    rec = Rec()

    def finish() -> None:
        result.update(
            cases=rec.cases,
            checks=rec.checks,
            counts=dict(rec.counts),
            distinct=[d.hex() for d in rec.distinct],
            samples=rec.samples,
            backend=cfg["backend"],
        )
        tmp = cfg["out"] + ".tmp"
        with open(tmp, "w") as f:
            json.dump(result, f)
        os.replace(tmp, cfg["out"])

    try:
        import rebulk

        where = os.path.realpath(rebulk.__file__)
        if not where.startswith(os.path.realpath(cfg["repo"]) + os.sep):
            raise RuntimeError(f"rebulk imported from {where}")
        if cfg["backend"] == "regex":
            from rebulk.remodule import REGEX_ENABLED

            if not REGEX_ENABLED:
                raise RuntimeError("regex backend is not enabled")
        mod = importlib.import_module("props." + cfg["prop"])
    except BaseException:
        result["error"] = traceback.format_exc()
        finish()
        return

    def on_alarm(_sig, _frm):
        raise CaseTimeout

    signal.signal(signal.SIGALRM, on_alarm)

    def run_one(i: int, wall: float) -> None:
        rng = random.Random(f"{cfg['prop']}:{cfg['seed']}:{i}")
        rec.start()
        signal.setitimer(signal.ITIMER_REAL, wall)
        try:
            mod.case(rng, rec, i)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)

    def run_counted(i: int) -> str:
        """Re-run a case that hit the wall clock watchdog, counting executed lines."""
        steps = 0

        def tracer(frame, event, arg):
            nonlocal steps
            if event == "line":
                steps += 1
                if steps > STEP_BUDGET:
                    raise StepBudget
            return tracer

        sys.settrace(tracer)
        try:
            run_one(i, 240.0)
        except StepBudget:
            return "hang"
        except CaseTimeout:
            return "unknown"
        finally:
            sys.settrace(None)
        return "ok"

    def engine_failure(e: BaseException) -> bool:
        """An internal failure of the third-party regex compiler (it crashes on some valid patterns)."""
        tb = e.__traceback__
        while tb is not None and tb.tb_next is not None:
            tb = tb.tb_next
        where = tb.tb_frame.f_code.co_filename if tb is not None else ""
        if isinstance(e, AttributeError) and os.path.basename(where) == "_regex_core.py":
            rec.count("regex_compiler_crashed")
            return True
        return False

    def violation(i: int, message: str, tb: str = "") -> None:
        result["violation"] = {
            "property": cfg["prop"],
            "seed": cfg["seed"],
            "backend": cfg["backend"],
            "case": i,
            "message": message,
            "workload": rec.notes,
            "traceback": tb,
        }

    deadline = time.monotonic() + cfg["wall"]
    for i in cfg["only"] if cfg.get("only") is not None else range(cfg["first"], cfg["count"], cfg["step"]):
        if time.monotonic() > deadline:
            rec.count("time_cap_hit")
            break
        with open(cfg["out"] + ".at", "w") as f:
            f.write(str(i))
        try:
            run_one(i, CASE_WALL_S)
        except CaseTimeout:
            try:
                verdict = run_counted(i)
            except Violation as e:
                violation(i, str(e))
                break
            except Exception as e:
                if engine_failure(e):
                    continue
                violation(i, f"unexpected {type(e).__name__}: {e}", traceback.format_exc())
                break
            if verdict == "hang":
                violation(i, f"no termination: more than {STEP_BUDGET} lines executed for one small case")
                break
            if verdict == "unknown":
                result["timeouts"] += 1
        except Violation as e:
            violation(i, str(e))
            break
        except Exception as e:
            if engine_failure(e):
                continue
            violation(i, f"unexpected {type(e).__name__}: {e}", traceback.format_exc())
            break
        rec.cases += 1
    finish()


if __name__ == "__main__":
    main()
