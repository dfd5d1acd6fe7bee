"""Worker process: executes simulated runs, one JSON line per event on the descriptor VERIF_FD.

Commands arrive as JSON lines on stdin:
  {"cmd": "seed", "seed": n}            generate from the seed and execute
  {"cmd": "scenario", "scenario": ...}  execute a given scenario
"""

from __future__ import annotations

import gc
import json
import os
import signal
import sys
import time
import traceback
import warnings

REPO_SRC = os.environ.get("VERIF_REPO_SRC", "/repo/src")
sys.path.insert(0, REPO_SRC)


class RunTimeout(BaseException):
    """Wall clock watchdog of one run (backstop; step budgets come first)."""


def _alarm(signum, frame):
    raise RunTimeout()


def raised_by_library(exc):
    """The library function an unexpected exception went through, if any."""
    found = None
    tb = exc.__traceback__
    while tb is not None:
        name = tb.tb_frame.f_code.co_filename
        if name.startswith(REPO_SRC):
            found = f"{os.path.basename(name)}:{tb.tb_frame.f_code.co_name}"
        tb = tb.tb_next
    return found


def run_scenario(check, scenario, wall):
    from .core import CTX, HarnessError, Violation, reset_context

    gc.collect()
    reset_context()
    out = {"status": "ok"}
    signal.setitimer(signal.ITIMER_REAL, wall)
    try:
        check.execute(scenario)
    except Violation as exc:
        out = {"status": "violation", "kind": exc.kind, "detail": exc.detail[:1500]}
    except RunTimeout:
        out = {"status": "violation", "kind": "hang",
               "detail": f"run did not finish within {wall} s of wall clock"}
    except BaseException as exc:  # pylint: disable=broad-except
        if raised_by_library(exc) and not isinstance(exc, HarnessError):
            out = {"status": "violation", "kind": "unexpected-error",
                   "detail": f"{type(exc).__name__}: {str(exc)[:500]} raised by "
                   f"{raised_by_library(exc)} without any injected fault"}
        else:
            out = {"status": "harness", "detail": traceback.format_exc()[-3000:]}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    out.update(
        digest=CTX.digest(), fired=CTX.fired, probes=CTX.probes, steps=CTX.steps,
        sim_time=CTX.sim_time, judged=CTX.judged, shape=CTX.shape_digest(),
        states=sorted(CTX.states), log=len(CTX.log), decisions=CTX.decisions,
    )
    if scenario.get("want_log"):
        out["lines"] = CTX.log[-200:]
    return out


def main():
    prop = sys.argv[1]
    wall = float(sys.argv[2])
    out = os.fdopen(int(os.environ["VERIF_FD"]), "w", buffering=1)
    warnings.simplefilter("ignore")
    signal.signal(signal.SIGALRM, _alarm)
    t0 = time.perf_counter()
    try:
        from .checks import get_check
        from .core import Rng, sub_seed

        check = get_check(prop)
        # the collector only runs where the simulation says so
        gc.collect()
        gc.freeze()
        gc.disable()
    except BaseException as exc:  # pylint: disable=broad-except
        # The package under test cannot even be imported/configured.
        out.write(json.dumps({"event": "boot-failure",
                              "detail": traceback.format_exc()[-3000:],
                              "type": type(exc).__name__}) + "\n")
        return
    out.write(json.dumps({"event": "ready", "boot_s": time.perf_counter() - t0}) + "\n")
    for line in sys.stdin:
        cmd = json.loads(line)
        if cmd["cmd"] == "seed":
            rng = Rng(sub_seed(prop, cmd["seed"]))
            try:
                scenario = check.generate(rng)
                # scenarios are JSON: what is replayed is exactly what ran
                scenario = json.loads(json.dumps(scenario))
            except BaseException:  # pylint: disable=broad-except
                out.write(json.dumps({"event": "result", "status": "harness",
                                      "seed": cmd["seed"], "id": cmd.get("id"),
                                      "detail": traceback.format_exc()[-3000:]}) + "\n")
                continue
        else:
            scenario = cmd["scenario"]
        t1 = time.perf_counter()
        res = run_scenario(check, scenario, wall)
        res["run_s"] = time.perf_counter() - t1
        res["event"] = "result"
        res["id"] = cmd.get("id")
        if cmd["cmd"] == "seed":
            res["seed"] = cmd["seed"]
            if res["status"] != "ok" or cmd.get("want_scenario"):
                res["scenario"] = scenario
        out.write(json.dumps(res) + "\n")


if __name__ == "__main__":
    main()
