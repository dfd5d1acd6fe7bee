"""Command line of the checks: seeded search, minimisation, replay, evidence."""

from __future__ import annotations

import argparse
import json
import os
import pathlib
import queue
import shutil
import subprocess
import sys
import tempfile
import threading
import time

from .registry import REGISTRY

VERIF = pathlib.Path(__file__).resolve().parent.parent
WORKERS = 8
EXIT_OK, EXIT_VIOLATION, EXIT_ERROR = 0, 1, 2


def sub_env(extra=None):
    env = dict(os.environ)
    env["VERIF_SCRATCH"] = SCRATCH
    env["TMPDIR"] = SCRATCH
    if extra:
        env.update(extra)
    return env


SCRATCH = ""


class Worker:
    """One simulator process."""

    def __init__(self, prop, wall, env=None):
        self.wall = wall
        read_fd, write_fd = os.pipe()
        self.log = tempfile.TemporaryFile(dir=SCRATCH)

        self.proc = subprocess.Popen(
            [sys.executable, "-m", "sim.worker", prop, str(wall)],
            stdin=subprocess.PIPE, stdout=subprocess.DEVNULL, stderr=self.log,
            cwd=str(VERIF), env=sub_env(REGISTRY[prop].get("env", {}) | (env or {})
                                         | {"VERIF_FD": str(write_fd)}),
            pass_fds=(write_fd,),
        )
        os.close(write_fd)
        self.lines: queue.Queue = queue.Queue()
        self.reader = threading.Thread(target=self._read, args=(read_fd,), daemon=True)
        self.reader.start()
        self.done = []  # commands executed by this process, in order
        self.boot = self._next(180)

    def _read(self, fd):
        with os.fdopen(fd, "r") as stream:
            for line in stream:
                self.lines.put(line)
        self.lines.put(None)

    def _next(self, timeout):
        try:
            line = self.lines.get(timeout=timeout)
        except queue.Empty:
            self.kill()
            return {"event": "timeout"}
        if line is None:
            self.proc.wait()
            return {"event": "died", "code": self.proc.returncode}
        return json.loads(line)

    def run(self, cmd):
        self.done.append(cmd)
        try:
            self.proc.stdin.write((json.dumps(cmd) + "\n").encode())
            self.proc.stdin.flush()
        except (BrokenPipeError, OSError):
            pass
        res = self._next(self.wall + 60)
        if res["event"] == "timeout":
            return {"status": "violation", "kind": "hang", "fatal": True,
                    "detail": "simulated run hung and had to be killed"}
        if res["event"] == "died":
            return {"status": "violation", "kind": "crash", "fatal": True,
                    "detail": f"the process died (exit status {res['code']}) "
                    + self.tail()}
        return res

    def tail(self):
        self.log.seek(0)
        return self.log.read()[-800:].decode(errors="replace")

    def kill(self):
        if self.proc.poll() is None:
            self.proc.kill()
        self.proc.wait()

    def close(self):
        try:
            self.proc.stdin.close()
            self.proc.wait(10)
        except (OSError, subprocess.TimeoutExpired):
            self.kill()


def run_fresh(prop, wall, cmds):
    """Runs commands in a fresh process; returns the result of the last one."""
    worker = Worker(prop, wall)
    try:
        if worker.boot["event"] != "ready":
            return {"status": "boot", "detail": worker.boot.get("detail", "")}
        res = None
        for cmd in cmds:
            res = worker.run(cmd)
            if res.get("fatal"):
                break
        return res
    finally:
        worker.close()


class Search:
    """Seeded search over many runs in several processes."""

    def __init__(self, prop, seeds, wall, deadline):
        self.prop, self.wall, self.deadline = prop, wall, deadline
        self.results, self.violations, self.harness = [], [], []
        self.lock = threading.Lock()
        self.stop = threading.Event()
        self.todo: queue.Queue = queue.Queue()
        for seed in seeds:
            self.todo.put(seed)
        self.boot_failure = None

    def _drive(self):
        worker = None
        while True:
            try:
                seed = self.todo.get_nowait()
            except queue.Empty:
                break
            if self.stop.is_set() or time.monotonic() > self.deadline:
                break
            if worker is None:
                worker = Worker(self.prop, self.wall)
                if worker.boot["event"] != "ready":
                    self.boot_failure = worker.boot
                    self.stop.set()
                    break
            res = worker.run({"cmd": "seed", "seed": seed})
            res["seed"] = seed
            with self.lock:
                if res["status"] == "violation":
                    res["prefix"] = [c["seed"] for c in worker.done[:-1]]
                    self.violations.append(res)
                    self.stop.set()
                elif res["status"] == "harness":
                    self.harness.append(res)
                if "digest" in res:
                    self.results.append(res)
            if res.get("fatal"):
                worker.close()
                worker = None
        if worker is not None:
            worker.close()

    def go(self):
        threads = [
            threading.Thread(target=self._drive)
            for _ in range(min(WORKERS, self.todo.qsize()))
        ]
        for t in threads:
            t.start()
        for t in threads:
            t.join()


def scenario_of(prop, seed):
    """The scenario of a seed, generated in a fresh process (without running it)."""
    code = (
        "import sys, json, os; sys.path.insert(0, os.environ.get('VERIF_REPO_SRC',"
        "'/repo/src'));"
        "from sim.checks import get_check; from sim.core import Rng, sub_seed;"
        f"s = get_check({prop!r}).generate(Rng(sub_seed({prop!r}, {seed})));"
        "open(sys.argv[1], 'w').write(json.dumps(s))"
    )
    path = os.path.join(SCRATCH, f"scn_{seed}.json")
    subprocess.run([sys.executable, "-c", code, path], cwd=str(VERIF),
                   env=sub_env(REGISTRY[prop].get("env", {})), check=True,
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=300)
    return json.loads(pathlib.Path(path).read_text())


def confirm(prop, wall, viol):
    """Reproduces a violation in a fresh process.  Returns the replay or None."""
    scenario = viol.get("scenario") or scenario_of(prop, viol["seed"])
    res = run_fresh(prop, wall * 2, [{"cmd": "scenario", "scenario": scenario}])
    if res["status"] == "violation":
        return {"scenario": scenario, "prefix": [], "kind": res["kind"],
                "detail": res["detail"], "digest": res.get("digest")}
    # Perhaps it needs what earlier runs left behind in the process.
    prefix = [{"cmd": "seed", "seed": s} for s in viol["prefix"]]
    last = {"cmd": "scenario", "scenario": scenario}
    res = run_fresh(prop, wall * 2, prefix + [last])
    if res["status"] != "violation":
        return None
    end = time.monotonic() + 200
    chunk = max(1, len(prefix) // 2)
    while chunk >= 1 and time.monotonic() < end:
        i = 0
        while i < len(prefix) and time.monotonic() < end:
            cand = prefix[:i] + prefix[i + chunk:]
            if run_fresh(prop, wall, cand + [last])["status"] == "violation":
                prefix = cand
            else:
                i += chunk
        chunk //= 2
    res = run_fresh(prop, wall * 2, prefix + [last])
    if res["status"] != "violation":
        return None
    return {"scenario": scenario, "prefix": [c["seed"] for c in prefix],
            "kind": res["kind"], "detail": res["detail"], "digest": res.get("digest")}


def minimise(prop, wall, replay, budget_s):
    """Greedy minimisation in one process: keep any smaller candidate that still fails
    with the same kind of violation."""
    if replay["prefix"] or replay["kind"] in ("crash", "hang"):
        return replay, 0
    code_end = time.monotonic() + budget_s
    tried = 0
    worker = Worker(prop, wall)
    simplifier = Simplifier(prop)
    best = dict(replay)
    try:
        improved = True
        while improved and time.monotonic() < code_end:
            improved = False
            for cand in simplifier.candidates(best["scenario"]):
                if time.monotonic() > code_end:
                    break
                tried += 1
                res = worker.run({"cmd": "scenario", "scenario": cand})
                if res.get("fatal"):
                    worker.close()
                    worker = Worker(prop, wall)
                    continue
                if res["status"] == "violation" and res["kind"] == best["kind"]:
                    best = {"scenario": cand, "prefix": [], "kind": res["kind"],
                            "detail": res["detail"], "digest": res.get("digest")}
                    improved = True
                    break
    finally:
        worker.close()
    check = run_fresh(prop, wall, [{"cmd": "scenario", "scenario": best["scenario"]}])
    if check["status"] == "violation" and check["kind"] == best["kind"]:
        best["detail"], best["digest"] = check["detail"], check.get("digest")
        return best, tried
    return replay, tried


class Simplifier:
    """Asks a helper process for smaller candidates (needs numpy & co. only there)."""

    def __init__(self, prop):
        self.prop = prop

    def candidates(self, scenario):
        code = (
            "import sys, json, os; sys.path.insert(0, os.environ.get('VERIF_REPO_SRC',"
            "'/repo/src'));"
            "from sim.checks import get_check;"
            f"c = get_check({self.prop!r});"
            "s = json.load(open(sys.argv[1]));"
            "json.dump(list(c.simplify(s)), open(sys.argv[2], 'w'))"
        )
        src = os.path.join(SCRATCH, "min_in.json")
        dst = os.path.join(SCRATCH, "min_out.json")
        pathlib.Path(src).write_text(json.dumps(scenario))
        try:
            subprocess.run(
                [sys.executable, "-c", code, src, dst], cwd=str(VERIF),
                env=sub_env(REGISTRY[self.prop].get("env", {})), check=True,
                stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
            return json.loads(pathlib.Path(dst).read_text())
        except (subprocess.SubprocessError, OSError, ValueError):
            return []


def known_findings(prop):
    out = []
    path = VERIF / "known_findings.txt"
    if path.exists():
        for line in path.read_text().splitlines():
            if line.startswith(f"known: property={prop} "):
                out.append(json.loads(line.split(" ", 2)[2]))
    return out


def determinism_sample(prop, wall, results, count):
    """Re-runs a sample of seeds in a fresh process under another hash seed."""
    sample = [r for r in results if r["status"] == "ok"][:: max(1, len(results) // count)]
    sample = sample[:count]
    if not sample:
        return 0, 0
    worker = Worker(prop, wall, env={"PYTHONHASHSEED": "4711"})
    bad = 0
    try:
        for res in sample:
            again = worker.run({"cmd": "seed", "seed": res["seed"]})
            if again.get("digest") != res["digest"]:
                bad += 1
            if again.get("fatal"):
                break
    finally:
        worker.close()
    return len(sample), bad


def merge(results, key):
    out = {}
    for res in results:
        for name, count in res.get(key, {}).items():
            out[name] = out.get(name, 0) + count
    return dict(sorted(out.items()))


def write_evidence(prop, tier, seed, search, wall_s, extra, n_viol):
    info = REGISTRY[prop]
    results = search.results if search else []
    judged = [r for r in results if r["judged"] > 0]
    shapes = {r["shape"] for r in judged}
    states = set()
    for r in results:
        states.update(r.get("states", ()))
    fired = merge(results, "fired")
    run_s = sum(r.get("run_s", 0.0) for r in results)
    samples = []
    for r in judged[:3]:
        samples.append({"seed": r["seed"], "digest": r["digest"], "judged": r["judged"],
                        "fired": r["fired"], "probes": r["probes"],
                        "integration_steps": r["steps"]})
    coverage = {
        "evaluations": len(results),
        "distinct_nontrivial": len(shapes),
        "rule": info["rule"],
        "samples": samples,
        "seeds_per_hour": round(len(results) / max(wall_s, 1e-9) * 3600),
        "oracle_comparisons": sum(r["judged"] for r in results),
        "integration_steps_simulated": sum(r["steps"] for r in results),
        "simulated_time_units": round(sum(r["sim_time"] for r in results), 3),
        "scheduling_decisions": sum(r["decisions"] for r in results),
        "faults_injected": fired,
        "probes": merge(results, "probes"),
        "distinct_abstract_states": len(states),
        "abstract_state_measure": info.get("state_measure", ""),
        "components_real": info["real"],
        "components_stubbed": info["stub"],
        "worker_seconds": round(run_s, 1),
        "harness_errors": len(search.harness) if search else 0,
    }
    coverage.update(extra)
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": coverage, "assumptions": info["assumptions"],
        "wall_s": round(wall_s, 2), "violations": n_viol,
    }
    path = VERIF / "evidence"
    path.mkdir(exist_ok=True)
    (path / f"{prop}.json").write_text(json.dumps(evidence, indent=1) + "\n")


def do_replay(prop, path, wall):
    data = json.loads(pathlib.Path(path).read_text())
    cmds = [{"cmd": "seed", "seed": s} for s in data.get("prefix", [])]
    cmds.append({"cmd": "scenario", "scenario": {**data["scenario"]}})
    res = run_fresh(data.get("property", prop), wall, cmds)
    print(json.dumps({k: v for k, v in res.items() if k not in ("states",)}, indent=1))
    if res["status"] == "violation":
        same = res.get("digest") == data.get("digest")
        print(f"replayed: {res['kind']}: {res['detail']}")
        print("event log identical to the recorded one" if same
              else "event log differs from the recorded one")
        print(f"VIOLATION property={prop} replay={path}")
        return EXIT_VIOLATION
    if res["status"] == "ok":
        print("replayed: no violation")
        return EXIT_OK
    return EXIT_ERROR


def main():
    global SCRATCH  # pylint: disable=global-statement
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--smoke", action="store_true",
                    help="only find out whether the simulator starts on this tree")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--first", type=int, default=0)
    ap.add_argument("--replay")
    ap.add_argument("--no-evidence", action="store_true")
    args = ap.parse_args()
    if args.smoke:
        print(f"{len(REGISTRY)} checks: {' '.join(REGISTRY)}")
        return EXIT_OK
    prop = args.prop
    info = REGISTRY[prop]
    wall = info.get("run_wall", 120)
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) \
        else None
    os.environ["VERIF_SIM_TIER"] = args.tier
    SCRATCH = tempfile.mkdtemp(prefix=f"verif_{prop}_", dir=base)
    try:
        if args.replay:
            return do_replay(prop, os.path.abspath(args.replay), wall)
        return search_main(args, prop, info, wall)
    finally:
        shutil.rmtree(SCRATCH, ignore_errors=True)


def search_main(args, prop, info, wall):
    quick = args.tier != "thorough"
    runs = args.runs or (info["quick_runs"] if quick else info["quick_runs"] * 25)
    cap = info.get("quick_cap", 240) if quick else 3 * 3600
    start = time.monotonic()
    # one VERIF_SEED is one fixed list of run seeds
    first = args.seed * 1_000_000 + args.first
    pending = list(range(first, first + runs))
    print(f"property {prop}: {info['title']}")
    print(f"VERIF_SEED={args.seed} tier={args.tier} runs={runs} "
          f"(run seeds {pending[0]}..{pending[-1]})", flush=True)
    all_results, unreproduced, harness, report = [], [], [], None
    known_hit = []
    known = known_findings(prop)
    search = None
    while pending:
        search = Search(prop, pending, wall, start + cap)
        search.go()
        all_results += search.results
        harness += search.harness
        if search.boot_failure is not None:
            print("the simulator cannot be started on this tree:")
            print(search.boot_failure.get("detail", search.boot_failure))
            search.results = all_results
            search.harness = harness + [search.boot_failure]
            write_evidence(prop, args.tier, args.seed, search,
                           time.monotonic() - start, {}, 0)
            return EXIT_ERROR
        if not search.violations:
            break
        for viol in sorted(search.violations, key=lambda v: v["seed"]):
            replay = confirm(prop, wall, viol)
            if replay is None:
                unreproduced.append({"seed": viol["seed"], "kind": viol["kind"],
                                     "detail": viol["detail"]})
                print(f"not reproducible, ignored: seed {viol['seed']} {viol['kind']} "
                      f"{viol['detail'][:300]}")
                continue
            hit = next((k for k in known if k["kind"] == replay["kind"]
                        and k["match"] in replay["detail"]), None)
            if hit:
                known_hit.append(hit)
                continue
            report = (viol, replay)
            break
        if report:
            break
        seen = {r["seed"] for r in all_results} | {u["seed"] for u in unreproduced} | {
            v["seed"] for v in search.violations}
        pending = [s for s in pending if s not in seen]
        if time.monotonic() > start + cap:
            break
    search.results, search.harness = all_results, harness
    extra = {"unreproduced_failures": unreproduced}
    for k in {json.dumps(k, sort_keys=True) for k in known_hit}:
        print(f"KNOWN-FINDING: property={prop} {json.loads(k)['what']}")
    if report:
        viol, replay = report
        small, tried = minimise(prop, wall, replay, 90 if quick else 600)
        folder = VERIF / "replays"
        folder.mkdir(exist_ok=True)
        path = folder / f"{prop}_{viol['seed']}.json"
        path.write_text(json.dumps(
            {"property": prop, "seed": viol["seed"], **small,
             "minimisation_candidates_tried": tried}, indent=1) + "\n")
        extra["replay"] = str(path)
        extra["minimisation_candidates_tried"] = tried
        write_evidence(prop, args.tier, args.seed, search, time.monotonic() - start,
                       extra, 1)
        print(f"seed {viol['seed']}: {small['kind']}: {small['detail']}")
        print(f"VIOLATION property={prop} replay={path}")
        return EXIT_VIOLATION
    checked, bad = determinism_sample(prop, wall, all_results, 6 if quick else 40)
    extra["determinism_sample_rerun_other_hashseed"] = checked
    extra["determinism_mismatches"] = bad
    wall_s = time.monotonic() - start
    if not args.no_evidence:
        write_evidence(prop, args.tier, args.seed, search, wall_s, extra, 0)
    slow = sorted(all_results, key=lambda r: -r.get("run_s", 0))[:3]
    print("slowest runs: " + ", ".join(f"{r['seed']} {r['run_s']:.1f} s" for r in slow))
    print(f"{len(all_results)} runs, "
          f"{sum(r['judged'] for r in all_results)} oracle comparisons, "
          f"faults {merge(all_results, 'fired')}, probes {merge(all_results, 'probes')}, "
          f"determinism {checked - bad}/{checked}, {wall_s:.0f} s")
    if harness:
        print(f"{len(harness)} harness errors, e.g. seed {harness[0].get('seed')}:")
        print(harness[0]["detail"])
    if len(harness) > 0.2 * max(1, len(all_results)) or not all_results:
        return EXIT_ERROR
    return EXIT_OK


if __name__ == "__main__":
    sys.exit(main())
