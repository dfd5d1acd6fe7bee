"""P19: what the integrator reports about its progress is true.

The shipped callbacks (IterationLogging, WallClockMeasurement) run against a simulated
clock and a simulated terminal.  Every call of user code takes a seeded amount of simulated
time (nothing, microseconds, hours), every line printed is a fault point and is stamped
with the simulated time."""

from __future__ import annotations

import contextlib
import errno
import re
import time

import rkopenmdao.callback as callback_module
from rkopenmdao.callback import IterationLogging, WallClockMeasurement

from . import world1
from .checks_mpi import Parallel, REPORTED
from .checks_protocol import _RunnerCheck
from .core import CTX, HarnessError, Rng, Violation, sub_seed
from .history import (
    Runner, Scratch, bind_scratch, random_history, random_inst, random_ops,
)
from .world1 import Instance

ACTIONS = {"enospc": OSError, "eio": OSError, "interrupt": KeyboardInterrupt,
           "memory_error": MemoryError}
STEP_LINE = re.compile(r"^(Starting|Finishing) step <(.*)> of (.*)\.$")
TRY_LINE = re.compile(r"^Start Iteration (\d+): Trying with (\S+)$")
DONE_LINE = re.compile(r"^End Iteration (\d+): (\S+) (succeeded|failed)\.$")
NEXT_LINE = re.compile(r"^(?:Estimation for next step is|retrying with): (\S+)$")
BANNER = re.compile(r"^=+ (compute|fwd-mode jacvec product|rev-mode jacvec product) "
                    r"(starts|ends) =+$")
BANNERS = {"compute": "compute", "fwd": "fwd-mode jacvec product",
           "rev": "rev-mode jacvec product"}
TIME_LINE = re.compile(r"^Iteration took (.*) seconds\.$")

CLOCKS = ("perf_counter", "monotonic", "time", "process_time")


class SimTime:
    """Clock that only the simulated user code moves."""

    def __init__(self, seed, pace):
        self.rng = Rng(sub_seed("clock", seed))
        self.pace = pace
        self.now = self.rng.choice([0.0, 17.25, 1.5e5, 3.0e6])

    def advance(self):
        pace = self.pace if self.pace != "mixed" else self.rng.choice(
            ["stopped", "fast", "slow", "jump"])
        self.now += {
            "stopped": lambda: 0.0,
            "fast": lambda: self.rng.uniform(1e-6, 1e-3),
            "slow": lambda: self.rng.uniform(0.1, 50.0),
            "jump": lambda: self.rng.choice([0.0, 0.0, 3600.0, 86400.0]),
        }[pace]()

    def seconds(self):
        return self.now

    def nanoseconds(self):
        return int(round(self.now * 1e9))


class Terminal:
    """Standard output; printing may fail."""

    def __init__(self, clock):
        self.clock = clock
        self.real = world1._DEVNULL
        self.lines = []
        self._part = ""
        self._stamp = None

    def write(self, text):
        if text.strip():
            action = CTX.hit("stdout")
            if action in ("enospc", "eio"):
                raise OSError(getattr(errno, action.upper()), "injected: standard output")
            if action is not None:
                raise ACTIONS[action]("injected while printing")
        for char in text:
            if char == "\n":
                self.lines.append((self._part, self.clock.now, len(CTX.trace or ())))
                self._part = ""
            else:
                self._part += char
        return len(text)

    def flush(self):
        pass

    def isatty(self):
        return False

    def fileno(self):
        # (what native code prints)
        return self.real.fileno()

    def drop(self):
        self.lines, self._part = [], ""


@contextlib.contextmanager
def installed(clock, terminal):
    """Everything the library could read the time from or print to is simulated."""
    saved = [(mod, name, getattr(mod, name))
             for mod in (time, callback_module)
             for name in (*CLOCKS, *(c + "_ns" for c in CLOCKS))
             if callable(getattr(mod, name, None))]
    stdout, hit = world1._DEVNULL, CTX.hit

    def ticking_hit(kind, instance=""):
        if kind != "stdout":
            clock.advance()
        return hit(kind, instance)

    for mod, name, _ in saved:
        setattr(mod, name, clock.nanoseconds if name.endswith("_ns") else clock.seconds)
    world1._DEVNULL = terminal
    CTX.hit = ticking_hit
    try:
        yield
    finally:
        for mod, name, func in saved:
            setattr(mod, name, func)
        world1._DEVNULL = stdout
        CTX.__dict__.pop("hit", None)


class Watched(Instance):
    """Instance that remembers what its last operation printed and computed."""

    terminal = None

    def _watch(self, func, *args):
        start, first = len(self.terminal.lines), len(CTX.trace)
        try:
            return func(*args)
        finally:
            self.lines = [(text.strip(), at - first)
                          for text, _, at in self.terminal.lines[start:]]
            self.stages = [(e[0] == self.name, e[2]) for e in CTX.trace[first:]]

    def compute(self, pt):
        return self._watch(super().compute, pt)

    def fwd(self, pt, direction):
        return self._watch(super().fwd, pt, direction)

    def rev(self, pt, direction):
        return self._watch(super().rev, pt, direction)


class _Runner(Runner):
    """Runner that knows which callbacks every integrator has."""

    def start(self):
        super().start()
        for inst, data in zip(self.insts, self.scn["insts"]):
            if data.get("logs"):
                self.apply(inst, data["logs"])
                inst.resetup()

    def judge(self, *args):
        # values are looked at once printing failed
        self.check = ("compute", "fwd", "rev") if any(
            name.startswith("stdout:") for name in CTX.fired) else ()
        super().judge(*args)

    @staticmethod
    def apply(inst, logs):
        clocks = {}
        for label, entry in logs.items():
            key = REPORTED[label] + "_callbacks"
            if entry is None:
                inst.integrator.options[key] = None
                continue
            made = []
            for item in entry:
                if item.startswith("log:"):
                    made.append(IterationLogging(item[4:]))
                else:
                    made.append(clocks.setdefault(item + label, WallClockMeasurement()))
            inst.integrator.options[key] = made


class RankReports(Parallel):
    """Several ranks, default callbacks for some of the functions."""

    def generate(self, rng):
        scn = super().generate(rng)
        scn["report"] = list(REPORTED) if rng.chance(0.6) else (
            rng.sample(list(REPORTED), rng.choice([1, 2])))
        scn["ops"] = [op for op in scn["ops"] if (
            op["op"] not in ("om_totals", "norm"))][:3] or [
            {"op": "compute", "pt": 0, "dir": 0}]
        return scn


class Reports(_RunnerCheck):
    def generate(self, rng):
        if rng.chance(0.06):
            return RankReports().generate(rng)
        scn = random_history(rng, faults=0.25, n_ops=(2, 6), storage=0.1)
        if rng.chance(0.3):
            scn["insts"].append(random_inst(rng))
            scn["ops"] = random_ops(rng, scn["insts"], faults=0.25, n_ops=(3, 7),
                                    resetup=lambda r, d: None)
        scn["recorders"] = False
        scn["pace"] = rng.choice(["mixed", "mixed", "fast", "slow", "stopped", "jump"])
        scn["clock"] = rng.randrange(10**6)
        for data in scn["insts"]:
            if rng.chance(0.5):
                continue
            logs = {}
            for label in REPORTED:
                name = f"{label} of #{rng.randrange(9)}"
                logs[label] = rng.choice([
                    None, None, [], ["log:" + name], ["log:" + name, "clock"],
                    ["log:" + name, "clock", "log:again " + name, "clock2"],
                    ["log:" + name, "clock2", "clock"],
                ])
            data["logs"] = logs
        for op in scn["ops"]:
            for fault in op.get("faults", ()):
                if rng.chance(0.4):
                    fault.update(kind="stdout", nth=rng.choice([1, 2, 3, 4, 5, 7, 9, 12]),
                                 action=rng.choice(list(ACTIONS)))
        return scn

    def make_runner(self, scn):
        self.clock = SimTime(scn["clock"], scn["pace"])
        self.terminal = Terminal(self.clock)

        def make(index, data):
            inst = Watched(data["spec"], data["cfg"], f"i{index}", recorders=False,
                           mode=scn.get("mode", "rev"))
            inst.terminal = self.terminal
            return inst

        return _Runner(scn, on_op=self.on_op, make_instance=make)

    def simplify(self, scn):
        if "ranks" in scn:
            yield from RankReports().simplify(scn)
        else:
            yield from super().simplify(scn)

    def execute(self, scn):
        if "ranks" in scn:
            RankReports().execute(scn)
            return
        with Scratch() as scratch:
            self.runner = self.make_runner(bind_scratch(scn, scratch))
            step = self.runner.step

            def one(index, op):
                self.terminal.drop()
                CTX.trace = []
                try:
                    step(index, op)
                finally:
                    CTX.trace = None

            self.runner.step = one
            with installed(self.clock, self.terminal):
                self.runner.run()

    # -- oracle ------------------------------------------------------------------------
    def bad(self, index, op, text):
        raise Violation("report", f"op {index} ({op['op']} of integrator {op['i']} at point "
                        f"{op['pt']}): {text}")

    def callbacks(self, i, label):
        entry = (self.runner.scn["insts"][i].get("logs") or {}).get(label)
        return ["log:" + REPORTED[label], "clock"] if entry is None else entry

    def block(self, i, label, step):
        """The lines of one step."""
        items = self.callbacks(i, label)
        out = [("Starting", step, c[4:]) for c in items if c.startswith("log:")]
        split = len(out)
        out += [("Finishing", step, c[4:]) if c.startswith("log:") else ("took",)
                for c in items]
        return out, split

    def parse(self, index, op):
        """The lines the terminal got, and when."""
        out = []
        for text, stamp, _ in self.terminal.lines:
            text = text.strip()
            found = STEP_LINE.match(text)
            if found:
                if not re.fullmatch(r"\d+", found[2]):
                    self.bad(index, op, f"line {text!r}")
                out.append((found[1], int(found[2]), found[3], stamp))
                continue
            found = TIME_LINE.match(text)
            if found:
                try:
                    out.append(("took", float(found[1]), stamp))
                except ValueError:
                    self.bad(index, op, f"line {text!r}")
        return out

    def on_op(self, index, op, inst, expect, pt, value, error, fired):
        if self.runner.void:
            return
        label, i = op["op"], op["i"]
        if label == "rev" and self.runner.poisoned[i]:
            return
        faults = op.get("faults", ())
        if any(f["action"] == "nan" for f in faults) and fired:
            return
        if expect.cfg["adaptive"] and fired and not error:
            return
        if error is not None and not fired:
            raise Violation("unexpected-error", f"op {index} ({label}) raised "
                            f"{type(error).__name__}: {str(error)[:300]}")
        for fault in self.runner.fired_now:
            if fault["kind"] == "stdout":
                if error is None:
                    self.bad(index, op, "printing failed, but nobody is told")
                if not isinstance(error, ACTIONS[fault["action"]]):
                    self.bad(index, op, f"printing raised {fault['action']}, the caller "
                             f"sees {type(error).__name__}: {str(error)[:200]}")
        count = len(expect.steps(pt))
        todo = list(range(1, count + 1))
        if label == "rev":
            todo.reverse()
        lines = self.parse(index, op)
        if not self.callbacks(i, label) and not (
            label == "rev" and self.callbacks(i, "compute")
        ):
            if lines:
                self.bad(index, op, f"reports {lines[:3]} nobody asked for")
        else:
            done = self.follow(index, op, lines, todo, count, error)
            if error is None and self.callbacks(i, label) and done != todo:
                self.bad(index, op, f"reports steps {done} instead of {todo}")
            if error is not None and done != todo[: len(done)]:
                self.bad(index, op, f"reports steps {done} before the failure instead of "
                         f"{todo}")
        self.banners(index, op, inst, error)
        if expect.cfg["adaptive"] and label != "fwd":
            self.attempts(index, op, inst, count, error)
        CTX.judged += 1
        CTX.probe(f"reports_{label}" + ("_failed" if error is not None else ""))

    def banners(self, index, op, inst, error):
        """What is going on is called by its name."""
        name, open_now, seen = BANNERS[op["op"]], [], []
        for text, _ in inst.lines:
            found = BANNER.match(text)
            if not found:
                continue
            what, end = found[1], found[2] == "ends"
            if what not in (name, BANNERS["compute"]):
                self.bad(index, op, f"line {text.strip('= ')!r}")
            if end:
                if not open_now or open_now.pop() != what:
                    self.bad(index, op, f"line {text.strip('= ')!r} although it was not "
                             "started")
            else:
                if not open_now and what != name:
                    self.bad(index, op, f"line {text.strip('= ')!r}")
                open_now.append(what)
                seen.append(what)
        if error is None and (open_now or seen.count(name) != 1):
            self.bad(index, op, f"started are {seen}, not finished are {open_now}")

    def attempts(self, index, op, inst, count, error):
        """The attempts of adaptive steps that are reported are those that were made."""
        made = []
        traced = any(mine for mine, _ in inst.stages)
        for text, at in inst.lines:
            found = TRY_LINE.match(text)
            if found:
                if made and not made[-1].get("next"):
                    self.bad(index, op, f"{text!r}, but the attempt before has not ended")
                made.append({"i": int(found[1]), "h": float(found[2]), "from": at})
            found = DONE_LINE.match(text)
            if found:
                if not made or "ok" in made[-1] or int(found[1]) != made[-1]["i"] or (
                    float(found[2]) != made[-1]["h"]
                ):
                    self.bad(index, op, f"{text!r} after {made[-1:]}")
                made[-1].update(ok=found[3] == "succeeded", to=at)
            found = NEXT_LINE.match(text)
            if found:
                if not made or "ok" not in made[-1]:
                    self.bad(index, op, f"{text!r} after {made[-1:]}")
                made[-1]["next"] = float(found[1])
        for n, attempt in enumerate(made):
            last = n + 1 == len(made)
            if last and "next" not in attempt:
                if error is None:
                    self.bad(index, op, f"attempt {n} was never finished")
                attempt.setdefault("to", len(inst.stages))
            sizes = {h for mine, h in inst.stages[attempt["from"] : attempt["to"]] if mine}
            if sizes - {attempt["h"]} or (not sizes and error is None and traced):
                self.bad(index, op, f"attempt {n} is said to have step size "
                         f"{attempt['h']}, stages got {sorted(sizes)}")
            before = made[n - 1] if n else None
            again = before is not None and not before["ok"]
            if attempt["i"] != (before["i"] + 1 if again else 0):
                self.bad(index, op, f"attempt {n} is number {attempt['i']} of its step, "
                         f"the one before was number {before and before['i']} and "
                         f"{'failed' if again else 'succeeded'}")
            if before is not None and (again or op["op"] == "compute") and (
                before["next"] != attempt["h"]
            ):
                self.bad(index, op, f"attempt {n} has step size {attempt['h']}, announced "
                         f"was {before['next']}")
            CTX.probe("attempts_failed" if not attempt.get("ok", True) else "attempts")
        outside = [h for n, (mine, h) in enumerate(inst.stages) if mine and not any(
            a["from"] <= n < a["to"] for a in made)]
        if op["op"] == "compute" and outside:
            self.bad(index, op, f"stages with step sizes {outside[:5]} were "
                     "computed that no report mentions")
        good = sum(a.get("ok", False) for a in made)
        if error is None and op["op"] == "compute" and good != count:
            self.bad(index, op, f"{good} attempts succeeded, the run has {count} steps")

    def follow(self, index, op, lines, todo, count, error):
        """Matches lines with steps; returns the finished steps of the operation."""
        label, i = op["op"], op["i"]
        open_blocks, done = [], []
        for pos, line in enumerate(lines):
            top = open_blocks[-1] if open_blocks else None
            if line[0] == "Starting" and (
                top is None or line[:3] != top["lines"][top["at"]]
            ):
                # another step begins
                for kind in dict.fromkeys((label, "compute" if label == "rev" else label)):
                    names = [c[4:] for c in self.callbacks(i, kind) if c[:4] == "log:"]
                    if names and names[0] == line[2]:
                        break
                else:
                    self.bad(index, op, f"line {pos}: {line[:3]} is about something else")
                if not 1 <= line[1] <= count:
                    self.bad(index, op, f"line {pos}: {line[:3]}, the run has {count} "
                             "steps")
                if kind == label and label != "rev" and open_blocks:
                    self.bad(index, op, f"line {pos}: {line[:3]} before step "
                             f"{top['step']} was finished")
                if kind == label == "rev" and any(b["kind"] == "rev" for b in open_blocks):
                    self.bad(index, op, f"line {pos}: {line[:3]} within another step")
                if kind != label and any(b["kind"] == kind for b in open_blocks):
                    self.bad(index, op, f"line {pos}: {line[:3]} within another step")
                want, split = self.block(i, kind, line[1])
                open_blocks.append({"kind": kind, "step": line[1], "lines": want, "at": 0,
                                    "split": split, "began": line[3]})
                top = open_blocks[-1]
            if top is None:
                self.bad(index, op, f"line {pos}: {line[:2]} although no step is running")
            want = top["lines"][top["at"]]
            if line[0] != want[0] or (line[0] != "took" and line[:3] != want):
                self.bad(index, op, f"line {pos}: {line[:3]} instead of {want}")
            if line[0] == "took":
                elapsed = line[2] - top["began"]
                if abs(line[1] - elapsed) > 1e-12 * (1.0 + abs(line[2])) * 4:
                    self.bad(index, op, f"step {top['step']} of {top['kind']} took "
                             f"{elapsed} seconds, reported are {line[1]}")
                CTX.probe("durations" if elapsed else "zero_durations")
            elif line[0] == "Starting" and line[3] != top["began"]:
                raise HarnessError("simulated time passed between two lines")
            top["at"] += 1
            if top["at"] == len(top["lines"]):
                open_blocks.pop()
                if top["kind"] == label:
                    done.append(top["step"])
        if open_blocks and error is None:
            self.bad(index, op, f"step {open_blocks[-1]['step']} was never finished")
        return done


CHECKS = {"P19": Reports}
