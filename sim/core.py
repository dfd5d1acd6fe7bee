"""Simulation context: every random choice, fault and log line goes through here.

One integer seed decides a run.  A *scenario* (plain JSON) is generated from the seed,
and running a scenario is a pure function of the scenario and the code under test.
Nothing in here reads a clock or draws random numbers while logging.
"""

from __future__ import annotations

import gc
import hashlib
import json
import random


class Violation(Exception):
    """The property under check is broken."""

    def __init__(self, kind: str, detail: str):
        super().__init__(f"{kind}: {detail}")
        self.kind = kind
        self.detail = detail


class InjectedFault(Exception):
    """Generic failure of user code (component, callback), injected."""


class StepBudgetExceeded(BaseException):
    """The code under test made more stage evaluations than can be explained."""


class HarnessError(Exception):
    """The harness itself is wrong; never reported as a violation."""


class Rng(random.Random):
    """Seeded source of all choices."""

    def chance(self, p: float) -> bool:
        return self.random() < p

    def pick_weighted(self, table: dict):
        keys = list(table)
        return self.choices(keys, weights=[table[k] for k in keys])[0]


def sub_seed(*parts) -> int:
    data = json.dumps(parts, sort_keys=True).encode()
    return int.from_bytes(hashlib.sha256(data).digest()[:8], "big")


class Context:
    """State of one simulated run: log, fault plan, counters."""

    def __init__(self):
        self.log: list[str] = []
        self.fired: dict[str, int] = {}
        self.probes: dict[str, int] = {}
        self.active_faults: list[dict] = []
        self.counters: dict[tuple, int] = {}
        self.calls = 0
        self.call_budget = None
        self.sim_time = 0.0
        self.steps = 0
        self.judged = 0  # comparisons against the oracle
        self.decisions = 0  # scheduling decisions (multi-rank world)
        self.shape: list[str] = []  # abstract history: what happened, without values
        self.states: set[str] = set()  # abstract states reached
        self.clock = 0  # readings of the simulated clock
        self.tick = 0
        self.storages = []  # directories of disk checkpoints
        self.gc_at = None  # call count at which garbage is collected
        self.at_call = None  # (call count, function)
        self.async_fired = False
        self.seq = 0  # number of callback events
        self.spikes = {}  # stage evaluation -> disturbance
        self.trace = None  # list collecting (instance, kind, time, h) when enabled

    # -- logging ---------------------------------------------------------------
    def note(self, line: str):
        self.log.append(line)

    def probe(self, name: str, count: int = 1):
        self.probes[name] = self.probes.get(name, 0) + count

    def mark(self, *parts):
        """Part of the abstract history (interleaving, faults, configuration)."""
        self.shape.append("/".join(str(p) for p in parts))

    def reach(self, *parts):
        """Abstract state reached."""
        self.states.add("/".join(str(p) for p in parts))

    def shape_digest(self) -> str:
        return hashlib.sha256("\n".join(self.shape).encode()).hexdigest()[:16]

    def digest(self) -> str:
        return hashlib.sha256("\n".join(self.log).encode()).hexdigest()

    # -- faults ----------------------------------------------------------------
    def begin_op(self, faults=(), budget=None):
        """Arms `faults` for the operation about to start and resets call counters."""
        self.active_faults = [dict(f) for f in faults]
        self.counters = {}
        self.calls = 0
        self.call_budget = budget

    def save_op(self):
        """Sets the running operation aside (for an operation nested inside of it)."""
        return (self.active_faults, self.counters, self.calls, self.call_budget,
                self.gc_at, self.trace, self.at_call, self.spikes)

    def restore_op(self, saved):
        (self.active_faults, self.counters, self.calls, self.call_budget, self.gc_at,
         self.trace, self.at_call, self.spikes) = saved

    def end_op(self):
        left = [f for f in self.active_faults if not f.get("_fired")]
        self.active_faults = []
        return left

    def hit(self, kind: str, instance: str = ""):
        """A fault point.  Returns the action of the fault to apply now, or None."""
        self.calls += 1
        if self.call_budget is not None and self.calls > self.call_budget:
            raise StepBudgetExceeded(f"{self.calls} calls, budget {self.call_budget}")
        if self.gc_at is not None and self.calls == self.gc_at:
            self.probe("gc_mid_operation")
            gc.collect()
        if self.at_call is not None and self.calls >= self.at_call[0] and (
            not kind.startswith("h5_")
        ):
            func, self.at_call = self.at_call[1], None
            func()
        key = (kind, instance)
        self.counters[key] = self.counters.get(key, 0) + 1
        for fault in self.active_faults:
            if (
                not fault.get("_fired")
                and fault["kind"] == kind
                and fault.get("instance", instance) == instance
                and fault["nth"] == self.counters[key]
            ):
                fault["_fired"] = True
                name = f"{kind}:{fault['action']}"
                self.fired[name] = self.fired.get(name, 0) + 1
                self.mark("fault", name, self.counters[key])
                self.note(f"fault {name} at call {self.counters[key]} of {instance}")
                return fault["action"]
        return None


CTX = Context()


def reset_context() -> Context:
    fresh = Context()
    CTX.__dict__.clear()
    CTX.__dict__.update(fresh.__dict__)
    return CTX
