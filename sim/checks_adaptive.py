"""P06-P08: adaptive step size control, termination, bounded progress."""

from __future__ import annotations

import copy

import numpy as np

from . import ref
from .checks import Check
from .core import CTX, StepBudgetExceeded, Violation
from .gen import random_points, random_setup
from .history import (
    Runner, Scratch, bind_scratch, random_history, simplify_history,
    simplify_inst,
)
from .world1 import EXPECTED_ERRORS, Expect, Instance, huge_step

SLACK = 1e-6  # relative band around thresholds in which either decision is right


class Attempt:
    """One attempted step, recomputed by the reference."""

    def __init__(self, h, err, u1, measure):
        self.h, self.err, self.u1, self.measure = h, err, u1, measure


def measure_of(ctl, err, u1):
    norm = float(np.linalg.norm(err))
    if ctl["measurer"] == "simple":
        return norm
    return norm / (float(np.linalg.norm(u1)) + ctl.get("eta", 1e-3) / 1e-2)


class SpikedMath:
    """The ODE as the integrator saw it, including injected spikes.

    The n-th stage evaluation returned a slope that was off by a known amount."""

    def __init__(self, math, spikes):
        self.math, self.spikes, self.calls = math, spikes, 0
        self.n, self.m = math.n, math.m

    def solve_stage(self, *args):
        self.calls += 1
        k = self.math.solve_stage(*args)
        return k + self.spikes.get(self.calls, 0.0)


def remaining_after(cfg, t1):
    return cfg["term"][1] - t1 if cfg["term"][0] == "time" else np.inf


def suggestions(cfg, p, h, measure, errs, hs, t1, accepted):
    """Step sizes the configured controllers may suggest (one per controller)."""
    ctl = cfg["ctl"]
    ub = ctl["ub"] if ctl["ub"] is not None else np.inf
    limit = remaining_after(cfg, t1) + (0.0 if accepted else h)
    out = []
    for name in ctl["controllers"]:
        if measure == 0.0:
            est = h
        else:
            with np.errstate(all="ignore"):
                est = ref.controller_estimate(name, p, ctl, measure, h, errs, hs)
        out.append(min(limit, max(ctl["lb"], min(ub, est))))
    return out


class Walk:
    """Checks one forward run against the rules of step size control."""

    def __init__(self, inst, expect, pt, events, trace, spikes, error):
        self.inst, self.expect, self.cfg = inst, expect, inst.cfg
        self.pt, self.events, self.trace = pt, events, trace
        self.math = SpikedMath(inst.math, spikes)
        self.error = error
        self.tol = expect.tol * 10

    def fail(self, kind, text):
        raise Violation(kind, f"{text} [t={self.t!r}, step {self.k}]")

    def near(self, a, b, rel=1e-6):
        return abs(a - b) <= rel * (abs(a) + abs(b)) + 1e-13

    def run(self):
        cfg, ctl, tab = self.cfg, self.cfg["ctl"], self.inst.tab
        s = tab.s
        p = np.array(self.pt["p"], float)
        u, self.t, self.k = np.array(self.pt["u"], float), self.pt["t"], 0
        errs, hs = [ctl["tol"], ctl["tol"]], [0.0, 0.0]
        first = cfg["h"]
        if cfg["term"][0] == "time":
            first = min(first, cfg["term"][1] - self.t)
        ub = ctl["ub"] if ctl["ub"] is not None else np.inf
        expected_h = [first, max(ctl["lb"], min(ub, first))]
        rejected_h = None
        pos = 0
        after = [e for e in self.events if e["phase"] == "after"]
        accepted_total = 0
        pending_reject = None
        while pos + s <= len(self.trace):
            h = self.trace[pos][2]
            for entry in self.trace[pos : pos + s]:
                if entry[2] != h:
                    self.fail("mixed-step-sizes", "stages of one step used different "
                              f"step sizes: {[e[2] for e in self.trace[pos:pos+s]]}")
            if self.inst.math.use_time:
                for i, entry in enumerate(self.trace[pos : pos + s]):
                    want = self.t + h * tab.c[i]
                    if abs(entry[1] - want) > 1e-9:
                        self.fail("wrong-start", f"attempt evaluated stage {i} at time "
                                  f"{entry[1]!r} instead of {want!r}")
            pos += s
            # the attempted step size is one that was suggested
            if expected_h is not None and not any(self.near(h, x) for x in expected_h):
                self.fail("wrong-step-size", f"attempted {h!r}, the configured controllers"
                          f" suggest {expected_h}")
            if rejected_h is not None and not h < rejected_h:
                self.fail("retry-not-smaller", f"retry with {h!r} after {rejected_h!r} "
                          "was rejected")
            if not h > 0.0:
                self.fail("no-progress", f"attempted step of size {h!r}")
            if h > huge_step(self.inst.spec):
                CTX.probe("huge_step")
                return
            u1, ks, _, err = ref.step(self.math, tab, u, p, self.t, h)
            m = measure_of(ctl, err, u1)
            # rounding errors of the difference of two states
            noise = 1e-14 * (1.0 + np.max(np.abs(u), initial=0.0)
                             + np.max(np.abs(u1), initial=0.0)
                             + 5.0 * h * np.max(np.abs(ks), initial=0.0))
            t1 = self.t + h
            # was it accepted?
            accepted = self.was_accepted(after, accepted_total, pos, s)
            must = m + noise <= ctl["tol"] * (1 - SLACK) or h <= ctl["lb"] * (1 - SLACK)
            may = m - noise <= ctl["tol"] * (1 + SLACK) or h <= ctl["lb"] + 1e-9
            CTX.judged += 1
            if accepted is None:
                # The run ended (error) right after this attempt.
                if must and not self.injected:
                    self.fail("wrong-error", f"attempt with error {m!r} (tol "
                              f"{ctl['tol']}) ended with {self.error!r}")
                if self.error_is_control():
                    sug = suggestions(cfg, tab.p, h, m, errs, hs, t1, False)
                    if noise < 1e-7 * m and min(sug) < h * (1 - SLACK) and len(sug) == 1:
                        self.fail("wrong-error", "the controller gave up although it "
                                  f"suggests {sug} after {h!r}")
                    CTX.probe("controller_gave_up")
                return
            if accepted and not may:
                self.fail("accepted-above-tolerance", f"accepted step {h!r} with error "
                          f"{m!r}, tol {ctl['tol']}, lower bound {ctl['lb']}")
            if not accepted and must:
                self.fail("rejected-below-tolerance", f"rejected step {h!r} with error "
                          f"{m!r}, tol {ctl['tol']}, lower bound {ctl['lb']}")
            if accepted:
                ev = after[accepted_total]
                accepted_total += 1
                self.check_event(ev, accepted_total, u, u1, h, t1, m, noise)
                # follow the observed values: the next step starts from them
                m = float(ev["e_hist"][0])
                expected_h = suggestions(cfg, tab.p, h, m, errs, hs, t1, True)
                errs, hs = [m, errs[0]], [h, hs[0]]
                u, self.t, self.k = ev["final_state"], ev["final_time"], self.k + 1
                rejected_h = None
                sug = float(ev["suggestion"][0])
                if not any(self.near(sug, x) for x in expected_h) and not (
                    abs(sug) < 1e-12 and min(abs(x) for x in expected_h) < 1e-12
                ):
                    self.fail("wrong-suggestion", f"after step of {h!r} with error {m!r}: "
                              f"suggests {sug!r}, configured: {expected_h}")
                CTX.probe("accepted")
            else:
                expected_h = suggestions(cfg, tab.p, h, m, errs, hs, t1, False)
                if noise > 1e-7 * m:
                    # the measured error is made of rounding errors
                    expected_h = None
                rejected_h = h
                CTX.probe("rejected")
        if accepted_total != len(after):
            self.fail("phantom-step", f"{len(after)} steps reported, {accepted_total} "
                      "computed")

    injected = False

    def error_is_control(self):
        return self.error is not None and "ErrorControllerError" in type(self.error).__name__

    def was_accepted(self, after, accepted_total, pos, s):
        """Whether the attempt ending at trace position pos was accepted: the callback
        after the step has been called before the next stage evaluation."""
        if accepted_total < len(after) and after[accepted_total]["trace_pos"] == pos:
            return True
        if pos + s <= len(self.trace):
            return False
        if pos < len(self.trace) or self.error is not None:
            return None
        return False

    def check_event(self, ev, it, u, u1, h, t1, m, noise):
        def cmp(name, got, want, tol):
            got, want = np.asarray(got, float), np.asarray(want, float)
            scale = 1.0 + np.max(np.abs(want), initial=0.0)
            if got.shape != want.shape or not np.all(np.abs(got - want) <= tol * scale):
                self.fail("wrong-" + name, f"step {it}: {name} is {got}, expected {want}")

        if ev["it"] != it:
            self.fail("wrong-iteration", f"step {it} reported as {ev['it']}")
        cmp("start_state", ev["start_state"], u, self.tol)
        cmp("final_state", ev["final_state"], u1, self.tol)
        cmp("start_time", ev["start_time"], self.t, 1e-9)
        cmp("final_time", ev["final_time"], t1, 1e-9)
        if not self.near(ev["h_hist"][0], h):
            self.fail("wrong-history", f"step size history {ev['h_hist']}, step {h!r}")
        if abs(ev["e_hist"][0] - m) > 1e-6 * abs(m) + noise:
            self.fail("wrong-history", f"error history {ev['e_hist']}, error {m!r}")


class _Adaptive(Check):
    layouts = ("explicit", "implicit")

    def generate(self, rng):
        spec, cfg = random_setup(rng, adaptive=True, need_rev=True, layouts=self.layouts)
        spec.pop("homogeneous", None)
        cfg["ckpt"] = rng.choice([["all"], ["none"]]) if rng.chance(0.6) else cfg["ckpt"]
        if rng.chance(0.3):
            cfg["ctl"]["ub"] = None
        # make rejections common
        if rng.chance(0.4):
            cfg["h"] = rng.choice([0.25, 0.5, 1.0])
            spec["scale"] = rng.choice([1.0, 2.0, 4.0])
        if rng.chance(0.1):
            # at rest most of the time: error measures of exactly zero
            spec.update(scale=0.0, use_time=False, kind="linear", indep=[])
        points = random_points(rng, spec, cfg, 2)
        ops = []
        for _ in range(rng.randint(1, 4)):
            op = {"op": "compute", "pt": rng.randrange(2)}
            op["spikes"] = [
                [rng.choice([1, 2, 3, 4, 5, 6, 8, 11, 15, 20, 25]),
                 rng.choice([0.3, 1.0, 10.0, 1e3, -2.0])]
                for _ in range(rng.choice([0, 1, 1, 2, 3]))
            ]
            if rng.chance(0.15):
                op["faults"] = [{"kind": "nl", "nth": rng.choice([1, 2, 3, 5, 9, 14]),
                                 "action": rng.choice(["exception", "analysis_error",
                                                       "interrupt"])}]
            ops.append(op)
        return {"insts": [{"spec": spec, "cfg": cfg, "points": points}], "ops": ops}

    def execute(self, scn):
        with Scratch() as scratch:
            self.drive(bind_scratch(scn, scratch))

    def drive(self, scn):
        data = scn["insts"][0]
        inst = Instance(data["spec"], data["cfg"], "i0")
        expect = Expect(data["spec"], data["cfg"])
        CTX.mark(data["spec"]["layout"], data["cfg"]["ctl"]["controllers"],
                 data["cfg"]["term"][0], data["cfg"]["ctl"]["lb"] > 0,
                 data["cfg"]["ctl"]["measurer"])
        for index, op in enumerate(scn["ops"]):
            pt = data["points"][op["pt"]]
            spikes = {int(n): amp for n, amp in op.get("spikes", ())}
            error, trace, n_fired = self.forward(inst, pt, op, spikes)
            events = list(inst.rec["compute"].events)
            walk = Walk(inst, expect, pt, events, trace, spikes, error)
            walk.injected = n_fired > 0 or isinstance(error, StepBudgetExceeded)
            self.judge(walk, inst, pt, error, n_fired)
            after = [e for e in events if e["phase"] == "after"]
            CTX.steps += len(after)
            CTX.sim_time += sum(e["final_time"] - e["start_time"] for e in after)
            CTX.note(f"{index} steps={len(after)} trace={len(trace)} "
                     f"error={type(error).__name__} "
                     + " ".join(repr(e["final_time"]) for e in after))
            CTX.mark(len(after), len(trace) // inst.tab.s, type(error).__name__,
                     sorted(spikes))
            rejects = len(trace) // inst.tab.s - len(after)
            CTX.reach(data["cfg"]["ctl"]["controllers"], data["cfg"]["term"][0],
                      min(rejects, 5), type(error).__name__, bool(spikes))

    budget_steps = 120

    def forward(self, inst, pt, op, spikes):
        inst.clear_events()
        CTX.trace = []
        CTX.spikes = spikes
        CTX.begin_op(op.get("faults", ()), self.budget_steps * (inst.tab.s + 4) + 10)
        error = None
        try:
            inst.compute(pt)
        except EXPECTED_ERRORS as exc:
            error = exc
        except StepBudgetExceeded as exc:
            error = exc
        finally:
            left = CTX.end_op()
            CTX.spikes = {}
            trace, CTX.trace = CTX.trace, None
        for n in spikes:
            if n <= len(trace):
                CTX.fired["nl:spike"] = CTX.fired.get("nl:spike", 0) + 1
        return error, trace, len(op.get("faults", ())) - len(left)

    def judge(self, walk, inst, pt, error, n_fired):
        walk.run()
        if error is not None and not n_fired and not isinstance(
            error, StepBudgetExceeded
        ) and not walk.error_is_control():
            raise Violation("unexpected-error", f"compute raised {type(error).__name__}: "
                            f"{str(error)[:300]}")

    def simplify(self, scn):
        for i in range(len(scn["ops"])):
            if len(scn["ops"]) > 1:
                cand = copy.deepcopy(scn)
                del cand["ops"][i]
                yield cand
            for j in range(len(scn["ops"][i].get("spikes", ()))):
                cand = copy.deepcopy(scn)
                del cand["ops"][i]["spikes"][j]
                yield cand
            if scn["ops"][i].get("faults"):
                cand = copy.deepcopy(scn)
                del cand["ops"][i]["faults"]
                yield cand
        for inst in simplify_inst(scn["insts"][0]):
            cand = copy.deepcopy(scn)
            cand["insts"][0] = inst
            yield cand


class Acceptance(_Adaptive):
    """P06"""


# -- P07 -------------------------------------------------------------------------------
class Sequence(Check):
    """The sequence of steps depends on inputs and options only, and the derivatives are
    those of this very sequence."""

    def generate(self, rng):
        return random_history(rng, adaptive=True, faults=0.3, n_ops=(4, 8))

    def execute(self, scn):
        with Scratch() as scratch:
            self.runner = Runner(bind_scratch(dict(scn, recorders=True), scratch),
                                 on_op=self.on_op)
            self.runner.run()

    def simplify(self, scn):
        return simplify_history(scn)

    def on_op(self, index, op, inst, expect, pt, value, error, fired):
        if error is not None or fired or self.runner.void:
            return
        steps = expect.steps(pt)
        kind = op["op"]
        label = {"compute": "compute", "om_run": "compute"}.get(kind, kind)
        got = [e for e in inst.rec[label].events if e["phase"] == "after"]
        if label == "rev":
            got = got[::-1]
        sizes = [e["final_time"] - e["start_time"] for e in got]
        CTX.judged += 1
        if len(sizes) != len(steps) or not np.allclose(sizes, steps, rtol=1e-7, atol=1e-9):
            raise Violation(
                "other-steps", f"op {index} ({kind} at point {op['pt']}) used the steps "
                f"{sizes}, an integrator without history uses {steps}")
        # primal steps recomputed for checkpointing
        if label == "rev":
            for e in inst.rec["compute"].events:
                if e["phase"] == "after":
                    h = e["final_time"] - e["start_time"]
                    k = e["it"]
                    if not 1 <= k <= len(steps) or abs(h - steps[k - 1]) > (
                        1e-7 * steps[k - 1] + 1e-9
                    ):
                        raise Violation(
                            "other-steps", f"op {index} (rev): recomputed step {k} with "
                            f"size {h}, the run uses {steps}")
                    CTX.probe("recomputed_step")


# -- P08 -------------------------------------------------------------------------------
class GaveUp(Exception):
    """The controllers can't suggest a smaller step."""


def reference_attempts(inst, cfg, pt, spikes, limit=150):
    """Number of attempts of a run according to the documented rules, or None."""
    ctl, tab = cfg["ctl"], inst.tab
    math = SpikedMath(inst.math, spikes)
    p, u, t = np.array(pt["p"], float), np.array(pt["u"], float), pt["t"]
    errs, hs = [ctl["tol"]] * 2, [0.0, 0.0]
    h, attempts, steps = cfg["h"], 0, 0
    noisy = False  # error measures made of rounding errors: no two codes agree on them
    if cfg["term"][0] == "time":
        h = min(h, cfg["term"][1] - t)
    while True:
        if cfg["term"][0] == "steps" and steps >= cfg["term"][1]:
            return attempts, noisy
        if cfg["term"][0] == "time" and cfg["term"][1] - t <= 0:
            return attempts, noisy
        level = 0  # index of the controller in charge
        while True:
            attempts += 1
            if attempts > limit:
                return None, noisy
            u1, ks, _, err = ref.step(math, tab, u, p, t, h)
            m = measure_of(ctl, err, u1)
            noisy |= m < 1e-14 * np.max(np.abs([*u, *u1, *(h * ks.ravel())]))
            ok = bool(m <= ctl["tol"] or h - ctl["lb"] < 1e-10)
            sug = suggestions(cfg, tab.p, h, m, errs, hs, t + h, ok)
            if ok:
                new = sug[level]
                break
            while level < len(sug) and not sug[level] < h:
                level += 1
            if level == len(sug):
                raise GaveUp()
            h = sug[level]
        errs, hs = [m, errs[0]], [h, hs[0]]
        u, t, h, steps = u1, t + h, new, steps + 1


class Progress(_Adaptive):
    """P08"""

    layouts = ("explicit", "implicit")

    def generate(self, rng):
        if rng.chance(0.3):
            spec, cfg = random_setup(rng, adaptive=False, layouts=self.layouts,
                                     max_steps=30, long_runs=0.1,
                                     ckpt=rng.choice(["all", "all", "pyrevolve"]))
            if rng.chance(0.3):
                cfg["h"] = rng.choice([0.1, 0.05, 1 / 3, 0.7, 0.3])
            points = random_points(rng, spec, cfg, 2)
            ops = [{"op": "compute", "pt": rng.randrange(2)}
                   for _ in range(rng.randint(1, 3))]
            return {"insts": [{"spec": spec, "cfg": cfg, "points": points}], "ops": ops}
        scn = super().generate(rng)
        ctl = scn["insts"][0]["cfg"]["ctl"]
        if any(op["spikes"] for op in scn["ops"]):
            # Without a lower bound, steps that are so small that their error estimate is
            # exactly zero keep their size (documented), so no bound on the number of
            # steps can be given.
            ctl["lb"] = rng.choice([0.005, 0.01, 0.02, 0.05])
        if ctl["ub"] is None:
            ctl["ub"] = rng.choice([0.2, 0.5, 1.0])
        for op in scn["ops"]:
            if rng.chance(0.15) and not op.get("faults"):
                op["faults"] = [{"kind": "nl", "nth": rng.choice([1, 2, 5, 9]),
                                 "action": "nan"}]
        return scn

    def drive(self, scn):
        data = scn["insts"][0]
        spec, cfg = data["spec"], data["cfg"]
        inst = Instance(spec, cfg, "i0")
        CTX.mark(spec["layout"], cfg["adaptive"], cfg["term"], cfg["ckpt"][:2], cfg["h"],
                 (cfg.get("ctl") or {}).get("controllers"))
        for index, op in enumerate(scn["ops"]):
            pt = data["points"][op["pt"]]
            spikes = {int(n): amp for n, amp in op.get("spikes", ())}
            if cfg["adaptive"]:
                try:
                    with np.errstate(all="ignore"):
                        attempts, noisy = reference_attempts(inst, cfg, pt, spikes)
                except GaveUp:
                    attempts, noisy = -1, False
                if attempts is not None and noisy:
                    CTX.probe("rounding_error_measures")
                    attempts = -1
                if attempts is None:
                    CTX.probe("too_long_for_reference")
                    continue
                self.budget_steps = 3 * max(attempts, 150) + 20
                if cfg["ctl"]["lb"] and cfg["term"][0] == "time":
                    self.budget_steps += int(
                        3 * max(0.0, cfg["term"][1] - pt["t"]) / cfg["ctl"]["lb"]
                    )
            else:
                attempts = len(ref.fixed_steps(cfg, pt["t"]))
                self.budget_steps = attempts
            error, trace, n_fired = self.forward(inst, pt, op, spikes)
            after = [e for e in inst.rec["compute"].events if e["phase"] == "after"]
            CTX.steps += len(after)
            CTX.sim_time += sum(e["final_time"] - e["start_time"] for e in after)
            CTX.mark(len(after), type(error).__name__, sorted(spikes), n_fired)
            CTX.reach(cfg["adaptive"], cfg["term"], len(after), type(error).__name__)
            CTX.note(f"{index} {len(after)} {len(trace)} {type(error).__name__}")
            if isinstance(error, StepBudgetExceeded):
                raise Violation(
                    "no-progress", f"op {index}: no end of the run after {len(trace)} stage"
                    f" evaluations and {len(after)} steps (time "
                    f"{after[-1]['final_time'] if after else pt['t']!r}); "
                    f"{attempts} attempted steps are expected")
            if error is not None:
                control = "ErrorControllerError" in type(error).__name__
                if n_fired:
                    continue
                if not control:
                    raise Violation("unexpected-error", f"op {index} raised "
                                    f"{type(error).__name__}: {str(error)[:300]}")
                if attempts != -1 and len(cfg["ctl"]["controllers"]) == 1:
                    raise Violation("gave-up", f"op {index} raised {error!r} after "
                                    f"{len(after)} steps, {attempts} attempts suffice")
                CTX.probe("controller_gave_up")
                continue
            self.check_end(index, cfg, pt, after, n_fired)
            CTX.probe("finished")

    def check_end(self, index, cfg, pt, after, n_fired):
        CTX.judged += 1
        times = [pt["t"]] + [e["final_time"] for e in after]
        for a, b in zip(times[:-1], times[1:]):
            # (without a lower bound, steps may get too small to be seen in the time)
            tiny = cfg["adaptive"] and cfg["ctl"]["lb"] == 0.0
            if not (b >= a if tiny else b > a):
                raise Violation("no-progress", f"op {index}: times {times}")
        kind, limit = cfg["term"]
        if kind == "steps":
            if len(after) != limit:
                raise Violation("wrong-number-of-steps", f"op {index}: {len(after)} steps, "
                                f"{limit} requested")
            return
        if limit <= pt["t"]:
            if after:
                raise Violation("wrong-end", f"op {index}: steps {times} after {limit}")
            return
        if times[-1] < limit or times[-2] >= limit:
            raise Violation("wrong-end", f"op {index}: run until {limit!r} has steps at "
                            f"{times}")
        if cfg["adaptive"] and times[-1] > limit + 1e-9:
            raise Violation("wrong-end", f"op {index}: adaptive run until {limit!r} "
                            f"stepped over the end: {times}")


CHECKS = {"P06": Acceptance, "P07": Sequence, "P08": Progress}
