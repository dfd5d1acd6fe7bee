"""Histories of operations on one or several real integrators, with faults.

A scenario is plain JSON:
  insts:  [{spec, cfg, points}]   one entry per integrator living in the process
  share:  names of option objects the integrators share
  ops:    [{op, i, pt, dir, faults, nested, cfg}]
"""

from __future__ import annotations

import contextlib
import copy
import os
import shutil
import sys
import tempfile

import numpy as np

from .core import CTX, HarnessError, Rng, StepBudgetExceeded, Violation
from . import seams
from .gen import random_points, random_setup
from .world1 import (
    EXPECTED_ERRORS, Expect, Instance, close, direction, fmt, scale_of,
)

seams.install()
SCRATCH_ROOT = os.environ.get("VERIF_SCRATCH") or None
REPO_SRC = os.environ.get("VERIF_REPO_SRC", "/repo/src")


class Scratch:
    """Private directory of one simulated run, always removed."""

    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix="rksim_", dir=SCRATCH_ROOT)
        self._cwd = os.getcwd()
        os.chdir(self.path)
        return self.path + "/"

    def __exit__(self, *exc):
        os.chdir(self._cwd)
        shutil.rmtree(self.path, ignore_errors=True)


def bind_scratch(obj, scratch):
    if isinstance(obj, dict):
        return {k: bind_scratch(v, scratch) for k, v in obj.items()}
    if isinstance(obj, list):
        return [bind_scratch(v, scratch) for v in obj]
    if obj == "@SCRATCH@":
        return scratch
    return obj


# -- faults --------------------------------------------------------------------------
ASYNC = {"interrupt": KeyboardInterrupt, "memory_error": MemoryError}


@contextlib.contextmanager
def async_fault(faults):
    """Raises an exception at the n-th line executed inside the library: an interrupt
    (or failing allocation) at an arbitrary point of the code, not only at calls into
    user code."""
    fault = next((f for f in faults if f["kind"] == "async"), None)
    if fault is None:
        yield
        return
    left = [fault["nth"]]

    def local(frame, event, arg):
        if event == "line":
            left[0] -= 1
            if left[0] == 0:
                sys.settrace(None)
                name = f"async:{fault['action']}"
                CTX.fired[name] = CTX.fired.get(name, 0) + 1
                CTX.async_fired = True
                CTX.mark("fault", name, frame.f_code.co_name)
                CTX.note(f"fault {name} in {frame.f_code.co_name}")
                raise ASYNC[fault["action"]]("injected at an arbitrary line")
        return local

    def tracer(frame, event, arg):
        if frame.f_code.co_filename.startswith(REPO_SRC):
            return local
        return None

    CTX.async_fired = False
    sys.settrace(tracer)
    try:
        yield
    finally:
        sys.settrace(None)


def random_storage_fault(rng: Rng, op: str, ckpt: str = "pyrevolve") -> dict:
    """What can go wrong with the storage of checkpoints."""
    if ckpt == "all" or rng.chance(0.1):
        return {"kind": "alloc", "nth": rng.choice([1, 2, 3, 3, 4, 5, 5, 6, 7, 9, 11]),
                "action": "memory_error"}
    kind = rng.pick_weighted(
        {"ckpt_save": 5, "ckpt_create": 1, "ckpt_load": 0 if op == "compute" else 5,
         "vanish": 0 if op == "compute" else 1}
    )
    if kind == "vanish":
        return {"kind": "vanish", "nth": 1, "action": "vanish"}
    actions = {
        "ckpt_save": ["enospc", "eio", "torn", "torn", "truncate", "memory_error",
                      "interrupt"],
        "ckpt_load": ["eio", "torn", "torn", "memory_error", "interrupt"],
        "ckpt_create": ["enospc", "eio"],
    }[kind]
    nth = 1 if kind == "ckpt_create" else rng.choice([1, 1, 2, 2, 3, 4, 5])
    return {"kind": kind, "nth": nth, "action": rng.choice(actions)}


def random_fault(rng: Rng, op: str, asynchronous=False, storage=0.0,
                 ckpt="pyrevolve") -> dict:
    if storage and rng.chance(storage):
        return random_storage_fault(rng, op, ckpt)
    if rng.chance(0.07):
        return {"kind": "alloc", "nth": rng.choice([1, 2, 3, 4, 5, 7, 9]),
                "action": "memory_error"}
    if asynchronous and rng.chance(0.3):
        return {"kind": "async", "nth": int(10 ** rng.uniform(0.0, 3.6)),
                "action": rng.choice(["interrupt", "memory_error"])}
    if op in ("compute", "om_run"):
        kind = rng.pick_weighted({"nl": 6, "cb_compute_before": 1, "cb_compute_after": 2})
    elif op == "fwd":
        kind = rng.pick_weighted(
            {"nl": 4, "lin": 4, "ls": 2, "cb_fwd_before": 1, "cb_fwd_after": 1}
        )
    else:
        kind = rng.pick_weighted(
            {"nl": 4, "lin": 5, "ls": 3, "cb_rev_before": 1, "cb_rev_after": 2,
             "cb_compute_after": 1}
        )
    if kind.startswith("cb_"):
        action = rng.choice(["exception", "interrupt", "memory_error"])
        nth = rng.choice([1, 1, 2, 2, 3, 4, 5])
    else:
        action = rng.pick_weighted(
            {"analysis_error": 5, "exception": 2, "nan": 3, "interrupt": 1}
        )
        nth = rng.choice([1, 1, 2, 2, 3, 4, 5, 6, 8, 11, 15, 20])
    return {"kind": kind, "nth": nth, "action": action}


# -- generation ----------------------------------------------------------------------
def random_inst(rng: Rng, **kw) -> dict:
    kw = {k: v for k, v in kw.items() if v is not None}
    spec, cfg = random_setup(rng, **kw)
    return {"spec": spec, "cfg": cfg,
            "points": random_points(rng, spec, cfg, rng.randint(2, 4))}


def random_ops(rng: Rng, insts, *, focus=None, faults=0.0, n_ops=(3, 9), resetup=None,
               om_ops=0.0, asynchronous=False, storage=0.0) -> list:
    mix = {"compute": 3, "fwd": 3, "rev": 3}
    for op in list(mix):
        if rng.chance(0.15):
            mix[op] = 0.3
    if focus:
        mix[focus] = mix[focus] + 4
    if om_ops:
        mix["om_run"] = 1 + 2 * om_ops
        mix["om_totals"] = 1 + 2 * om_ops
    if resetup:
        mix["resetup"] = 2
    ops, last = [], [0] * len(insts)
    for _ in range(rng.randint(*n_ops)):
        i = rng.randrange(len(insts))
        op = rng.pick_weighted(mix)
        if op in ("rev", "om_totals") and insts[i]["cfg"]["ckpt"][0] == "none":
            op = "compute"
        if op == "om_totals" and insts[i]["cfg"]["term"] > ["steps", 60]:
            op = "rev"  # one reverse iteration instead of one per output
        entry = {"op": op, "i": i}
        if op == "resetup":
            new = resetup(rng, insts[i]) if callable(resetup) else None
            if new:
                entry["cfg"] = new
            ops.append(entry)
            continue
        if op == "om_totals":
            ops.append({"op": "om_run", "i": i, "pt": last[i]})
        pt = last[i] if rng.chance(0.6) else rng.randrange(len(insts[i]["points"]))
        if op == "om_totals":
            pt = last[i]
        last[i] = pt
        entry["pt"] = pt
        if op in ("fwd", "rev"):
            entry["dir"] = rng.randrange(6)
            if rng.chance(0.12):
                entry["scale"] = rng.choice([1e-15, 1e-13, 1e-9, 1e8])
        if faults and rng.chance(faults):
            entry["faults"] = [random_fault(rng, op, asynchronous, storage,
                                            insts[i]["cfg"]["ckpt"][0])]
        if rng.chance(0.3):
            entry["gc"] = rng.choice([1, 2, 3, 5, 8, 13])
        ops.append(entry)
        if entry.get("faults") and rng.chance(0.7):
            # retry right after the failure: the interesting moment
            retry = {k: v for k, v in entry.items() if k != "faults"}
            if rng.chance(0.4) and insts[i]["cfg"]["ckpt"][0] != "none":
                retry["op"] = rng.choice(["compute", "fwd", "rev"])
                retry.setdefault("dir", 0)
            ops.append(retry)
    return ops


def random_history(rng: Rng, *, focus=None, faults=0.0, adaptive=None, resetup=None,
                   n_ops=(3, 9), layouts=None, need_rev=True, om_ops=0.0,
                   max_steps=7, asynchronous=False, storage=0.0, ckpt=None,
                   long_runs=0.0) -> dict:
    inst = random_inst(rng, adaptive=adaptive, layouts=layouts, need_rev=need_rev,
                       max_steps=max_steps, ckpt=ckpt, long_runs=long_runs)
    if inst["cfg"]["term"][0] == "steps" and inst["cfg"]["term"][1] > 39:
        n_ops = (2, 3)
    return {
        "insts": [inst],
        "mode": rng.choice(["fwd", "rev"]),
        "recorders": True if faults else rng.chance(0.8),
        "tick": rng.choice([0, 0, 0, 1]),
        "ops": random_ops(rng, [inst], focus=focus, faults=faults, n_ops=n_ops,
                          resetup=resetup, om_ops=om_ops, asynchronous=asynchronous, storage=storage),
    }


# -- execution -----------------------------------------------------------------------
def op_budget(inst, steps):
    """Generous bound on calls into user code during one operation."""
    return 4000 + 600 * inst.tab.s * max(1, steps)


class Runner:
    """Executes histories; subclasses/hook functions add checks."""

    def __init__(self, scn, *, check=("compute", "fwd", "rev"), on_op=None,
                 make_instance=None, surface=False):
        # (entries of the integrators are replaced if their ODE is)
        self.scn = {**scn, "insts": [dict(data) for data in scn["insts"]]}
        self.check, self.on_op = check, on_op
        self.make_instance = make_instance or self._make
        self.surface = surface  # failures of user code must reach the caller
        self.fired_now = []
        self.insts, self.expects = [], []
        self.failed_before = [False] * len(scn["insts"])
        self.last = [("none", None)] * len(scn["insts"])
        self.void = False
        self.poisoned = [False] * len(scn["insts"])
        self.damaged = [False] * len(scn["insts"])

    def _make(self, index, data):
        return Instance(data["spec"], data["cfg"], f"i{index}",
                        mode=self.scn.get("mode", "rev"),
                        recorders=self.scn.get("recorders", True))

    def start(self):
        CTX.tick = self.scn.get("tick", 0)
        for index, data in enumerate(self.scn["insts"]):
            cfg = data["cfg"]
            self.expects.append(Expect(data["spec"], cfg))
            self.insts.append(self.make_instance(index, data))
            CTX.mark("inst", data["spec"]["layout"], data["spec"]["kind"],
                     len(data["spec"]["quantities"]), cfg["adaptive"], cfg["ckpt"][:2],
                     cfg["term"], cfg["tableau"] if isinstance(cfg["tableau"], str)
                     else "custom")

    def call(self, kind, inst, expect, pt, op):
        """Returns (value, expected value)."""
        n_out, n_in = expect.math.n + 1, expect.math.n + expect.math.m + 1
        if kind == "compute":
            return inst.compute(pt), expect.value(pt)
        if kind == "om_run":
            return inst.om_run(pt), expect.value(pt)
        if kind == "om_totals":
            return inst.om_totals(), expect.jac(pt)
        if kind == "fwd":
            d = direction(op["dir"], n_in)
            scale = scale_of(op, expect)
            return inst.fwd(pt, scale * d) / scale, expect.jac(pt) @ d
        if kind == "rev":
            d = direction(op["dir"], n_out)
            scale = scale_of(op, expect)
            return inst.rev(pt, scale * d) / scale, expect.jac(pt).T @ d
        raise HarnessError(kind)

    def judged_kind(self, kind):
        if kind == "om_run":
            return "compute"
        if kind == "om_totals":
            return self.scn.get("mode", "rev")
        return kind

    def run(self):
        self.start()
        for index, op in enumerate(self.scn["ops"]):
            self.step(index, op)

    def resetup(self, index, op):
        i = op["i"]
        inst, data = self.insts[i], self.scn["insts"][i]
        if op.get("spec"):
            inst.replace_ode(op["spec"], op["how"])
            data["spec"], data["points"] = op["spec"], op["points"]
            CTX.probe("resetup_ode_" + op["how"])
        if op.get("cfg"):
            inst.reconfigure(op["cfg"])
        if op.get("cfg") or op.get("spec"):
            self.expects[i] = Expect(data["spec"], inst.cfg)
        inst.resetup()
        CTX.note(f"{index} resetup")
        CTX.mark("resetup", bool(op.get("cfg")))
        CTX.probe("resetup_changed" if op.get("cfg") else "resetup")
        self.last[i] = ("resetup", None)

    def step(self, index, op):
        kind, i = op["op"], op["i"]
        inst, expect = self.insts[i], self.expects[i]
        if kind == "resetup":
            self.resetup(index, op)
            return
        pt = self.scn["insts"][i]["points"][op["pt"]]
        if not expect.feasible(pt):
            CTX.probe("infeasible_point")
            return
        if kind == "om_totals" and self.last[i] != ("om_run", op["pt"]):
            # totals belong to the last run_model
            return
        steps = expect.steps(pt)
        faults = op.get("faults", ())
        for other in self.insts:
            other.disarm()  # hooks an earlier, failed operation never reached
        inst.clear_events()
        CTX.begin_op([f for f in faults if f["kind"] not in ("async", "vanish")],
                     op_budget(inst, len(steps)))
        CTX.async_fired = False
        CTX.gc_at = op.get("gc")
        vanished = any(f["kind"] == "vanish" for f in faults)
        if vanished:
            seams.vanish()
            self.damaged = [True] * len(self.damaged)
            CTX.fired["vanish"] = CTX.fired.get("vanish", 0) + 1
            CTX.mark("fault", "vanish")
        error = value = want = None
        if op.get("nested"):
            self.arm_nested(index, op, inst)
        try:
            with async_fault(faults):
                value, want = self.call(kind, inst, expect, pt, op)
        except (HarnessError, Violation):
            raise
        except StepBudgetExceeded as exc:
            error = exc
        except EXPECTED_ERRORS as exc:  # pylint: disable=broad-except
            error = exc
        finally:
            CTX.gc_at = None
            self.fired_now = [{k: v for k, v in f.items() if k != "_fired"}
                              for f in CTX.active_faults if f.get("_fired")]
            unfired = CTX.end_op()
        n_sync = len([f for f in faults if f["kind"] not in ("async", "vanish")])
        fired = n_sync - len(unfired) + int(CTX.async_fired) + int(vanished)
        CTX.steps += len(steps)
        CTX.sim_time += sum(steps)
        CTX.note(
            f"{index} i{i} {kind} pt{op['pt']} fired={fired} "
            + (f"error={type(error).__name__}" if error is not None
               else "value=" + np.asarray(value).tobytes().hex())
        )
        CTX.mark(i, kind, op["pt"], "err" if error is not None else "ok")
        prev, prev_pt = self.last[i]
        CTX.reach(self.scn["insts"][i]["cfg"]["ckpt"][:2], prev, kind,
                  prev_pt == op["pt"], fired, self.scn["insts"][i]["cfg"]["adaptive"])
        self.last[i] = (kind if error is None else kind + "-failed", op["pt"])
        if fired and any(f["action"] == "truncate" for f in faults):
            self.damaged[i] = True
        elif self.judged_kind(kind) == "compute" and error is None and not vanished:
            self.damaged[i] = False
        elif self.judged_kind(kind) == "rev" and error is not None and self.damaged[i]:
            # the loss of data surfaces here
            self.damaged[i] = False
            fired += 1
        # A run with invalid stage values may have gone through (adaptive control retries
        # it): the next reverse iteration may legitimately belong to that very run.
        self.void = self.poisoned[i] and self.judged_kind(kind) == "rev" and (
            expect.cfg["adaptive"] or (error is None and not np.all(np.isfinite(value)))
        )
        if self.on_op is not None:
            self.on_op(index, op, inst, expect, pt, value, error, fired)
        self.judge(index, op, expect, value, want, error, fired)

    def arm_nested(self, index, op, inst):
        """An operation on another integrator, from within a callback of this one."""
        nested = op["nested"]
        label = {"om_run": "compute", "om_totals": "rev"}.get(op["op"], op["op"])

        def run(_state, _ode):
            saved = CTX.save_op()
            try:
                j = nested["i"]
                expect = self.expects[j]
                pt = self.scn["insts"][j]["points"][nested["pt"]]
                if not expect.feasible(pt):
                    return
                CTX.begin_op((), op_budget(self.insts[j], len(expect.steps(pt))))
                value, want = self.call(nested["op"], self.insts[j], expect, pt, nested)
            finally:
                CTX.restore_op(saved)
            CTX.probe("nested_" + nested["op"])
            CTX.mark("nested", j, nested["op"], nested["pt"])
            CTX.note(f"nested {j} {nested['op']} {np.asarray(value).tobytes().hex()}")
            self.last[j] = (nested["op"], nested["pt"])
            self.poisoned[j] &= nested["op"] not in ("compute", "om_run")
            if not self.poisoned[j] and not close(value, want, expect.tol):
                raise Violation(
                    "wrong-value", f"{nested['op']} of integrator {j} at point "
                    f"{nested['pt']}, called during {op['op']} of integrator {op['i']}, "
                    f"returned {fmt(value)}, expected {fmt(want)}")
            CTX.judged += 1

        inst.rec[label].hook = (nested["phase"], nested["it"], run)

    def judge(self, index, op, expect, value, want, error, fired):
        kind, i = op["op"], op["i"]
        judged = self.judged_kind(kind) in self.check
        if error is not None:
            if fired:
                self.failed_before[i] = True
                CTX.probe(f"failed_{kind}")
                return
            if judged:
                raise Violation(
                    "unexpected-error",
                    f"op {index} ({kind} of integrator {i} at point {op['pt']}) raised "
                    f"{type(error).__name__}: {str(error)[:300]} without any injected "
                    "fault" + (" in this operation" if self.failed_before[i] else ""),
                )
            return
        if fired and any(f["action"] == "nan" for f in op.get("faults", ())):
            # the user code itself returned NaN: the value of this operation is void
            self.failed_before[i] = True
            CTX.probe(f"nan_{kind}")
            # The run "succeeded" with invalid values, and may be what the next reverse
            # iteration is linearised about.
            self.poisoned[i] |= any(f["kind"] == "nl" for f in op["faults"])
            return
        if self.surface and any(
            f["kind"] in ("nl", "lin", "ls") or f["kind"].startswith("cb_")
            for f in self.fired_now
        ):
            raise Violation(
                "swallowed-failure",
                f"op {index} ({kind} of integrator {i} at point {op['pt']}) returned as if "
                f"nothing had happened although user code failed: {self.fired_now}",
            )
        if self.judged_kind(kind) == "compute":
            self.poisoned[i] = False
        if not judged:
            return
        if self.void:
            CTX.probe("invalid_derivative_of_invalid_run")
            return
        CTX.judged += 1
        if not close(value, want, expect.tol):
            raise Violation(
                "wrong-value",
                f"op {index} ({kind} of integrator {i} at point {op['pt']}) returned "
                f"{fmt(value)}, expected {fmt(want)}"
                + (" (after an injected failure)" if self.failed_before[i] else ""),
            )
        CTX.probe(f"ok_{kind}" + ("_after_fault" if self.failed_before[i] else ""))


def execute_history(scn: dict, **kw):
    """Runs a history; raises Violation when an operation returns a wrong value."""
    with Scratch() as scratch:
        Runner(bind_scratch(scn, scratch), **kw).run()


# -- minimisation --------------------------------------------------------------------
def simplify_history(scn: dict):
    """Smaller candidates, most drastic first."""
    ops = scn["ops"]
    for size in (len(ops) // 2, len(ops) // 4, 1):
        if size < 1:
            continue
        for start in range(0, len(ops), size):
            cand = copy.deepcopy(scn)
            del cand["ops"][start : start + size]
            if cand["ops"]:
                yield cand
    for i, op in enumerate(ops):
        if op.get("nested"):
            cand = copy.deepcopy(scn)
            del cand["ops"][i]["nested"]
            yield cand
        if op.get("scale"):
            cand = copy.deepcopy(scn)
            del cand["ops"][i]["scale"]
            yield cand
        if op.get("spec"):
            cand = copy.deepcopy(scn)
            for key in ("spec", "points", "how"):
                del cand["ops"][i][key]
            yield cand
        if op.get("faults"):
            cand = copy.deepcopy(scn)
            del cand["ops"][i]["faults"]
            yield cand
            nth = op["faults"][0]["nth"]
            for smaller in (1, 2, nth // 2, nth - 1):
                if 0 < smaller < nth:
                    cand = copy.deepcopy(scn)
                    cand["ops"][i]["faults"][0]["nth"] = smaller
                    yield cand
    for i in range(len(scn["insts"])):
        if len(scn["insts"]) > 1 and all(op["i"] != i for op in ops):
            cand = copy.deepcopy(scn)
            del cand["insts"][i]
            for op in cand["ops"]:
                if op["i"] > i:
                    op["i"] -= 1
            yield cand
        for inst in simplify_inst(scn["insts"][i]):
            cand = copy.deepcopy(scn)
            cand["insts"][i] = inst
            yield cand


def simplify_inst(data: dict):
    """data: {spec, cfg, points}"""
    spec, cfg = data["spec"], data["cfg"]

    def with_cfg(**kw):
        cand = copy.deepcopy(data)
        cand["cfg"].update(kw)
        return cand

    if cfg["term"][0] == "steps" and cfg["term"][1] > 1:
        for n in (1, 2, 10, cfg["term"][1] // 2, cfg["term"][1] - 1):
            if n < cfg["term"][1]:
                yield with_cfg(term=["steps", n])
    if cfg["ckpt"][0] == "pyrevolve":
        yield with_cfg(ckpt=["all"])
        for key in list(cfg["ckpt"][2]):
            opts = {k: v for k, v in cfg["ckpt"][2].items() if k != key}
            yield with_cfg(ckpt=[cfg["ckpt"][0], cfg["ckpt"][1], opts])
    if cfg["adaptive"]:
        if len(cfg["ctl"]["controllers"]) > 1:
            yield with_cfg(
                ctl=dict(cfg["ctl"], controllers=cfg["ctl"]["controllers"][:-1])
            )
        if cfg["ctl"]["controllers"] != ["integral"]:
            yield with_cfg(ctl=dict(cfg["ctl"], controllers=["integral"]))
        for key, val in (("lb", 0.0), ("ub", None), ("measurer", "simple")):
            if cfg["ctl"][key] != val:
                yield with_cfg(ctl=dict(cfg["ctl"], **{key: val}))
        if cfg["tableau"] != "embedded_heun_euler":
            yield with_cfg(tableau="embedded_heun_euler")
    else:
        for name in ("explicit_euler", "implicit_euler"):
            if cfg["tableau"] != name:
                yield with_cfg(tableau=name)
    for key, val in (("layout", "explicit"), ("kind", "linear"), ("use_time", False)):
        if spec[key] != val:
            cand = copy.deepcopy(data)
            cand["spec"][key] = val
            yield cand
    for key in ("reversed", "ivc", "bystander", "homogeneous"):
        if spec.get(key):
            cand = copy.deepcopy(data)
            del cand["spec"][key]
            yield cand
    if spec["layout"] in ("kaps_group", "kaps_parts", "decay", "prothero"):
        return  # (the quantities are given)
    if len(spec["quantities"]) > 1:
        for drop in range(len(spec["quantities"])):
            cand = copy.deepcopy(data)
            sizes = [int(np.prod(q["shape"])) for q in spec["quantities"]]
            off = sum(sizes[:drop])
            del cand["spec"]["quantities"][drop]
            for pt in cand["points"]:
                del pt["u"][off : off + sizes[drop]]
            if any(q.get("has_input", True) for q in cand["spec"]["quantities"]):
                yield cand
    if spec["indep"]:
        for drop in range(len(spec["indep"])):
            cand = copy.deepcopy(data)
            sizes = [int(np.prod(q["shape"])) for q in spec["indep"]]
            off = sum(sizes[:drop])
            del cand["spec"]["indep"][drop]
            for pt in cand["points"]:
                del pt["p"][off : off + sizes[drop]]
            yield cand
