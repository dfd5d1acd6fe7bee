"""P09 callback protocol, P12 isolation of integrators, P13 repeated setup, P14 snapshots
and split runs."""

from __future__ import annotations

import copy
import io

import numpy as np

from rkopenmdao.integration_config import IntegrationConfig
from rkopenmdao.time_integration_state import TimeIntegrationState

from .checks import Check
from .core import CTX, HarnessError, Violation
from .gen import random_cfg, random_controller, random_points
from .odes import random_ode_spec
from .history import (
    Runner, Scratch, bind_scratch, random_history, random_inst, random_ops,
    simplify_history,
)
from .world1 import (
    Expect, Instance, close, fmt, in_order, make_controllers, make_termination,
)


class _RunnerCheck(Check):
    def execute(self, scn):
        with Scratch() as scratch:
            self.runner = self.make_runner(bind_scratch(scn, scratch))
            self.runner.run()

    def make_runner(self, scn):
        return Runner(scn)

    def simplify(self, scn):
        return simplify_history(scn)


# -- P09 -------------------------------------------------------------------------------
class Callbacks(_RunnerCheck):
    """Callbacks see every step, in order, with the right data."""

    EXC = {"exception": "InjectedFault", "interrupt": "KeyboardInterrupt",
           "memory_error": "MemoryError"}

    def generate(self, rng):
        scn = random_history(rng, faults=0.25, n_ops=(2, 7))
        scn["recorders"] = True
        for op in scn["ops"]:
            # mostly failing callbacks
            for fault in op.get("faults", ()):
                label = {"compute": "compute", "fwd": "fwd", "rev": "rev"}[op["op"]]
                if rng.chance(0.7):
                    fault.update(
                        kind=f"cb_{label}{rng.choice(['', '2'])}_"
                        + rng.choice(["before", "after"]),
                        nth=rng.choice([1, 2, 3, 4, 6]),
                        action=rng.choice(list(self.EXC)))
        return scn

    def make_runner(self, scn):
        def make(index, data):
            return Instance(data["spec"], data["cfg"], f"i{index}", double=True,
                            mode=scn.get("mode", "rev"))

        return Runner(scn, check=(), on_op=self.on_op, make_instance=make)

    def bad(self, index, op, text):
        raise Violation("callback-protocol", f"op {index} ({op['op']} at point {op['pt']}): "
                        + text)

    def on_op(self, index, op, inst, expect, pt, value, error, fired):
        if self.runner.void:
            return
        if op["op"] == "rev" and self.runner.poisoned[op["i"]]:
            # may be linearised about a run in which user code returned NaN
            return
        faults = op.get("faults", ())
        if any(f["action"] == "nan" for f in faults) and fired:
            return
        if expect.cfg["adaptive"] and fired and not error:
            return
        us, ts = expect.path(pt)
        label = op["op"]
        n = len(us) - 1
        if error is not None:
            if not fired:
                raise Violation("unexpected-error", f"op {index} ({label}) raised "
                                f"{type(error).__name__}: {str(error)[:300]}")
            for f in faults:
                if f["kind"].startswith("cb_") and (
                    type(error).__name__ != self.EXC[f["action"]]
                ):
                    self.bad(index, op, f"callback raised {self.EXC[f['action']]}, the "
                             f"caller sees {type(error).__name__}: {str(error)[:200]}")
        for other in ("compute", "fwd", "rev"):
            events = inst.rec[other].events
            if other != label and not (label == "rev" and other == "compute") and events:
                self.bad(index, op, f"{other} callbacks were called {len(events)} times")
            self.check_pairs(index, op, other, inst, expect, pt, us, ts, error)
        events = inst.rec[label].events
        order = [e["it"] for e in events if e["phase"] == "before"]
        want = list(range(1, n + 1))
        if label == "rev":
            want = want[::-1]
        if error is None and order != want:
            self.bad(index, op, f"steps {order} instead of {want}")
        if error is not None and order != want[: len(order)]:
            self.bad(index, op, f"steps {order} before the failure instead of {want}")
        CTX.judged += 1
        CTX.probe(f"callbacks_{label}" + ("_failed" if error is not None else ""))

    def check_pairs(self, index, op, other, inst, expect, pt, us, ts, error):
        events, events2 = inst.rec[other].events, inst.rec2[other].events
        # the second callback of the list follows the first one, every time
        if len(events2) > len(events) or len(events) - len(events2) > int(
            error is not None
        ):
            self.bad(index, op, f"first {other} callback called {len(events)} times, "
                     f"second one {len(events2)} times")
        for a, b in zip(events, events2):
            if (a["phase"], a["it"]) != (b["phase"], b["it"]) or not a["seq"] < b["seq"]:
                self.bad(index, op, f"order of callbacks: {a['phase']} {a['it']} "
                         f"({a['seq']}), then {b['phase']} {b['it']} ({b['seq']})")
        for b, a in zip(events2, events[1:]):
            if not b["seq"] < a["seq"]:
                self.bad(index, op, "callbacks of one list are interleaved")
        # before and after alternate
        for i, e in enumerate(events):
            if e["phase"] != ("before", "after")[i % 2]:
                self.bad(index, op, f"{other} callbacks: unexpected '{e['phase']}' of step "
                         f"{e['it']}")
            if i % 2 and e["it"] != events[i - 1]["it"]:
                self.bad(index, op, f"'before' of step {events[i-1]['it']} followed by "
                         f"'after' of step {e['it']}")
        if error is None and len(events) % 2:
            self.bad(index, op, f"{other}: no 'after' for the last step")
        tol = expect.tol * 10
        for e in (*events, *events2):
            k = e["it"]
            if not 1 <= k <= len(us) - 1:
                self.bad(index, op, f"{other} callback for step {k}, the run has "
                         f"{len(us) - 1} steps")
            if other == "rev" or e["phase"] == "after":
                want = [("start_state", us[k - 1]), ("final_state", us[k]),
                        ("start_time", ts[k - 1]), ("final_time", ts[k]),
                        ("step_size", ts[k] - ts[k - 1])]
            else:
                want = [("final_state", us[k - 1]), ("final_time", ts[k - 1])]
            want.append(("indep", np.array(pt["p"], float)))
            for name, ref_value in want:
                if not close(e[name], ref_value, tol):
                    self.bad(index, op, f"{other} callback '{e['phase']}' of step {k}: "
                             f"{name} is {fmt(e[name])}, expected {fmt(ref_value)}")


# -- P12 -------------------------------------------------------------------------------
class Isolation(_RunnerCheck):
    """Several integrators in one process, sharing option objects."""

    SHARE = ("integration_config", "checkpoint_options", "error_controller",
             "error_controller_options", "error_measurer")

    def generate(self, rng):
        count = rng.choice([2, 2, 3])
        adaptive = rng.chance(0.4)
        layouts = ("explicit", "implicit", "coupled")
        insts = [random_inst(rng, adaptive=adaptive, layouts=layouts)]
        while len(insts) < count:
            new = random_inst(rng, adaptive=adaptive, layouts=layouts)
            how = rng.random()
            if how < 0.35:
                new = copy.deepcopy(rng.choice(insts))  # twins: same inputs, too
            elif how < 0.75:
                new["cfg"] = copy.deepcopy(insts[0]["cfg"])
                if new["cfg"]["term"][0] == "time":
                    for p in new["points"]:
                        p["t"] = max(-1.2, min(p["t"], 0.1))
                if rng.chance(0.5):
                    # only some of the options are the same
                    new["cfg"]["h"] = rng.choice([0.01, 0.05])
                    if adaptive and new["spec"]["layout"] == "explicit":
                        new["cfg"]["h"] = rng.choice([0.01, 1.0, 5.0])
            insts.append(new)
        share = [s for s in self.SHARE if rng.chance(0.6)]
        scn = {"insts": insts, "mode": rng.choice(["fwd", "rev"]), "recorders": True,
               "tick": rng.choice([0, 0, 1]), "share": share,
               "ops": random_ops(rng, insts, faults=0.15, n_ops=(4, 9),
                                 resetup=(lambda r, d: None) if rng.chance(0.3) else None)}
        for op in scn["ops"]:
            if op["op"] != "resetup" and rng.chance(0.35):
                j = rng.choice([x for x in range(count) if x != op["i"]])
                kind = rng.choice(["compute", "fwd", "rev"])
                op["nested"] = {"i": j, "op": kind, "dir": rng.randrange(5),
                                "pt": rng.randrange(len(insts[j]["points"])),
                                "phase": rng.choice(["before", "after"]),
                                "it": rng.choice([1, 1, 2, 3])}
        return scn

    def make_runner(self, scn):
        pools = {}

        def make(index, data):
            cfg = data["cfg"]
            shared = {}
            for name in scn.get("share", ()):
                if name in ("integration_config",):
                    key = (name, repr((cfg["adaptive"], cfg["term"], cfg["h"])))
                    if key not in pools:
                        pools[key] = IntegrationConfig(
                            cfg["adaptive"], make_termination(cfg), cfg["h"])
                elif name == "checkpoint_options":
                    key = (name, repr(cfg["ckpt"]))
                    if key not in pools:
                        pools[key] = (
                            {"revolver_type": cfg["ckpt"][1],
                             "revolver_options": dict(cfg["ckpt"][2])}
                            if cfg["ckpt"][0] == "pyrevolve" else {})
                else:
                    if not cfg.get("ctl"):
                        continue
                    key = (name, repr(cfg["ctl"]))
                    if key not in pools:
                        pools[key] = make_controllers(cfg)[name]
                shared[name] = pools[key]
            return Instance(data["spec"], cfg, f"i{index}", mode=scn.get("mode", "rev"),
                            shared=shared)

        return Runner(scn, make_instance=make)

    def simplify(self, scn):
        if scn.get("share"):
            for i in range(len(scn["share"])):
                cand = copy.deepcopy(scn)
                del cand["share"][i]
                yield cand
        yield from (
            c for c in simplify_history(scn)
            if all(o.get("nested", {"i": 0})["i"] < len(c["insts"]) for o in c["ops"])
        )


# -- P13 -------------------------------------------------------------------------------
def changed_cfg(rng, data):
    """Options for the next setup: often only one of them changes."""
    if rng.chance(0.35):
        return None
    cfg = copy.deepcopy(data["cfg"])
    new = random_cfg(rng, adaptive=cfg["adaptive"])
    what = rng.choice(["h", "term", "term", "ckpt", "tableau", "ctl", "all", "cb"])
    if what == "all":
        new = random_cfg(rng)
        if not new["adaptive"] and rng.chance(0.5):
            new["ctl"] = random_controller(rng)
        return new
    if what == "h":
        cfg["h"] = rng.choice([x for x in (0.05, 0.1, 0.13, 0.25) if x != cfg["h"]])
    elif what == "term":
        kind = cfg["term"][0]
        if cfg["ckpt"][0] != "pyrevolve" and rng.chance(0.6):
            kind = "steps" if kind == "time" else "time"
        cfg["term"] = [kind, rng.randint(1, 7) if kind == "steps"
                       else rng.choice([0.3, 0.5, 0.77, 1.0])]
    elif what == "ckpt":
        if new["term"][0] == cfg["term"][0]:
            cfg["ckpt"] = new["ckpt"]
    elif what == "tableau":
        cfg["tableau"] = new["tableau"]
    elif what == "cb":
        cfg["cb"] = "default"
    elif cfg.get("ctl"):
        cfg["ctl"] = random_controller(rng)
    return cfg


class Resetup(_RunnerCheck):
    """Setup may be called again, with other options."""

    def generate(self, rng):
        scn = random_history(rng, faults=0.15, resetup=changed_cfg, n_ops=(5, 10),
                             om_ops=0.3)
        data = scn["insts"][0]
        for op in scn["ops"]:
            if op["op"] == "resetup" and rng.chance(0.3):
                op["spec"] = random_ode_spec(
                    rng, layouts=("explicit", "explicit", "implicit", "coupled"))
                op["points"] = random_points(rng, op["spec"], data["cfg"],
                                             len(data["points"]))
                op["how"] = rng.choice(["problem", "model"])
        # points must be usable with every end time
        for entry in (data, *scn["ops"]):
            for p in entry.get("points", ()):
                p["t"] = max(-1.2, min(p["t"], 0.2))
        return scn

    def make_runner(self, scn):
        return Runner(scn, on_op=self.on_op)

    def on_op(self, index, op, inst, expect, pt, value, error, fired):
        """Only the callbacks of the current setup are called."""
        if not inst.callbacks:
            return
        events = {k: len(r.events) for k, r in inst.rec.items()}
        default = inst.cfg.get("cb") == "default"
        CTX.judged += 1
        if default and any(events.values()):
            raise Violation("old-callbacks", f"op {index} ({op['op']}): callbacks that are "
                            f"no longer configured were called: {events}")
        label = {"om_run": "compute", "om_totals": inst.mode}.get(op["op"], op["op"])
        if not default and error is None and expect.steps(pt) and not events[label]:
            raise Violation("missing-callbacks", f"op {index} ({op['op']}): configured "
                            "callbacks were not called")
        CTX.probe("callbacks_default" if default else "callbacks_own")


# -- P14 -------------------------------------------------------------------------------
def flatten(tree, prefix=""):
    out = {}
    for key, val in tree.items():
        if isinstance(val, dict):
            out.update(flatten(val, prefix + key + "/"))
        else:
            out[prefix + key] = np.array(val, copy=True)
    return out


def through_disk(tree):
    """What survives when a state is written to disk and read again elsewhere."""
    buf = io.BytesIO()
    flat = flatten(tree)
    np.savez(buf, **{k.replace("/", "@"): v for k, v in flat.items()})
    buf.seek(0)
    out = {}
    with np.load(buf) as data:
        for key in data.files:
            node = out
            *path, last = key.split("@")
            for part in path:
                node = node.setdefault(part, {})
            node[last] = data[key]
    return out


class Snapshots(Check):
    """A run can be cut at any step, and continued from what was saved there."""

    def generate(self, rng):
        data = random_inst(rng, adaptive=rng.chance(0.35))
        if data["cfg"]["term"][0] == "steps":
            data["cfg"]["term"][1] = max(2, data["cfg"]["term"][1])
        ops = []
        for _ in range(rng.randint(1, 3)):
            ops.append({
                "op": rng.choice(["compute", "compute", "fwd", "rev"]),
                "pt": rng.randrange(len(data["points"])),
                "cut": rng.random(), "phase": rng.choice(["before", "after", "after"]),
                "dir": rng.randrange(5), "crash": rng.chance(0.5),
                "disk": rng.chance(0.5),
            })
        return {"insts": [data], "ops": ops, "tick": 0}

    def execute(self, scn):
        with Scratch() as scratch:
            self.drive(bind_scratch(scn, scratch))

    def drive(self, scn):
        data = scn["insts"][0]
        spec, cfg = data["spec"], data["cfg"]
        inst, expect = Instance(spec, cfg, "i0"), Expect(spec, cfg)
        CTX.mark(spec["layout"], cfg["adaptive"], cfg["ckpt"][:2], cfg["term"])
        kept = []
        for index, op in enumerate(scn["ops"]):
            pt = data["points"][op["pt"]]
            if not expect.feasible(pt) or not expect.steps(pt):
                continue
            us, ts = expect.path(pt)
            n = len(us) - 1
            k = 1 + int(op["cut"] * n) if op["cut"] < 1 else n
            label = op["op"] if op["op"] != "om_run" else "compute"
            snap = {}

            def take(state, ode):
                snap["meta"] = ode.time_integration_metadata
                snap["live"] = flatten(state.to_dict())
                tree = through_disk(state.to_dict()) if op.get("disk") else state.to_dict()
                snap["copy"] = TimeIntegrationState.from_dict(tree)
                snap["at"] = flatten(snap["copy"].to_dict())

            inst.clear_events()
            inst.rec[label].hook = (op["phase"], k, take)
            faults = []
            if op.get("crash"):
                # the process dies some time after the snapshot; what follows happens in
                # another life
                faults = [{"kind": "nl", "nth": 1 + int(op["cut"] * 7) + k * inst.tab.s,
                           "action": "exception"}]
            CTX.begin_op(faults, 200_000)
            error = None
            try:
                if op["op"] == "compute":
                    inst.compute(pt)
                elif op["op"] == "fwd":
                    inst.fwd(pt, np.full(expect.math.n + expect.math.m + 1, 0.3))
                else:
                    inst.rev(pt, np.full(expect.math.n + 1, 0.3))
            except Exception as exc:  # pylint: disable=broad-except
                error = exc
            left = CTX.end_op()
            if error is not None and len(left) == len(faults):
                raise Violation("unexpected-error", f"op {index} ({op['op']}) raised "
                                f"{type(error).__name__}: {str(error)[:300]}")
            CTX.note(f"{index} {op['op']} cut {k} of {n} {op['phase']} "
                     f"{type(error).__name__}")
            CTX.mark(op["op"], op["phase"], k, n, error is not None)
            CTX.reach(cfg["ckpt"][:2], op["op"], op["phase"], error is not None,
                      cfg["adaptive"], k == n)
            CTX.steps += n
            CTX.sim_time += ts[-1] - ts[0]
            if not snap:
                CTX.probe("no_snapshot")
                continue
            CTX.probe("snapshot")
            kept.append(snap)
            self.check_snapshots(index, kept)
            if op["op"] == "rev" or (op["op"] == "fwd" and op["phase"] == "after"):
                done = k
            else:
                done = k if op["phase"] == "after" else k - 1
            values = self.values(snap, expect.math)
            self.check_content(index, op, values, us, ts, done, k, expect, pt)
            self.check_restart(index, spec, cfg, expect, pt, values, us, ts, done)

    def values(self, snap, math):
        """Quantities of a snapshot in the order of the options."""
        ds, meta = snap["copy"].discretization_state, snap["meta"]
        out = {"start_time": ds.start_time, "final_time": ds.final_time}
        for name in ("start_state", "final_state"):
            out[name] = in_order(
                getattr(ds, name), meta.time_integration_quantity_list, math.names)
        out["independent_inputs"] = in_order(
            ds.independent_inputs, meta.time_independent_input_quantity_list, math.p_names)
        return out

    def check_snapshots(self, index, kept):
        for i, snap in enumerate(kept):
            now = flatten(snap["copy"].to_dict())
            for name, val in snap["live"].items():
                CTX.judged += 1
                if name not in now or not np.array_equal(now[name], val):
                    raise Violation(
                        "snapshot-changed", f"after op {index}: entry {name} of snapshot "
                        f"{i} was {fmt(val)} when taken, is {fmt(now.get(name))} now")

    def check_content(self, index, op, values, us, ts, done, k, expect, pt):
        want = [("final_state", us[done]), ("final_time", [ts[done]]),
                ("independent_inputs", pt["p"])]
        if done == k:
            want += [("start_state", us[k - 1]), ("start_time", [ts[k - 1]])]
        for name, val in want:
            if not close(values[name], np.array(val, float), expect.tol * 10):
                raise Violation("wrong-snapshot", f"op {index} ({op['op']}): {name} of "
                                f"snapshot at step {k} ({op['phase']}) is "
                                f"{fmt(values[name])}, expected {fmt(val)}")

    def check_restart(self, index, spec, cfg, expect, pt, values, us, ts, done):
        n = len(us) - 1
        if done >= n or (cfg["adaptive"]):
            return
        pt2 = {"u": [float(x) for x in values["final_state"]], "p": pt["p"],
               "t": float(values["final_time"][0])}
        cfg2 = copy.deepcopy(cfg)
        if cfg["term"][0] == "steps":
            cfg2["term"] = ["steps", n - done]
        CTX.begin_op((), 200_000)
        value = Instance(spec, cfg2, "restart").compute(pt2)
        CTX.end_op()
        if cfg["term"][0] == "time" and not np.isclose(value[-1], ts[-1], atol=1e-9):
            # rounding of the accumulated time decides about the last step
            CTX.probe("restart_rounding")
            return
        want = np.concatenate([us[-1], [ts[-1]]])
        CTX.judged += 1
        CTX.probe("restarted")
        if not close(value, want, expect.tol * 10):
            raise Violation("restart", f"op {index}: restarted from the snapshot after step "
                            f"{done} of {n}: {fmt(value)}, expected {fmt(want)}")

    def simplify(self, scn):
        return simplify_history(dict(scn, ops=[dict(o, i=0) for o in scn["ops"]]))


CHECKS = {"P09": Callbacks, "P12": Isolation, "P13": Resetup, "P14": Snapshots}
