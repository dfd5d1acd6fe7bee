"""P15: integrators as part of larger models."""

from __future__ import annotations

import copy

import numpy as np
import openmdao.api as om

from .checks import Check
from .core import CTX, StepBudgetExceeded, Violation
from .history import (
    Scratch, bind_scratch, random_fault, random_inst, simplify_inst,
)
from .odes import raise_fault
from .world1 import EXPECTED_ERRORS, Expect, Instance, close, direction, fmt, quiet


class Segment(Instance):
    """An integrator that is put into somebody else's model."""

    def build_problem(self):
        self.prob = None


class Pre(om.ExplicitComponent):
    """u = scale * x + feedback * v, per quantity."""

    def initialize(self):
        self.options.declare("math")
        self.options.declare("scale")
        self.options.declare("feedback")

    def setup(self):
        math = self.options["math"]
        for name, shape in zip(math.names, math.shapes):
            self.add_input("x_" + name, shape=shape)
            if self.options["feedback"]:
                self.add_input("v_" + name, shape=shape, val=0.0)
            self.add_output("u_" + name, shape=shape)

    def compute(self, inputs, outputs, discrete_inputs=None, discrete_outputs=None):
        action = CTX.hit("outer_nl")
        if action is not None:
            raise_fault(action)
        for name in self.options["math"].names:
            out = self.options["scale"] * inputs["x_" + name]
            if self.options["feedback"]:
                out = out + self.options["feedback"] * inputs["v_" + name]
            outputs["u_" + name] = out

    def compute_jacvec_product(self, inputs, d_inputs, d_outputs, mode,
                               discrete_inputs=None):
        action = CTX.hit("outer_lin")
        if action is not None:
            raise_fault(action)
        for name in self.options["math"].names:
            for pre, factor in (("x_", self.options["scale"]),
                                ("v_", self.options["feedback"])):
                if pre + name in d_inputs and "u_" + name in d_outputs:
                    if mode == "fwd":
                        d_outputs["u_" + name] += factor * d_inputs[pre + name]
                    else:
                        d_inputs[pre + name] += factor * d_outputs["u_" + name]


class Post(om.ExplicitComponent):
    """f = sum(u**2) / 2 + t"""

    def initialize(self):
        self.options.declare("math")

    def setup(self):
        math = self.options["math"]
        for name, shape in zip(math.names, math.shapes):
            self.add_input("z_" + name, shape=shape)
        self.add_input("tf", shape=1)
        self.add_output("f", shape=1)

    def compute(self, inputs, outputs, discrete_inputs=None, discrete_outputs=None):
        outputs["f"] = inputs["tf"] + sum(
            0.5 * np.sum(inputs["z_" + n] ** 2) for n in self.options["math"].names
        )

    def compute_jacvec_product(self, inputs, d_inputs, d_outputs, mode,
                               discrete_inputs=None):
        if "f" not in d_outputs:
            return
        for name in self.options["math"].names:
            if "z_" + name in d_inputs:
                if mode == "fwd":
                    d_outputs["f"] += np.sum(inputs["z_" + name] * d_inputs["z_" + name])
                else:
                    d_inputs["z_" + name] += inputs["z_" + name] * d_outputs["f"][0]
        if "tf" in d_inputs:
            if mode == "fwd":
                d_outputs["f"] += d_inputs["tf"]
            else:
                d_inputs["tf"] += d_outputs["f"]


class Model:
    """ivc -> group(pre -> integrator(s) -> post)"""

    def __init__(self, scn):
        self.scn = scn
        data = scn["insts"][0]
        self.segments = [Segment(data["spec"], data["cfg"], f"s{k}")
                         for k in range(scn["segments"])]
        self.math = self.segments[0].math
        self.expect = Expect(data["spec"], data["cfg"])
        self.scale, self.feedback = 1.5, scn.get("feedback", 0.0)
        self.prob = prob = om.Problem(reports=False)
        ivc = prob.model.add_subsystem("ivc", om.IndepVarComp())
        math = self.math
        for name, shape in zip(math.names, math.shapes):
            ivc.add_output("x_" + name, shape=shape)
        for name, shape in zip(math.p_names, math.p_shapes):
            ivc.add_output(name, shape=shape)
        ivc.add_output("t0", shape=1)
        group = prob.model.add_subsystem("g", om.Group())
        group.add_subsystem("pre", Pre(math=math, scale=self.scale,
                                       feedback=self.feedback))
        for k, seg in enumerate(self.segments):
            group.add_subsystem(f"rk{k}", seg.integrator)
        group.add_subsystem("post", Post(math=math))
        last = f"g.rk{len(self.segments) - 1}"
        for name in math.names:
            prob.model.connect("ivc.x_" + name, "g.pre.x_" + name)
            prob.model.connect("g.pre.u_" + name, f"g.rk0.{name}_initial")
            for k in range(1, len(self.segments)):
                prob.model.connect(f"g.rk{k-1}.{name}_final", f"g.rk{k}.{name}_initial")
            prob.model.connect(f"{last}.{name}_final", "g.post.z_" + name)
            if self.feedback:
                prob.model.connect(f"{last}.{name}_final", "g.pre.v_" + name)
        prob.model.connect("ivc.t0", "g.rk0.time_initial")
        for k in range(1, len(self.segments)):
            prob.model.connect(f"g.rk{k-1}.time_final", f"g.rk{k}.time_initial")
        prob.model.connect(f"{last}.time_final", "g.post.tf")
        for name in math.p_names:
            for k in range(len(self.segments)):
                prob.model.connect("ivc." + name, f"g.rk{k}.{name}")
        self.last = last
        self.set_solvers(group)
        with quiet():
            prob.setup(mode=scn["mode"])
            prob.final_setup()

    def set_solvers(self, group):
        linear = self.scn["linear"]
        if self.feedback:
            group.nonlinear_solver = om.NonlinearBlockGS(
                maxiter=60, atol=1e-13, rtol=1e-14, iprint=-1)
            if linear == "runonce":
                linear = "bgs"
        if linear == "bgs":
            group.linear_solver = om.LinearBlockGS(maxiter=25, atol=1e-12, rtol=1e-12,
                                                   iprint=-1)
        elif linear == "jacobi":
            group.linear_solver = om.LinearBlockJac(maxiter=50, atol=1e-12, rtol=1e-12,
                                                    iprint=-1)
        elif linear == "krylov":
            group.linear_solver = om.ScipyKrylov(maxiter=200, atol=1e-14, rtol=1e-14,
                                                 iprint=-1)
        elif linear == "direct":
            group.linear_solver = om.DirectSolver(assemble_jac=False)

    # -- the model as mathematics -------------------------------------------------------
    def final_of(self, u, pt):
        """(final state, final time, d(final)/d(u, p, t)) of all segments in a row."""
        n, m = self.math.n, self.math.m
        total = np.eye(n + m + 1)
        cur = {"u": list(u), "p": pt["p"], "t": pt["t"]}
        for _ in self.segments:
            val = self.expect.value(cur)
            jac = self.expect.jac(cur)
            step = np.zeros((n + m + 1, n + m + 1))
            step[:n] = jac[:n]
            step[n : n + m, n : n + m] = np.eye(m)
            step[-1] = jac[-1]
            total = step @ total
            cur = {"u": list(val[:-1]), "p": pt["p"], "t": float(val[-1])}
        return np.array(cur["u"]), cur["t"], total

    def feasible(self, pt):
        cur = {"u": [self.scale * x for x in pt["u"]], "p": pt["p"], "t": pt["t"]}
        for _ in self.segments:
            if not self.expect.feasible(cur):
                return False
            val = self.expect.value(cur)
            cur = {"u": list(val[:-1]), "p": pt["p"], "t": float(val[-1])}
        if self.feedback:
            # the loop around the integrators must be a contraction
            total = self.final_of(self.scale * np.array(pt["u"], float), pt)[2]
            n = self.math.n
            if self.math.nonlinear or abs(self.feedback) * np.linalg.norm(
                total[:n, :n], 2
            ) > 0.3:
                return False
        return True

    def solve(self, pt):
        x = self.scale * np.array(pt["u"], float)
        u = x
        if self.feedback:
            for _ in range(60):
                new = x + self.feedback * self.final_of(u, pt)[0]
                if np.max(np.abs(new - u), initial=0.0) < 1e-15:
                    break
                u = new
        n, m = self.math.n, self.math.m
        uf, tf, total = self.final_of(u, pt)
        # d(u) = scale dx + feedback d(uf); d(uf, tf) = total d(u, p, t)
        lhs = np.eye(n) - self.feedback * total[:n, :n]
        du = np.linalg.solve(lhs, np.hstack([
            self.scale * np.eye(n), self.feedback * total[:n, n:]]))
        inner = np.vstack([du, np.hstack([np.zeros((m + 1, n)), np.eye(m + 1)])])
        jac = total @ inner
        jac = np.vstack([jac[:n], jac[-1:]])
        f = tf + 0.5 * np.sum(uf**2)
        grad = uf @ jac[:n] + jac[-1]
        return np.concatenate([uf, [tf, f]]), np.vstack([jac, grad])

    # -- the real thing ----------------------------------------------------------------
    def of_names(self):
        names = [f"{self.last}.{n}_final" for n in self.math.names]
        return names + [f"{self.last}.time_final", "g.post.f"]

    def wrt_names(self):
        return (["ivc.x_" + n for n in self.math.names]
                + ["ivc." + n for n in self.math.p_names] + ["ivc.t0"])

    def run(self, pt):
        for name, val in self.math.split(np.array(pt["u"], float)).items():
            self.prob.set_val("ivc.x_" + name, val)
        for name, val in self.math.split_p(np.array(pt["p"], float)).items():
            self.prob.set_val("ivc." + name, val)
        self.prob.set_val("ivc.t0", pt["t"])
        with quiet():
            self.prob.run_model()
        return np.concatenate([np.ravel(self.prob.get_val(n)) for n in self.of_names()])

    def totals(self, of, wrt):
        with quiet():
            jac = self.prob.compute_totals(of=of, wrt=wrt)
        return np.block([[jac[o, w] for w in wrt] for o in of])

    def select(self, jac, of, wrt):
        rows = np.concatenate([[0], np.cumsum([*self.math.sizes, 1, 1])])
        cols = np.concatenate([[0], np.cumsum([*self.math.sizes, *self.math.p_sizes, 1])])
        ri = [r for k, n in enumerate(self.of_names()) if n in of
              for r in range(rows[k], rows[k + 1])]
        ci = [c for k, n in enumerate(self.wrt_names()) if n in wrt
              for c in range(cols[k], cols[k + 1])]
        return jac[np.ix_(ri, ci)]


class Models(Check):
    """P15"""

    def generate(self, rng):
        data = random_inst(rng, adaptive=rng.chance(0.15), max_steps=5,
                           layouts=("explicit", "implicit", "explicit", "coupled"))
        scn = {
            "insts": [data], "mode": rng.choice(["fwd", "rev"]),
            "linear": rng.choice(["runonce", "bgs", "jacobi", "krylov", "direct"]),
            "segments": rng.choice([1, 1, 2]), "tick": 0, "ops": [],
        }
        if data["cfg"]["term"][0] == "time":
            scn["segments"] = 1
        size = sum(int(np.prod(q["shape"])) for q in data["spec"]["quantities"])
        if not data["cfg"]["adaptive"] and size <= 4 and rng.chance(0.4):
            scn["segments"] = 1
            if data["cfg"]["term"][0] == "time":
                data["cfg"]["term"] = ["steps", 3]
            if data["spec"]["layout"] == "coupled":
                data["spec"]["layout"] = "implicit"
            if scn["linear"] == "jacobi":
                scn["linear"] = "krylov"
            scn["feedback"] = rng.choice([0.05, -0.1])
            data["spec"]["kind"] = "linear"
        last = 0
        for _ in range(rng.randint(2, 6)):
            kind = rng.choice(["run", "totals", "totals", "raw"])
            pt = last if rng.chance(0.6) else rng.randrange(len(data["points"]))
            last = pt
            op = {"op": kind, "pt": pt}
            if kind == "totals":
                op["of"], op["wrt"] = rng.random(), rng.random()
                op["mask"] = rng.randrange(1 << 10)
            if kind == "raw":
                op["mode"] = rng.choice(["fwd", "rev"])
                op["dir"], op["preload"] = rng.randrange(5), rng.randrange(5)
                op["seg"] = rng.randrange(scn["segments"])
            if rng.chance(0.2):
                fault = random_fault(rng, {"run": "compute", "totals": scn["mode"],
                                           "raw": op.get("mode")}[kind])
                if rng.chance(0.25):
                    fault = {"kind": rng.choice(["outer_nl", "outer_lin"]),
                             "nth": rng.choice([1, 2, 3, 5]), "action": "exception"}
                if fault["action"] == "nan":
                    # would stay in the loops of the surrounding model; see P04
                    fault["action"] = "exception"
                op["faults"] = [fault]
            scn["ops"].append(op)
        return scn

    def execute(self, scn):
        with Scratch() as scratch:
            self.drive(bind_scratch(scn, scratch))

    def drive(self, scn):
        model = Model(scn)
        data = scn["insts"][0]
        CTX.mark(scn["linear"], scn["mode"], scn["segments"], bool(scn.get("feedback")),
                 data["cfg"]["ckpt"][:2], data["cfg"]["adaptive"], data["spec"]["layout"])
        current, spoiled = None, False
        for index, op in enumerate(scn["ops"]):
            pt = data["points"][op["pt"]]
            if not model.feasible(pt):
                CTX.probe("infeasible_point")
                continue
            if spoiled or (op["op"] == "totals" and current != op["pt"]):
                # totals belong to the last run of the model
                if not self.one(model, index, {"op": "run", "pt": op["pt"]}, pt, scn):
                    continue
                current, spoiled = op["pt"], False
            ok = self.one(model, index, op, pt, scn)
            if op["op"] == "run":
                current = op["pt"] if ok else None
            if not ok:
                spoiled = True

    def one(self, model, index, op, pt, scn):
        kind = op["op"]
        faults = op.get("faults", ())
        tol = model.expect.tol * (100 if model.feedback else 1) * 10
        CTX.begin_op(faults, 600_000)
        error = value = want = None
        try:
            if kind == "run":
                value, want = model.run(pt), model.solve(pt)[0]
            elif kind == "totals":
                of = [n for k, n in enumerate(model.of_names()) if op["mask"] >> k & 1]
                wrt = [n for k, n in enumerate(model.wrt_names())
                       if op["mask"] >> (k + 3) & 1]
                of = of or model.of_names()[-1:]
                wrt = wrt or model.wrt_names()
                value = model.totals(of, wrt)
                want = model.select(model.solve(pt)[1], of, wrt)
            else:
                value, want = self.raw(model, op)
        except Violation:
            raise
        except StepBudgetExceeded as exc:
            error = exc
        except EXPECTED_ERRORS as exc:
            error = exc
        finally:
            fired = [f for f in CTX.active_faults if f.get("_fired")]
            CTX.end_op()
        if model.segments[0].cfg["term"][0] == "steps":
            CTX.steps += model.segments[0].cfg["term"][1] * len(model.segments)
        CTX.mark(kind, op["pt"], type(error).__name__, op.get("mode"), op.get("mask"))
        CTX.reach(scn["linear"], scn["mode"], scn["segments"], bool(model.feedback), kind,
                  bool(fired), model.segments[0].cfg["ckpt"][:2])
        CTX.note(f"{index} {kind} {op['pt']} " + (
            type(error).__name__ if error is not None
            else np.asarray(value).tobytes().hex()))
        if fired:
            CTX.probe("failed_" + kind)
            return False
        where = f"op {index} ({kind} at point {op['pt']}, {scn['linear']}, {scn['mode']})"
        if error is not None:
            raise Violation("unexpected-error", f"{where} raised {type(error).__name__}: "
                            f"{str(error)[:400]}")
        CTX.judged += 1
        CTX.probe("ok_" + kind)
        if not close(value, want, tol):
            raise Violation("wrong-value", f"{where} returned {fmt(value)}, expected "
                            f"{fmt(want)}")
        return True

    def raw(self, model, op):
        """Product at the current inputs, added to what is there, changing nothing else."""
        seg = model.segments[op["seg"]]
        integ = seg.integrator
        inputs, _, _ = integ.get_nonlinear_vectors()
        d_in, _, d_res = integ.get_linear_vectors()
        math, mode = seg.math, op["mode"]
        ins = [n + "_initial" for n in math.names] + list(math.p_names) + ["time_initial"]
        outs = [n + "_final" for n in math.names] + ["time_final"]

        def get(vec, names):
            return np.concatenate([np.ravel(vec[n]).copy() for n in names])

        def put(vec, names, val):
            pos = 0
            for n in names:
                size = vec[n].size
                vec[n] = val[pos : pos + size].reshape(vec[n].shape)
                pos += size

        n_in, n_out = get(d_in, ins).size, get(d_res, outs).size
        put(d_in, ins, direction(op["dir"], n_in))
        put(d_res, outs, direction(op["preload"] + 10, n_out))
        before = get(inputs, ins), get(d_in, ins), get(d_res, outs)
        cur = {"u": [float(x) for x in before[0][: math.n]],
               "p": [float(x) for x in before[0][math.n : -1]],
               "t": float(before[0][-1])}
        if not model.expect.feasible(cur):
            return np.zeros(1), np.zeros(1)
        with quiet():
            integ.compute_jacvec_product(inputs, d_in, d_res, mode)
        after = get(inputs, ins), get(d_in, ins), get(d_res, outs)
        if not np.array_equal(before[0], after[0]):
            raise Violation("inputs-changed", f"product in {mode} mode changed the inputs "
                            f"from {fmt(before[0])} to {fmt(after[0])}")
        jac = model.expect.jac(cur)
        if mode == "fwd":
            if not np.array_equal(before[1], after[1]):
                raise Violation("seed-changed", f"product in fwd mode changed its seed "
                                f"from {fmt(before[1])} to {fmt(after[1])}")
            return after[2], before[2] + jac @ before[1]
        if not np.array_equal(before[2], after[2]):
            raise Violation("seed-changed", f"product in rev mode changed its seed from "
                            f"{fmt(before[2])} to {fmt(after[2])}")
        return after[1], before[1] + jac.T @ before[2]

    def simplify(self, scn):
        for i in range(len(scn["ops"])):
            if len(scn["ops"]) > 1:
                cand = copy.deepcopy(scn)
                del cand["ops"][i]
                yield cand
            if scn["ops"][i].get("faults"):
                cand = copy.deepcopy(scn)
                del cand["ops"][i]["faults"]
                yield cand
        for key, val in (("segments", 1), ("feedback", 0.0), ("linear", "runonce")):
            if scn.get(key, 0.0) != val:
                cand = copy.deepcopy(scn)
                cand[key] = val
                for op in cand["ops"]:
                    if op.get("seg"):
                        op["seg"] = 0
                yield cand
        for inst in simplify_inst(scn["insts"][0]):
            cand = copy.deepcopy(scn)
            cand["insts"][0] = inst
            yield cand


CHECKS = {"P15": Models}
