"""P16: several ranks.  Values, step sequences and agreement of ranks under every schedule."""

from __future__ import annotations

import copy
import re

import numpy as np
import openmdao.api as om
import openmdao.core.problem as om_problem

from rkopenmdao.callback import Callback
from rkopenmdao.components import ExplicitUnsteadyComponent, ImplicitUnsteadyComponent
from rkopenmdao.discretized_ode.discretized_ode import DiscretizedODEResultState
from rkopenmdao.discretized_ode.openmdao_ode import OpenMDAOODE
from rkopenmdao.integration_config import IntegrationConfig
from rkopenmdao.runge_kutta_integrator import RungeKuttaIntegrator

from . import mpiworld, ref, seams, world1
from .checks import Check
from .core import CTX, Violation, sub_seed
from .gen import random_cfg, random_points
from .history import Scratch, bind_scratch
from .odes import make_math, raise_fault, random_ode_spec
from .world1 import (
    CKPT, Expect, close, direction, fmt, make_controllers, make_termination, quiet,
)


class Parts:
    """How the global vectors are laid out on the ranks."""

    def __init__(self, math, parts, rank, flat=False):
        self.math, self.parts, self.rank, self.flat = math, parts, rank, flat

    def is_dist(self, name):
        return self.parts.get(name) is not None

    def rows(self, name):
        sizes = self.parts[name]
        start = sum(sizes[: self.rank])
        return slice(start, start + sizes[self.rank])

    def local_shape(self, name, shape):
        if not self.is_dist(name):
            return tuple(shape)
        rows = self.parts[name][self.rank]
        # variables of a parallel group have no other dimensions where they are not local
        return (rows, *shape[1:]) if rows or not self.flat else (0,)

    def local(self, name, values):
        return values[self.rows(name)].reshape(self.local_shape(name, values.shape)) if (
            self.is_dist(name)) else values

    def shapes(self):
        return {n: self.local_shape(n, s) for n, s in
                (*zip(self.math.names, self.math.shapes),
                 *zip(self.math.p_names, self.math.p_shapes))}


def join(math, parts, pieces, names, shapes):
    """Global vector from what all ranks have; replicas must agree (up to rounding)."""
    out = []
    for name, shape in zip(names, shapes):
        values = [np.asarray(p[name], float) for p in pieces]
        if parts.get(name) is not None:
            out.append(np.concatenate(
                [v.reshape((k, *shape[1:])) for v, k in zip(values, parts[name])]).ravel())
            continue
        for r, v in enumerate(values):
            # rounding errors may depend on the sizes of local arrays
            if not close(v, values[0], 1e-9):
                raise Violation("replicas-differ", f"{name} is {fmt(values[0])} on rank 0, "
                                f"{fmt(v)} on rank {r}")
        out.append(values[0].ravel())
    return np.concatenate(out) if out else np.zeros(0)


def agreed(a, b):
    """Same structure and names, same numbers up to rounding."""
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(agreed(a[k], b[k]) for k in a)
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(agreed(x, y) for x, y in zip(a, b))
    if isinstance(a, float):
        return a == b or abs(a - b) <= 1e-9 * max(abs(a), abs(b), 1e-3)
    return a == b


class Plan:
    """Fault plan of one rank: the same failure happens on all ranks at the same call."""

    def __init__(self, world):
        self.world = world
        self.faults, self.counts = [], {}
        self.fired = False

    def begin(self, faults):
        self.faults = [dict(f) for f in faults]
        self.counts, self.fired = {}, False

    def hit(self, kind):
        self.counts[kind] = self.counts.get(kind, 0) + 1
        for f in self.faults:
            if f["kind"] == kind and f["nth"] == self.counts[kind]:
                self.fired = True
                if self.world.rank == 0:
                    name = f"{kind}:{f['action']}"
                    CTX.fired[name] = CTX.fired.get(name, 0) + 1
                    CTX.mark("fault", name, f["nth"])
                raise_fault(f["action"])


class _Dist:
    """Components on all ranks, which exchange what they need."""

    def initialize(self):
        for key in ("math", "parts", "plan", "world"):
            self.options.declare(key)
        self.options.declare("everybody", default=None)

    def setup(self):
        math, parts = self.options["math"], self.options["parts"]
        for name, shape, inp in math.declared():
            local, dist = parts.local_shape(name, shape), parts.is_dist(name)
            if inp:
                self.add_input(name, shape=local, distributed=dist,
                               tags=[name, "step_input_var"])
                self.add_input(name + "_acc", shape=local, distributed=dist,
                               tags=[name, "accumulated_stage_var"])
            self.add_output(name + "_upd", shape=local, distributed=dist, val=0.0,
                            tags=[name, "stage_output_var"])
        for name, shape in math.declared_p():
            self.add_input(name, shape=parts.local_shape(name, shape), val=0.0,
                           distributed=parts.is_dist(name),
                           tags=[name, "time_independent_input_var"])
        if math.use_time:
            self.add_input("time", shape=1, val=0.0, tags=["time_variable"])
        self._lin = None

    def _all(self, vec, suffix, names, shapes, agree=()):
        """Global vector of variables; `agree` has to be the same on all ranks."""
        math, parts = self.options["math"], self.options["parts"]
        mine = {}
        for name, shape in zip(names, shapes):
            key = name + suffix
            if key in vec:
                mine[name] = np.array(vec[key], float)
            else:
                mine[name] = np.zeros(parts.local_shape(name, shape))
        data = (self.options["everybody"] or self.comm).allgather((mine, agree))
        for r, (_, other) in enumerate(data):
            if not agreed(other, agree):
                self.options["world"].stop(("violation", "ranks-disagree",
                                            f"one rank is at {agree}, rank {r} "
                                            f"at {other}"))
                raise mpiworld.Abort()
        try:
            return join(math, parts.parts, [d for d, _ in data], names, shapes)
        except Violation as exc:
            self.options["world"].stop(("violation", exc.kind, exc.detail))
            raise mpiworld.Abort() from exc

    def _put(self, vec, suffix, names, shapes, values, add=True):
        parts = self.options["parts"]
        at = 0
        for name, shape in zip(names, shapes):
            size = int(np.prod(shape))
            block = values[at : at + size].reshape(shape)
            at += size
            if name + suffix in vec:
                local = parts.local(name, block)
                if add:
                    vec[name + suffix] += local
                else:
                    vec[name + suffix] = local

    def _point(self, inputs, kind):
        math = self.options["math"]
        h = self.om_data_exchange.step_size
        a = self.om_data_exchange.stage_factor
        t = float(inputs["time"][0]) if math.use_time else 0.0
        agree = (kind, float(h), float(a), t)
        u0 = self._all(inputs, "", math.names, math.shapes, agree)
        acc = self._all(inputs, "_acc", math.names, math.shapes, agree)
        p = self._all(inputs, "", math.p_names, math.p_shapes, agree)
        return u0, acc, p, t, h, a

    def _slope(self, inputs, outputs):
        math = self.options["math"]
        self.options["plan"].hit("nl")
        k = math.solve_stage(*self._point(inputs, "nl"))
        self._put(outputs, "_upd", math.names, math.shapes, k, add=False)

    def _product(self, lin, h, d_inputs, d_outputs, mode, sign=1.0):
        """d_outputs of explicit components, or of the solution of implicit ones."""
        math = self.options["math"]
        M, fu, fp, ft = lin
        if mode == "fwd":
            du = self._all(d_inputs, "", math.names, math.shapes, mode)
            dacc = self._all(d_inputs, "_acc", math.names, math.shapes, mode)
            dp = self._all(d_inputs, "", math.p_names, math.p_shapes, mode)
            dt = d_inputs["time"][0] if math.use_time and "time" in d_inputs else 0.0
            dk = fu @ (du + h * dacc) + fp @ dp + ft * dt
            if M is not None:
                dk = np.linalg.solve(M, dk)
            self._put(d_outputs, "_upd", math.names, math.shapes, sign * dk)
        else:
            lam = sign * self._all(d_outputs, "_upd", math.names, math.shapes, mode)
            if M is not None:
                lam = np.linalg.solve(M.T, lam)
            x = fu.T @ lam
            self._put(d_inputs, "", math.names, math.shapes, x)
            self._put(d_inputs, "_acc", math.names, math.shapes, h * x)
            self._put(d_inputs, "", math.p_names, math.p_shapes, fp.T @ lam)
            if math.use_time and "time" in d_inputs:
                d_inputs["time"] += ft @ lam


class DistExplicit(_Dist, ExplicitUnsteadyComponent):
    def compute(self, inputs, outputs, discrete_inputs=None, discrete_outputs=None):
        self._slope(inputs, outputs)

    def compute_jacvec_product(
        self, inputs, d_inputs, d_outputs, mode, discrete_inputs=None
    ):
        math = self.options["math"]
        self.options["plan"].hit("lin")
        u0, acc, p, t, h, a = self._point(inputs, "lin")
        k = math.solve_stage(u0, acc, p, t, h, a)
        lin = math.stage_derivs(u0, acc, k, p, t, h, a)
        self._product(lin, h, d_inputs, d_outputs, mode)


class DistImplicit(_Dist, ImplicitUnsteadyComponent):
    def apply_nonlinear(
        self, inputs, outputs, residuals, discrete_inputs=None, discrete_outputs=None
    ):
        math = self.options["math"]
        u0, acc, p, t, h, a = self._point(inputs, "res")
        k = self._all(outputs, "_upd", math.names, math.shapes)
        self._put(residuals, "_upd", math.names, math.shapes,
                  k - math.f(u0 + h * (acc + a * k), p, t), add=False)

    def solve_nonlinear(
        self, inputs, outputs, discrete_inputs=None, discrete_outputs=None
    ):
        self._slope(inputs, outputs)

    def linearize(
        self, inputs, outputs, jacobian, discrete_inputs=None, discrete_outputs=None
    ):
        math = self.options["math"]
        u0, acc, p, t, h, a = self._point(inputs, "lin")
        k = self._all(outputs, "_upd", math.names, math.shapes)
        self._lin = (h, math.stage_derivs(u0, acc, k, p, t, h, a))

    def apply_linear(self, inputs, outputs, d_inputs, d_outputs, d_residuals, mode):
        math = self.options["math"]
        self.options["plan"].hit("lin")
        h, (M, fu, fp, ft) = self._lin
        self._product((None, fu, fp, ft), h, d_inputs, d_residuals, mode, -1.0)
        if mode == "fwd":
            dk = self._all(d_outputs, "_upd", math.names, math.shapes, mode)
            self._put(d_residuals, "_upd", math.names, math.shapes, M @ dk)
        else:
            lam = self._all(d_residuals, "_upd", math.names, math.shapes, mode)
            self._put(d_outputs, "_upd", math.names, math.shapes, M.T @ lam)

    def solve_linear(self, d_outputs, d_residuals, mode):
        math = self.options["math"]
        M = self._lin[1][0]
        if mode == "fwd":
            rhs = self._all(d_residuals, "_upd", math.names, math.shapes, mode)
            self._put(d_outputs, "_upd", math.names, math.shapes,
                      np.linalg.solve(M, rhs), add=False)
        else:
            rhs = self._all(d_outputs, "_upd", math.names, math.shapes, mode)
            self._put(d_residuals, "_upd", math.names, math.shapes,
                      np.linalg.solve(M.T, rhs), add=False)


class ParallelPart(_Dist, ExplicitUnsteadyComponent):
    """One of several components running in parallel, each with its own quantities.  What
    they need of each other they exchange themselves; time comes from a component that
    all ranks share."""

    def setup(self):
        math, parts = self.options["math"], self.options["parts"]
        self.names = set()
        for name, shape, inp in math.declared():
            if not parts.local_shape(name, shape)[0]:
                continue
            self.names.add(name)
            if inp:
                self.add_input(name, shape=shape, tags=[name, "step_input_var"])
                self.add_input(name + "_acc", shape=shape,
                               tags=[name, "accumulated_stage_var"])
            self.add_output(name + "_upd", shape=shape, val=0.0,
                            tags=[name, "stage_output_var"])
        for name, shape in math.declared_p():
            if parts.local_shape(name, shape)[0]:
                self.add_input(name, shape=shape, val=0.0,
                               tags=[name, "time_independent_input_var"])
        self.add_input("now", shape=1, val=0.0)
        self.add_output("idle", shape=1, val=0.0)

    def _mine(self, values):
        """The part of a global vector that belongs to this rank."""
        math = self.options["math"]
        out = np.zeros_like(values)
        for name, at, shape in zip(math.names, math.offsets, math.shapes):
            if name in self.names:
                out[at : at + int(np.prod(shape))] = values[at : at + int(np.prod(shape))]
        return out

    def _lin_at(self, inputs):
        math = self.options["math"]
        u0, acc, p, t, h, a = self._point({**dict(inputs), "time": inputs["now"]}, "lin")
        k = math.solve_stage(u0, acc, p, t, h, a)
        return h, math.stage_derivs(u0, acc, k, p, t, h, a)

    def compute(self, inputs, outputs, discrete_inputs=None, discrete_outputs=None):
        math = self.options["math"]
        self.options["plan"].hit("nl")
        k = math.solve_stage(
            *self._point({**dict(inputs), "time": inputs["now"]}, "nl"))
        self._put(outputs, "_upd", math.names, math.shapes, k, add=False)
        outputs["idle"] = 0.5 * inputs["now"]

    def compute_jacvec_product(
        self, inputs, d_inputs, d_outputs, mode, discrete_inputs=None
    ):
        math, world = self.options["math"], self.options["everybody"]
        self.options["plan"].hit("lin")
        h, (M, fu, fp, ft) = self._lin_at(inputs)
        now = "now" in d_inputs
        if mode == "fwd":
            du = self._all(d_inputs, "", math.names, math.shapes, mode)
            dacc = self._all(d_inputs, "_acc", math.names, math.shapes, mode)
            dp = self._all(d_inputs, "", math.p_names, math.p_shapes, mode)
            dt = d_inputs["now"][0] if now else 0.0
            dft = sum(world.allgather(self._mine(ft) * dt))
            dk = np.linalg.solve(M, fu @ (du + h * dacc) + fp @ dp + dft)
            self._put(d_outputs, "_upd", math.names, math.shapes, dk)
            if "idle" in d_outputs:
                d_outputs["idle"] += 0.5 * dt
        else:
            lam = np.linalg.solve(
                M.T, self._all(d_outputs, "_upd", math.names, math.shapes, mode))
            x = fu.T @ lam
            self._put(d_inputs, "", math.names, math.shapes, x)
            self._put(d_inputs, "_acc", math.names, math.shapes, h * x)
            self._put(d_inputs, "", math.p_names, math.p_shapes, fp.T @ lam)
            if now:
                d_inputs["now"] += self._mine(ft) @ lam
                if "idle" in d_outputs:
                    d_inputs["now"] += 0.5 * d_outputs["idle"]


class Clock(ExplicitUnsteadyComponent):
    """Passes the time on."""

    def initialize(self):
        self.options.declare("factor")

    def setup(self):
        self.add_input("time", shape=1, val=0.0, tags=["time_variable"])
        self.add_output("now", shape=1, val=0.0)

    def compute(self, inputs, outputs, discrete_inputs=None, discrete_outputs=None):
        outputs["now"] = inputs["time"]

    def compute_jacvec_product(
        self, inputs, d_inputs, d_outputs, mode, discrete_inputs=None
    ):
        if "time" in d_inputs and "now" in d_outputs:
            if mode == "fwd":
                d_outputs["now"] += d_inputs["time"]
            else:
                d_inputs["time"] += d_outputs["now"]


class Watcher(om.ExplicitComponent):
    """Looks at the inputs of the ODE, of which nothing depends."""

    def initialize(self):
        for key in ("math", "parts", "label"):
            self.options.declare(key)

    def setup(self):
        math, parts = self.options["math"], self.options["parts"]
        names = [(n, s) for n, s, inp in math.declared() if inp]
        self._seen = []
        for name, shape in [*names, *((n + "_acc", s) for n, s in names),
                            *math.declared_p()]:
            base = name.removesuffix("_acc")
            self.add_input(name, shape=parts.local_shape(base, shape),
                           val=0.0 if base in math.p_names else 1.0,
                           distributed=parts.is_dist(base))
            self._seen.append(name)
        dist = any(parts.is_dist(n.removesuffix("_acc")) for n in self._seen)
        self.add_output(f"seen{self.options['label']}", val=0.0, shape=1,
                        distributed=dist)

    def compute(self, inputs, outputs, discrete_inputs=None, discrete_outputs=None):
        outputs[f"seen{self.options['label']}"] = sum(
            float(np.sum(inputs[n])) for n in self._seen)


class Witness(Callback):
    """Records steps; fails where the plan says so."""

    def __init__(self, label, plan):
        self.label, self.plan, self.events = label, plan, []

    def _see(self, phase, iteration, state):
        ds = state.discretization_state
        self.events.append((phase, int(iteration), float(ds.start_time[0]),
                            float(ds.final_time[0]), float(ds.step_size[0])))
        self.plan.hit(f"cb_{self.label}_{phase}")

    def before_iteration(
        self, iteration, time_integration_state, ode, discretization_scheme
    ):
        self._see("before", iteration, time_integration_state)

    def after_iteration(
        self, iteration, time_integration_state, ode, discretization_scheme
    ):
        self._see("after", iteration, time_integration_state)


REPORTED = {"compute": "compute", "fwd": "compute_jacvec_product_fwd",
            "rev": "compute_jacvec_product_rev"}
REPORT = re.compile(r"(Starting|Finishing) step <(\d+)> of (\w+)\.|Iteration took .*")


class RankOutput:
    """Standard output of all ranks."""

    def __init__(self, world):
        self.world = world
        self.real = world1._DEVNULL
        self.lines = [[] for _ in range(world.size)]
        self.part = [""] * world.size

    def write(self, text):
        rank = getattr(self.world.local, "rank", None)
        if rank is None:
            return len(text)
        *lines, self.part[rank] = (self.part[rank] + text).split("\n")
        self.lines[rank] += [found for found in map(REPORT.fullmatch, lines) if found]
        return len(text)

    def flush(self):
        pass

    def isatty(self):
        return False

    def fileno(self):
        return self.real.fileno()


class RankInstance:
    """The integrator as one rank sees it."""

    def __init__(self, scn, comm, world, callbacks=lambda *args: {}):
        self.scn, self.comm = scn, comm
        self.math = make_math(scn["spec"])
        self.parts = Parts(self.math, scn["parts"], comm.rank,
                           scn["layout"] == "parallel")
        self.plan = Plan(world)
        cfg = scn["cfg"]
        self.world, self.norm_stage = world, None
        stage = self.build_stage("stage")
        extra = callbacks(scn, comm, self.plan)
        self.rec = {k: Witness(k, self.plan) for k in ("compute", "fwd", "rev")}
        kind = cfg["ckpt"][0]
        options = {}
        if kind == "pyrevolve":
            options = {"revolver_type": cfg["ckpt"][1],
                       "revolver_options": dict(cfg["ckpt"][2])}
        self.integrator = RungeKuttaIntegrator(
            time_stage_problem=stage,
            butcher_tableau=ref.make_tableau(cfg["tableau"])[0],
            integration_config=IntegrationConfig(
                cfg["adaptive"], make_termination(cfg), cfg["h"]),
            time_integration_quantities=list(self.math.names),
            time_independent_input_quantities=list(self.math.p_names),
            checkpointing_type=CKPT[kind],
            checkpoint_options=options,
            **{
                f"{REPORTED[k]}_callbacks": None if k in scn.get("report", ()) else
                [self.rec[k], *extra.get(k, ())]
                for k in ("compute", "fwd", "rev")
            },
            **(make_controllers(cfg) if cfg.get("ctl") else {}),
        )
        self.prob = om.Problem(comm=comm, reports=False, name=f"outer{comm.rank}")
        outer, shapes = om.IndepVarComp(), self.parts.shapes()
        count = 0
        for name in (*self.math.names, *self.math.p_names):
            if self.parts.is_dist(name):
                key = name + ("_initial" if name in self.math.names else "")
                outer.add_output(key, shape=shapes[name], distributed=True)
                count += 1
        if count:
            self.prob.model.add_subsystem("outer", outer, promotes=["*"])
        self.prob.model.add_subsystem("rk", self.integrator, promotes=["*"])
        self.prob.setup(mode=scn["mode"])
        self.prob.final_setup()

    def build_stage(self, name):
        stage = om.Problem(comm=self.comm, reports=False, name=f"{name}{self.comm.rank}")
        if self.scn["layout"] == "parallel":
            self.build_parallel(stage, self.world)
        else:
            self.build_replicated(stage, self.world)
        return stage

    def build_replicated(self, stage, world):
        """One component on all ranks."""
        scn = self.scn
        cls = {"explicit": DistExplicit, "implicit": DistImplicit}[scn["layout"]]
        shapes = self.parts.shapes()
        ivc = om.IndepVarComp()
        count = 0
        for name, inp in zip(self.math.names, self.math.has_input):
            if inp and (self.parts.is_dist(name) or scn["ivc"]):
                for key in (name, name + "_acc"):
                    ivc.add_output(key, shape=shapes[name],
                                   distributed=self.parts.is_dist(name))
                    count += 1
        for name in self.math.p_names:
            if self.parts.is_dist(name) or scn["ivc"]:
                ivc.add_output(name, shape=shapes[name],
                               distributed=self.parts.is_dist(name))
                count += 1
        if count:
            stage.model.add_subsystem("ivc", ivc, promotes=["*"])
        for i in range(scn.get("watchers", 0)):
            # (variables are numbered in the order of the names)
            stage.model.add_subsystem(
                f"aside{i}", Watcher(math=self.math, parts=self.parts, label=i),
                promotes=["*"])
        stage.model.add_subsystem(
            "ode", cls(math=self.math, parts=self.parts, plan=self.plan, world=world),
            promotes=["*"])

    def build_parallel(self, stage, world):
        """A component per rank."""
        scn, comm = self.scn, self.comm
        if self.math.use_time:
            stage.model.add_subsystem("clock", Clock(), promotes=["*"])
        else:
            stage.model.add_subsystem("clock", om.IndepVarComp("now", 0.0), promotes=["*"])
        group = om.ParallelGroup()
        for rank in range(comm.size):
            parts = Parts(self.math, scn["parts"], rank)
            shapes = parts.shapes()
            part = om.Group()
            ivc, count = om.IndepVarComp(), 0
            keys = []
            for name, inp in zip(self.math.names, self.math.has_input):
                keys += [(name, name), (name + "_acc", name)] if inp else []
            keys += [(name, name) for name in self.math.p_names]
            for key, name in keys:
                if shapes[name][0] and (scn["ivc"] or name in self.math.names):
                    ivc.add_output(key, shape=shapes[name])
                    count += 1
            if count:
                part.add_subsystem("ivc", ivc, promotes=["*"])
            part.add_subsystem(
                "ode", ParallelPart(math=self.math, parts=parts, plan=self.plan,
                                    world=world, everybody=comm),
                promotes=["*"])
            group.add_subsystem(f"part{rank}", part,
                                promotes_inputs=[("now", "now")])
        stage.model.add_subsystem("parts", group, promotes_inputs=["now"])

    def _fill(self, vec, suffix, values, names=None, shapes=None):
        names = names if names is not None else self.math.names
        shapes = shapes if shapes is not None else self.math.shapes
        at = 0
        for name, shape in zip(names, shapes):
            size = int(np.prod(shape))
            block = np.array(values[at : at + size], float).reshape(shape)
            at += size
            vec[name + suffix] = self.parts.local(name, block)

    def _take(self, vec, suffix, names=None):
        names = names if names is not None else self.math.names
        return {n: np.array(vec[n + suffix], float) for n in names}

    def set_inputs(self, pt):
        inputs, outputs, _ = self.integrator.get_nonlinear_vectors()
        self._fill(inputs, "_initial", pt["u"])
        self._fill(inputs, "", pt["p"], self.math.p_names, self.math.p_shapes)
        inputs["time_initial"] = pt["t"]
        return inputs, outputs

    def compute(self, pt, op):
        inputs, outputs = self.set_inputs(pt)
        outputs.set_val(np.nan)
        self.integrator.compute(inputs, outputs)
        return {**self._take(outputs, "_final"),
                "time": np.array(outputs["time_final"], float)}

    def linear(self):
        d_in, _, d_res = self.integrator.get_linear_vectors()
        d_in.set_val(0.0)
        d_res.set_val(0.0)
        return d_in, d_res

    def fwd(self, pt, op):
        inputs, _ = self.set_inputs(pt)
        d_in, d_res = self.linear()
        n, m = self.math.n, self.math.m
        d = direction(op["dir"], n + m + 1)
        self._fill(d_in, "_initial", d[:n])
        self._fill(d_in, "", d[n : n + m], self.math.p_names, self.math.p_shapes)
        d_in["time_initial"] = d[-1]
        self.integrator.compute_jacvec_product(inputs, d_in, d_res, "fwd")
        return {**self._take(d_res, "_final"),
                "time": np.array(d_res["time_final"], float)}

    def rev(self, pt, op):
        inputs, _ = self.set_inputs(pt)
        d_in, d_res = self.linear()
        n = self.math.n
        d = direction(op["dir"], n + 1)
        self._fill(d_res, "_final", d[:n])
        d_res["time_final"] = d[-1]
        self.integrator.compute_jacvec_product(inputs, d_in, d_res, "rev")
        return {**self._take(d_in, "_initial"),
                **self._take(d_in, "", self.math.p_names),
                "time": np.array(d_in["time_initial"], float)}

    def norm(self, pt, op):
        """Norms of a state, as used to measure errors."""
        if self.norm_stage is None:
            self.norm_stage = self.build_stage("norm")
            self.norm_stage.setup()
            self.norm_stage.final_setup()
        ode = OpenMDAOODE(self.norm_stage, list(self.math.names), list(self.math.p_names),
                          list(op["exclude"]), op["order"])
        state = np.zeros(ode.get_state_size())
        d = direction(op["dir"], self.math.n)
        blocks = dict(zip(self.math.names, zip(self.math.offsets, self.math.shapes)))
        for quantity in ode.time_integration_metadata.time_integration_quantity_list:
            at, shape = blocks[quantity.name]
            block = d[at : at + int(np.prod(shape))].reshape(shape)
            meta = quantity.array_metadata
            state[meta.start_index : meta.end_index] = self.parts.local(
                quantity.name, block).ravel()
        return float(ode.compute_state_norm(
            DiscretizedODEResultState(np.zeros(0), state, np.zeros(0))))

    def om_run(self, pt, op):
        self._fill(self.prob, "_initial", pt["u"])
        self._fill(self.prob, "", pt["p"], self.math.p_names, self.math.p_shapes)
        self.prob["time_initial"] = pt["t"]
        self.prob.run_model()
        return {n.removesuffix("_final"):
                np.array(self.prob.get_val(n, get_remote=False), float)
                for n in (*(q + "_final" for q in self.math.names), "time_final")}

    def om_totals(self, pt, op):
        self.om_run(pt, op)
        of = [n + "_final" for n in self.math.names] + ["time_final"]
        wrt = [n + "_initial" for n in self.math.names]
        wrt += list(self.math.p_names) + ["time_initial"]
        jac = self.prob.compute_totals(of=of, wrt=wrt)
        return np.block([[jac[o, w] for w in wrt] for o in of])


OPS = {"compute": "compute", "fwd": "fwd", "rev": "rev", "om_run": "compute",
       "om_totals": None, "norm": None}


def split_rows(rng, total, ranks):
    """How `total` rows are distributed; ranks may have none."""
    how = rng.choice(["even", "random", "one", "tail"])
    sizes = [0] * ranks
    if how == "even":
        for i in range(total):
            sizes[i * ranks // total if total < ranks else i % ranks] += 1
    elif how == "one":
        sizes[rng.randrange(ranks)] = total
    else:
        for _ in range(total):
            sizes[rng.randrange(ranks)] += 1
    return sizes


def random_parallel(rng, **kw):
    spec = random_ode_spec(rng, layouts=("explicit",))
    ranks = rng.choice([2, 2, 3, 4])
    parts = {}
    for q in (*spec["quantities"], *spec["indep"]):
        if rng.chance(0.7 if q in spec["quantities"] else 0.3):
            if rng.chance(0.6):
                q["shape"] = rng.choice([[3], [4], [5], [3, 2], [2, 3]])
            parts[q["name"]] = split_rows(rng, q["shape"][0], ranks)
    cfg = random_cfg(rng, **kw)
    return {"spec": spec, "cfg": cfg, "ranks": ranks, "parts": parts,
            "layout": rng.choice(["explicit", "explicit", "implicit"]),
            "ivc": rng.chance(0.3), "mode": rng.choice(["fwd", "rev"]),
            "watchers": rng.choice([0, 0, 0, 1, 3]),
            "sched": rng.randrange(10**9),
            "policy": rng.choice(["random", "random", "slow", "eager"])}


def to_parallel_group(rng, scn):
    """The quantities are spread over components that run in parallel."""
    spec = scn["spec"]
    while len(spec["quantities"]) < 2:
        spec["quantities"].append(dict(copy.deepcopy(spec["quantities"][0]), name="qx"))
    scn["ranks"] = rng.randint(2, min(4, len(spec["quantities"])))
    owners = list(range(scn["ranks"]))
    while len(owners) < len(spec["quantities"]):
        owners.append(rng.randrange(scn["ranks"]))
    rng.shuffle(owners)
    owners += [rng.randrange(scn["ranks"]) for _ in spec["indep"]]
    scn["parts"] = {
        q["name"]: [q["shape"][0] if r == owner else 0 for r in range(scn["ranks"])]
        for q, owner in zip((*spec["quantities"], *spec["indep"]), owners)
    }
    scn["layout"] = "parallel"


class Parallel(Check):
    """P16."""

    def generate(self, rng):
        scn = random_parallel(rng, adaptive=rng.chance(0.4), max_steps=5)
        if rng.chance(0.25):
            to_parallel_group(rng, scn)
        scn["points"] = random_points(rng, scn["spec"], scn["cfg"], rng.choice([1, 2, 3]))
        if rng.chance(0.5):
            # differs on (at most) one rank
            pt = copy.deepcopy(rng.choice(scn["points"]))
            pt["u"][rng.randrange(len(pt["u"]))] += 0.25
            scn["points"].append(pt)
        scn["ops"] = []
        for _ in range(rng.randint(1, 5)):
            # OpenMDAO's own reverse totals are wrong for any component that mixes
            # distributed and replicated variables, so only forward totals are taken
            kind = rng.pick_weighted({"compute": 4, "fwd": 3, "rev": 4, "om_run": 2,
                                      "norm": 1,
                                      "om_totals": 2 if scn["mode"] == "fwd" else 0})
            op = {"op": kind, "pt": rng.randrange(len(scn["points"])),
                  "dir": rng.randrange(5)}
            if kind == "norm":
                names = [q["name"] for q in scn["spec"]["quantities"]]
                op["order"] = rng.choice([2.0, 2.0, 1.0, np.inf, -np.inf, 0.0, 3.0])
                op["exclude"] = rng.sample(names, rng.choice([0, 0, 1])) if (
                    len(names) > 1) else []
            elif rng.chance(0.15) and kind != "om_totals":
                label = OPS[kind]
                op["faults"] = [{
                    "kind": rng.choice(["nl", "nl", "lin", f"cb_{label}_before",
                                        f"cb_{label}_after"]),
                    "nth": rng.choice([1, 2, 3, 5]),
                    "action": rng.choice(["exception", "analysis_error", "interrupt"]),
                }]
            scn["ops"].append(op)
        # functions with the callbacks an integrator has if the user asks for none
        scn["report"] = [k for k in REPORTED if rng.chance(0.12)]
        return scn

    def simplify(self, scn):
        for i in range(len(scn["ops"])):
            if len(scn["ops"]) > 1:
                new = copy.deepcopy(scn)
                del new["ops"][i]
                yield new
        for i, op in enumerate(scn["ops"]):
            if op.get("faults"):
                new = copy.deepcopy(scn)
                del new["ops"][i]["faults"]
                yield new
        for key, val in (("layout", "explicit" if scn["layout"] == "implicit" else
                          scn["layout"]), ("policy", "random"), ("ivc", False),
                          ("watchers", 0)):
            if scn.get(key, val) != val:
                new = copy.deepcopy(scn)
                new[key] = val
                yield new
        if scn.get("report"):
            new = copy.deepcopy(scn)
            new["report"] = []
            yield new
        for name in scn["parts"]:
            if scn["parts"][name] is not None and scn["layout"] != "parallel":
                new = copy.deepcopy(scn)
                new["parts"][name] = None
                yield new

    def callbacks(self, scn, comm, plan):
        """More callbacks {"compute" or "fwd": list}."""
        return {}

    def before_op(self, scn, rank, op):
        pass

    def after_op(self, scn, rank, inst, index, op, value, error):
        pass

    def execute(self, scn):
        mpiworld.install()
        seams.install()
        with Scratch() as scratch:
            scn = bind_scratch(scn, scratch)
            self.scratch = scratch
            self.history(scn)

    def history(self, scn):
        expect = self.expect = Expect(dict(scn["spec"], layout="explicit"), scn["cfg"])
        CTX.probe("layout_" + scn["layout"])
        CTX.mark(scn["ranks"], scn["layout"], scn["policy"], scn["cfg"]["adaptive"],
                 scn["cfg"]["ckpt"][0], sorted(map(str, scn["parts"].values())))
        ops = [op for op in scn["ops"] if expect.feasible(scn["points"][op["pt"]])]
        if len(ops) < len(scn["ops"]):
            CTX.probe("infeasible_op", len(scn["ops"]) - len(ops))
        if not ops:
            return
        om_problem._clear_problem_names()
        world = mpiworld.World(scn["ranks"], sub_seed("sched", scn["sched"]),
                               scn["policy"])
        comms = mpiworld.Comm.world(world)
        output = RankOutput(world)

        def program(rank):
            inst = RankInstance(scn, comms[rank], world, self.callbacks)
            out = []
            for i, op in enumerate(ops):
                for rec in inst.rec.values():
                    rec.events.clear()
                self.before_op(scn, rank, op)
                output.lines[rank].clear()
                inst.plan.begin(op.get("faults", ()))
                value = error = None
                try:
                    value = getattr(inst, op["op"])(scn["points"][op["pt"]], op)
                except (Exception, KeyboardInterrupt) as exc:
                    if not inst.plan.fired:
                        raise
                    error = exc
                inst.plan.begin(())
                out.append((value, error,
                            {k: list(r.events) for k, r in inst.rec.items()},
                            [found.groups() for found in output.lines[rank]]))
                self.after_op(scn, rank, inst, i, op, value, error)
            return out

        world1._DEVNULL = output
        try:
            with quiet():
                results = world.run(program)
        finally:
            world1._DEVNULL = output.real
        if world.stopped is not None and world.stopped[0] == "violation":
            raise Violation(*world.stopped[1:])
        for rank in sorted(results):
            error = results[rank][1]
            if isinstance(error, Violation):
                raise error
            if error is not None and not isinstance(error, mpiworld.Abort):
                from .worker import raised_by_library

                where = raised_by_library(error)
                if where is None:
                    raise error
                raise Violation("unexpected-error", f"rank {rank}: {type(error).__name__}: "
                                f"{str(error)[:400]} raised by {where}")
        world.verdict()
        self.judge(scn, expect, ops, [results[r][0] for r in range(scn["ranks"])])

    def judge(self, scn, expect, ops, results):
        math = expect.math
        last = None
        for i, op in enumerate(ops):
            pt = scn["points"][op["pt"]]
            values = [r[i][0] for r in results]
            errors = [r[i][1] for r in results]
            events = [r[i][2] for r in results]
            CTX.mark(op["op"], op["pt"], errors[0] is not None)
            CTX.reach(scn["ranks"], scn["cfg"]["ckpt"][0], last, op["op"],
                      scn["cfg"]["adaptive"], errors[0] is not None)
            last = (op["op"], errors[0] is not None)
            what = f"op {i} ({op['op']} at point {op['pt']})"
            for r, e in enumerate(events):
                if not agreed(e, events[0]):
                    raise Violation("ranks-disagree", f"{what}: steps seen on rank 0 "
                                    f"{events[0]}, on rank {r} {e}")
            if any((e is None) != (errors[0] is None) for e in errors):
                raise Violation("ranks-disagree", f"{what}: outcome {errors}")
            self.judge_reports(scn, what, op, [r[i][3] for r in results],
                               len(expect.steps(pt)), errors[0])
            if errors[0] is not None:
                CTX.probe("failed_on_all_ranks")
                continue
            if op["op"] == "norm":
                self.judge_norm(what, op, math, values)
                continue
            hs = expect.steps(pt)
            label = OPS[op["op"]]
            if label is not None and label not in scn.get("report", ()):
                seen = [e for e in events[0][label] if e[0] == "after"]
                want = list(range(1, len(hs) + 1))
                if [e[1] for e in seen] != (want[::-1] if label == "rev" else want):
                    raise Violation("steps", f"{what}: steps {[e[1] for e in seen]}, "
                                    f"expected {len(hs)}")
                got = sorted((e[1], e[4]) for e in seen)
                if not close([g[1] for g in got], hs, expect.tol):
                    raise Violation("steps", f"{what}: sizes {[g[1] for g in got]}, "
                                    f"expected {hs}")
                CTX.steps += len(hs)
                CTX.sim_time += sum(hs)
            jac = None if op["op"] in ("compute", "om_run") else expect.jac(pt)
            if op["op"] == "om_totals":
                for r, v in enumerate(values):
                    if not close(v, jac, expect.tol * 10):
                        raise Violation("wrong-totals", f"{what}: rank {r} of "
                                        f"{scn['ranks']}: {fmt(v)}, expected {fmt(jac)}")
                CTX.judged += 1
                continue
            if op["op"] == "rev":
                names = (*math.names, *math.p_names, "time")
                shapes = (*math.shapes, *math.p_shapes, (1,))
                want = jac.T @ direction(op["dir"], math.n + 1)
            else:
                names = (*math.names, "time")
                shapes = (*math.shapes, (1,))
                want = expect.value(pt) if op["op"] != "fwd" else (
                    jac @ direction(op["dir"], math.n + math.m + 1))
            got = join(math, scn["parts"], values, names, shapes)
            if not close(got, want, expect.tol):
                raise Violation("wrong-value", f"{what} on {scn['ranks']} ranks: "
                                f"{fmt(got)}, expected {fmt(want)}")
            CTX.note(f"{i} {op['op']} {got.tobytes().hex()}")
            CTX.judged += 1
            CTX.probe(f"{op['op']}_on_{scn['ranks']}_ranks")


    def judge_norm(self, what, op, math, values):
        """The norm of the whole state, on every rank."""
        d = direction(op["dir"], math.n)
        keep = np.concatenate([d[at : at + int(np.prod(shape))] for name, at, shape in
                               zip(math.names, math.offsets, math.shapes)
                               if name not in op["exclude"]])
        want = np.linalg.norm(keep, op["order"])
        for r, value in enumerate(values):
            if abs(value - want) > 1e-12 * max(abs(want), 1e-12):
                raise Violation("wrong-norm", f"{what} of order {op['order']} without "
                                f"{op['exclude']}: {value!r} on rank {r} of "
                                f"{len(values)}, expected {want!r}")
        CTX.judged += 1
        CTX.probe("norms")

    def judge_reports(self, scn, what, op, lines, count, error):
        """Rank 0 alone reports the steps."""
        label = OPS[op["op"]]
        if not scn.get("report") or label is None:
            return
        for r, mine in enumerate(lines[1:], 1):
            if mine:
                raise Violation("report", f"{what}: rank {r} reports {mine[:3]}")
        steps = list(range(1, count + 1))
        if label == "rev":
            steps.reverse()
        got = [line for line in lines[0] if line[2] == REPORTED[label]]
        want = []
        if label in scn["report"]:
            for k in steps:
                want += [("Starting", str(k), REPORTED[label]),
                         ("Finishing", str(k), REPORTED[label])]
        if got != (want if error is None else want[: len(got)]):
            raise Violation("report", f"{what}: rank 0 reports {got}, expected {want}")
        CTX.probe("reports_of_rank_0" if label in scn["report"] else "no_reports")


CHECKS = {"P16": Parallel}
