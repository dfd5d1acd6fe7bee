"""Single-rank world: real integrators driven through histories of operations.

Real code: everything in rkopenmdao, OpenMDAO, pyrevolve, h5py.
Simulated: user components (fault points), callbacks (fault points), clock.
"""

from __future__ import annotations

import functools
import contextlib
import gc
import os
import warnings

import numpy as np
import openmdao.api as om

from rkopenmdao import error_controllers as ec
from rkopenmdao.callback import Callback
from rkopenmdao.checkpoint_interface.all_checkpointer import AllCheckpointer
from rkopenmdao.checkpoint_interface.no_checkpointer import NoCheckpointer
from rkopenmdao.checkpoint_interface.pyrevolve_checkpointer import PyrevolveCheckpointer
from rkopenmdao.error_controller import ErrorControllerConfig
from rkopenmdao.error_measurer import ImprovedErrorMeasurer, SimpleErrorMeasurer
from rkopenmdao.integration_config import IntegrationConfig
from rkopenmdao.runge_kutta_integrator import RungeKuttaIntegrator
from rkopenmdao.termination_criterion import (
    PredefinedFinalTime,
    PredefinedNumberOfSteps,
)

from . import ref
from .core import CTX, Rng, StepBudgetExceeded, Violation, sub_seed
from .odes import make_math, build_stage_problem, raise_fault

CKPT = {"all": AllCheckpointer, "none": NoCheckpointer, "pyrevolve": PyrevolveCheckpointer}

_DEVNULL = open(os.devnull, "w", encoding="utf-8")

EXPECTED_ERRORS = (Exception, KeyboardInterrupt)


def in_order(array, quantities, names):
    """The part of every name in an array of the integrator, in the order of the names.

    The integrator orders its arrays after the stage problem, not after its options."""
    array = np.asarray(array)
    where = {q.name: q.array_metadata for q in quantities}
    parts = [array[where[n].start_index : where[n].end_index] for n in names]
    return np.concatenate(parts) if parts else np.zeros(0)


class Recorder(Callback):
    """Callback that records what it is shown, and is itself a fault point."""

    def __init__(self, label, instance):
        self.label = label
        self.instance = instance
        self.events = []
        self.names, self.p_names = [], []
        self.hook = None  # (phase, iteration, function): called once, from the callback

    def _record(self, phase, iteration, state, ode):
        ds = state.discretization_state
        meta = ode.time_integration_metadata

        def of_state(array):
            return in_order(array, meta.time_integration_quantity_list, self.names)

        CTX.seq += 1
        self.events.append(
            {
                "phase": phase,
                "it": int(iteration),
                "seq": CTX.seq,
                "trace_pos": None if CTX.trace is None else len(CTX.trace),
                "start_time": float(ds.start_time[0]),
                "final_time": float(ds.final_time[0]),
                "start_state": of_state(ds.start_state),
                "final_state": of_state(ds.final_state),
                "indep": in_order(
                    ds.independent_inputs, meta.time_independent_input_quantity_list,
                    self.p_names),
                "step_size": float(ds.step_size[0]),
                "suggestion": np.array(state.step_size_suggestion, copy=True),
                "h_hist": np.array(state.step_size_history, copy=True),
                "e_hist": np.array(state.error_history, copy=True),
                "error_estimate": (
                    of_state(ds.error_estimate)
                    if hasattr(ds, "error_estimate") else None
                ),
            }
        )
        if self.hook is not None and self.hook[:2] == (phase, int(iteration)):
            func, self.hook = self.hook[2], None
            func(state, ode)

    def before_iteration(
        self, iteration, time_integration_state, ode, discretization_scheme
    ):
        self._record("before", iteration, time_integration_state, ode)
        action = CTX.hit(f"cb_{self.label}_before", self.instance)
        if action is not None:
            raise_fault(action)

    def after_iteration(
        self, iteration, time_integration_state, ode, discretization_scheme
    ):
        self._record("after", iteration, time_integration_state, ode)
        action = CTX.hit(f"cb_{self.label}_after", self.instance)
        if action is not None:
            raise_fault(action)


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with contextlib.redirect_stdout(_DEVNULL):
            with np.errstate(all="ignore"):
                yield


DEFAULT_CTL = {"tol": 1e-6, "lb": 0, "ub": None, "safety": 0.95, "max_iter": 5,
               "measurer": "simple"}


def make_controller(name):
    name, args = ref.controller_arguments(name)
    return functools.partial(getattr(ec, name), **args) if args else getattr(ec, name)


def make_controllers(cfg):
    ctl = cfg["ctl"]
    if ctl.get("default") and all(ctl[k] == v for k, v in DEFAULT_CTL.items()):
        return {"error_controller": [make_controller(n) for n in ctl["controllers"]],
                "error_controller_options": {},
                "error_measurer": SimpleErrorMeasurer()}
    return {
        "error_controller": [make_controller(n) for n in ctl["controllers"]],
        "error_controller_options": {
            "config": ErrorControllerConfig(
                tol=ctl["tol"],
                lower_bound=ctl["lb"],
                upper_bound=ctl["ub"] if ctl["ub"] is not None else np.inf,
                safety_factor=ctl["safety"],
                max_iter=ctl["max_iter"],
            )
        },
        "error_measurer": (
            SimpleErrorMeasurer()
            if ctl["measurer"] == "simple"
            else ImprovedErrorMeasurer(eta=ctl.get("eta", 1e-3), eps=1e-2)
        ),
    }


def make_termination(cfg):
    kind, value = cfg["term"]
    return PredefinedNumberOfSteps(value) if kind == "steps" else PredefinedFinalTime(value)


class Instance:
    """One real integrator inside one outer problem."""

    def __init__(self, ode_spec, cfg, name="i0", *, ckpt_options=None, shared=None,
                 recorders=True, extra_callbacks=(), extra_fwd=(), mode="rev", double=False):
        self.spec = ode_spec
        self.cfg = cfg
        self.name = name
        self.mode = mode
        self.math = make_math(ode_spec)
        self.tab_obj, self.tab = ref.make_tableau(cfg["tableau"])
        self.stage_problem = build_stage_problem(ode_spec, self.math, name)
        self.rec = {k: Recorder(k, name) for k in ("compute", "fwd", "rev")}
        # a second callback per list, called after the first one
        self.rec2 = {k: Recorder(k + "2", name) for k in self.rec} if double else {}
        for rec in (*self.rec.values(), *self.rec2.values()):
            rec.names, rec.p_names = self.math.names, self.math.p_names
        kind = cfg["ckpt"][0]
        options = ckpt_options
        if options is None:
            options = {}
            if kind == "pyrevolve":
                options = {"revolver_type": cfg["ckpt"][1],
                           "revolver_options": dict(cfg["ckpt"][2])}
        callbacks = {}
        if recorders:
            callbacks = {
                "compute_callbacks": [self.rec["compute"], *extra_callbacks],
                "compute_jacvec_product_fwd_callbacks": [self.rec["fwd"], *extra_fwd],
                "compute_jacvec_product_rev_callbacks": [self.rec["rev"]],
            }
            if double:
                for key, rec in zip(callbacks, self.rec2.values()):
                    callbacks[key].append(rec)
        self.callbacks = callbacks
        # objects the user may hand to several integrators
        shared = shared or {}
        control = make_controllers(cfg) if cfg.get("ctl") else {}
        control.update({k: v for k, v in shared.items() if k in control})
        self.integrator = RungeKuttaIntegrator(
            time_stage_problem=self.stage_problem,
            butcher_tableau=self.tab_obj,
            integration_config=shared.get("integration_config") or IntegrationConfig(
                cfg["adaptive"], make_termination(cfg), cfg["h"]
            ),
            time_integration_quantities=list(self.math.names),
            time_independent_input_quantities=list(self.math.p_names),
            checkpointing_type=CKPT[kind],
            checkpoint_options=shared.get("checkpoint_options") or options,
            **control,
            **callbacks,
        )
        self.build_problem()

    def build_problem(self):
        self.outer_problem()
        self.resetup()

    def outer_problem(self):
        self.prob = om.Problem(reports=False)
        self.prob.model.add_subsystem("rk", self.integrator, promotes=["*"])

    def replace_ode(self, spec, how):
        """Another ODE; takes effect with the next setup."""
        self.spec, self.math = spec, make_math(spec)
        for rec in (*self.rec.values(), *self.rec2.values()):
            rec.names, rec.p_names = self.math.names, self.math.p_names
        stage_problem = build_stage_problem(spec, self.math, self.name)
        opts = self.integrator.options
        if how == "model":
            # the same problem with another model
            self.stage_problem.model = stage_problem.model
        else:
            self.stage_problem = opts["time_stage_problem"] = stage_problem
        opts["time_integration_quantities"] = list(self.math.names)
        opts["time_independent_input_quantities"] = list(self.math.p_names)
        # OpenMDAO remembers what is relevant in a model over setups: zero totals
        # with respect to inputs that a component did not have before
        self.outer_problem()

    def reconfigure(self, cfg):
        """Changes options; takes effect with the next setup."""
        self.cfg = cfg
        self.tab_obj, self.tab = ref.make_tableau(cfg["tableau"])
        opts = self.integrator.options
        opts["butcher_tableau"] = self.tab_obj
        opts["integration_config"] = IntegrationConfig(
            cfg["adaptive"], make_termination(cfg), cfg["h"]
        )
        opts["checkpointing_type"] = CKPT[cfg["ckpt"][0]]
        opts["checkpoint_options"] = (
            {"revolver_type": cfg["ckpt"][1], "revolver_options": dict(cfg["ckpt"][2])}
            if cfg["ckpt"][0] == "pyrevolve" else {}
        )
        if cfg.get("ctl"):
            for key, val in make_controllers(cfg).items():
                opts[key] = val
        for key, val in self.callbacks.items():
            opts[key] = None if cfg.get("cb") == "default" else val

    # -- raw operations ------------------------------------------------------------
    def disarm(self):
        for rec in (*self.rec.values(), *self.rec2.values()):
            rec.hook = None

    def clear_events(self):
        self.disarm()
        for rec in (*self.rec.values(), *self.rec2.values()):
            rec.events.clear()

    def set_inputs(self, pt):
        inputs, outputs, _ = self.integrator.get_nonlinear_vectors()
        for name, val in self.math.split(np.array(pt["u"], float)).items():
            inputs[name + "_initial"] = val
        for name, val in self.math.split_p(np.array(pt["p"], float)).items():
            inputs[name] = val
        inputs["time_initial"] = pt["t"]
        return inputs, outputs

    def compute(self, pt):
        inputs, outputs = self.set_inputs(pt)
        outputs.set_val(np.nan)
        with quiet():
            self.integrator.compute(inputs, outputs)
        u = np.concatenate(
            [np.array(outputs[n + "_final"]).ravel() for n in self.math.names]
        )
        return np.concatenate([u, np.array(outputs["time_final"])])

    def fwd(self, pt, direction):
        """J @ direction, direction over (u, p, t)."""
        inputs, _ = self.set_inputs(pt)
        d_in, _, d_res = self.integrator.get_linear_vectors()
        d_in.set_val(0.0)
        d_res.set_val(0.0)
        n, m = self.math.n, self.math.m
        for name, val in self.math.split(direction[:n]).items():
            d_in[name + "_initial"] = val
        for name, val in self.math.split_p(direction[n : n + m]).items():
            d_in[name] = val
        d_in["time_initial"] = direction[-1]
        with quiet():
            self.integrator.compute_jacvec_product(inputs, d_in, d_res, "fwd")
        u = np.concatenate(
            [np.array(d_res[n + "_final"]).ravel() for n in self.math.names]
        )
        return np.concatenate([u, np.array(d_res["time_final"])])

    def rev(self, pt, direction):
        """J.T @ direction, direction over (u_final, t_final)."""
        inputs, _ = self.set_inputs(pt)
        d_in, _, d_res = self.integrator.get_linear_vectors()
        d_in.set_val(0.0)
        d_res.set_val(0.0)
        for name, val in self.math.split(direction[:-1]).items():
            d_res[name + "_final"] = val
        d_res["time_final"] = direction[-1]
        with quiet():
            self.integrator.compute_jacvec_product(inputs, d_in, d_res, "rev")
        parts = [np.array(d_in[n + "_initial"]).ravel() for n in self.math.names]
        parts += [np.array(d_in[n]).ravel() for n in self.math.p_names]
        parts += [np.array(d_in["time_initial"])]
        return np.concatenate(parts)

    def resetup(self):
        with quiet():
            self.prob.setup(mode=self.mode)
            self.prob.final_setup()

    # -- through the public OpenMDAO interface ---------------------------------------
    def om_set(self, pt):
        for name, val in self.math.split(np.array(pt["u"], float)).items():
            self.prob.set_val(name + "_initial", val)
        for name, val in self.math.split_p(np.array(pt["p"], float)).items():
            self.prob.set_val(name, val)
        self.prob.set_val("time_initial", pt["t"])

    def om_run(self, pt):
        self.om_set(pt)
        with quiet():
            self.prob.run_model()
        u = np.concatenate(
            [np.array(self.prob.get_val(n + "_final")).ravel() for n in self.math.names]
        )
        return np.concatenate([u, np.array(self.prob.get_val("time_final")).ravel()])

    def of_wrt(self):
        of = [n + "_final" for n in self.math.names] + ["time_final"]
        wrt = [n + "_initial" for n in self.math.names]
        wrt += list(self.math.p_names) + ["time_initial"]
        return of, wrt

    def om_totals(self):
        of, wrt = self.of_wrt()
        with quiet():
            jac = self.prob.compute_totals(of=of, wrt=wrt)
        return np.block([[jac[o, w] for w in wrt] for o in of])


def direction(index, size):
    rng = Rng(sub_seed("dir", index, size))
    d = np.array([round(rng.uniform(-1, 1), 3) for _ in range(size)])
    if index == ONE_ENTRY:
        d[np.arange(size) != rng.randrange(size)] = 0.0
    return d


ONE_ENTRY = 5  # direction with one nonzero entry


def scale_of(op, expect):
    """Derivative products are linear, for tiny and huge seeds as well."""
    # (iterative solvers have absolute tolerances, and start from the last solution)
    if expect.spec["layout"] in ("kaps_group", "kaps_parts"):
        return 1.0
    return op.get("scale", 1.0)


def huge_step(spec):
    """Step size above which what happens is decided by rounding errors: stages don't have
    one, well-conditioned solution."""
    return 50.0 if spec["kind"] == "linear" else 2.0


# -- expectations ----------------------------------------------------------------------
class Expect:
    """What every operation must return, from the reference model."""

    def __init__(self, ode_spec, cfg):
        self.spec, self.cfg = ode_spec, cfg
        self.math = make_math(ode_spec)
        self.tab = ref.make_tableau(cfg["tableau"])[1]
        self._cache = {}

    def steps(self, pt):
        key = repr(pt)
        if key not in self._cache:
            if not self.cfg["adaptive"]:
                self._cache[key] = ref.fixed_steps(self.cfg, pt["t"])
            else:
                self._cache[key] = self._adaptive_steps(pt)
        return self._cache[key]

    def _adaptive_steps(self, pt):
        """Accepted steps of a pristine integrator without checkpoints.

        Points at which the step sizes are ill-conditioned (rounding errors change them
        visibly) are not judged: two right implementations may differ there."""
        if self.spec.get("homogeneous") and not np.any(pt["u"]):
            # nothing but rounding errors decides about the step sizes
            return ArithmeticError("equilibrium")
        steps = self._pristine(pt)
        if isinstance(steps, BaseException):
            return steps
        nudged = dict(pt, u=[x * (1 + 3e-13) + 1e-14 for x in pt["u"]])
        again = self._pristine(nudged)
        if isinstance(again, BaseException) or len(again) != len(steps) or not np.allclose(
            again, steps, rtol=1e-9, atol=1e-11
        ) or min(steps[:-1], default=1.0) < 1e-9:
            CTX.probe("ill_conditioned_point")
            return ArithmeticError("ill-conditioned step sizes")
        return steps

    def _pristine(self, pt):
        cfg = dict(self.cfg, ckpt=["none"])
        saved = CTX.save_op()
        CTX.begin_op((), 2_000)
        CTX.gc_at, CTX.trace, CTX.at_call, CTX.spikes = None, [], None, {}
        try:
            inst = Instance(self.spec, cfg, "pristine")
            inst.compute(pt)
            if any(entry[2] > huge_step(self.spec) for entry in CTX.trace):
                return ArithmeticError("ill-conditioned stages")
            events = inst.rec["compute"].events
            return [
                e["final_time"] - e["start_time"] for e in events if e["phase"] == "after"
            ]
        except (StepBudgetExceeded, Exception) as exc:
            return exc
        finally:
            CTX.restore_op(saved)

    def feasible(self, pt):
        if self.spec["layout"] == "update" and (
            self.cfg["adaptive"] or self.cfg["h"] < 0.02 or not np.all(np.diag(self.tab.A))
        ):
            # slopes are differences of states, divided by step size and diagonal element
            return False
        return not isinstance(self.steps(pt), BaseException)

    def value(self, pt):
        us, ts, _ = ref.trajectory(
            self.math, self.tab, np.array(pt["u"], float), np.array(pt["p"], float),
            pt["t"], self.steps(pt),
        )
        return np.concatenate([us[-1], [ts[-1]]])

    def path(self, pt):
        us, ts, _ = ref.trajectory(
            self.math, self.tab, np.array(pt["u"], float), np.array(pt["p"], float),
            pt["t"], self.steps(pt),
        )
        return us, ts

    def jac(self, pt):
        key = ("jac", repr(pt))
        if key not in self._cache:
            self._cache[key] = ref.jacobian(
                self.math, self.tab, np.array(pt["u"], float),
                np.array(pt["p"], float), pt["t"], self.steps(pt),
            )
        return self._cache[key]

    @property
    def tol(self):
        base = {"coupled": 1e-7, "kaps_group": 2e-6, "kaps_parts": 1e-7}.get(
            self.spec["layout"], 1e-9)
        return base * (100.0 if self.cfg["adaptive"] else 1.0)


def close(got, want, tol):
    got, want = np.asarray(got, float), np.asarray(want, float)
    if got.shape != want.shape:
        return False
    if not np.all(np.isfinite(got)):
        return False
    scale = 1.0 + np.max(np.abs(want), initial=0.0)
    return bool(np.max(np.abs(got - want), initial=0.0) <= tol * scale)


def fmt(x):
    return np.array2string(np.asarray(x), precision=12, threshold=40)
