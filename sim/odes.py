"""The simulated user code: randomly generated ODEs, as numpy functions for the
reference model and as OpenMDAO problems for the real integrator.

Every component is a fault point.  The mathematics of the ODE (`OdeMath`) belongs to the
*user*, so reference model and components may share it; everything the library itself
does (stage ordering, accumulation, step control, checkpointing, ...) is not shared.
"""

from __future__ import annotations

import errno
import os

import numpy as np
import openmdao.api as om

from rkopenmdao.components import ExplicitUnsteadyComponent, ImplicitUnsteadyComponent
from rkopenmdao.odes.kaps import KapsComponent1, KapsComponent2, KapsGroup
from rkopenmdao.odes.prothero_robinson_ode import ProtheroRobinson
from rkopenmdao.odes.simple_linear_ode import SimpleLinearODE
from rkopenmdao.utils.utility_components import StageUpdateComponent, StageValueComponent

from .core import CTX, InjectedFault, Rng, sub_seed


class OdeMath:
    """u' = F(u, p, t) with analytic derivatives.

    Quantities without a step input ("pure outputs") are integrated too, but F does not
    depend on them.
    """

    def __init__(self, spec: dict):
        self.spec = spec
        self.names = [q["name"] for q in spec["quantities"]]
        self.shapes = [tuple(q["shape"]) for q in spec["quantities"]]
        self.sizes = [int(np.prod(s)) for s in self.shapes]
        self.has_input = [q.get("has_input", True) for q in spec["quantities"]]
        self.offsets = np.concatenate([[0], np.cumsum(self.sizes)]).astype(int)
        self.n = int(self.offsets[-1])
        self.p_names = [q["name"] for q in spec["indep"]]
        self.p_shapes = [tuple(q["shape"]) for q in spec["indep"]]
        self.p_sizes = [int(np.prod(s)) for s in self.p_shapes]
        self.p_offsets = np.concatenate([[0], np.cumsum(self.p_sizes)]).astype(int)
        self.m = int(self.p_offsets[-1])
        self.use_time = bool(spec["use_time"])
        self.nonlinear = spec["kind"] == "nonlinear"
        rng = Rng(sub_seed("ode", spec["coef_seed"]))

        def mat(rows, cols, scale):
            return np.array(
                [[round(rng.uniform(-scale, scale), 3) for _ in range(cols)]
                 for _ in range(rows)]
            ).reshape(rows, cols)

        n, m = self.n, self.m
        scale = spec.get("scale", 1.0)
        self.A = mat(n, n, 0.8 * scale) - 0.5 * scale * np.eye(n)
        self.S = mat(n, n, 0.5 * scale)
        self.B = mat(n, m, 0.7)
        self.G = mat(n, m, 0.4)  # bilinear p-u coupling
        self.c = mat(n, 1, 1.0)[:, 0]
        self.w = 0.5 + abs(mat(1, 1, 2.0)[0, 0])
        mask = np.ones(n)
        for i, inp in enumerate(self.has_input):
            if not inp:
                mask[self.offsets[i] : self.offsets[i + 1]] = 0.0
        self.mask = mask
        if spec.get("homogeneous"):
            # zero is an equilibrium
            self.c, self.B = 0.0 * self.c, 0.0 * self.B
        self.A = self.A * mask[None, :]
        self.S = self.S * mask[None, :]
        self.G = self.G * mask[:, None]

    # F and derivatives ----------------------------------------------------------
    def f(self, u, p, t):
        u = u * self.mask
        out = self.A @ u + self.B @ p + (self.G @ p) * u
        if self.nonlinear:
            out = out + self.S @ np.sin(u)
        if self.use_time:
            out = out + self.c * np.cos(self.w * t) + 0.3 * u * np.sin(t)
        else:
            out = out + self.c
        return out

    def fu(self, u, p, t):
        u = u * self.mask
        jac = self.A + np.diag(self.G @ p)
        if self.nonlinear:
            jac = jac + self.S * np.cos(u)[None, :]
        if self.use_time:
            jac = jac + 0.3 * np.sin(t) * np.eye(self.n)
        return jac * self.mask[None, :]

    def fp(self, u, p, t):
        u = u * self.mask
        return self.B + u[:, None] * self.G

    def ft(self, u, p, t):
        u = u * self.mask
        if not self.use_time:
            return np.zeros(self.n)
        return -self.c * self.w * np.sin(self.w * t) + 0.3 * u * np.cos(t)

    # stage -----------------------------------------------------------------------
    def solve_stage(self, u0, acc, p, t, h, a):
        """k with k = F(u0 + h (acc + a k), p, t)."""
        u0 = u0 * self.mask
        acc = acc * self.mask
        k = self.f(u0 + h * acc, p, t)
        if a == 0.0:
            return k
        for _ in range(50):
            us = u0 + h * (acc + a * k)
            r = k - self.f(us, p, t)
            jac = np.eye(self.n) - h * a * self.fu(us, p, t)
            dk = np.linalg.solve(jac, r)
            k = k - dk
            if np.max(np.abs(dk), initial=0.0) <= 1e-14 * (
                1.0 + np.max(np.abs(k), initial=0.0)
            ):
                break
        return k

    def stage_derivs(self, u0, acc, k, p, t, h, a):
        """(M, Fu, Fp, Ft) with M dk = Fu (du0 + h dacc) + Fp dp + Ft dt."""
        us = (u0 + h * (acc + a * k)) * self.mask
        fu = self.fu(us, p, t)
        return np.eye(self.n) - h * a * fu, fu, self.fp(us, p, t), self.ft(us, p, t)

    # the order in which components declare their variables is theirs
    def declared(self):
        out = list(zip(self.names, self.shapes, self.has_input))
        return out[::-1] if self.spec.get("reversed") else out

    def declared_p(self):
        out = list(zip(self.p_names, self.p_shapes))
        return out[::-1] if self.spec.get("reversed") else out

    # packing ---------------------------------------------------------------------
    def split(self, u):
        return {
            name: u[self.offsets[i] : self.offsets[i + 1]].reshape(self.shapes[i])
            for i, name in enumerate(self.names)
        }

    def split_p(self, p):
        return {
            name: p[self.p_offsets[i] : self.p_offsets[i + 1]].reshape(self.p_shapes[i])
            for i, name in enumerate(self.p_names)
        }

    def join(self, mapping):
        if not self.names:
            return np.zeros(0)
        return np.concatenate([np.ravel(mapping[n]) for n in self.names])


class KapsMath(OdeMath):
    """Kaps' problem, as described in rkopenmdao.odes.kaps."""

    def f(self, u, p, t):
        e = self.spec["epsilon"]
        return np.array([(u[1] ** 2 - (1 + 2 * e) * u[0]) / e, u[0] - u[1] - u[1] ** 2])

    def fu(self, u, p, t):
        e = self.spec["epsilon"]
        return np.array([[-(1 + 2 * e) / e, 2 * u[1] / e], [1.0, -1.0 - 2 * u[1]]])

    def fp(self, u, p, t):
        return np.zeros((2, 0))

    def ft(self, u, p, t):
        return np.zeros(2)


class DecayMath(OdeMath):
    """y' = -y"""

    def f(self, u, p, t):
        return -u

    def fu(self, u, p, t):
        return -np.eye(1)

    def fp(self, u, p, t):
        return np.zeros((1, 0))

    def ft(self, u, p, t):
        return np.zeros(1)


class ProtheroMath(DecayMath):
    """x' = lambda (x - Phi(t)) + Phi'(t)"""

    def f(self, u, p, t):
        return self.spec["lambda"] * (u - np.sin(t + np.pi / 4)) + np.cos(t + np.pi / 4)

    def fu(self, u, p, t):
        return self.spec["lambda"] * np.eye(1)

    def ft(self, u, p, t):
        return np.array([-self.spec["lambda"] * np.cos(t + np.pi / 4)
                         - np.sin(t + np.pi / 4)])


def make_math(spec):
    shipped = {"kaps_group": KapsMath, "kaps_parts": KapsMath, "decay": DecayMath,
               "prothero": ProtheroMath}
    return shipped.get(spec["layout"], OdeMath)(spec)


def random_shipped_spec(rng, layouts=("kaps_group", "kaps_parts", "decay")):
    """ODEs that come with the library."""
    layout = rng.choice(list(layouts))
    names = {"decay": ["y"], "prothero": ["x"]}.get(layout, ["y_1", "y_2"])
    spec = {
        "quantities": [{"name": n, "shape": [1], "has_input": True} for n in names],
        "indep": [], "use_time": layout == "prothero", "kind": "nonlinear",
        "coef_seed": 0, "layout": layout,
    }
    if layout.startswith("kaps"):
        spec["epsilon"] = rng.choice([0.5, 1.0, 1.0, 3.0])
    if layout == "prothero":
        spec["lambda"] = rng.choice([-100.0, -10.0, -1.0, 0.5])
    return spec


def raise_fault(action):
    if action in ("analysis_error",):
        raise om.AnalysisError("injected AnalysisError")
    if action in ("exception",):
        raise InjectedFault("injected exception")
    if action == "memory_error":
        raise MemoryError("injected MemoryError")
    if action == "interrupt":
        raise KeyboardInterrupt("injected KeyboardInterrupt")
    if action in ("enospc", "eio"):
        code = {"enospc": errno.ENOSPC, "eio": errno.EIO}[action]
        raise OSError(code, f"injected: {os.strerror(code)}")
    raise AssertionError(f"unknown action {action}")


class _Shared:
    """Methods common to the components that model the complete stage."""

    def initialize(self):
        self.options.declare("math", types=OdeMath)
        self.options.declare("instance", types=str, default="")

    def _declare(self):
        math: OdeMath = self.options["math"]
        for name, shape, inp in math.declared():
            if inp:
                self.add_input(name, shape=shape, tags=[name, "step_input_var"])
                self.add_input(
                    name + "_acc", shape=shape, tags=[name, "accumulated_stage_var"]
                )
            self.add_output(
                name + "_upd", shape=shape, val=0.0, tags=[name, "stage_output_var"]
            )
        for name, shape in math.declared_p():
            self.add_input(
                name, shape=shape, val=0.0, tags=[name, "time_independent_input_var"]
            )
        if math.use_time:
            self.add_input("time", shape=1, val=0.0, tags=["time_variable"])

    def _gather(self, inputs):
        math: OdeMath = self.options["math"]
        u0, acc = np.zeros(math.n), np.zeros(math.n)
        for i, name in enumerate(math.names):
            if math.has_input[i]:
                sl = slice(math.offsets[i], math.offsets[i + 1])
                u0[sl] = inputs[name].ravel()
                acc[sl] = inputs[name + "_acc"].ravel()
        p = np.zeros(math.m)
        for i, name in enumerate(math.p_names):
            p[math.p_offsets[i] : math.p_offsets[i + 1]] = inputs[name].ravel()
        t = inputs["time"][0] if math.use_time else 0.0
        return u0, acc, p, t

    def _h_a(self):
        return self.om_data_exchange.step_size, self.om_data_exchange.stage_factor

    def _gather_pert(self, d_inputs):
        math: OdeMath = self.options["math"]
        du0, dacc = np.zeros(math.n), np.zeros(math.n)
        for i, name in enumerate(math.names):
            sl = slice(math.offsets[i], math.offsets[i + 1])
            if name in d_inputs:
                du0[sl] = d_inputs[name].ravel()
            if name + "_acc" in d_inputs:
                dacc[sl] = d_inputs[name + "_acc"].ravel()
        dp = np.zeros(math.m)
        for i, name in enumerate(math.p_names):
            if name in d_inputs:
                dp[math.p_offsets[i] : math.p_offsets[i + 1]] = d_inputs[name].ravel()
        dt = d_inputs["time"][0] if (math.use_time and "time" in d_inputs) else 0.0
        return du0, dacc, dp, dt

    def _scatter_pert(self, d_inputs, du0, dacc, dp, dt):
        math: OdeMath = self.options["math"]
        for i, name in enumerate(math.names):
            sl = slice(math.offsets[i], math.offsets[i + 1])
            if name in d_inputs:
                d_inputs[name] += du0[sl].reshape(math.shapes[i])
            if name + "_acc" in d_inputs:
                d_inputs[name + "_acc"] += dacc[sl].reshape(math.shapes[i])
        for i, name in enumerate(math.p_names):
            if name in d_inputs:
                sl = slice(math.p_offsets[i], math.p_offsets[i + 1])
                d_inputs[name] += dp[sl].reshape(math.p_shapes[i])
        if math.use_time and "time" in d_inputs:
            d_inputs["time"] += dt

    def _out(self, vec):
        math: OdeMath = self.options["math"]
        return np.concatenate(
            [
                vec[n + "_upd"].ravel() if (n + "_upd") in vec else np.zeros(s)
                for n, s in zip(math.names, math.sizes)
            ]
            or [np.zeros(0)]
        )

    def _set_out(self, vec, k):
        math: OdeMath = self.options["math"]
        for i, name in enumerate(math.names):
            vec[name + "_upd"] = k[math.offsets[i] : math.offsets[i + 1]].reshape(
                math.shapes[i]
            )

    def _add_out(self, vec, k):
        math: OdeMath = self.options["math"]
        for i, name in enumerate(math.names):
            if name + "_upd" in vec:
                vec[name + "_upd"] += k[
                    math.offsets[i] : math.offsets[i + 1]
                ].reshape(math.shapes[i])

    def _point(self, kind):
        action = CTX.hit(kind, self.options["instance"])
        if action == "nan":
            return True
        if action is not None:
            raise_fault(action)
        return False

    def _trace(self, t):
        if CTX.trace is not None:
            h, a = self._h_a()
            CTX.trace.append((self.options["instance"], float(t), float(h), float(a)))

    def _spike(self):
        """Disturbance of the slope of this stage evaluation (adaptive runs)."""
        if CTX.trace is None or not CTX.spikes:
            return 0.0
        return CTX.spikes.get(len(CTX.trace), 0.0)


class ExplicitStage(_Shared, ExplicitUnsteadyComponent):
    """Whole stage as one explicit component that solves the stage itself."""

    def setup(self):
        self._declare()

    def compute(self, inputs, outputs, discrete_inputs=None, discrete_outputs=None):
        math: OdeMath = self.options["math"]
        u0, acc, p, t = self._gather(inputs)
        self._trace(t)
        is_nan = self._point("nl")
        h, a = self._h_a()
        k = math.solve_stage(u0, acc, p, t, h, a) + self._spike()
        self._set_out(outputs, np.full(math.n, np.nan) if is_nan else k)

    def compute_jacvec_product(
        self, inputs, d_inputs, d_outputs, mode, discrete_inputs=None
    ):
        math: OdeMath = self.options["math"]
        is_nan = self._point("lin")
        u0, acc, p, t = self._gather(inputs)
        h, a = self._h_a()
        k = math.solve_stage(u0, acc, p, t, h, a)
        M, fu, fp, ft = math.stage_derivs(u0, acc, k, p, t, h, a)
        if mode == "fwd":
            du0, dacc, dp, dt = self._gather_pert(d_inputs)
            dk = np.linalg.solve(M, fu @ (du0 + h * dacc) + fp @ dp + ft * dt)
            self._add_out(d_outputs, dk * np.nan if is_nan else dk)
        else:
            lam = np.linalg.solve(M.T, self._out(d_outputs))
            if is_nan:
                lam = lam * np.nan
            x = fu.T @ lam
            self._scatter_pert(d_inputs, x, h * x, fp.T @ lam, ft @ lam)


class ImplicitStage(_Shared, ImplicitUnsteadyComponent):
    """Whole stage as one implicit component with its own solvers.

    The linear operators use the *stored* linearisation (from linearize()), which is made
    of the inputs and outputs at that moment: the linearisation point matters.
    """

    def setup(self):
        self._declare()
        self._lin = None

    def apply_nonlinear(
        self, inputs, outputs, residuals, discrete_inputs=None, discrete_outputs=None
    ):
        math: OdeMath = self.options["math"]
        u0, acc, p, t = self._gather(inputs)
        h, a = self._h_a()
        k = self._out(outputs)
        us = u0 + h * (acc + a * k)
        self._set_out(residuals, k - math.f(us, p, t))

    def solve_nonlinear(
        self, inputs, outputs, discrete_inputs=None, discrete_outputs=None
    ):
        math: OdeMath = self.options["math"]
        u0, acc, p, t = self._gather(inputs)
        self._trace(t)
        is_nan = self._point("nl")
        h, a = self._h_a()
        k = math.solve_stage(u0, acc, p, t, h, a) + self._spike()
        self._set_out(outputs, np.full(math.n, np.nan) if is_nan else k)

    def linearize(self, inputs, outputs, partials, discrete_inputs=None,
                  discrete_outputs=None):
        math: OdeMath = self.options["math"]
        is_nan = self._point("lin")
        u0, acc, p, t = self._gather(inputs)
        h, a = self._h_a()
        self._lin = (*math.stage_derivs(u0, acc, self._out(outputs), p, t, h, a), h)
        if is_nan:
            self._lin = tuple(x * np.nan for x in self._lin)

    def apply_linear(self, inputs, outputs, d_inputs, d_outputs, d_residuals, mode):
        M, fu, fp, ft, h = self._lin
        if mode == "fwd":
            du0, dacc, dp, dt = self._gather_pert(d_inputs)
            self._add_out(
                d_residuals,
                M @ self._out(d_outputs)
                - fu @ (du0 + h * dacc) - fp @ dp - ft * dt,
            )
        else:
            lam = self._out(d_residuals)
            self._add_out(d_outputs, M.T @ lam)
            x = -fu.T @ lam
            self._scatter_pert(d_inputs, x, h * x, -fp.T @ lam, -ft @ lam)

    def solve_linear(self, d_outputs, d_residuals, mode):
        M, _, _, _, _ = self._lin
        is_nan = self._point("ls")
        if mode == "fwd":
            x = np.linalg.solve(M, self._out(d_residuals))
            self._set_out(d_outputs, x * np.nan if is_nan else x)
        else:
            x = np.linalg.solve(M.T, self._out(d_outputs))
            self._set_out(d_residuals, x * np.nan if is_nan else x)


class StateStage(ExplicitStage):
    """Stage that is solved for the state; StageUpdateComponent makes the slope of it."""

    def _declare(self):
        math: OdeMath = self.options["math"]
        for name, shape, _ in math.declared():
            self.add_input(name + "_old", shape=shape, distributed=True)
            self.add_input(name + "_acc_stages", shape=shape, distributed=True)
            self.add_output(name, shape=shape, val=0.0, distributed=True)
        for name, shape in math.declared_p():
            self.add_input(
                name, shape=shape, val=0.0, tags=[name, "time_independent_input_var"]
            )
        if math.use_time:
            self.add_input("time", shape=1, val=0.0, tags=["time_variable"])

    def compute(self, inputs, outputs, discrete_inputs=None, discrete_outputs=None):
        math: OdeMath = self.options["math"]
        u0, acc, p, t = self._gather(_Renamed(inputs, math))
        self._trace(t)
        is_nan = self._point("nl")
        h, a = self._h_a()
        v = u0 + h * (acc + a * math.solve_stage(u0, acc, p, t, h, a))
        for name, val in math.split(v * np.nan if is_nan else v).items():
            outputs[name] = val

    def compute_jacvec_product(
        self, inputs, d_inputs, d_outputs, mode, discrete_inputs=None
    ):
        math: OdeMath = self.options["math"]
        is_nan = self._point("lin")
        u0, acc, p, t = self._gather(_Renamed(inputs, math))
        h, a = self._h_a()
        k = math.solve_stage(u0, acc, p, t, h, a)
        M, fu, fp, ft = math.stage_derivs(u0, acc, k, p, t, h, a)
        d_old = _Renamed(d_inputs, math)
        if mode == "fwd":
            du0, dacc, dp, dt = self._gather_pert(d_old)
            dv = np.linalg.solve(M, du0 + h * dacc + h * a * (fp @ dp + ft * dt))
            for name, val in math.split(dv * np.nan if is_nan else dv).items():
                if name in d_outputs:
                    d_outputs[name] += val
        else:
            lam = np.linalg.solve(M.T, np.concatenate(
                [d_outputs[n].ravel() if n in d_outputs else np.zeros(s)
                 for n, s in zip(math.names, math.sizes)]))
            if is_nan:
                lam = lam * np.nan
            self._scatter_pert(d_old, lam, h * lam, h * a * fp.T @ lam, h * a * ft @ lam)


class _Renamed:
    """Inputs of StateStage under the names of the other stages."""

    def __init__(self, vec, math):
        self.vec = vec
        self.names = {n: n + "_old" for n in math.names}
        self.names.update({n + "_acc": n + "_acc_stages" for n in math.names})

    def __contains__(self, key):
        return self.names.get(key, key) in self.vec

    def __getitem__(self, key):
        return self.vec[self.names.get(key, key)]

    def __setitem__(self, key, value):
        self.vec[self.names.get(key, key)] = value


class SlopeComp(om.ExplicitComponent):
    """F(stage_value, p, t) of the coupled layout (slope from stage value)."""

    def initialize(self):
        self.options.declare("math", types=OdeMath)
        self.options.declare("instance", types=str, default="")

    def setup(self):
        math: OdeMath = self.options["math"]
        for name, shape, inp in math.declared():
            if inp:
                self.add_input(name + "_val", shape=shape)
            self.add_output(
                name + "_upd", shape=shape, val=0.0, tags=[name, "stage_output_var"]
            )
        for name, shape in math.declared_p():
            self.add_input(
                name, shape=shape, val=0.0, tags=[name, "time_independent_input_var"]
            )
        if math.use_time:
            self.add_input("time", shape=1, val=0.0, tags=["time_variable"])

    def setup_partials(self):
        math: OdeMath = self.options["math"]
        for name in math.names:
            for other, inp in zip(math.names, math.has_input):
                if inp:
                    self.declare_partials(name + "_upd", other + "_val")
            for pname in math.p_names:
                self.declare_partials(name + "_upd", pname)
            if math.use_time:
                self.declare_partials(name + "_upd", "time")

    def _gather(self, inputs):
        math: OdeMath = self.options["math"]
        u = np.zeros(math.n)
        for i, name in enumerate(math.names):
            if math.has_input[i]:
                u[math.offsets[i] : math.offsets[i + 1]] = inputs[name + "_val"].ravel()
        p = np.zeros(math.m)
        for i, name in enumerate(math.p_names):
            p[math.p_offsets[i] : math.p_offsets[i + 1]] = inputs[name].ravel()
        return u, p, (inputs["time"][0] if math.use_time else 0.0)

    def compute(self, inputs, outputs, discrete_inputs=None, discrete_outputs=None):
        math: OdeMath = self.options["math"]
        action = CTX.hit("nl", self.options["instance"])
        if action is not None and action != "nan":
            raise_fault(action)
        u, p, t = self._gather(inputs)
        k = math.f(u, p, t)
        for name, val in math.split(k).items():
            outputs[name + "_upd"] = val

    def compute_partials(self, inputs, partials, discrete_inputs=None):
        math: OdeMath = self.options["math"]
        action = CTX.hit("lin", self.options["instance"])
        if action is not None and action != "nan":
            raise_fault(action)
        u, p, t = self._gather(inputs)
        fu, fp, ft = math.fu(u, p, t), math.fp(u, p, t), math.ft(u, p, t)
        for i, name in enumerate(math.names):
            rows = slice(math.offsets[i], math.offsets[i + 1])
            for j, other in enumerate(math.names):
                if math.has_input[j]:
                    partials[name + "_upd", other + "_val"] = fu[
                        rows, math.offsets[j] : math.offsets[j + 1]
                    ]
            for j, pname in enumerate(math.p_names):
                partials[name + "_upd", pname] = fp[
                    rows, math.p_offsets[j] : math.p_offsets[j + 1]
                ]
            if math.use_time:
                partials[name + "_upd", "time"] = ft[rows].reshape(-1, 1)


class Bystander(om.ExplicitComponent):
    """Part of the stage problem that the integration is not interested in: it has tags of
    a quantity that is not integrated, uses the time and the slopes, nobody uses it."""

    def initialize(self):
        self.options.declare("math", types=OdeMath)

    def setup(self):
        math: OdeMath = self.options["math"]
        self.add_input("other", shape=(2,), val=0.4, tags=["other", "step_input_var"])
        self.add_input(
            "other_acc", shape=(2,), val=0.0, tags=["other", "accumulated_stage_var"]
        )
        self.add_input(math.names[0] + "_upd", shape=math.shapes[0])
        if math.use_time:
            self.add_input("time", shape=1, val=0.0)
        self.add_output("other_upd", shape=(2,), tags=["other", "stage_output_var"])
        self.declare_partials("*", "*")

    def compute(self, inputs, outputs, discrete_inputs=None, discrete_outputs=None):
        math: OdeMath = self.options["math"]
        outputs["other_upd"] = 3.0 * inputs["other"] + inputs["other_acc"] + np.sum(
            inputs[math.names[0] + "_upd"]) + (inputs["time"] if math.use_time else 0.0)

    def compute_partials(self, inputs, partials, discrete_inputs=None):
        math: OdeMath = self.options["math"]
        partials["other_upd", "other"] = 3.0 * np.eye(2)
        partials["other_upd", "other_acc"] = np.eye(2)
        partials["other_upd", math.names[0] + "_upd"] = 1.0
        if math.use_time:
            partials["other_upd", "time"] = 1.0


NAMES = [
    ["q0", "q1", "q2"], ["q0", "q1", "q2"], ["x", "x_dot", "T"], ["z", "y", "a"],
    ["q", "q_1", "q_11"], ["velocity", "v", "other_v"],
]
P_NAMES = [["p0", "p1"], ["p0", "p1"], ["mu", "alpha"], ["p", "p_0"]]


def build_stage_problem(spec: dict, math: OdeMath, instance: str = "") -> om.Problem:
    """The time stage problem for the real integrator."""
    prob = om.Problem(reports=False)
    layout = spec["layout"]
    if spec.get("ivc") and layout != "update":
        # inputs with an explicit source
        ivc = om.IndepVarComp()
        for name, shape, inp in math.declared():
            if inp:
                ivc.add_output(name, shape=shape, val=0.3)
                ivc.add_output(name + "_acc", shape=shape, val=0.2)
        for name, shape in math.declared_p():
            ivc.add_output(name, shape=shape, val=0.1)
        prob.model.add_subsystem("ivc", ivc, promotes=["*"])
    if spec.get("bystander") == "before":
        prob.model.add_subsystem("bystander", Bystander(math=math), promotes=["*"])
    if layout == "explicit":
        prob.model.add_subsystem(
            "stage", ExplicitStage(math=math, instance=instance), promotes=["*"]
        )
    elif layout == "implicit":
        prob.model.add_subsystem(
            "stage", ImplicitStage(math=math, instance=instance), promotes=["*"]
        )
    elif layout == "coupled":
        group = prob.model.add_subsystem("cycle", om.Group(), promotes=["*"])
        for name, inp in zip(math.names, math.has_input):
            if inp:
                group.add_subsystem(
                    name + "_stage_value",
                    StageValueComponent(tag=name),
                    promotes_inputs=[
                        ("stage_slope", name + "_upd"),
                        ("old_value", name),
                        ("acc_stages", name + "_acc"),
                    ],
                    promotes_outputs=[("stage_value", name + "_val")],
                )
        group.add_subsystem(
            "slope", SlopeComp(math=math, instance=instance), promotes=["*"]
        )
        group.nonlinear_solver = om.NewtonSolver(
            solve_subsystems=False,
            maxiter=30,
            atol=1e-13,
            rtol=1e-13,
            iprint=-1,
            err_on_non_converge=False,
            stall_limit=3,
            stall_tol=1e-14,
        )
        group.linear_solver = om.DirectSolver(assemble_jac=False)
    elif layout == "update":
        ivc = prob.model.add_subsystem("ivc", om.IndepVarComp(), promotes=["*"])
        for name, shape, _ in math.declared():
            ivc.add_output(name + "_old", shape=shape, val=0.3, distributed=True)
            ivc.add_output(name + "_acc_stages", shape=shape, val=0.2, distributed=True)
        prob.model.add_subsystem(
            "stage", StateStage(math=math, instance=instance), promotes=["*"]
        )
        prob.model.add_subsystem(
            "update", StageUpdateComponent(quantity_list=[n for n, _, _ in math.declared()]),
            promotes=["*"],
        )
    elif layout == "kaps_group":
        prob.model.add_subsystem(
            "kaps", KapsGroup(epsilon=spec["epsilon"]), promotes=["*"])
    elif layout == "kaps_parts":
        group = prob.model.add_subsystem("kaps", om.Group(), promotes=["*"])
        group.add_subsystem("a", KapsComponent1(epsilon=spec["epsilon"]), promotes=["*"])
        group.add_subsystem("b", KapsComponent2(), promotes=["*"])
        group.nonlinear_solver = om.NonlinearBlockGS(
            maxiter=40, atol=1e-12, rtol=1e-11, iprint=-1)
        group.linear_solver = om.LinearBlockGS(
            maxiter=40, atol=1e-12, rtol=1e-11, iprint=-1)
    elif layout == "decay":
        prob.model.add_subsystem("decay", SimpleLinearODE(), promotes=["*"])
    elif layout == "prothero":
        prob.model.add_subsystem(
            "prothero", ProtheroRobinson(lambda_=spec["lambda"]), promotes=["*"])
    else:
        raise AssertionError(layout)
    if spec.get("bystander") == "after":
        prob.model.add_subsystem("bystander", Bystander(math=math), promotes=["*"])
    return prob


def random_ode_spec(rng: Rng, *, layouts=("explicit", "implicit", "coupled")) -> dict:
    n_q = rng.choices([1, 2, 3], weights=[4, 4, 1])[0]
    names, p_names = rng.choice(NAMES), rng.choice(P_NAMES)
    quantities = []
    for i in range(n_q):
        shape = rng.choice([[1], [2], [3], [2, 2], [1, 2], [2, 1, 2]])
        quantities.append(
            {"name": names[i], "shape": shape, "has_input": i == 0 or rng.chance(0.75)}
        )
    if n_q > 1 and rng.chance(0.2):
        # the first one is not an input of the stage
        quantities[0]["has_input"], quantities[1]["has_input"] = False, True
    indep = [
        {"name": p_names[i], "shape": rng.choice([[1], [2], [1, 2], [2, 2]])}
        for i in range(rng.choices([0, 1, 2], weights=[2, 5, 2])[0])
    ]
    spec = {
        "quantities": quantities,
        "indep": indep,
        "use_time": rng.chance(0.7),
        "kind": rng.choice(["linear", "nonlinear"]),
        "coef_seed": rng.randrange(10**6),
        "layout": rng.choice(list(layouts)),
    }
    for key, value in (("reversed", True), ("ivc", True),
                       ("bystander", rng.choice(["before", "after"]))):
        if rng.chance(0.2):
            spec[key] = value
    if rng.chance(0.12):
        spec["homogeneous"] = True
        spec["use_time"] = rng.chance(0.2)
    return spec
