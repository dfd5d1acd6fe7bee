"""Reference model: a small, independent executable specification in plain numpy."""

from __future__ import annotations

import json
import pathlib

import numpy as np

from rkopenmdao import butcher_tableaux as bt
from rkopenmdao.butcher_tableau import ButcherTableau, EmbeddedButcherTableau

# Frozen copy of the numbers of the tableaux (order conditions verified when they were
# frozen): the reference does not read coefficients from the code under test.
_FROZEN = json.loads((pathlib.Path(__file__).parent / "tableaux.json").read_text())
FIXED = sorted(n for n, d in _FROZEN.items() if "b_emb" not in d and hasattr(bt, n))
EMBEDDED = sorted(n for n, d in _FROZEN.items() if "b_emb" in d and hasattr(bt, n))


class Tab:
    """Private copy of the numbers of a tableau."""

    def __init__(self, a, b, c, b_emb=None, p=1):
        self.A = np.array(a, dtype=float)
        self.b = np.array(b, dtype=float)
        self.c = np.array(c, dtype=float)
        self.b_emb = None if b_emb is None else np.array(b_emb, dtype=float)
        self.s = self.b.size
        self.p = p

    @property
    def embedded(self):
        return self.b_emb is not None


_LIB = {
    name: Tab(d["A"], d["b"], d["c"], d.get("b_emb"), d["min_p"])
    for name, d in _FROZEN.items()
}


def make_tableau(spec):
    """spec: name of a library tableau, or dict with explicit numbers.

    Returns (object for the library, reference copy)."""
    if isinstance(spec, str):
        return getattr(bt, spec), _LIB[spec]
    a = np.array(spec["A"], dtype=float)
    b = np.array(spec["b"], dtype=float)
    c = np.array(spec["c"], dtype=float)
    if "b_emb" in spec:
        obj = EmbeddedButcherTableau(
            butcher_matrix=a.copy(), butcher_weight_vector=b.copy(),
            butcher_time_stages=c.copy(), p=spec["p"],
            butcher_adaptive_weights=np.array(spec["b_emb"], dtype=float), phat=spec["p"] + 1,
        )
        return obj, Tab(a, b, c, spec["b_emb"], min(spec["p"], spec["p"] + 1))
    obj = ButcherTableau(
        butcher_matrix=a.copy(), butcher_weight_vector=b.copy(),
        butcher_time_stages=c.copy(), p=spec["p"],
    )
    return obj, Tab(a, b, c, None, spec["p"])


def step(math, tab, u, p, t, h):
    """One Runge-Kutta step: (u1, stage slopes, stage times, error estimate or None)."""
    ks = np.zeros((tab.s, math.n))
    ts = np.zeros(tab.s)
    for i in range(tab.s):
        acc = np.zeros(math.n)
        for j in range(i):
            acc = acc + tab.A[i, j] * ks[j]
        ts[i] = t + h * tab.c[i]
        ks[i] = math.solve_stage(u, acc, p, ts[i], h, tab.A[i, i])
    u1 = u + h * (tab.b @ ks)
    err = None if tab.b_emb is None else h * ((tab.b - tab.b_emb) @ ks)
    return u1, ks, ts, err


def trajectory(math, tab, u, p, t, hs):
    """States after each step, [u0, u1, ...] and times, for the given step sizes."""
    us, times, all_ks = [np.array(u, float)], [float(t)], []
    for h in hs:
        u1, ks, _, _ = step(math, tab, us[-1], p, times[-1], h)
        us.append(u1)
        times.append(times[-1] + h)
        all_ks.append(ks)
    return us, times, all_ks


def jacobian(math, tab, u, p, t, hs):
    """d(u_final, t_final) / d(u_init, p, t_init), step sizes frozen."""
    n, m = math.n, math.m
    cols = n + m + 1
    U = np.zeros((n, cols))
    U[:, :n] = np.eye(n)
    P = np.zeros((m, cols))
    P[:, n : n + m] = np.eye(m)
    T = np.zeros((1, cols))
    T[0, -1] = 1.0
    u = np.array(u, float)
    for h in hs:
        ks = np.zeros((tab.s, n))
        dks = np.zeros((tab.s, n, cols))
        for i in range(tab.s):
            acc = tab.A[i, :i] @ ks[:i]
            dacc = np.tensordot(tab.A[i, :i], dks[:i], axes=1)
            ti, a = t + h * tab.c[i], tab.A[i, i]
            ks[i] = math.solve_stage(u, acc, p, ti, h, a)
            M, fu, fp, ft = math.stage_derivs(u, acc, ks[i], p, ti, h, a)
            dks[i] = np.linalg.solve(
                M, fu @ (U + h * dacc) + fp @ P + ft[:, None] * T
            )
        u = u + h * (tab.b @ ks)
        U = U + h * np.tensordot(tab.b, dks, axes=1)
        t = t + h
    return np.vstack([U, T])


def fixed_steps(cfg, t0):
    """Step sizes of a run without adaptivity."""
    kind, value = cfg["term"]
    h = cfg["h"]
    if kind == "steps":
        return [h] * int(value)
    hs, t = [], float(t0)
    while value - t > 0:
        hs.append(h)
        t = t + h
        if len(hs) > 10_000:
            raise AssertionError("reference run too long")
    return hs


# exponents (alpha, beta, gamma, a, b) of the controllers, from Kennedy & Carpenter as
# documented in error_controllers.py
def controller_exponents(name, p):
    table = {
        "pseudo": (0, 0, 0, 0, 0),
        "integral": (1 / (1 + p), 0, 0, 0, 0),
        "h0_110": (1 / (1 + p), 0, 0, 0, 0),
        "h_211": (1 / (4 * p), -1 / (4 * p), 0, -1 / 4, 0),
        "h0_211": (1 / (2 * p), -1 / (2 * p), 0, -1 / 2, 0),
        "pc": (2 / p, 1 / p, 0, 1, 0),
        "pid": (1 / (18 * p), -1 / (9 * p), 1 / (18 * p), 0, 0),
        "h_312": (1 / (8 * p), -1 / (4 * p), 1 / (8 * p), -3 / 8, -1 / 8),
        "ppid": (6 / (20 * p), -1 / (20 * p), -5 / (20 * p), 1, 0),
        "h_321": (1 / (3 * p), -1 / (18 * p), -5 / (18 * p), 5 / 6, 1 / 6),
        "h0_220": (2 / p, 1 / p, 0, 1, 0),
        "h0_312": (1 / (4 * p), -1 / (2 * p), 1 / (4 * p), -3 / 4, -1 / 4),
        "h0_321": (1 / (3 * p), -1 / (2 * p), -3 / (4 * p), 1 / 4, 3 / 4),
        "h0_330": (3 / p, 3 / p, 1 / p, 2, -1),
    }
    if ":" not in name:
        return table[name]
    name, args = controller_arguments(name)
    x = list(args.values())
    if name == "h_312_general":
        return x[0] / p, -2 * x[0] / p, x[0] / p, x[1], x[2]
    if name == "h_321_general":
        return x[0] / p, x[1] / p, -(x[0] + x[1]) / p, x[2], 1 - x[2]
    return x[0] / p, x[1] / p, x[2] / p, 2, -1


GENERAL = {
    "h_312_general": ("var_alpha", "a", "b"),
    "h_321_general": ("var_alpha", "var_beta", "a"),
    "h_330_general": ("var_alpha", "var_beta", "var_gamma"),
}


def controller_arguments(name):
    """Name and keyword arguments, e.g. of "h_312_general:0.1,-0.3,-0.1"."""
    name, _, args = name.partition(":")
    return name, dict(zip(GENERAL.get(name, ()), map(float, args.split(","))
                          if args else ()))


def controller_estimate(name, p, ctl, err, h, errs, hs):
    """Unbounded estimate of the next step size."""
    alpha, beta, gamma, a, b = controller_exponents(name, p)
    tol = ctl["tol"]
    out = ctl["safety"] * h
    out *= (tol / err) ** alpha
    if errs[0] != 0.0:
        out *= (errs[0] / tol) ** beta
    if errs[1] != 0.0:
        out *= (tol / errs[1]) ** gamma
    if hs[0] != 0.0:
        out *= (h / hs[0]) ** a
        if hs[1] != 0.0:
            out *= (hs[0] / hs[1]) ** b
    return out
