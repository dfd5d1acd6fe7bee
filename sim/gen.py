"""Generators of configurations (swarm style: every run draws its own mix)."""

from __future__ import annotations

import numpy as np

from . import ref
from .core import Rng
from .odes import make_math, random_ode_spec, random_shipped_spec

CONTROLLERS = [
    "integral", "h0_110", "h_211", "h0_211", "pc", "pid", "h_312", "ppid", "h_321",
    "h0_220", "h0_312", "h0_321",
]
# also with parameters; the last one is stable for small exponents only
GENERAL = [
    "h_312_general:0.1,-0.3,-0.1", "h_312_general:0.25,-0.75,-0.25",
    "h_321_general:0.3,-0.05,0.8", "h_321_general:0.4,-0.2,0.5",
    "h_330_general:0.2,0.2,0.1", "h0_330",
]


def random_dirk(rng: Rng, embedded=False) -> dict:
    """A made-up stage ordered tableau (consistent: weights sum to one)."""
    s = rng.randint(1, 4)
    kind = rng.choice(["explicit", "dirk", "mixed"])
    a = [[0.0] * s for _ in range(s)]
    for i in range(s):
        for j in range(i):
            a[i][j] = round(rng.uniform(-0.6, 1.0), 3)
        if kind == "dirk" or (kind == "mixed" and rng.chance(0.5)):
            a[i][i] = round(rng.uniform(0.1, 0.9), 3)
    b = [round(rng.uniform(-0.2, 1.0), 3) for _ in range(s)]
    b[-1] = round(1.0 - sum(b[:-1]), 3)
    c = [round(sum(row), 3) for row in a]
    if rng.chance(0.3):
        c = [round(rng.uniform(0.0, 1.0), 3) for _ in range(s)]
    out = {"A": a, "b": b, "c": c, "p": rng.randint(1, 3)}
    if embedded:
        e = [round(x + rng.uniform(-0.3, 0.3), 3) for x in b]
        if s == 1:
            e = [round(1.0 - rng.uniform(0.01, 0.1), 3)]
        else:
            e[-1] = round(1.0 - sum(e[:-1]), 3)
        out["b_emb"] = e
    return out


def random_ckpt(rng: Rng, kind=None) -> list:
    if kind is None:
        kind = rng.pick_weighted({"all": 4, "pyrevolve": 6})
    if kind == "all":
        return ["all"]
    rtype = rng.choice(["SingleLevel", "Memory", "Disk"])
    options = {}
    if rng.chance(0.7):
        options["n_checkpoints"] = rng.randint(1, 6)
    if rtype == "Disk":
        options["filedir"] = "@SCRATCH@"
        if rng.chance(0.5):
            options["singlefile"] = rng.chance(0.5)
    if rtype == "SingleLevel" and rng.chance(0.4):
        options["diskstorage"] = True
        options["filedir"] = "@SCRATCH@"
    return ["pyrevolve", rtype, options]


def random_controller(rng: Rng, chain=True) -> dict:
    names = [rng.choice(CONTROLLERS if rng.chance(0.8) else GENERAL)]
    if chain and rng.chance(0.45):
        names.append(rng.choice(
            ["integral", "h0_110", "integral", "h_211"] if rng.chance(0.6)
            else CONTROLLERS if rng.chance(0.8) else GENERAL[:4]))
        if rng.chance(0.15):
            names.append(rng.choice(CONTROLLERS))
    if rng.chance(0.08):
        # everything left at its default (objects created once per process)
        return {"controllers": names, "tol": 1e-6, "lb": 0, "ub": None, "safety": 0.95,
                "max_iter": 5, "measurer": "simple", "default": True}
    return {
        "controllers": names,
        "tol": rng.choice([1e-2, 3e-3, 1e-3, 3e-4, 1e-4]),
        "lb": rng.choice([0.0, 0.0, 1e-3, 0.02]),
        "ub": rng.choice([1.0, 0.5, 0.5, 0.2]),
        "safety": rng.choice([0.95, 0.9, 0.8]),
        "max_iter": rng.randint(1, 6),
        "measurer": rng.choice(["simple", "simple", "improved"]),
    }


def random_cfg(rng: Rng, *, adaptive=None, need_rev=True, max_steps=7,
               ckpt=None, long_runs=0.0) -> dict:
    if adaptive is None:
        adaptive = rng.chance(0.3)
    if adaptive:
        tableau = (
            rng.choice(ref.EMBEDDED) if rng.chance(0.8) else random_dirk(rng, True)
        )
    else:
        pick = rng.random()
        if pick < 0.5:
            tableau = rng.choice(ref.FIXED)
        elif pick < 0.75:
            tableau = rng.choice(ref.EMBEDDED)
        else:
            tableau = random_dirk(rng)
    cfg = {
        "tableau": tableau,
        "adaptive": adaptive,
        "h": rng.choice([0.02, 0.05, 0.1, 0.13, 0.25, 0.4]),
    }
    ckpt = random_ckpt(rng, ckpt) if need_rev else rng.choice([["none"], ["all"]])
    steps = rng.choice([1, 2, 3, 3, 4, 5, 6, max_steps])
    if adaptive:
        cfg["ctl"] = random_controller(rng)
        if ckpt[0] == "all" and rng.chance(0.7):
            cfg["term"] = ["time", rng.choice([0.3, 0.5, 0.77, 1.0])]
        else:
            cfg["term"] = ["steps", steps]
    elif ckpt[0] != "pyrevolve" and rng.chance(0.5):
        cfg["term"] = ["time", rng.choice([0.3, 0.5, 0.77, 1.0])]
        cfg["h"] = rng.choice([0.1, 0.13, 0.25, 0.4])
    else:
        cfg["term"] = ["steps", steps]
    cfg["ckpt"] = ckpt
    if cfg["term"][0] == "time":
        if rng.chance(0.25):
            cfg["t0"] = rng.choice([-0.3, -0.5, -1.0])
            cfg["term"][1] = round(cfg["term"][1] + cfg["t0"], 6)
    elif rng.chance(0.15):
        cfg["t0"] = rng.choice([-3.0, 10.0, 100.0])
    if long_runs and not adaptive and rng.chance(long_runs):
        # far more steps than usual
        cfg["term"] = ["steps", int(10 ** rng.uniform(1.6, 2.85))]
        cfg["h"] = rng.choice([0.004, 0.01])
        if ckpt[0] == "pyrevolve" and "n_checkpoints" in ckpt[2]:
            ckpt[2]["n_checkpoints"] += 5
    return cfg


def random_points(rng: Rng, spec: dict, cfg: dict, count: int) -> list:
    """Points that share parts: later ones often differ in one component only."""
    math = make_math(spec)
    shipped = spec["layout"].startswith("kaps")

    def fresh_t():
        return cfg.get("t0", 0.0) + rng.choice([0.0, 0.0, 0.1, -0.2, 0.25])

    def vec(n):
        return [round(rng.uniform(0.5 if shipped else -1.5, 1.5), 3) for _ in range(n)]

    points = [{"u": vec(math.n), "p": vec(math.m), "t": fresh_t()}]
    if not shipped and rng.chance(0.5 if spec.get("homogeneous") else 0.05):
        points[0]["u"] = [0.0] * math.n
    while len(points) < count:
        base = rng.choice(points)
        new = {"u": list(base["u"]), "p": list(base["p"]), "t": base["t"]}
        what = rng.choice(["u", "p", "t", "t", "one", "all", "tiny", "tiny"])
        if what == "u":
            new["u"] = vec(math.n)
        elif what == "p" and math.m:
            new["p"] = vec(math.m)
        elif what == "t":
            new["t"] = round(base["t"] + rng.choice([-0.1, 0.07, 0.2]), 3)
        elif what == "tiny":
            # equal at first sight
            k = rng.choice(["u", "p", "t"])
            eps = rng.choice([1e-4, 3e-6, 1e-6, 1e-7])
            if k == "t":
                new["t"] = base["t"] + eps
            else:
                new[k] = [x * (1.0 + eps) for x in new[k]]
        elif what == "one":
            i = rng.randrange(math.n)
            new["u"][i] = round(new["u"][i] + rng.choice([1e-3, -0.5, 1.0]), 4)
        else:
            new = {"u": vec(math.n), "p": vec(math.m), "t": fresh_t()}
        if cfg["term"][0] == "time" and new["t"] > cfg["term"][1] - 0.05:
            new["t"] = cfg.get("t0", 0.0)
        if cfg["term"][0] == "time" and rng.chance(0.08):
            # nothing (or very little) left to do
            new["t"] = cfg["term"][1] + rng.choice([0.0, 0.1, -0.001, -1e-6])
        points.append(new)
    return points


def random_setup(rng: Rng, **kw):
    layouts = kw.pop("layouts", None)
    shipped = layouts is None
    if shipped:
        layouts = ("explicit", "implicit", "coupled", "explicit", "implicit", "coupled",
                   "update")
    spec = random_ode_spec(rng, layouts=layouts)
    cfg = random_cfg(rng, **kw)
    if shipped and not cfg["adaptive"] and rng.chance(0.06):
        spec = random_shipped_spec(rng)
        cfg["h"] = rng.choice([0.02, 0.05, 0.1])
        kind, limit = cfg["term"]
        steps = limit if kind == "steps" else (limit - cfg.get("t0", 0.0)) / cfg["h"]
        if spec["layout"].startswith("kaps") and steps > 20:
            # (iterative solvers in every stage)
            cfg["term"] = ["steps", 10 + int(steps) // 10]
    if spec["layout"] == "update":
        tab = ref.make_tableau(cfg["tableau"])[1]
        if cfg["adaptive"] or not np.all(np.diag(tab.A)):
            # slopes are differences of states, divided by the diagonal element
            spec["layout"] = "implicit"
        else:
            for quantity in spec["quantities"]:
                quantity["has_input"] = True
            spec.pop("bystander", None)
            cfg["h"] = max(cfg["h"], 0.02)
    if spec["layout"] == "coupled" and cfg["term"] > ["steps", 150]:
        cfg["term"][1] //= 4  # (iterative solvers in every stage)
    return spec, cfg
