"""P01-P04: values returned by compute and by both derivative modes."""

from __future__ import annotations

import copy

from .checks import TIER, Check
from .history import (
    execute_history, random_history, random_inst, random_ops, simplify_history,
)


class _History(Check):
    judged = ()
    options = {}
    runner_options = {}

    def generate(self, rng):
        return random_history(rng, **self.options)

    def execute(self, scenario):
        execute_history(scenario, check=self.judged, **self.runner_options)

    def simplify(self, scenario):
        return simplify_history(scenario)


class Primal(_History):
    judged = ("compute",)
    options = {"focus": "compute", "faults": 0.1, "om_ops": 0.4, "long_runs": 0.02}


class Forward(_History):
    judged = ("fwd",)
    options = {"focus": "fwd", "faults": 0.05, "om_ops": 0.4, "long_runs": 0.02}


class Reverse(_History):
    judged = ("rev",)
    options = {"focus": "rev", "faults": 0.05, "om_ops": 0.4, "long_runs": 0.03}

    def generate(self, rng):
        scn = super().generate(rng)
        count = len(scn["insts"][0]["points"])
        if count > 1 and scn["insts"][0]["cfg"]["ckpt"][0] != "none" and rng.chance(0.4):
            # checkpoints of one point are there when derivatives at another one, which
            # often hardly differs, are asked for
            a, b = rng.sample(range(count), 2)
            scn["ops"] += [{"op": rng.choice(["compute", "rev"]), "i": 0, "pt": a, "dir": 0},
                           {"op": "rev", "i": 0, "pt": b, "dir": rng.randrange(5)}]
            if scn["ops"][-2]["op"] == "compute":
                del scn["ops"][-2]["dir"]
        return scn


class Recovery(_History):
    judged = ("compute", "fwd", "rev")
    runner_options = {"surface": True}
    options = {"faults": 0.5, "n_ops": (4, 9), "asynchronous": TIER == "thorough"}


class Storage(_History):
    judged = ("compute", "fwd", "rev")
    options = {"focus": "rev", "faults": 0.5, "n_ops": (4, 9), "storage": 0.85,
               "adaptive": None, "max_steps": 12}

    def generate(self, rng):
        scn = random_history(rng, ckpt="all" if rng.chance(0.2) else "pyrevolve",
                             **self.options)
        if rng.chance(0.3):
            # a second integrator that uses the same directory at the same time
            other = copy.deepcopy(scn["insts"][0])
            if rng.chance(0.5):
                other = random_inst(rng, ckpt="pyrevolve", max_steps=12)
            scn["insts"].append(other)
            scn["ops"] = random_ops(rng, scn["insts"], focus="rev", faults=0.4,
                                    n_ops=(4, 9), storage=0.85)
        return scn


CHECKS = {"P01": Primal, "P02": Forward, "P03": Reverse, "P04": Recovery,
          "P05": Storage}
