"""The checks by property id."""

from __future__ import annotations

import importlib
import os

TIER = os.environ.get("VERIF_SIM_TIER", "quick")


class Check:
    """generate(rng) -> scenario (JSON), execute(scenario), simplify(scenario)."""

    def generate(self, rng):
        raise NotImplementedError

    def execute(self, scenario):
        raise NotImplementedError

    def simplify(self, scenario):
        return ()


MODULES = {
    "checks_history": ("P01", "P02", "P03", "P04", "P05"),
    "checks_adaptive": ("P06", "P07", "P08"),
    "checks_hdf5": ("P10", "P11"),
    "checks_model": ("P15",),
    "checks_mpi": ("P16",),
    "checks_mpih5": ("P17",),
    "checks_scheme": ("P18",),
    "checks_report": ("P19",),
    "checks_experiment": ("P20",),
    "checks_protocol": ("P09", "P12", "P13", "P14"),
}


def get_check(prop: str) -> Check:
    for module, props in MODULES.items():
        if prop in props:
            return importlib.import_module(f"sim.{module}").CHECKS[prop]()
    raise KeyError(prop)
