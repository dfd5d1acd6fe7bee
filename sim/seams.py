"""Seams below the library: clock, garbage collection, checkpoint storage.

Everything is installed once per process and controlled through CTX, so it is inactive
unless a scenario arms it.
"""

from __future__ import annotations

import copy
import datetime as real_datetime
import errno
import gc
import os
import shutil
import types

import pyrevolve.storage as prs

from rkopenmdao.time_discretization.runge_kutta_discretization_state import (
    RungeKuttaDiscretizationState,
)
from rkopenmdao.time_integration_state import TimeIntegrationState

from .core import CTX

EPOCH = real_datetime.datetime(2024, 5, 17, 11, 22, 33)


class SimClock(real_datetime.datetime):
    """Wall clock of the checkpoint storage.  Advances by CTX.tick seconds per reading:
    zero is the adversarial case, everything happens within one second."""

    @classmethod
    def now(cls, tz=None):
        reading = getattr(CTX, "clock", 0)
        CTX.clock = reading + getattr(CTX, "tick", 0)
        return EPOCH + real_datetime.timedelta(seconds=reading)


def _fake_datetime_module():
    mod = types.ModuleType("datetime")
    mod.__dict__.update(real_datetime.__dict__)
    mod.datetime = SimClock
    return mod


def fail(action):
    if action == "enospc":
        raise OSError(errno.ENOSPC, "injected: no space left on device")
    if action == "eio":
        raise OSError(errno.EIO, "injected: input/output error")
    if action == "memory_error":
        raise MemoryError("injected: allocation of checkpoint failed")
    if action == "interrupt":
        raise KeyboardInterrupt("injected while accessing a checkpoint")
    raise AssertionError(action)


def _wrap_save(cls):
    orig = cls.save

    def save(self, key, data_pointers):
        action = CTX.hit("ckpt_save")
        if action is None:
            return orig(self, key, data_pointers)
        if action == "torn":
            # part of the data reaches the medium, then the write fails
            spoiled = [p.copy() for p in data_pointers]
            for p in spoiled:
                p.reshape(-1)[p.size // 2 :] = -7.25e8
            orig(self, key, spoiled)
            raise OSError(errno.ENOSPC, "injected: torn write")
        if action == "truncate":
            # the write "succeeds", but its end never reaches the medium
            res = orig(self, key, data_pointers)
            name = getattr(self, "datFileName", None)
            if name is not None and not self.singlefile:
                path = f"{name}.k{key}"
                size = os.path.getsize(path)
                os.truncate(path, size // 2 - (size // 2) % 8)
            return res
        fail(action)

    cls.save = save


def _wrap_load(cls):
    orig = cls.load

    def load(self, key, locations):
        action = CTX.hit("ckpt_load")
        if action is None:
            return orig(self, key, locations)
        if action == "torn":
            orig(self, key, locations)
            for p in locations:
                p.reshape(-1)[p.size // 2 :] = -7.25e8
            raise OSError(errno.EIO, "injected: short read")
        fail(action)

    cls.load = load


def _wrap_init(cls):
    orig = cls.__init__

    def __init__(self, *args, **kw):
        # what __del__ needs, should creation fail half way
        self.keepfiles = True
        action = CTX.hit("ckpt_create")
        if action is not None:
            fail(action)
        self.keepfiles = kw.get("keepfiles", False)
        orig(self, *args, **kw)
        storages = getattr(CTX, "storages", None)
        if storages is not None:
            storages.append(self.filedir)

    cls.__init__ = __init__


def vanish():
    """Somebody removes the files of all disk checkpoints (e.g. a cleaner of /tmp)."""
    for path in getattr(CTX, "storages", ()) or ():
        shutil.rmtree(path, ignore_errors=True)


def _wrap_deepcopy(cls):
    """Copying a state allocates memory, so it may fail."""
    orig = cls.__dict__.get("__deepcopy__")

    def __deepcopy__(self, memo):
        if any(f["kind"] == "alloc" for f in CTX.active_faults):
            action = CTX.hit("alloc")
            if action is not None:
                fail(action)
        if orig is not None:
            return orig(self, memo)
        new = self.__class__.__new__(self.__class__)
        memo[id(self)] = new
        for key, val in self.__dict__.items():
            setattr(new, key, copy.deepcopy(val, memo))
        return new

    cls.__deepcopy__ = __deepcopy__


_INSTALLED = []


def install():
    if _INSTALLED:
        return
    _INSTALLED.append(True)
    prs.datetime = _fake_datetime_module()
    _wrap_save(prs.DiskStorage)
    _wrap_load(prs.DiskStorage)
    _wrap_init(prs.DiskStorage)
    _wrap_save(prs.NumpyStorage)
    _wrap_load(prs.NumpyStorage)
    _wrap_deepcopy(TimeIntegrationState)
    _wrap_deepcopy(RungeKuttaDiscretizationState)


def collect():
    gc.collect()
