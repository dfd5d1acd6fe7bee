"""P10 content of HDF5 files, P11 HDF5 files under faults and crashes."""

from __future__ import annotations

import copy
import errno
import os
import shutil

import h5py
import numpy as np

from rkopenmdao.file_writer import (
    OpenMDAOHDF5Callback, read_hdf5_file, read_last_local_error,
)

from .checks import Check
from .checks_adaptive import measure_of
from . import ref
from .core import CTX, HarnessError, Violation
from .history import (
    Runner, Scratch, bind_scratch, random_history, simplify_history,
)
from .world1 import Instance, close, fmt

# -- seam: h5py, at class level so that it does not matter how the library imports it ----


def _fail(action, where):
    if action == "enospc":
        raise OSError(errno.ENOSPC, f"injected: no space left on device ({where})")
    if action == "eio":
        raise OSError(errno.EIO, f"injected: input/output error ({where})")
    if action == "memory_error":
        raise MemoryError(f"injected ({where})")
    if action == "interrupt":
        raise KeyboardInterrupt(f"injected ({where})")
    raise HarnessError(action)


class _Seam:
    """Fault points at opening, creating and writing, before or after the effect."""

    active = False

    @classmethod
    def install(cls):
        if getattr(cls, "done", False):
            return
        cls.done = True
        cls.wrap(h5py.File, "__init__", "h5_open", late=False)
        cls.wrap(h5py.Group, "create_group", "h5_group")
        cls.wrap(h5py.Group, "create_dataset", "h5_dataset")
        cls.wrap(h5py.Dataset, "__setitem__", "h5_write")

    @classmethod
    def wrap(cls, owner, name, kind, late=True):
        orig = getattr(owner, name)

        def wrapped(self, *args, **kw):
            if not cls.active:
                return orig(self, *args, **kw)
            action = CTX.hit(kind)
            if action is None:
                return orig(self, *args, **kw)
            if action.endswith("_late") and late:
                orig(self, *args, **kw)
            _fail(action.replace("_late", ""), kind)

        setattr(owner, name, wrapped)


_Seam.install()
H5_KINDS = ("h5_open", "h5_group", "h5_dataset", "h5_write")


# -- what a file may contain -------------------------------------------------------------
def read_raw(path):
    """{step: {dataset: array}}, or None if there is no readable file."""
    was, _Seam.active = _Seam.active, False
    try:
        with h5py.File(path, "r") as f:
            return {key: {name: np.array(ds) for name, ds in group.items()}
                    for key, group in f.items()}
    except OSError:
        return None
    finally:
        _Seam.active = was


class FileModel:
    """Allowed content of one output file."""

    def __init__(self):
        # run the file belongs to: (expect, pt), must-have and may-have steps
        self.run, self.must, self.may, self.period = None, set(), set(), 1
        self.unknown = True  # nothing can be said (no file yet, invalid numbers)

    def set(self, expect, pt, must, may, period):
        self.run, self.must, self.may, self.period = (expect, pt), must, may, period
        self.unknown = False


def due(steps, period):
    out = {k for k in steps if k % period == 0}
    if 1 in steps:
        out.add(0)
    return out


def check_content(where, path, model):
    content = read_raw(path)
    expect, pt = model.run
    if content is None:
        raise Violation("unreadable-file", f"{where}: {os.path.basename(path)} can't be read")
    keys = set(content)
    wanted = {str(k) for k in model.must}
    allowed = {str(k) for k in model.must | model.may}
    if not wanted <= keys:
        raise Violation("missing-steps", f"{where}: file has steps {sorted(keys)}, steps "
                        f"{sorted(wanted)} were written")
    if not keys <= allowed:
        raise Violation("unexpected-steps", f"{where}: file has steps {sorted(keys)}, "
                        f"allowed are {sorted(allowed)}")
    us, ts = expect.path(pt)
    math = expect.math
    embedded = expect.tab.embedded
    tol = expect.tol * 10
    for key, data in content.items():
        k = int(key)
        names = {"time", *math.names} | ({"error_measure"} if embedded else set())
        if set(data) != names:
            raise Violation("incomplete-step", f"{where}: step {k} has {sorted(data)}, "
                            f"expected {sorted(names)}")
        want = dict(math.split(us[k]))
        want["time"] = np.array([ts[k]])
        for name, val in want.items():
            if data[name].shape != val.shape or not close(data[name], val, tol):
                raise Violation("wrong-content", f"{where}: {name} of step {k} is "
                                f"{fmt(data[name])}, expected {fmt(val)}")
        if embedded and k == 0 and data["error_measure"][0] != 0.0:
            raise Violation("wrong-content", f"{where}: error measure of initial values "
                            f"{data['error_measure']}")
        if embedded and k > 0 and expect.cfg["adaptive"]:
            want_err, noise = step_error(expect, pt, us, ts, k)
            got = float(data["error_measure"][0])
            if abs(got - want_err) > 1e-4 * abs(want_err) + noise:
                raise Violation("wrong-content", f"{where}: error measure of step {k} is "
                                f"{got!r}, expected {want_err!r}")
        CTX.judged += 1
    return content


def step_error(expect, pt, us, ts, k):
    u1, _, _, err = ref.step(expect.math, expect.tab, us[k - 1],
                             np.array(pt["p"], float), ts[k - 1], ts[k] - ts[k - 1])
    scale = 1.0 + np.max(np.abs(us[k - 1]), initial=0.0) + np.max(np.abs(u1), initial=0.0)
    return measure_of(expect.cfg["ctl"], err, u1), 1e-8 * scale


def apply_progress(model, seen, expect, pt, period):
    """Content the file may have after what was seen."""
    if seen["truncated"]:
        model.set(expect, pt, due(seen["done"], period), due(seen["maybe"], period),
                  period)
    elif seen["begun"]:
        # the file may or may not have been replaced already
        model.unknown = True


class H5Runner(Runner):
    """Histories with HDF5 output."""

    def __init__(self, scn, folder, strict):
        super().__init__(scn, check=(), on_op=self.after_op, make_instance=self.make)
        self.folder, self.strict = folder, strict
        self.models = {}
        self.image = None

    def path(self, i, kind):
        return os.path.join(self.folder, f"out{i}_{kind}.h5")

    def make(self, index, data):
        period = data["period"]
        compute = OpenMDAOHDF5Callback(self.path(index, "compute"), period)
        self.models[index, "compute"] = FileModel()
        inst = Instance(data["spec"], data["cfg"], f"i{index}", double=True,
                        mode=self.scn.get("mode", "rev"), extra_callbacks=[compute],
                        extra_fwd=[OpenMDAOHDF5Callback(self.path(index, "fwd"), period)]
                        if data.get("fwd_file") else ())
        if data.get("fwd_file"):
            self.models[index, "fwd"] = FileModel()
        return inst

    def step(self, index, op):
        self.image = None
        if op.get("image") and op["op"] in ("compute", "fwd", "rev"):
            self.arm_image(op)
        _Seam.active = True
        try:
            super().step(index, op)
        finally:
            _Seam.active = False
            CTX.at_call = None

    # -- crash images ------------------------------------------------------------------
    def arm_image(self, op):
        """The machine dies at some call into user code: what is on the disk then?"""
        i = op["i"]
        label = "fwd" if op["op"] == "fwd" else "compute"
        if (i, label) not in self.models:
            return
        path = self.path(i, label)

        def take():
            if h5_open_files():
                return  # inside of the library's own write: not crash safe by design
            self.image = {"path": path + ".image", "seen": self.progress(i, label)}
            if os.path.exists(path):
                shutil.copyfile(path, path + ".image")
            else:
                self.image["path"] = None

        CTX.at_call = (op["image"], take)

    def progress(self, i, label):
        """(step begun before the writer, begun after it, written for sure, begun to be
        written) as far as callbacks around the writer have seen it."""
        first, second = self.insts[i].rec[label].events, self.insts[i].rec2[label].events
        return {
            "begun": any(e["it"] == 1 and e["phase"] == "before" for e in first),
            "truncated": any(e["it"] == 1 and e["phase"] == "before" for e in second),
            "done": {e["it"] for e in second if e["phase"] == "after"},
            "maybe": {e["it"] for e in first if e["phase"] == "after"},
        }

    def after_op(self, index, op, inst, expect, pt, value, error, fired):
        i, kind = op["i"], op["op"]
        data = self.scn["insts"][i]
        where = f"op {index} ({kind} at point {op['pt']}" + (
            f", failed with {type(error).__name__})" if error is not None else ")")
        if error is not None and not fired:
            raise Violation("unexpected-error", f"{where}: {str(error)[:300]}")
        nan = fired and any(f["action"] == "nan" for f in op.get("faults", ()))
        for label in ("compute", "fwd"):
            if (i, label) not in self.models:
                continue
            model = self.models[i, label]
            seen = self.progress(i, label)
            if self.image is not None and label == ("fwd" if kind == "fwd" else "compute"):
                self.check_image(where, model, expect, pt, data["period"], nan)
            if nan or self.void:
                if seen["begun"]:
                    model.unknown = True
                continue
            if (self.failed_before[i] and error is None and kind == "rev"
                    and self.poisoned[i]):
                model.unknown |= seen["begun"]
                continue
            apply_progress(model, seen, expect, pt, data["period"])
            if error is None and seen["truncated"] and model.must != due(
                set(range(1, len(expect.steps(pt)) + 1)), data["period"]
            ):
                raise Violation("missing-steps", f"{where}: the run has "
                                f"{len(expect.steps(pt))} steps, callbacks saw "
                                f"{sorted(seen['done'])}")
            if model.unknown:
                continue
            path = self.path(i, label)
            content = check_content(where, path, model)
            CTX.probe(f"file_{label}_" + ("failed" if error is not None else "ok"))
            CTX.note(f"file {label} {sorted(content)}")
            if error is None and 0 in model.must:
                self.check_readers(where, path, content, model)

    def check_image(self, where, model, expect, pt, period, nan):
        image, self.image = self.image, None
        copy_model = copy.copy(model)
        apply_progress(copy_model, image["seen"], expect, pt, period)
        if nan or copy_model.unknown or self.void:
            return
        CTX.probe("crash_image")
        if image["path"] is None:
            raise Violation("unreadable-file", f"{where}: no file after a crash")
        check_content(where + " crashed", image["path"], copy_model)

    def check_readers(self, where, path, content, model):
        was, _Seam.active = _Seam.active, False
        try:
            math = model.run[0].math
            names = list(math.names)

            def solution(t, y0, t0):
                # depends on all it is given
                y0 = list(y0) if len(names) > 1 else [y0]
                mean = sum((k + 1.0) * float(np.sum(y)) for k, y in enumerate(y0))
                vals = [np.full(s, 0.5 * t - 0.25 * t0 + mean) + k * y0[k]
                        for k, s in enumerate(math.shapes)]
                return vals if len(names) > 1 else vals[0]

            start = [content["0"][n] for n in names]
            start = start if len(names) > 1 else start[0]

            time, err, res = read_hdf5_file(path, names, solution)
            if set(time) != {int(k) for k in content}:
                raise Violation("reader", f"{where}: reader returns steps {sorted(time)}")
            for key, data in content.items():
                k = int(key)
                if time[k] != data["time"][0]:
                    raise Violation("reader", f"{where}: time {time[k]} of step {k}")
                exact = solution(time[k], start, content["0"]["time"][0])
                exact = exact if len(names) > 1 else [exact]
                for name, want in zip(names, exact):
                    if not np.array_equal(res[name][k], data[name]):
                        raise Violation("reader", f"{where}: {name} of step {k} is read as "
                                        f"{fmt(res[name][k])}")
                    if not np.allclose(err[name][k], np.abs(want - data[name]),
                                       rtol=1e-10, atol=1e-10):
                        raise Violation("reader", f"{where}: error of {name} in step {k} is "
                                        f"{fmt(err[name][k])}")
            if model.run[0].tab.embedded:
                last = max(int(k) for k in content)
                got = read_last_local_error(path)
                if got != content[str(last)]["error_measure"][0]:
                    raise Violation("reader", f"{where}: last error {got}, that of step "
                                    f"{last} is {content[str(last)]['error_measure']}")
            CTX.judged += 1
            CTX.probe("readers")
        finally:
            _Seam.active = was


def h5_open_files():
    return h5py.h5f.get_obj_count(h5py.h5f.OBJ_ALL, h5py.h5f.OBJ_FILE) > 0


def add_period(rng, scn):
    for data in scn["insts"]:
        data["period"] = rng.choice([1, 1, 1, 2, 3, 5])
        data["fwd_file"] = rng.chance(0.4)


class Content(Check):
    """P10"""

    def generate(self, rng):
        scn = random_history(rng, n_ops=(2, 6), max_steps=13)
        scn["recorders"] = True
        add_period(rng, scn)
        for op in scn["ops"]:
            if rng.chance(0.3):
                op["image"] = rng.randint(1, 40)
        return scn

    def execute(self, scn):
        with Scratch() as scratch:
            H5Runner(bind_scratch(scn, scratch), scratch, True).run()

    def simplify(self, scn):
        for i, op in enumerate(scn["ops"]):
            if op.get("image"):
                cand = copy.deepcopy(scn)
                del cand["ops"][i]["image"]
                yield cand
        for i, data in enumerate(scn["insts"]):
            if data["period"] > 1:
                cand = copy.deepcopy(scn)
                cand["insts"][i]["period"] = 1
                yield cand
        yield from simplify_history(scn)


class Faults(Content):
    """P11"""

    def generate(self, rng):
        scn = random_history(rng, n_ops=(3, 7), max_steps=9, faults=0.55)
        scn["recorders"] = True
        add_period(rng, scn)
        for op in scn["ops"]:
            for fault in op.get("faults", ()):
                label = op["op"]
                pick = rng.random()
                if pick < 0.5:
                    fault.update(kind=rng.choice(H5_KINDS),
                                 nth=rng.choice([1, 2, 3, 4, 5, 6, 8, 11, 15]),
                                 action=rng.choice(["enospc", "eio", "interrupt",
                                                    "memory_error", "enospc_late",
                                                    "interrupt_late"]))
                elif pick < 0.75:
                    fault.update(kind=f"cb_{label}{rng.choice(['', '2'])}_"
                                 + rng.choice(["before", "after"]),
                                 nth=rng.choice([1, 2, 3, 4, 6]),
                                 action=rng.choice(["exception", "interrupt"]))
            if rng.chance(0.35):
                op["image"] = rng.randint(1, 40)
        return scn


CHECKS = {"P10": Content, "P11": Faults}
