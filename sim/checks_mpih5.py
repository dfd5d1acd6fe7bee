"""P17: HDF5 output written by several ranks together.

h5py's files are opened by all ranks of a simulated communicator together (driver "mpio").
Opening, closing, creating and deleting are collective: all ranks have to call them with
the same arguments, and the effect happens once, on a real file.  Writing is independent:
other ranks may run before and after.
"""

from __future__ import annotations

import copy
import os

import h5py

from rkopenmdao.file_writer import OpenMDAOHDF5Callback

from .checks_hdf5 import FileModel, apply_progress, check_content
from .checks_mpi import Parallel, Witness
from .core import CTX, Violation
from .mpiworld import Comm


class _Mpio:
    """What the ranks have opened together."""

    open = {}  # file name -> (communicators by rank of the world, shared state)
    done = False
    plan = None  # rank -> Plan

    @classmethod
    def comm_of(cls, obj):
        """The communicator of the running rank, if obj belongs to a shared file."""
        if not cls.open:
            return None
        try:
            name = h5py.h5f.get_name(h5py.h5i.get_file_id(obj.id)).decode()
        except (ValueError, AttributeError, RuntimeError):
            return None
        shared = cls.open.get(os.path.abspath(name))
        if shared is None:
            return None
        try:
            return shared["comms"].get(shared["world"].rank)
        except AttributeError:
            return None

    @classmethod
    def fault(cls, world, kind):
        if cls.plan is not None:
            cls.plan[world.rank].hit(kind)

    @classmethod
    def install(cls):
        if cls.done:
            return
        cls.done = True
        init, close = h5py.File.__init__, h5py.File.close
        create_group, create_dataset = h5py.Group.create_group, h5py.Group.create_dataset
        delete, write = h5py.Group.__delitem__, h5py.Dataset.__setitem__

        def new_init(self, name, mode="r", driver=None, **kw):
            comm = kw.get("comm")
            if not isinstance(comm, Comm):
                return init(self, name, mode, driver, **kw)
            world = comm._shared.world
            cls.fault(world, "h5_open")
            key = os.path.abspath(name)
            comm._meet("H5Fopen", None, (key, mode, driver))
            shared = cls.open.get(key)
            if shared is None or len(shared["comms"]) == comm.size:
                if shared is not None:
                    raise Violation("opened-twice", f"{key} is opened while it is open")
                # first rank after all have arrived
                try:
                    base = _real_open(init, key, mode)
                except OSError as error:
                    base = error
                shared = cls.open[key] = {"comms": {}, "world": world, "base": base,
                                          "arrived": 0}
            shared["comms"][world.rank] = comm
            base = shared["base"]
            if isinstance(base, OSError):
                if len(shared["comms"]) == comm.size:
                    del cls.open[key]
                raise OSError(*base.args)
            init(self, base)
            return None

        def new_close(self):
            comm = cls.comm_of(self)
            if comm is None:
                return close(self)
            key = os.path.abspath(self.filename)
            comm._meet("H5Fclose", None, (key,))
            if key in cls.open:
                del cls.open[key]
                close(self)
            return None

        leave = h5py.File.__exit__

        def new_exit(self, *args):
            if cls.comm_of(self) is None:
                return leave(self, *args)
            new_close(self)  # without h5py's lock, other ranks have to go on
            return None

        def collective(kind, orig, again):
            def wrapped(self, name, *args, **kw):
                comm = cls.comm_of(self)
                if comm is None:
                    return orig(self, name, *args, **kw)
                world = comm._shared.world
                cls.fault(world, f"h5_{kind}")
                index = comm._shared.counts[comm._me]
                comm._meet(kind, None, (self.name, name, repr(args), repr(sorted(
                    (k, repr(v)) for k, v in kw.items()))))
                ran = comm._shared.__dict__.setdefault("h5_done", {})
                if index not in ran:
                    try:
                        ran[index] = None
                        return orig(self, name, *args, **kw)
                    except (OSError, ValueError, KeyError, TypeError) as error:
                        ran[index] = error
                        raise
                if ran[index] is not None:
                    raise type(ran[index])(*ran[index].args)
                return again(self, name)

            return wrapped

        def new_write(self, args, val):
            comm = cls.comm_of(self)
            if comm is None:
                return write(self, args, val)
            world = comm._shared.world
            world.switch()
            write(self, args, val)
            world.switch()
            return None

        def find(self, name):
            return self[name]

        h5py.File.__init__, h5py.File.close = new_init, new_close
        h5py.File.__exit__ = new_exit
        h5py.Group.create_group = collective("group", create_group, find)
        h5py.Group.create_dataset = collective("dataset", create_dataset, find)
        h5py.Group.__delitem__ = collective("delete", delete, lambda self, name: None)
        h5py.Dataset.__setitem__ = new_write


def _real_open(init, name, mode):
    """Identifier of the file, opened without MPI."""
    file = h5py.File.__new__(h5py.File)
    init(file, name, mode)
    return file.id


class ParallelOutput(Parallel):
    """P17."""

    def generate(self, rng):
        scn = super().generate(rng)
        scn["report"] = [k for k in scn["report"] if k == "rev"]
        scn["period"] = rng.choice([1, 1, 2, 3])
        scn["fwd_file"] = rng.chance(0.3)
        for op in scn["ops"]:
            if op["op"] in ("om_totals", "norm"):
                op["op"] = "compute"
            for fault in op.get("faults", ()):
                if rng.chance(0.5):
                    fault.update(kind=rng.choice(["h5_open", "h5_group", "h5_dataset"]),
                                 nth=rng.choice([1, 2, 3, 4, 6, 9]),
                                 action=rng.choice(["enospc", "eio", "interrupt"]))
        return scn

    def simplify(self, scn):
        for key, val in (("period", 1), ("fwd_file", False)):
            if scn[key] != val:
                new = copy.deepcopy(scn)
                new[key] = val
                yield new
        yield from super().simplify(scn)

    def execute(self, scn):
        _Mpio.install()
        _Mpio.open, _Mpio.plan = {}, {}
        self.models = {}
        try:
            super().execute(scn)
        finally:
            for shared in _Mpio.open.values():
                if not isinstance(shared["base"], OSError):
                    shared["base"].close()
            _Mpio.open, _Mpio.plan = {}, None

    def path(self, label):
        return os.path.join(self.scratch, f"out_{label}.h5")

    def callbacks(self, scn, comm, plan):
        _Mpio.plan[comm.rank] = plan
        out, self.second = {}, getattr(self, "second", {})
        for label in ("compute", "fwd"):
            if label == "fwd" and not scn["fwd_file"]:
                continue
            witness = Witness(label + "2", plan)
            if comm.rank == 0:
                self.second[label] = witness
                self.models[label] = FileModel()
            out[label] = [OpenMDAOHDF5Callback(self.path(label), scn["period"], comm),
                          witness]
        return out

    def before_op(self, scn, rank, op):
        if rank == 0:
            for witness in self.second.values():
                witness.events.clear()

    def after_op(self, scn, rank, inst, index, op, value, error):
        if rank != 0:
            return
        expect, pt = self.expect, scn["points"][op["pt"]]
        where = f"op {index} ({op['op']} at point {op['pt']}" + (
            f", failed with {type(error).__name__})" if error is not None else ")")
        if _Mpio.open:
            raise Violation("left-open", f"{where}: {sorted(_Mpio.open)}")
        for label, model in self.models.items():
            first, second = inst.rec[label].events, self.second[label].events
            seen = {
                "begun": any(e[:2] == ("before", 1) for e in first),
                "truncated": any(e[:2] == ("before", 1) for e in second),
                "done": {e[1] for e in second if e[0] == "after"},
                "maybe": {e[1] for e in first if e[0] == "after"},
            }
            apply_progress(model, seen, expect, pt, scn["period"])
            if model.unknown:
                continue
            content = check_content(where, self.path(label), model)
            CTX.probe(f"file_{label}_" + ("failed" if error is not None else "ok")
                      + f"_{scn['ranks']}_ranks")
            CTX.note(f"file {label} {sorted(content)}")


CHECKS = {"P17": ParallelOutput}
