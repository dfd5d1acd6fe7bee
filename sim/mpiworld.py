"""Several MPI ranks in one process.

Every rank is a thread, exactly one of which runs at a time.  A rank only gives up control
inside of communication, where a seeded scheduler picks the rank to continue, so one seed
is one interleaving.  Collectives have to match (operation, root, reduction) across the
ranks of a communicator, and all of their ranks have to arrive; if nobody can continue, the
ranks are deadlocked.

`Comm` implements the part of mpi4py's interface that OpenMDAO, rkopenmdao and the
simulated user code need, `FakePETSc` the part of petsc4py that OpenMDAO's vectors need.
"""

from __future__ import annotations

import pickle
import threading

import numpy as np

from .core import CTX, Rng, Violation


class Abort(BaseException):
    """Unwinds a rank after the simulation was stopped."""


class RankFailure(Exception):
    """An exception left the program of a rank."""


class World:
    """Scheduler of all ranks."""

    def __init__(self, size, seed, policy="random"):
        self.size = size
        self.rng = Rng(seed)
        self.policy = policy
        self.ready = []  # ranks that can continue
        self.blocked = {}  # rank -> what it waits for
        self.finished = {}
        # plain locks as binary semaphores
        self.go = [threading.Lock() for _ in range(size)]
        self.back = threading.Lock()
        for lock in (*self.go, self.back):
            lock.acquire()
        self.local = threading.local()
        self.stopped = None
        self.favourite = 0

    # -- called by ranks ---------------------------------------------------------
    @property
    def rank(self):
        return self.local.rank

    def pause(self):
        """Gives up control; returns once the scheduler picks this rank again."""
        rank = self.rank
        self.back.release()
        self.go[rank].acquire()
        if self.stopped is not None:
            raise Abort()

    def switch(self):
        """A point where other ranks may run."""
        self.ready.append(self.rank)
        self.pause()

    def block(self, why):
        self.blocked[self.rank] = why
        self.pause()

    def wake(self, rank):
        del self.blocked[rank]
        self.ready.append(rank)

    # -- the scheduler -----------------------------------------------------------
    def pick(self):
        CTX.decisions += 1
        if len(self.ready) == 1:
            return self.ready.pop()
        if self.policy == "slow":
            # one rank only continues if nobody else can
            cand = [r for r in self.ready if r != self.favourite]
            rank = self.rng.choice(cand)
        elif self.policy == "eager":
            # one rank continues whenever it can
            rank = self.favourite if self.favourite in self.ready else (
                self.rng.choice(self.ready))
        else:
            rank = self.rng.choice(self.ready)
        self.ready.remove(rank)
        return rank

    def run(self, program):
        """Executes program(rank) on every rank.  Returns {rank: (value, error)}."""
        CTX.note(f"world of {self.size} ranks, {self.policy}")
        self.favourite = self.rng.randrange(self.size)
        threads = [threading.Thread(target=self._main, args=(r, program), daemon=True)
                   for r in range(self.size)]
        self.ready = list(range(self.size))
        for t in threads:
            t.start()
        while len(self.finished) < self.size:
            if not self.ready:
                if self.stopped is None:
                    self.stopped = ("deadlock", dict(self.blocked), dict(self.finished))
                rank = next(iter(self.blocked))
                del self.blocked[rank]
            else:
                rank = self.pick()
            CTX.note(f"> {rank}")
            self.go[rank].release()
            self.back.acquire()
        for t in threads:
            t.join()
        return self.finished

    def stop(self, why):
        if self.stopped is None:
            self.stopped = why

    def _main(self, rank, program):
        self.local.rank = rank
        self.go[rank].acquire()
        value = error = None
        try:
            if self.stopped is None:
                with np.errstate(all="ignore"):
                    value = program(rank)
        except BaseException as exc:  # pylint: disable=broad-except
            error = exc
        self.finished[rank] = (value, error)
        self.back.release()

    def verdict(self):
        """Raises if the communication itself went wrong."""
        if self.stopped is None:
            return
        if self.stopped[0] == "mismatch":
            raise Violation("collective-mismatch", self.stopped[1])
        done = {r: ("finished" if e is None else f"{type(e).__name__}: {str(e)[:200]}")
                for r, (_, e) in self.stopped[2].items()}
        waits = ", ".join(f"rank {r} waits in {w}" for r, w in
                          sorted(self.stopped[1].items()))
        raise Violation("deadlock", f"{waits}; {done}")


class _Shared:
    """What the ranks of a communicator share."""

    def __init__(self, world, members):
        self.world, self.members = world, list(members)
        self.counts = {r: 0 for r in members}
        self.slots = {}
        self.mail = {}  # (source, dest, tag) -> messages
        self.receivers = {}


def _spec(buf):
    """Array part of a buffer specification."""
    if isinstance(buf, (list, tuple)):
        return buf[0]
    return buf


def _layout(buf, size):
    """(array, counts, displacements) of the receive buffer of a v-collective."""
    array = buf[0]
    rest = [b for b in buf[1:] if not (hasattr(b, "Get_size") or b is None)]
    if len(rest) == 1 and isinstance(rest[0], (tuple, list)) and len(rest[0]) == 2 and (
        np.ndim(rest[0][0]) == 1
    ):
        rest = list(rest[0])
    counts = np.asarray(rest[0], int)
    displs = np.asarray(rest[1], int) if len(rest) > 1 else (
        np.concatenate([[0], np.cumsum(counts)[:-1]]))
    return array, counts, displs


def _reduce(op, values):
    name = op_name(op)
    out = values[0]
    for v in values[1:]:
        if name == "SUM":
            out = out + v
        elif name == "PROD":
            out = out * v
        elif name == "MAX":
            out = np.maximum(out, v) if isinstance(out, np.ndarray) else max(out, v)
        elif name == "MIN":
            out = np.minimum(out, v) if isinstance(out, np.ndarray) else min(out, v)
        elif name in ("LAND", "BAND"):
            out = np.logical_and(out, v) if isinstance(out, np.ndarray) else (
                bool(out) and bool(v))
        elif name in ("LOR", "BOR"):
            out = np.logical_or(out, v) if isinstance(out, np.ndarray) else (
                bool(out) or bool(v))
        else:
            out = op(out, v)
    return out


_OPS = {}


def op_name(op):
    from mpi4py import MPI

    if not _OPS:
        for name in ("SUM", "PROD", "MAX", "MIN", "LAND", "LOR", "BAND", "BOR"):
            _OPS[name] = getattr(MPI, name)
    if op is None:
        return "SUM"
    return next((n for n, o in _OPS.items() if o == op), "OTHER")


def _send(obj):
    """Objects are pickled on their way, as in mpi4py."""
    return pickle.dumps(obj)


class Comm:
    """Communicator of one rank."""

    def __init__(self, shared, me):
        self._shared = shared
        self.rank = shared.members.index(me)
        self.size = len(shared.members)
        self._me = me

    @classmethod
    def world(cls, world):
        shared = _Shared(world, range(world.size))
        return [cls(shared, r) for r in range(world.size)]

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __eq__(self, other):
        return isinstance(other, Comm) and other._shared is self._shared

    def __hash__(self):
        return id(self._shared)

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def Free(self):
        pass

    def Disconnect(self):
        pass

    # -- the rendezvous ------------------------------------------------------------
    def _meet(self, name, payload, signature=()):
        """All ranks of the communicator meet; returns the payloads of all."""
        shared = self._shared
        world = shared.world
        if world.rank != self._me:
            raise AssertionError("communicator of another rank used")
        if world.stopped is not None:
            raise Abort()
        index = shared.counts[self._me]
        shared.counts[self._me] = index + 1
        slot = shared.slots.setdefault(index, {})
        sig = (name, *signature)
        for other, (osig, _) in slot.items():
            if osig != sig:
                world.stop(("mismatch", f"rank {other} calls {osig}, rank {self._me} "
                            f"{sig} (collective {index} of a communicator of "
                            f"{len(shared.members)} ranks)"))
                raise Abort()
        slot[self._me] = (sig, payload)
        if self.size == 1:
            pass
        elif len(slot) < self.size:
            world.block(f"{name} with {len(slot)} of {self.size} ranks")
        else:
            for r in shared.members:
                if r != self._me:
                    world.wake(r)
            world.switch()
        out = [slot[r][1] for r in shared.members]
        return out

    # -- objects ---------------------------------------------------------------------
    def barrier(self):
        self._meet("barrier", None)

    Barrier = barrier

    def bcast(self, obj=None, root=0):
        data = self._meet("bcast", _send(obj) if self.rank == root else None, (root,))
        return obj if self.rank == root else pickle.loads(data[root])

    def gather(self, sendobj, root=0):
        data = self._meet("gather", _send(sendobj), (root,))
        return [pickle.loads(d) for d in data] if self.rank == root else None

    def scatter(self, sendobj=None, root=0):
        data = self._meet("scatter", [_send(o) for o in sendobj] if self.rank == root
                          else None, (root,))
        return pickle.loads(data[root][self.rank])

    def allgather(self, sendobj):
        return [pickle.loads(d) for d in self._meet("allgather", _send(sendobj))]

    def allreduce(self, sendobj, op=None):
        data = self._meet("allreduce", _send(sendobj), (op_name(op),))
        return _reduce(op, [pickle.loads(d) for d in data])

    def reduce(self, sendobj, op=None, root=0):
        data = self._meet("reduce", _send(sendobj), (op_name(op), root))
        return _reduce(op, [pickle.loads(d) for d in data]) if self.rank == root else None

    def alltoall(self, sendobj):
        data = self._meet("alltoall", [_send(o) for o in sendobj])
        return [pickle.loads(d[self.rank]) for d in data]

    # -- buffers ---------------------------------------------------------------------
    def Bcast(self, buf, root=0):
        arr = _spec(buf)
        data = self._meet("Bcast", np.array(arr), (root, np.size(arr)))
        arr[...] = data[root].reshape(arr.shape)

    def _sendbuf(self, sendbuf, recvbuf):
        from mpi4py import MPI

        return recvbuf if sendbuf is MPI.IN_PLACE else sendbuf

    def Allreduce(self, sendbuf, recvbuf, op=None):
        arr = np.array(_spec(self._sendbuf(sendbuf, recvbuf)))
        data = self._meet("Allreduce", arr, (op_name(op), arr.size))
        out = _spec(recvbuf)
        out[...] = np.reshape(_reduce(op, data), out.shape)

    def Reduce(self, sendbuf, recvbuf, op=None, root=0):
        arr = np.array(_spec(self._sendbuf(sendbuf, recvbuf)))
        data = self._meet("Reduce", arr, (op_name(op), root, arr.size))
        if self.rank == root:
            out = _spec(recvbuf)
            out[...] = np.reshape(_reduce(op, data), out.shape)

    def Allgather(self, sendbuf, recvbuf):
        from mpi4py import MPI

        out = _spec(recvbuf)
        if sendbuf is MPI.IN_PLACE:
            mine = np.array(out.reshape(self.size, -1)[self.rank])
        else:
            mine = np.array(_spec(sendbuf)).reshape(-1)
        data = self._meet("Allgather", mine, (mine.size,))
        out[...] = np.concatenate(data).reshape(out.shape)

    def Allgatherv(self, sendbuf, recvbuf):
        from mpi4py import MPI

        if not isinstance(recvbuf, (list, tuple)):
            mine = np.array(_spec(sendbuf)).reshape(-1)
            data = self._meet("Allgatherv", mine)
            recvbuf[...] = np.concatenate(data).reshape(recvbuf.shape)
            return
        out, counts, displs = _layout(recvbuf, self.size)
        flat = out.reshape(-1)
        if sendbuf is MPI.IN_PLACE:
            at = displs[self.rank]
            mine = np.array(flat[at : at + counts[self.rank]])
        else:
            mine = np.array(_spec(sendbuf)).reshape(-1)
        data = self._meet("Allgatherv", mine)
        for r, part in enumerate(data):
            flat[displs[r] : displs[r] + counts[r]] = part[: counts[r]]

    def Gather(self, sendbuf, recvbuf, root=0):
        mine = np.array(_spec(sendbuf)).reshape(-1)
        data = self._meet("Gather", mine, (root, mine.size))
        if self.rank == root:
            out = _spec(recvbuf)
            out[...] = np.concatenate(data).reshape(out.shape)

    def Gatherv(self, sendbuf, recvbuf, root=0):
        mine = np.array(_spec(sendbuf)).reshape(-1)
        data = self._meet("Gatherv", mine, (root,))
        if self.rank == root:
            out, counts, displs = _layout(recvbuf, self.size)
            flat = out.reshape(-1)
            for r, part in enumerate(data):
                flat[displs[r] : displs[r] + counts[r]] = part[: counts[r]]

    # -- communicators -----------------------------------------------------------------
    def Split(self, color=0, key=0):
        data = self._meet("Split", (color, key, self._me))
        mine = sorted((k, i, m) for i, (c, k, m) in enumerate(data) if c == color)
        if color is None or color < 0:
            return None
        members = [m for _, _, m in mine]
        return Comm(self._child(("split", color), members), self._me)

    def Dup(self, info=None):
        self._meet("Dup", None)
        return Comm(self._child(("dup",), self._shared.members), self._me)

    Clone = Dup

    def _child(self, kind, members):
        index = self._shared.counts[self._me]
        table = self._shared.__dict__.setdefault("children", {})
        key = (index, kind)
        if key not in table:
            table[key] = _Shared(self._shared.world, members)
        return table[key]

    # -- point to point ----------------------------------------------------------------
    def Send(self, buf, dest, tag=0):
        self.send(np.array(_spec(buf)), dest, tag)

    def Recv(self, buf, source=0, tag=0, status=None):
        arr = _spec(buf)
        arr[...] = self.recv(source=source, tag=tag).reshape(arr.shape)

    def send(self, obj, dest, tag=0):
        shared, world = self._shared, self._shared.world
        if world.stopped is not None:
            raise Abort()
        key = (self.rank, dest, tag)
        shared.mail.setdefault(key, []).append(_send(obj))
        waiting = shared.receivers.pop(key, None)
        if waiting is not None:
            world.wake(waiting)
        world.switch()

    def recv(self, buf=None, source=0, tag=0, status=None):
        shared, world = self._shared, self._shared.world
        if world.stopped is not None:
            raise Abort()
        key = (source, self.rank, tag)
        if not shared.mail.get(key):
            shared.receivers[key] = self._me
            world.block(f"recv from {source}")
        return pickle.loads(shared.mail[key].pop(0))


# -- PETSc -----------------------------------------------------------------------------
class _Vec:
    def createWithArray(self, array, size=None, bsize=None, comm=None):
        self._array = array
        self.comm = comm
        return self

    @property
    def array(self):
        return self._array

    @array.setter
    def array(self, value):
        self._array[...] = value


class _IS:
    def createGeneral(self, indices, comm=None):
        self.indices = np.array(indices, dtype=int)
        self.comm = comm
        return self


class _Scatter:
    def create(self, vec_from, is_from, vec_to, is_to):
        self.comm = vec_from.comm
        if is_from.indices.size != is_to.indices.size:
            raise ValueError("index sets of different sizes")
        data = self.comm._meet("ScatterCreate", (
            vec_from.array.size, is_from.indices, vec_to.array.size, is_to.indices))
        me = self.comm.rank
        self.off_from = np.cumsum([0] + [d[0] for d in data])
        self.off_to = np.cumsum([0] + [d[2] for d in data])
        self.ifrom = np.concatenate([d[1] for d in data]).astype(int)
        self.ito = np.concatenate([d[3] for d in data]).astype(int)
        self.mine_from = (self.ifrom >= self.off_from[me]) & (
            self.ifrom < self.off_from[me + 1])
        self.mine_to = (self.ito >= self.off_to[me]) & (self.ito < self.off_to[me + 1])
        return self

    def scatter(self, x, y, addv=False, mode=False):
        data = np.concatenate(self.comm._meet(
            "Scatter", np.array(x.array), (bool(addv), bool(mode))))
        me = self.comm.rank
        if not mode:
            src, dst, sel, off = self.ifrom, self.ito, self.mine_to, self.off_to[me]
        else:
            src, dst, sel, off = self.ito, self.ifrom, self.mine_from, self.off_from[me]
        target, values = dst[sel] - off, data[src[sel]]
        if addv:
            np.add.at(y.array, target, values)
        else:
            y.array[target] = values


class FakePETSc:
    """The three classes of petsc4py used for OpenMDAO's vectors."""

    Vec, IS, Scatter = _Vec, _IS, _Scatter


def install():
    """Vectors of OpenMDAO use the simulated PETSc."""
    import openmdao.approximation_schemes.approximation_scheme as approximation
    import openmdao.core.total_jac as totals
    import openmdao.vectors.petsc_transfer as transfer
    import openmdao.vectors.petsc_vector as vector

    for module in (approximation, totals, transfer, vector):
        module.PETSc = FakePETSc
