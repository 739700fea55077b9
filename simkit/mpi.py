"""A simulated MPI communicator with the interface of mpi4py.MPI.Comm the package uses.

What the MPI standard leaves open is decided by the run's choices: whether a send is
buffered, whether it waits for its receive, when the buffer of a non-blocking operation is
read, how long a message takes, which rank goes first, and whether a collective
synchronises its members.  What the standard guarantees is kept: reliable delivery,
matching by (source, tag, communicator) and non-overtaking order.  Using MPI incorrectly
(mismatched collectives, messages too long for their buffer, tags outside the guaranteed
range) ends in an error, as it would.
"""
import io
import pickle

import numpy as np

from .core import HarnessError

ANY_TAG = -1
TAG_UB = 32767  # the largest tag the MPI standard guarantees to be available


NOT_SIMULATED = frozenset(
    "Alltoall Alltoallv Alltoallw Scatterv Gatherv Allgatherv Reduce Reduce_scatter Scan Exscan "
    "Ibarrier Ibcast Iscatter Igather Iallgather Iallreduce Ireduce Ibsend Issend Irsend Bsend "
    "Rsend Send_init Recv_init Probe Iprobe Mprobe Improbe Create Create_group Create_cart Idup "
    "isend irecv send recv sendrecv alltoall reduce probe iprobe Sendrecv_replace Clone "
    "Dup_with_info Get_group Get_info Set_info Get_name Set_name Abort Split_type".split()
)


class MPIError(RuntimeError):
    """Stands for mpi4py.MPI.Exception."""


class InjectedFault(RuntimeError):
    """An error the simulator injected into a communication call."""


LATENCIES = (0.0, 1e-6, 2e-5, 1e-3, 0.05, 2.0)


class Message:
    __slots__ = ("src", "tag", "live", "data", "nbytes", "at", "waiter", "mode", "done")

    def bytes(self):
        if self.data is None:
            self.data = self.live.tobytes(order="A")
        return self.data


class World:
    """All the state of the simulated network."""

    def __init__(self, sim, cfg):
        self.sim = sim
        self.send_mode = cfg.get("send", "mixed")  # eager | lazy | rndv | mixed
        self.coll_sync = cfg.get("coll", "mixed")  # never | always | mixed
        self.latency = cfg.get("latency", True)
        self.tag_ub = cfg.get("tag_ub", TAG_UB)
        self.queues = {}
        self.posted = {}  # (context, source, destination) -> receives not yet matched, in order
        self.last_at = {}
        self.colls = {}
        self.next_ctx = 1
        self.max_comms = cfg.get("max_comms", 2000)  # MPICH has 2048 per process
        self.live_comms = {}
        self.faults = {}  # (kind, rank) -> set of operation numbers
        self.n_ops = {}
        self.fired = {}  # rank -> number of operations that were made to fail
        self.sent = 0
        self.received = 0

    def world_comm(self, rank, size, task_of):
        return SimComm(self, 0, rank, list(range(size)), task_of)

    def undelivered(self):
        return {k: [(m.tag, m.nbytes) for m in v] for k, v in self.queues.items() if v}

    def fault(self, kind, rank):
        """Count one operation of a kind on a rank; True if the plan has it fail."""
        key = (kind, rank)
        n = self.n_ops.get(key, 0)
        self.n_ops[key] = n + 1
        planned = self.faults.get(key)
        if planned is not None and n in planned:
            self.fired[rank] = self.fired.get(rank, 0) + 1
            return True
        return False


def _as_array(buf, writable=False):
    """The contiguous array behind an mpi4py buffer argument."""
    if isinstance(buf, (list, tuple)) and len(buf) and not np.isscalar(buf[0]):
        buf = buf[0]
    if isinstance(buf, (bytes, bytearray, memoryview)):
        buf = np.frombuffer(buf, dtype=np.uint8)
    if not isinstance(buf, np.ndarray):
        raise TypeError(f"expecting a buffer, got {type(buf)}")
    if not (buf.flags.c_contiguous or buf.flags.f_contiguous):
        raise ValueError("ndarray is not contiguous")
    if buf.dtype.kind not in "?biufc" or buf.dtype == np.float16:
        raise KeyError(buf.dtype.char)
    if writable and not buf.flags.writeable:
        raise ValueError("buffer source array is read-only")
    return buf


def _flat(arr):
    """A flat writable view of a contiguous array in memory order."""
    return arr.reshape(-1, order="C" if arr.flags.c_contiguous else "F")


def _put_bytes(arr, data, offset=0):
    flat = _flat(arr)
    n = len(data) // arr.dtype.itemsize
    src = np.frombuffer(data, dtype=arr.dtype, count=n)
    flat[offset : offset + n] = src


class _Pickler(pickle.Pickler):
    def persistent_id(self, obj):
        ref = getattr(obj, "_sim_shared_", None)
        if ref is not None and not isinstance(obj, type):
            return ref
        return None


class _Unpickler(pickle.Unpickler):
    def __init__(self, f, universe, shared):
        super().__init__(f)
        self._universe = universe
        self._shared = shared

    def find_class(self, module, name):
        if self._universe is not None:
            return self._universe.find_class(module, name)
        return super().find_class(module, name)

    def persistent_load(self, pid):
        return self._shared[pid]


SHARED = {}  # objects that stand for shared storage, sent by reference


def dumps(obj):
    f = io.BytesIO()
    _Pickler(f, protocol=4).dump(obj)
    return f.getvalue()


def loads(data, universe):
    return _Unpickler(io.BytesIO(data), universe, SHARED).load()


class Posted:
    """A receive that has been posted."""

    __slots__ = ("arr", "tag", "msg", "task", "early", "copied")

    def __init__(self, arr, tag, early):
        self.arr, self.tag, self.early = arr, tag, early
        self.msg = self.task = None
        self.copied = False


class SimRequest:
    def __init__(self, wait, test=None):
        self._wait = wait
        self._test = test
        self._finished = False

    def wait(self, status=None):
        if not self._finished:
            result = self._wait()
            self._finished = True
            return result

    Wait = wait

    def test(self, status=None):
        if self._finished or self._test is None or self._test():
            self.wait()
            return (True, None)
        return (False, None)

    def Test(self, status=None):
        return self.test()[0]


class Collective:
    __slots__ = ("kind", "root", "size", "arrived", "waiters", "sync", "result", "left", "key")

    def __init__(self, kind, root, size, sync):
        self.size = size
        self.kind = kind
        self.root = root
        self.sync = sync
        self.arrived = {}
        self.waiters = []
        self.result = None
        self.left = 0


class SimComm:
    def __init__(self, world, ctx, rank, members, task_of):
        self._w = world
        self._ctx = ctx
        self._rank = rank
        self._members = members  # communicator rank -> global rank
        self._task_of = task_of  # global rank -> Task
        self._n_coll = 0

    def __repr__(self):
        return f"<SimComm ctx={self._ctx} rank={self._rank}/{len(self._members)}>"

    def __deepcopy__(self, memo):
        return self

    # -- identity --------------------------------------------------------------------
    def Get_rank(self):
        return self._rank

    def Get_size(self):
        return len(self._members)

    @property
    def rank(self):
        return self._rank

    @property
    def size(self):
        return len(self._members)

    @property
    def _me(self):
        return self._task_of[self._members[self._rank]]

    def _check_task(self):
        if self._w.sim.current is not self._me:
            raise HarnessError("communicator used from another task")

    # -- point to point ----------------------------------------------------------------
    def _check_peer(self, peer, tag, recv=False):
        if not 0 <= peer < len(self._members):
            raise MPIError(f"MPI_ERR_RANK: invalid rank {peer}")
        if tag > self._w.tag_ub or (tag < 0 and not (recv and tag == ANY_TAG)):
            raise MPIError(f"MPI_ERR_TAG: invalid tag {tag}")

    def _post(self, buf, dest, tag, blocking):
        w, sim = self._w, self._w.sim
        arr = _as_array(buf)
        self._check_peer(dest, tag)
        mode = w.send_mode
        if mode == "mixed":
            mode = ("eager", "rndv", "lazy")[sim.choices.draw(3)]
        if blocking and mode == "lazy":
            mode = "eager"
        m = Message()
        m.src, m.tag, m.live, m.data = self._rank, tag, arr, None
        m.nbytes, m.waiter, m.mode, m.done = arr.nbytes, None, mode, mode == "eager"
        if mode == "eager":
            m.data = arr.tobytes(order="A")
        sim.count("send:" + mode)
        key = (self._ctx, self._rank, dest)
        at = sim.now
        if w.latency:
            at += LATENCIES[sim.choices.weighted((50, 20, 15, 10, 4, 1))]
        at = max(at, w.last_at.get(key, 0.0))  # messages of a pair do not overtake
        w.last_at[key] = at
        m.at = at
        w.queues.setdefault(key, []).append(m)
        w.sent += 1
        sim.log(self._members[self._rank], "send", dest, tag, arr.nbytes)
        self._notify(key, at)
        return m

    def _notify(self, key, at):
        sim = self._w.sim
        if at <= sim.now:
            self._progress(key)
        else:
            sim.at(at, lambda: self._progress(key))

    def _progress(self, key):
        """Match the messages that have been delivered with the receives, both in order."""
        w, sim = self._w, self._w.sim
        posted = w.posted.get(key)
        queue = w.queues.get(key)
        i = 0
        while posted and queue and i < len(queue) and queue[i].at <= sim.now:
            m = queue[i]
            p = next((p for p in posted if p.tag == ANY_TAG or p.tag == m.tag), None)
            if p is None:
                i += 1
                continue
            del queue[i]
            posted.remove(p)
            w.received += 1
            p.msg = m
            m.bytes()
            m.done = True
            if p.early and m.nbytes <= p.arr.nbytes:
                _put_bytes(p.arr, m.data)
                p.copied = True
            if m.waiter is not None:
                sim.wake(m.waiter)
            if p.task is not None:
                sim.wake(p.task)

    def _complete_send(self, m, blocking_why):
        sim = self._w.sim
        if m.mode == "lazy":
            m.bytes()  # the library reads the buffer at the latest here
            m.done = True
        while not m.done:
            m.waiter = self._me
            sim.block(blocking_why)

    def Send(self, buf, dest, tag=0):
        self._check_task()
        self._w.sim.point("Send")
        m = self._post(buf, dest, tag, True)
        self._complete_send(m, f"Send(dest={dest}, tag={tag})")

    def Ssend(self, buf, dest, tag=0):
        return self.Send(buf, dest, tag)

    def Isend(self, buf, dest, tag=0):
        self._check_task()
        sim = self._w.sim
        sim.point("Isend")
        if self._w.fault("isend", self._members[self._rank]):
            sim.count("fault:isend-error")
            raise InjectedFault("Isend failed")
        m = self._post(buf, dest, tag, False)

        def wait():
            sim.point("wait-send")
            self._complete_send(m, f"wait for Isend(dest={dest}, tag={tag})")

        return SimRequest(wait, lambda: m.done)

    def _post_recv(self, arr, source, tag, early=False):
        key = (self._ctx, source, self._rank)
        p = Posted(arr, tag, early)
        self._w.posted.setdefault(key, []).append(p)
        self._progress(key)
        return p

    def _finish_recv(self, p, source, why):
        sim = self._w.sim
        while p.msg is None:
            p.task = self._me
            sim.block(why)
        m = p.msg
        sim.log(self._members[self._rank], "recv", source, m.tag, m.nbytes)
        if m.nbytes > p.arr.nbytes:
            raise MPIError(
                f"MPI_ERR_TRUNCATE: message of {m.nbytes} bytes, buffer of {p.arr.nbytes}"
            )
        if not p.copied:
            _put_bytes(p.arr, m.data)

    def _take(self, arr, source, tag, why):
        self._finish_recv(self._post_recv(arr, source, tag), source, why)

    def Recv(self, buf, source, tag=ANY_TAG, status=None):
        self._check_task()
        sim = self._w.sim
        sim.point("Recv")
        arr = _as_array(buf, writable=True)
        self._check_peer(source, tag, recv=True)
        if self._w.fault("recv", self._members[self._rank]):
            sim.count("fault:recv-interrupted")
            raise InjectedFault("Recv interrupted before any message was taken")
        if self._w.fault("recv-lost", self._members[self._rank]):
            scratch = np.empty_like(arr)
            self._take(scratch, source, tag, f"Recv(source={source}, tag={tag})")
            sim.count("fault:recv-after-take")
            raise InjectedFault("Recv failed after taking the message")
        self._take(arr, source, tag, f"Recv(source={source}, tag={tag})")

    def Irecv(self, buf, source, tag=ANY_TAG):
        self._check_task()
        sim = self._w.sim
        sim.point("Irecv")
        arr = _as_array(buf, writable=True)
        self._check_peer(source, tag, recv=True)
        p = self._post_recv(arr, source, tag, bool(sim.choices.draw(2)))

        def wait():
            sim.point("wait-recv")
            self._finish_recv(p, source, f"wait for Irecv(source={source}, tag={tag})")

        return SimRequest(wait, lambda: p.msg is not None)

    def Sendrecv(self, sendbuf, dest, sendtag=0, recvbuf=None, source=0, recvtag=ANY_TAG, status=None):
        req = self.Isend(sendbuf, dest, sendtag)
        self.Recv(recvbuf, source, recvtag)
        req.wait()

    # -- collectives ---------------------------------------------------------------------
    def _enter(self, kind, root, payload):
        w, sim = self._w, self._w.sim
        self._check_task()
        sim.point(kind)
        n = self._n_coll
        self._n_coll += 1
        key = (self._ctx, n)
        c = w.colls.get(key)
        if c is None:
            sync = {"never": 0, "always": 1}.get(w.coll_sync)
            if sync is None:
                sync = sim.choices.draw(2)
            c = w.colls[key] = Collective(kind, root, self.size, bool(sync))
            c.key = key
        elif (c.kind, c.root) != (kind, root):
            sim.fail(
                "collective-mismatch",
                f"operation {n} of communicator {self._ctx} is {c.kind}(root={c.root}) on "
                f"rank {sorted(c.arrived)} but {kind}(root={root}) on rank {self._rank}",
            )
        c.arrived[self._rank] = payload
        for t in c.waiters:
            sim.wake(t)
        c.waiters = []
        sim.count("coll:" + kind)
        return c

    def _await(self, c, cond, why):
        while not cond():
            c.waiters.append(self._me)
            self._w.sim.block(why)

    def _leave(self, c):
        if c.sync:
            self._await(c, lambda: len(c.arrived) == self.size, f"{c.kind}")
        c.left += 1
        if c.left == self.size == len(c.arrived):
            del self._w.colls[c.key]

    def bcast(self, obj=None, root=0):
        mine = self._rank == root
        c = self._enter("bcast", root, dumps(obj) if mine else None)
        if mine:
            self._leave(c)
            return obj
        self._await(c, lambda: root in c.arrived, f"bcast(root={root})")
        data = c.arrived[root]
        self._leave(c)
        return loads(data, self._me.universe)

    def Bcast(self, buf, root=0):
        arr = _as_array(buf, writable=self._rank != root)
        mine = self._rank == root
        c = self._enter("Bcast", root, arr.tobytes(order="A") if mine else None)
        if not mine:
            self._await(c, lambda: root in c.arrived, f"Bcast(root={root})")
            if len(c.arrived[root]) > arr.nbytes:
                raise MPIError("MPI_ERR_TRUNCATE in Bcast")
            _put_bytes(arr, c.arrived[root])
        self._leave(c)

    def barrier(self):
        c = self._enter("barrier", 0, None)
        self._await(c, lambda: len(c.arrived) == self.size, "barrier")
        self._leave(c)

    Barrier = barrier

    def Scatter(self, sendbuf, recvbuf, root=0):
        mine = self._rank == root
        recv = _as_array(recvbuf, writable=True)
        payload = None
        if mine:
            send = _as_array(sendbuf)
            if send.size % self.size:
                raise ValueError("message: buffer count is not divisible by the group size")
            payload = send.tobytes(order="A")
        c = self._enter("Scatter", root, payload)
        self._await(c, lambda: root in c.arrived, f"Scatter(root={root})")
        data = c.arrived[root]
        n = len(data) // self.size
        if n > recv.nbytes:
            raise MPIError(f"MPI_ERR_TRUNCATE: Scatter of {n} bytes into {recv.nbytes}")
        _put_bytes(recv, data[n * self._rank : n * (self._rank + 1)])
        self._leave(c)

    def Gather(self, sendbuf, recvbuf, root=0):
        mine = self._rank == root
        send = _as_array(sendbuf)
        recv = _as_array(recvbuf, writable=True) if mine else None
        c = self._enter("Gather", root, send.tobytes(order="A"))
        if mine:
            self._await(c, lambda: len(c.arrived) == self.size, f"Gather(root={root})")
            if recv.size % self.size:
                raise ValueError("message: buffer count is not divisible by the group size")
            n = recv.size // self.size
            for r in range(self.size):
                data = c.arrived[r]
                if len(data) > n * recv.dtype.itemsize:
                    raise MPIError(
                        f"MPI_ERR_TRUNCATE: Gather of {len(data)} bytes from rank {r} "
                        f"into {n * recv.dtype.itemsize}"
                    )
                _put_bytes(recv, data, r * n)
        self._leave(c)

    def scatter(self, sendobj=None, root=0):
        mine = self._rank == root
        c = self._enter("scatter", root, [dumps(o) for o in sendobj] if mine else None)
        self._await(c, lambda: root in c.arrived, f"scatter(root={root})")
        data = c.arrived[root][self._rank]
        self._leave(c)
        return loads(data, self._me.universe)

    def gather(self, sendobj, root=0):
        c = self._enter("gather", root, dumps(sendobj))
        result = None
        if self._rank == root:
            self._await(c, lambda: len(c.arrived) == self.size, f"gather(root={root})")
            result = [loads(c.arrived[r], self._me.universe) for r in range(self.size)]
        self._leave(c)
        return result

    def allgather(self, sendobj):
        c = self._enter("allgather", 0, dumps(sendobj))
        self._await(c, lambda: len(c.arrived) == self.size, "allgather")
        self._leave(c)
        return [loads(c.arrived[r], self._me.universe) for r in range(self.size)]

    def allreduce(self, sendobj, op=None):
        values = self.allgather(sendobj)
        total = values[0]
        for v in values[1:]:
            total = total + v if op is None else op(total, v)
        return total

    def Split(self, color=0, key=0):
        c = self._enter("Split", 0, (color, key))
        self._await(c, lambda: len(c.arrived) == self.size, "Split")
        if c.result is None:
            groups = {}
            for r in range(self.size):
                col, k = c.arrived[r]
                groups.setdefault(int(col), []).append((k, r))
            c.result = {}
            for col in sorted(groups):
                c.result[col] = (self._w.next_ctx, [r for _, r in sorted(groups[col])])
                self._w.next_ctx += 1
        self._leave(c)
        me = self._members[self._rank]
        self._w.live_comms[me] = self._w.live_comms.get(me, 0) + 1
        if self._w.live_comms[me] > self._w.max_comms:
            raise MPIError("MPI_ERR_OTHER: too many communicators")
        ctx, ranks = c.result[int(color)]
        return SimComm(
            self._w, ctx, ranks.index(self._rank), [self._members[r] for r in ranks],
            self._task_of,
        )

    def Dup(self, info=None):
        return self.Split(0, self._rank)

    def Free(self):
        if self._ctx != 0:
            self._w.live_comms[self._members[self._rank]] -= 1

    def Get_attr(self, keyval):
        return self._w.tag_ub

    def __getattr__(self, name):
        # part of MPI that is not simulated: not something to blame on the package
        if name in NOT_SIMULATED:
            raise HarnessError(f"MPI.Comm.{name} is not simulated")
        raise AttributeError(name)
