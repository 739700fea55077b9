"""Shared storage as the simulated processes see it: a zarr store and an fsspec filesystem.

Both survive a simulated crash of the job (the processes die, the storage does not).
"""
import errno
import io
from collections.abc import MutableMapping

import fsspec
from fsspec.spec import AbstractFileSystem

from . import core
from .mpi import SHARED


class Disk:
    """The durable part of a SimStore."""

    def __init__(self):
        self.data = {}


class SimStore(MutableMapping):
    """A key-value store with atomic keys (as a zarr DirectoryStore has).

    Every access is a scheduling point.  Planned faults: an I/O error on the n-th write or
    read of a rank, and a crash of the whole job before the n-th write.
    """

    def __init__(self, disk, name="store"):
        self._disk = disk
        self._sim_shared_ = name
        SHARED[name] = self
        self.error_kind = "os"
        self.write_faults = {}  # rank -> set of write numbers
        self.read_faults = {}
        self.n_writes = {}
        self.n_reads = {}
        self.writers = {}  # chunk key -> {(rank)} when tracking
        self.track = None
        self.n_failed = {}  # rank -> number of injected errors
        self.failed = []  # (rank, key) of injected write errors
        self.fail_next = {}  # rank -> array whose next chunk cannot be written

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return (_lookup, (self._sim_shared_,))

    def write_error(self, key):
        """What storage libraries raise when a write fails."""
        kind = self.error_kind
        if kind == "os":
            return OSError(errno.ENOSPC, "No space left on device", key)
        return {"value": ValueError, "type": TypeError, "runtime": RuntimeError, "timeout": TimeoutError,
                "assertion": AssertionError, "buffer": BufferError}[kind](f"simulated: writing {key} failed")

    def _rank(self):
        sim = core.CURRENT
        if sim is None or sim.current is None:
            return None
        return sim.current.extra.get("rank")

    def _point(self, what, key):
        sim = core.CURRENT
        if sim is not None and sim.current is not None:
            sim.point(what, key)
            return sim
        return None

    def _write(self, key, value):
        sim = self._point("store-write", key)
        rank = self._rank()
        if sim is not None:
            n = self.n_writes.get(rank, 0)
            self.n_writes[rank] = n + 1
            sim.tick("store-write")
            array, _, last = key.rpartition("/")
            hit = value is not None and not last.startswith(".") and self.fail_next.get(rank) == array
            if hit:
                del self.fail_next[rank]
            if hit or n in self.write_faults.get(rank, ()):
                sim.count("fault:store-write-error")
                self.failed.append((rank, key))
                self.n_failed[rank] = self.n_failed.get(rank, 0) + 1
                raise self.write_error(key)
            if self.track is not None and value is not None:
                self.track(rank, key)
        if value is None:
            del self._disk.data[key]
        else:
            self._disk.data[key] = value

    def __getitem__(self, key):
        sim = self._point("store-read", key)
        if sim is not None:
            rank = self._rank()
            n = self.n_reads.get(rank, 0)
            self.n_reads[rank] = n + 1
            if n in self.read_faults.get(rank, ()) and key in self._disk.data:
                sim.count("fault:store-read-error")
                self.n_failed[rank] = self.n_failed.get(rank, 0) + 1
                raise OSError(errno.EIO, "Input/output error", key)
        return self._disk.data[key]

    def __setitem__(self, key, value):
        if not isinstance(value, (bytes, bytearray)):
            value = memoryview(value).tobytes() if not isinstance(value, str) else value.encode()
        self._write(key, bytes(value))

    def __delitem__(self, key):
        if key not in self._disk.data:
            raise KeyError(key)
        self._write(key, None)

    def __contains__(self, key):
        self._point("store-has", key)
        return key in self._disk.data

    def __iter__(self):
        return iter(sorted(self._disk.data))

    def __len__(self):
        return len(self._disk.data)


def _lookup(name):
    return SHARED[name]


def step(*what):
    """A file operation: somebody else may go first."""
    if core.in_task():
        core.CURRENT.point(*what)


# -- files --------------------------------------------------------------------------------

class FileFaults:
    """Planned faults of the simulated filesystem (counted over the whole run)."""

    def __init__(self):
        self.write_error_after = None  # bytes written to one file before ENOSPC
        self.close_error = False  # the deferred write-back fails when closing
        self.read_error_after = None  # bytes read before EIO
        self.short_read = False  # a read may return fewer bytes than asked for
        self.open_error = None
        self.only = None  # substring of the paths that are affected
        self.crash_after = None  # the job dies after so many bytes have been written
        self.fired = {}

    def hit(self, name):
        self.fired[name] = self.fired.get(name, 0) + 1
        if core.CURRENT is not None:
            core.CURRENT.count("fault:" + name)

    def applies(self, path):
        return self.only is None or self.only in path


class SimFile(io.RawIOBase):
    """One open file.  Bytes reach the disk as they are written (a torn write is a prefix)."""

    def __init__(self, fs, path, mode):
        super().__init__()
        self.fs = fs
        self.path = path
        self.mode = mode
        self.pos = 0
        self.total_written = 0
        self.total_read = 0
        self._writable = any(c in mode for c in "wax+")
        self._readable = "r" in mode or "+" in mode
        if "w" in mode:
            # the same file is emptied, also for those who have it open
            del fs.files.setdefault(path, bytearray())[:]
        elif "x" in mode:
            if path in fs.files:
                raise FileExistsError(path)
            fs.files[path] = bytearray()
        elif "a" in mode:
            fs.files.setdefault(path, bytearray())
            self.pos = len(fs.files[path])
        elif path not in fs.files:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", path)
        self.buf = fs.files[path]

    def readable(self):
        return self._readable

    def writable(self):
        return self._writable

    def seekable(self):
        return True

    def seek(self, offset, whence=0):
        base = {0: 0, 1: self.pos, 2: len(self.buf)}[whence]
        self.pos = max(0, base + offset)
        return self.pos

    def tell(self):
        return self.pos

    def truncate(self, size=None):
        size = self.pos if size is None else size
        del self.buf[size:]
        if len(self.buf) < size:
            self.buf.extend(b"\0" * (size - len(self.buf)))
        return size

    def write(self, data):
        if not self._writable:
            raise io.UnsupportedOperation("not writable")
        data = bytes(data)
        step("file-write", self.path, len(data))
        f = self.fs.fault_for(self.path)
        if f.applies(self.path):
            limit = f.write_error_after
            if limit is not None and self.total_written + len(data) > limit:
                keep = data[: max(0, limit - self.total_written)]
                self._put(keep)
                f.hit("file-write-error")
                raise OSError(errno.ENOSPC, "No space left on device", self.path)
            if f.crash_after is not None and self.total_written + len(data) > f.crash_after:
                self._put(data[: max(0, f.crash_after - self.total_written)])
                f.hit("file-torn-by-crash")
                f.crash_after = None
                if core.CURRENT is not None and core.CURRENT.current is not None:
                    core.CURRENT.crash()
                raise SimulatedCrash()
        self._put(data)
        return len(data)

    def _put(self, data):
        end = self.pos + len(data)
        if len(self.buf) < end:
            self.buf.extend(b"\0" * (end - len(self.buf)))
        self.buf[self.pos : end] = data
        self.pos = end
        self.total_written += len(data)

    def _take(self, n):
        if not self._readable:
            raise io.UnsupportedOperation("not readable")
        f = self.fs.fault_for(self.path)
        n = max(0, min(n, len(self.buf) - self.pos))
        if f.applies(self.path) and n:
            if f.read_error_after is not None and self.total_read + n > f.read_error_after:
                f.hit("file-read-error")
                raise OSError(errno.EIO, "Input/output error", self.path)
        out = bytes(self.buf[self.pos : self.pos + n])
        self.pos += n
        self.total_read += n
        return out

    def read(self, n=-1):
        if n is None or n < 0:
            n = len(self.buf) - self.pos
        return self._take(n)

    def readall(self):
        return self.read()

    def readinto(self, b):
        view = memoryview(b).cast("B")
        n = len(view)
        f = self.fs.fault_for(self.path)
        if f.short_read and f.applies(self.path) and n > 7:
            n = 7 + (n - 7) // 2
            f.hit("file-short-read")
        data = self._take(n)
        view[: len(data)] = data
        return len(data)

    def close(self):
        if not self.closed:
            super().close()
            f = self.fs.fault_for(self.path)
            if self._writable and f.close_error and f.applies(self.path):
                keep = len(self.buf) // 2
                del self.buf[keep:]
                f.hit("file-close-error")
                raise OSError(errno.EIO, "Input/output error on close", self.path)


class SimulatedCrash(BaseException):
    """The process dies here (used where no scheduler is running)."""


class SimFS(AbstractFileSystem):
    """fsspec filesystem 'simfs://'."""

    protocol = "simfs"
    cachable = False
    files = {}
    faults = FileFaults()
    per_rank = {}  # faults of one rank's accesses only

    @classmethod
    def reset(cls):
        cls.files = {}
        cls.faults = FileFaults()
        cls.per_rank = {}

    @classmethod
    def fault_for(cls, path):
        """The faults that act on an access: those of the running rank, else the general ones."""
        if core.in_task():
            f = cls.per_rank.get(core.CURRENT.current.extra.get("rank"))
            if f is not None:
                return f
        return cls.faults

    @classmethod
    def _strip_protocol(cls, path):
        if isinstance(path, list):
            return [cls._strip_protocol(p) for p in path]
        path = str(path)
        if path.startswith("simfs://"):
            path = path[len("simfs://") :]
        return path.strip("/")

    def open(self, path, mode="rb", block_size=None, cache_options=None, compression=None, **kwargs):
        path = self._strip_protocol(path)
        step("open", path, mode)
        f = SimFS.fault_for(path)
        if f.open_error is not None and f.applies(path) and f.open_error in mode:
            f.hit("file-open-error")
            raise OSError(errno.EIO, "Input/output error", path)
        raw = SimFile(SimFS, path, mode.replace("b", "").replace("t", ""))
        if "b" in mode:
            if f.short_read and "r" in mode and "+" not in mode:
                return io.BufferedReader(raw, 64)
            return raw
        text_raw = io.BufferedReader(raw) if "r" in mode else io.BufferedWriter(raw)
        return io.TextIOWrapper(text_raw, encoding=kwargs.get("encoding", "utf-8"))

    def _open(self, path, mode="rb", **kwargs):
        return self.open(path, mode, **kwargs)

    def exists(self, path, **kwargs):
        p = self._strip_protocol(path)
        return p in SimFS.files or any(k.startswith(p + "/") for k in SimFS.files)

    def isfile(self, path):
        return self._strip_protocol(path) in SimFS.files

    def isdir(self, path):
        p = self._strip_protocol(path)
        return any(k.startswith(p + "/") for k in SimFS.files)

    def info(self, path, **kwargs):
        p = self._strip_protocol(path)
        if p in SimFS.files:
            return {"name": p, "size": len(SimFS.files[p]), "type": "file"}
        if self.isdir(p):
            return {"name": p, "size": 0, "type": "directory"}
        raise FileNotFoundError(p)

    def ls(self, path, detail=True, **kwargs):
        p = self._strip_protocol(path)
        pre = p + "/" if p else ""
        names = sorted({pre + k[len(pre) :].split("/")[0] for k in SimFS.files if k.startswith(pre)})
        if not names and p in SimFS.files:
            names = [p]
        return [self.info(n) for n in names] if detail else names

    def mv(self, path1, path2, **kwargs):
        a, b = self._strip_protocol(path1), self._strip_protocol(path2)
        step("rename", a, b)
        if a not in SimFS.files:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", a)
        SimFS.files[b] = SimFS.files.pop(a)

    move = rename = mv

    def cp_file(self, path1, path2, **kwargs):
        a, b = self._strip_protocol(path1), self._strip_protocol(path2)
        SimFS.files[b] = bytearray(SimFS.files[a])

    def rm_file(self, path):
        del SimFS.files[self._strip_protocol(path)]

    _rm = rm_file

    def rm(self, path, recursive=False, maxdepth=None):
        self.rm_file(path)

    def makedirs(self, path, exist_ok=False):
        pass

    def mkdir(self, path, create_parents=True, **kwargs):
        pass


def register():
    fsspec.register_implementation("simfs", SimFS, clobber=True)
