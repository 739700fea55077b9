"""Running one simulated job: N ranks of the real package over the simulated network."""
import contextlib
import random
import traceback
import weakref

import numpy as np

from . import core, mpi, universe
from .core import HarnessError, StopTask, Violation

POLICIES = (
    "uniform", "uniform", "sticky", "lockstep", "starve", "pct", "ascending", "descending",
)
SEND_MODES = ("eager", "lazy", "rndv", "mixed", "mixed")
COLL_MODES = ("never", "always", "mixed", "mixed")

_REAL_EMPTY = np.empty
_REAL_CONTIGUOUS = np.ascontiguousarray


class Alloc:
    """np.empty behind a seam: its garbage is chosen by us, and it can run out of memory."""

    def __init__(self):
        self.fail_at = {}  # rank -> set of allocation numbers
        self.n = {}
        self.armed = False
        self.fired = []
        self.fill = 0xA5
        self.tracked = None  # weak references to everything allocated

    def _count(self):
        """One allocation of the running rank inside the package; fails if planned."""
        if self.armed and core.in_task():
            sim = core.CURRENT
            rank = sim.current.extra.get("rank")
            if sim.current.in_lib is not None:
                n = self.n.get(rank, 0)
                self.n[rank] = n + 1
                if n in self.fail_at.get(rank, ()):
                    sim.count("fault:out-of-memory")
                    self.fired.append((rank, n))
                    raise MemoryError("simulated: unable to allocate array")

    def alive(self):
        """How many of the arrays allocated since tracking began are still held by someone."""
        self.tracked = [r for r in self.tracked if r() is not None]
        return len(self.tracked)

    def contiguous(self, a, *args, **kwargs):
        if self.armed and not (
            isinstance(a, np.ndarray) and a.flags.c_contiguous and not args and not kwargs
        ):
            self._count()
        return _REAL_CONTIGUOUS(a, *args, **kwargs)

    def __call__(self, shape, dtype=float, order="C", **kwargs):
        self._count()
        out = _REAL_EMPTY(shape, dtype=dtype, order=order, **kwargs)
        if out.dtype.kind in "biufc" and out.size:
            out.reshape(-1, order="A").view(np.uint8)[...] = self.fill
        if self.tracked is not None:
            self.tracked.append(weakref.ref(out))
        return out


ALLOC = Alloc()


def install():
    core.install_clock()
    np.empty = ALLOC
    np.ascontiguousarray = ALLOC.contiguous
    universe.install()


class Run:
    """Everything one run accumulates; ``execute`` of a property gets one."""

    def __init__(self, plan, choices, trace=False):
        self.plan = plan
        self.choices = choices
        self.trace_on = trace
        self.trace = []
        self.stats = {}
        self.digest = 0
        self.sim_time = 0.0
        self.steps = 0
        self.universes_used = 0
        self.checked = 0

    def count(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def mark(self, *what):
        """Put an observation into the run's digest."""
        import zlib

        self.digest = zlib.crc32(repr(what).encode(), self.digest)
        if self.trace_on:
            self.trace.append(what)

    def job(self, n_ranks, cfg):
        return Job(self, n_ranks, cfg)


def fail(kind, message=""):
    raise Violation(kind, message)


def ensure(cond, kind, message=""):
    if not cond:
        raise Violation(kind() if callable(kind) else kind, message() if callable(message) else message)


class Ctx:
    """What a rank's program sees."""

    def __init__(self, job, rank, universe_):
        self.job = job
        self.rank = rank
        self.universe = universe_
        self.util = universe_.util
        self.sim = job.sim
        self.comm = None
        self.task = None

    @contextlib.contextmanager
    def lib(self, op, allow=()):
        """Calls into the package: an exception that is not allowed breaks the property."""
        before = self.task.in_lib
        self.task.in_lib = op
        try:
            yield
        except (Violation, HarnessError, StopTask):
            raise
        except allow:
            raise
        except Exception as e:
            fail(
                f"raised:{op}:{type(e).__name__}",
                f"rank {self.rank}: " + "".join(traceback.format_exception(e)[-6:]),
            )
        finally:
            self.task.in_lib = before

    def think(self):
        """Somebody else may run here."""
        self.sim.point("think")


class Job:
    def __init__(self, run, n_ranks, cfg):
        self.run_ = run
        self.n = n_ranks
        self.cfg = cfg
        self.sim = core.Sim(
            run.choices, policy=cfg.get("policy", "uniform"),
            max_steps=cfg.get("max_steps", 400_000), step_cost=cfg.get("step_cost", 1e-6),
        )
        self.sim.trace_on = run.trace_on
        self.world = mpi.World(self.sim, cfg)
        self.universes = universe.pool(run.universes_used + n_ranks)[run.universes_used :]
        run.universes_used += n_ranks
        self.ctxs = []

    def start(self, program):
        """Run ``program(ctx)`` on every rank; returns the outcome."""
        tasks = {}
        members = list(range(self.n))
        for r in range(self.n):
            u = self.universes[0 if self.cfg.get("one_process") else r]
            ctx = Ctx(self, r, u)
            t = self.sim.add_task(f"rank{r}", (lambda c: lambda task: program(c))(ctx), u)
            t.extra["rank"] = r
            ctx.task = t
            tasks[r] = t
            ctx.comm = mpi.SimComm(self.world, 0, r, members, tasks)
            self.ctxs.append(ctx)
        outcome = self.sim.run()
        run = self.run_
        for k, v in self.sim.stats.items():
            run.count(k, v)
        run.count("messages", self.world.sent)
        run.sim_time += self.sim.now
        run.steps += self.sim.steps
        run.mark("job", self.sim.crc, outcome, self.sim.steps)
        run.trace.extend(self.sim.trace)
        if self.sim.harness_error is not None:
            raise self.sim.harness_error
        if self.sim.violation is not None:
            raise self.sim.violation
        return outcome

    def check_drained(self):
        left = self.world.undelivered()
        ensure(not left, "undelivered-message", lambda: f"{left}")


def base_cfg(rng, sends=SEND_MODES):
    return {
        "policy": rng.choice(POLICIES),
        "send": rng.choice(sends),
        "coll": rng.choice(COLL_MODES),
        "latency": rng.random() < 0.8,
    }
