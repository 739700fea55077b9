"""Deterministic scheduler: real threads, parked and released one at a time.

Exactly one task runs at any moment.  A task gives up control only at a seam operation
(communication, store, file open, sleep), and which task goes next, which message mode is
used, how long a message takes, ... is one draw from one ``Choices`` stream.  Time is
simulated: it advances a little per step and jumps to the next event when nobody can run.
"""
import heapq
import random
import sys
import threading
import zlib

import time as _time

REAL_TIMER = _time.perf_counter


class Violation(BaseException):
    """The code under test broke a property.  ``kind`` identifies the violation class.

    Not an ``Exception``, so that code under test which swallows errors does not hide it.
    """

    def __init__(self, kind, message=""):
        super().__init__(kind, message)
        self.kind = kind
        self.message = message


class HarnessError(BaseException):
    """Something is wrong with the simulator itself: never reported as a violation."""


class StopTask(BaseException):
    """Unused by the library; ends a task when the simulation has been stopped."""


PACKAGE = [None]  # the directory of the package under test


def from_package(e):
    """Was this exception raised by, or on behalf of, the package rather than the harness?"""
    if not isinstance(e, Exception) or PACKAGE[0] is None:
        return False
    tb = e.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(PACKAGE[0]):
            return True
        tb = tb.tb_next
    return False


def uncaught(e):
    import traceback

    return Violation(
        f"raised:uncaught:{type(e).__name__}", "".join(traceback.format_exception(e)[-8:])
    )


class Choices:
    """The one source of nondeterminism of a run.

    Records every draw.  In replay mode the recorded draws are read back, and 0 is used
    once they run out, so that a truncated list is still one exact execution.
    """

    def __init__(self, seed=None, recorded=None):
        self.rng = random.Random(seed)
        self.recorded = recorded
        self.log = []

    def draw(self, n, fresh=None):
        """An integer in [0, n)."""
        if n <= 1:
            return 0
        if self.recorded is not None:
            i = len(self.log)
            v = self.recorded[i] % n if i < len(self.recorded) else 0
        elif fresh is not None:
            v = fresh(self.rng)
        else:
            v = self.rng.randrange(n)
        self.log.append(v)
        return v

    def chance(self, permille):
        """True with the given probability; recorded 0 means False."""
        if permille <= 0:
            return False
        return bool(self.draw(2, lambda r: 1 if r.randrange(1000) < permille else 0))

    def weighted(self, weights):
        def pick(r):
            x = r.randrange(sum(weights))
            for i, w in enumerate(weights):
                x -= w
                if x < 0:
                    return i

        return self.draw(len(weights), pick)


class Task:
    __slots__ = (
        "tid", "name", "fn", "baton", "thread", "state", "why", "universe", "error",
        "result", "priority", "in_lib", "extra",
    )

    def __init__(self, tid, name, fn, universe=None):
        self.tid = tid
        self.name = name
        self.fn = fn
        self.universe = universe
        self.baton = threading.Lock()
        self.baton.acquire()
        self.state = "runnable"
        self.why = ""
        self.error = None
        self.result = None
        self.priority = 0
        self.in_lib = None
        self.extra = {}


CURRENT = None  # the Sim whose task is running, if any (one simulation at a time)


class Sim:
    def __init__(self, choices, policy="uniform", max_steps=2_000_000, step_cost=1e-6):
        self.step_cost = step_cost
        self.choices = choices
        self.policy = policy
        self.now = 0.0
        self.steps = 0
        self.max_steps = max_steps
        self.tasks = []
        self.events = []
        self.eseq = 0
        self.current = None
        self.main = threading.Lock()
        self.main.acquire()
        self.outcome = None
        self.violation = None
        self.harness_error = None
        self.crc = 0
        self.stats = {}
        self.crash_at = {}
        self.crash_step = None  # the job dies at this scheduling step
        self.counters = {}
        self.pct_changes = set()
        self.trace = []
        self.trace_on = False
        self.abort_reason = None

    # -- bookkeeping -------------------------------------------------------------
    def count(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def log(self, *what):
        s = repr(what)
        self.crc = zlib.crc32(s.encode(), self.crc)
        if self.trace_on:
            self.trace.append((self.steps, round(self.now, 9)) + what)

    # -- tasks ---------------------------------------------------------------------
    def add_task(self, name, fn, universe=None):
        t = Task(len(self.tasks), name, fn, universe)
        self.tasks.append(t)
        return t

    def _body(self, task):
        task.baton.acquire()
        self._resumed(task)
        try:
            task.result = task.fn(task)
            task.state = "done"
        except Violation as v:
            task.state = "failed"
            if self.violation is None:
                self.violation = v
            self.stop("violation")
            return
        except StopTask:
            task.state = "stopped"
        except HarnessError as e:
            self.harness_error = e
            self.stop("harness")
            return
        except BaseException as e:
            if from_package(e):
                if self.violation is None:
                    self.violation = uncaught(e)
                self.stop("violation")
                return
            import traceback  # an error of the harness code in the task

            self.harness_error = HarnessError(traceback.format_exc())
            self.stop("harness")
            return
        self.log("end", task.tid, task.state)
        self._switch_away(task)

    def _resumed(self, task):
        self.current = task
        if task.universe is not None:
            task.universe.activate()

    def run(self):
        """Run all tasks to the end; returns the outcome string."""
        global CURRENT
        CURRENT = self
        for t in self.tasks:
            t.thread = threading.Thread(target=self._body, args=(t,), daemon=True)
            t.thread.start()
        if self.policy.startswith("pct"):
            order = list(range(len(self.tasks)))
            r = random.Random(self.choices.rng.randrange(1 << 30))
            r.shuffle(order)
            for t, p in zip(self.tasks, order):
                t.priority = p
            self.pct_changes = {r.randrange(1, 4000) for _ in range(6)}
        elif self.policy.startswith("starve"):
            r = random.Random(self.choices.rng.randrange(1 << 30))
            for t in self.tasks:
                t.priority = 0 if r.random() < 0.3 else 1
        try:
            first = self._pick()
        except Violation as v:
            self.violation = v
            self.outcome = "violation"
            return self.outcome
        if first is not None:
            first.baton.release()
            self.main.acquire()
        self.current = None
        CURRENT = None
        return self.outcome

    def stop(self, outcome):
        """End the simulation now: every task stays parked for ever."""
        if self.outcome is None:
            self.outcome = outcome
        self.main.release()

    def fail(self, kind, message=""):
        """Record a violation found inside the simulator and end the run."""
        if self.violation is None:
            self.violation = Violation(kind, message)
        raise self.violation

    def crash(self):
        """The whole job dies at this instant (called from the running task)."""
        self.log("crash")
        self.stop("crashed")
        t = self.current
        t.baton.acquire()  # never released: this code never runs again

    # -- scheduling ------------------------------------------------------------------
    def _pick(self):
        while True:
            while self.events and self.events[0][0] <= self.now:
                self._fire()
            runnable = [t for t in self.tasks if t.state == "runnable"]
            if runnable:
                break
            if all(t.state in ("done", "stopped") for t in self.tasks):
                if self.outcome is None:
                    self.outcome = "done"
                self.main.release()
                return None
            if not self.events:
                self._quiescent()
                return None
            self.now = max(self.now, self.events[0][0])
        if self.steps >= self.max_steps:
            raise Violation("no-progress", f"not finished after {self.steps} steps")
        n = len(runnable)
        if n == 1:
            return runnable[0]
        return runnable[self.choices.draw(n, lambda r: self._fresh_pick(r, runnable))]

    def _fresh_pick(self, r, runnable):
        pol = self.policy
        n = len(runnable)
        if pol == "uniform":
            return r.randrange(n)
        if pol == "sticky":
            if r.random() < 0.9:
                for i, t in enumerate(runnable):
                    if t is self.current:
                        return i
            return r.randrange(n)
        if pol == "lockstep":  # the task that is furthest behind
            return min(range(n), key=lambda i: (runnable[i].extra.get("ops", 0), r.random()))
        if pol == "starve":
            hi = [i for i, t in enumerate(runnable) if t.priority]
            if hi and r.random() < 0.995:
                return r.choice(hi)
            return r.randrange(n)
        if pol == "pct":
            best = max(range(n), key=lambda i: runnable[i].priority)
            if self.steps in self.pct_changes:
                runnable[best].priority = -self.steps
            return best
        if pol == "ascending":
            return 0
        if pol == "descending":
            return n - 1
        raise HarnessError(pol)

    def _quiescent(self):
        """Nobody can run and nothing is going to happen."""
        if self.abort_reason is None:
            waiting = [f"{t.name}: {t.why}" for t in self.tasks if t.state == "blocked"]
            self.violation = Violation("deadlock", "; ".join(waiting[:12]))
            self.outcome = "violation"
        else:
            self.outcome = "aborted"
        self.main.release()

    def _switch_away(self, task):
        """Hand the baton on; the caller has set task.state."""
        try:
            nxt = self._pick()
        except Violation as v:
            if self.violation is None:
                self.violation = v
            self.stop("violation")
            nxt = None
        if nxt is None:
            if task.state not in ("done", "stopped", "failed"):
                task.baton.acquire()  # parked for ever
            return
        if nxt is task:
            self.current = task
            return
        nxt.baton.release()
        if task.state in ("done", "stopped", "failed"):
            return
        task.baton.acquire()
        self._resumed(task)

    def point(self, *what):
        """A seam operation: somebody else may go first."""
        t = self.current
        self.steps += 1
        self.now += self.step_cost
        t.extra["ops"] = t.extra.get("ops", 0) + 1
        if self.crash_step is not None and self.steps >= self.crash_step:
            self.crash_step = None
            self.count("fault:crash")
            self.crash()
        self._switch_away(t)
        if what:
            self.log(t.tid, *what)

    def block(self, why):
        """Park the current task until ``wake``."""
        t = self.current
        t.state = "blocked"
        t.why = why
        self.steps += 1
        self._switch_away(t)

    def wake(self, task):
        if task.state == "blocked":
            task.state = "runnable"

    # -- time --------------------------------------------------------------------------
    def at(self, when, fn):
        self.eseq += 1
        heapq.heappush(self.events, (when, self.eseq, fn))

    def _fire(self):
        when, _, fn = heapq.heappop(self.events)
        fn()

    def sleep(self, dt):
        if dt <= 0:
            return self.point()
        t = self.current
        self.at(self.now + dt, lambda: self.wake(t))
        self.block(f"asleep {dt}")

    # -- named counters with crash points ---------------------------------------------
    def tick(self, name):
        """Count one event of a kind; a planned crash fires just before the n-th one."""
        n = self.counters.get(name, 0)
        self.counters[name] = n + 1
        if self.crash_at.get(name) == n:
            self.count("fault:crash")
            self.crash()
        return n


READ_COST = [1e-7]  # simulated time one reading of a clock takes
WALL_OFFSET = [0.0]  # how far the wall clock has been set forward or back
CPU_SHARE = [1.0]


def sim_clock():
    """A clock that only ever advances."""
    if CURRENT is not None:
        CURRENT.now += READ_COST[0]
        return CURRENT.now
    return MANUAL_CLOCK[0]


def wall_clock():
    """The time of day, which can be set."""
    return sim_clock() + WALL_OFFSET[0]


def cpu_clock():
    """Processor time, which stands still while the process sleeps."""
    return sim_clock() * CPU_SHARE[0]


MANUAL_CLOCK = [0.0]


def in_task():
    """True when called from the running task's own code."""
    return CURRENT is not None and CURRENT.current is not None


def install_clock():
    """Put every clock the package could read behind the simulated one."""
    import time
    import timeit

    def ns(clock):
        return lambda: int(clock() * 1e9)

    def sleep(dt):
        if in_task():
            CURRENT.sleep(dt)
        else:
            MANUAL_CLOCK[0] += max(0.0, dt)

    for name, clock in (
        ("perf_counter", sim_clock), ("monotonic", sim_clock), ("time", wall_clock),
        ("process_time", cpu_clock), ("thread_time", cpu_clock),
    ):
        setattr(time, name, clock)
        setattr(time, name + "_ns", ns(clock))
    time.sleep = sleep
    timeit.default_timer = sim_clock
