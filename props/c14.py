"""Timers account for exactly the time spent, whatever happens inside."""
import copy
import warnings

from simkit import core
from simkit.job import ensure, fail

from . import common

ID = "C14"
LEVEL = "exploration"
RUNS = {"quick": 5000, "thorough": 200000}
QUICK_SECONDS = 30.0
UNIVERSES = 1
RULE = (
    "each run: 1-4 threads of control use 1-3 timers (one may be a NullTimer) for 5-80 operations: "
    "start, stop, timed blocks left normally, by errors of several kinds or abandoned, nested and "
    "interleaved, enabling, disabling, resetting, reading, while simulated time passes and the wall "
    "clock is set forward and back; after every operation times and hits equal a reference model "
    "exactly; non-trivial: a block was left by an error or another thread's operation came within a "
    "block; distinct: different event-log checksum"
)
REAL = ["fv3gfs.util _timing.py as in /repo"]
SIMULATED = ["clocks (monotonic, wall, processor)", "the interleaving of the users of a timer"]
ASSUMPTIONS = [
    "stopping a clock that is not running may raise or do nothing, but counts nothing",
    "a block entered while the timer was disabled and left while it is enabled counts nothing and may raise",
    "durations are multiples of 2**-10 s, so that sums are exact in any order",
]
PROBES = ("probe:left-by-error", "probe:nested", "probe:double-start", "probe:stop-not-started",
          "probe:disable-refused", "probe:reset-while-running", "probe:wall-clock-set",
          "probe:abandoned", "probe:null", "probe:enabled-inside")
NAMES = ["pack", "unpack", "halo", "a b", ""]
ERRORS = ["ValueError", "KeyboardInterrupt", "StopIteration", "RuntimeError", "GeneratorExit", "SystemExit"]


def generate(rng, tier):
    n_users = rng.choice([1, 1, 2, 3, 4])
    n_timers = rng.choice([1, 1, 2, 3])
    cfg = {
        "policy": rng.choice(common.POLICIES), "send": "eager", "coll": "never", "latency": False,
        "users": n_users, "one_process": True, "step_cost": 0.0, "timers": n_timers,
        "null": rng.random() < 0.15,
    }
    names = rng.sample(NAMES, rng.choice([1, 2, 3]))
    weights = {
        "start": 3, "stop": 3, "enter": 5, "leave": 5, "sleep": 4, "wall": 1,
        "enable": 1, "disable": 1, "reset": rng.choice([0, 1]), "read": 1, "scribble": 0.3,
    }
    kinds = list(weights)
    p_err = rng.choice([0.0, 0.3, 0.6])
    ops = []
    for _ in range(rng.choice([5, 12, 25, 80])):
        k = rng.choices(kinds, [weights[x] for x in kinds])[0]
        op = {"do": k, "user": rng.randrange(n_users), "timer": rng.randrange(n_timers),
              "name": rng.choice(names)}
        if k == "sleep":
            op["ticks"] = rng.choice([0, 1, 1, 3, 1024, 5000, rng.randrange(100000)])
        elif k == "wall":
            op["ticks"] = rng.choice([-1, 1]) * rng.choice([1, 1024, 3600 * 1024])
        elif k == "leave":
            op["how"] = rng.choice(ERRORS + ["abandon"]) if rng.random() < p_err else "normal"
        ops.append(op)
    return {"cfg": cfg, "ops": ops, "faults": []}


class Model:
    def __init__(self, null):
        self.null = null
        self.enabled = not null
        self.running = {}
        self.times = {}
        self.hits = {}

    def start(self, name, now):
        """Whether start must be refused."""
        if not self.enabled:
            return False
        if name in self.running:
            return True
        self.running[name] = now
        return False

    def stop(self, name, now):
        """Whether there was something to stop (or nothing to do, being disabled)."""
        if not self.enabled:
            return True
        if name not in self.running:
            return False
        self.times[name] = self.times.get(name, 0.0) + now - self.running.pop(name)
        self.hits[name] = self.hits.get(name, 0) + 1
        return True


def _error(name):
    return StopIteration(7) if name == "StopIteration" else getattr(__import__("builtins"), name)("boom")


def execute(run):
    plan = run.plan
    cfg = plan["cfg"]
    core.READ_COST[0] = 0.0
    core.CPU_SHARE[0] = 0.5
    core.WALL_OFFSET[0] = 1.5e9
    job = run.job(cfg["users"], cfg)
    util = job.universes[0].util
    n = cfg["timers"]
    with warnings.catch_warnings():
        timers = [util.NullTimer() if cfg["null"] and k == 0 else util.Timer() for k in range(n)]
    models = [Model(cfg["null"] and k == 0) for k in range(n)]
    warnings.simplefilter("always")

    taken = []  # totals read earlier, and what they were

    def read(k, t, m, what, which):
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter("always")
            try:
                got = getattr(t, which)
                out = dict(got)
            except Exception as e:
                fail(f"raised:{which}", f"{what}, timer {k}: {e!r}")
        ensure(
            bool(caught) == bool(m.running), "wrong-warning",
            lambda: f"{what}, timer {k}, {which}: {len(caught)} warnings with {sorted(m.running)} running",
        )
        if len(taken) < 40:
            taken.append((got, out, f"timer {k}'s {which} read at {what}"))
        return out

    def compare(what):
        for k, (t, m) in enumerate(zip(timers, models)):
            times, hits = read(k, t, m, what, "times"), read(k, t, m, what, "hits")
            ensure(hits == m.hits, "wrong-hits", lambda: f"{what}, timer {k}: {hits} instead of {m.hits}")
            ensure(times == m.times, "wrong-times",
                   lambda: f"{what}, timer {k}: {times} instead of {m.times}")
            ensure(t.enabled == m.enabled, "wrong-enabled", f"{what}, timer {k}: {t.enabled}")
        for got, was, where in taken:
            ensure(dict(got) == was, "totals-changed", lambda: f"{where} was {was} and became {dict(got)} at {what}")

    def program(ctx):
        mine = ctx.rank
        stack = []  # blocks this user is in: (timer, name, context manager, counted)

        def leave(how, what):
            k, name, cm, counted = stack.pop()
            m = models[k]
            now = ctx.sim.now
            if m.enabled and counted and m.running.get(name) is counted[0]:
                m.stop(name, now)
                must = True
            elif not m.enabled:
                must = True
            elif name in m.running:  # someone else's clock of the same name: stop() would stop it
                m.stop(name, now)
                must = False
            else:
                must = False
            if how == "abandon":
                run.count("probe:abandoned")
                try:
                    cm.gen.close()
                except AttributeError:
                    cm.__exit__(GeneratorExit, GeneratorExit(), None)
                except Exception as e:
                    ensure(not must, "raised:leave", f"{what}: {e!r}")
            elif how == "normal":
                try:
                    cm.__exit__(None, None, None)
                except Exception as e:
                    ensure(not must, "raised:leave", f"{what}: {e!r}")
            else:
                e = _error(how)
                run.count("probe:left-by-error")
                try:
                    swallowed = cm.__exit__(type(e), e, None)
                except BaseException as got:
                    ensure(got is e or not must or type(got) is type(e) or got.__cause__ is e,
                           "error-replaced", f"{what}: {got!r} for {e!r}")
                else:
                    ensure(not swallowed, "error-swallowed", f"{what}: {e!r}")

        for i, op in enumerate(plan["ops"]):
            if op["user"] != mine:
                continue
            ctx.think()
            k, name, do = op["timer"], op["name"], op["do"]
            t, m = timers[k], models[k]
            now = ctx.sim.now
            what = f"operation {i} ({do} {name!r})"
            if m.null:
                run.count("probe:null")
            if do == "sleep":
                ctx.sim.sleep(op["ticks"] / 1024)
                continue
            if do == "wall":
                core.WALL_OFFSET[0] += op["ticks"] / 1024
                run.count("fault:wall-clock-set")
                run.count("probe:wall-clock-set")
            elif do == "start":
                refused = m.start(name, now)
                try:
                    t.start(name)
                except ValueError as e:
                    ensure(refused, "raised:start", f"{what}: {e!r}")
                    run.count("probe:double-start")
                else:
                    ensure(not refused, "not-refused:start", what)
            elif do == "stop":
                ok = m.stop(name, now)
                try:
                    t.stop(name)
                except Exception as e:
                    ensure(not ok, "raised:stop", f"{what}: {e!r}")
                if not ok:
                    run.count("probe:stop-not-started")
            elif do == "enter":
                refused = m.start(name, now)
                cm = t.clock(name)
                try:
                    cm.__enter__()
                except ValueError as e:
                    ensure(refused, "raised:enter", f"{what}: {e!r}")
                    run.count("probe:double-start")
                else:
                    ensure(not refused, "not-refused:enter", what)
                    if m.enabled:  # remember this very clock
                        now = float(now)
                        m.running[name] = now
                        stack.append((k, name, cm, [now]))
                    else:
                        stack.append((k, name, cm, None))
                    if len(stack) > 1:
                        run.count("probe:nested")
                del cm
            elif do == "leave":
                if stack:
                    if models[stack[-1][0]].enabled and stack[-1][3] is None:
                        run.count("probe:enabled-inside")
                    leave(op["how"], what)
            elif do == "enable":
                try:
                    t.enable()
                    ensure(not m.null, "null-enabled", what)
                    m.enabled = True
                except NotImplementedError:
                    ensure(m.null, "raised:enable", what)
            elif do == "disable":
                try:
                    t.disable()
                    ensure(not m.running, "not-refused:disable", f"{what} with {sorted(m.running)} running")
                    m.enabled = False
                except RuntimeError:
                    ensure(bool(m.running), "raised:disable", what)
                    run.count("probe:disable-refused")
            elif do == "reset":
                t.reset()
                m.times.clear()
                m.hits.clear()
                if m.running:
                    run.count("probe:reset-while-running")
            elif do == "scribble":
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    for d in (t.times, t.hits):
                        try:
                            d[name] = 17
                            d.pop("pack", None)
                        except TypeError:
                            pass  # a read-only view is as good
            compare(what)
            job.sim.log("op", i, do)
        while stack:
            leave("normal", "end")
            compare("end")
        return True

    job.start(program)


def simplify(plan):
    for key, low in (("users", 1), ("timers", 1)):
        if plan["cfg"][key] > low:
            p = copy.deepcopy(plan)
            p["cfg"][key] -= 1
            for op in p["ops"]:
                op[key[:-1]] %= p["cfg"][key]
            yield p
    if plan["cfg"]["null"]:
        p = copy.deepcopy(plan)
        p["cfg"]["null"] = False
        yield p
    p = copy.deepcopy(plan)
    for op in p["ops"]:
        op["name"] = "pack"
    if p != plan:
        yield p
    for i, op in enumerate(plan["ops"]):
        if op.get("how", "normal") not in ("normal", "ValueError"):
            p = copy.deepcopy(plan)
            p["ops"][i]["how"] = "ValueError"
            yield p
        if op.get("ticks", 1) not in (0, 1):
            p = copy.deepcopy(plan)
            p["ops"][i]["ticks"] = 1
            yield p


def nontrivial(stats):
    return stats.get("probe:left-by-error", 0) > 0 or stats.get("probe:nested", 0) > 0
