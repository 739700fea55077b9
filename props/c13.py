"""Recycled buffers are never shared between overlapping users."""
import copy

import numpy as np

from simkit import fields
from simkit.job import ALLOC, ensure

from . import common

ID = "C13"
LEVEL = "exploration"
RUNS = {"quick": 4000, "thorough": 150000}
QUICK_SECONDS = 30.0
UNIVERSES = 1
RULE = (
    "each run: 1-5 concurrent users in one process perform 4-60 opens, uses and closes of array, send "
    "and receive buffers of few colliding shapes, dtypes and allocators, closing in any order, leaving "
    "blocks normally, with an error of several kinds or abandoned, with failing allocations; every "
    "user's bytes are compared after every operation; non-trivial: at least two buffers were in use "
    "together and one was recycled; distinct: different event-log checksum"
)
REAL = ["fv3gfs.util buffer.py, utils.py, _timing.py as in /repo, one private import"]
SIMULATED = ["the users and their interleaving", "numpy.empty and other allocators (counted, failing)",
             "clocks"]
ASSUMPTIONS = [
    "users change over between operations, not inside the allocator",
    "after its block has ended a user no longer touches its buffer",
]
PROBES = ("probe:overlap", "probe:recycled", "probe:left-by-error", "probe:abandoned",
          "probe:allocation-failed", "probe:reused-after-failure", "probe:not-lifo", "probe:send",
          "probe:recv", "probe:array", "probe:readonly-destination")
SHAPES = [[2], [3], [2, 3], [3, 2], [6], [1, 6], [2, 3, 2], [3, 2, 2], [4, 1], [12]]
DTYPES = ["float64", "float64", "int64", "float32", "int32", "uint8", "complex128", "bool", "int16", ">f8", ">i4"]
ERRORS = ["ValueError", "KeyboardInterrupt", "StopIteration", "MemoryError", "GeneratorExit"]


def generate(rng, tier, many=False):
    n_users = rng.choice([1, 2, 2, 3, 3, 5])
    cfg = {
        "policy": rng.choice(common.POLICIES), "send": "eager", "coll": "never", "latency": False,
        "users": n_users, "one_process": True, "latent": rng.random() < 0.5,
    }
    shapes = rng.sample(SHAPES, rng.choice([1, 1, 2, 3]))
    if rng.random() < 0.3:  # same bytes, other shape
        shapes = rng.choice([[[2, 3], [3, 2], [6]], [[2, 3, 2], [3, 2, 2], [12]], [[6], [1, 6]]])
    dtypes = rng.sample(DTYPES, rng.choice([1, 1, 2]))
    if rng.random() < 0.15:  # one kind and size, two byte orders
        dtypes = rng.choice([["float64", ">f8"], ["int32", ">i4"]])
    lengths, depths = [6, 12, 25, 60], [2, 4, 8]
    if many:  # of different kinds, or at the same time
        lengths, depths = [700], [6, 40, 150]
        shapes = [[k] for k in range(2, rng.choice([3, 40, 300]))]
    allocators = rng.choice([[0], [0], [0, 1], [0, 1, 2], [1, 2]])
    p_err = rng.choice([0.0, 0.2, 0.5])
    p_fail = rng.choice([0.0, 0.1, 0.3])
    ops = []
    opened = 0
    depth = rng.choice(depths)
    open_now = []
    for _ in range(rng.choice(lengths)):
        r = rng.random()
        if (r < 0.5 and len(open_now) < depth) or not open_now:
            op = {
                "do": "open", "user": rng.randrange(n_users), "id": opened,
                "kind": rng.choice(["array", "send", "recv"]), "shape": rng.choice(shapes),
                "dtype": rng.choice(dtypes), "alloc": rng.choice(allocators),
                "mem": rng.choice(["F", "strided", "reversed", "perm1", "C", "strided"]),
                "timer": rng.random() < 0.5, "fail": rng.random() < p_fail,
                "readonly": rng.random() < 0.04, "style": rng.randrange(3),
            }
            open_now.append((opened, op["user"]))
            opened += 1
            ops.append(op)
        elif r < 0.62:
            i, u = rng.choice(open_now)
            ops.append({"do": "write", "user": u, "id": i})
        else:
            k = len(open_now) - 1 if rng.random() < 0.4 else rng.randrange(len(open_now))
            i, u = open_now.pop(k)
            how = "normal" if rng.random() >= p_err else rng.choice(ERRORS + ["abandon"])
            ops.append({"do": "close", "user": u, "id": i, "how": how})
    return {"cfg": cfg, "ops": ops, "faults": []}


def many(rng):
    plan = generate(rng, "quick", True)
    plan["cfg"]["many"] = True
    return plan


FIXED = (many, many, many, many, many, many, many, many, many, many, many, many)


class Boom(ValueError):
    pass


def _error(name):
    return {
        "ValueError": Boom("x"), "KeyboardInterrupt": KeyboardInterrupt(),
        "StopIteration": StopIteration(5), "MemoryError": MemoryError("y"),
        "GeneratorExit": GeneratorExit(),
    }[name]


class Live:
    """One buffer in use."""

    def __init__(self):
        self.cm = self.buf = self.array = self.want = self.base = None


def execute(run):
    plan = run.plan
    cfg = plan["cfg"]
    job = run.job(cfg["users"], cfg)
    live = {}
    handed = []  # every buffer ever handed out, with its allocator (kept alive: ids stay unique)
    fail_next = [False]
    failures = [0]

    def make(k):
        def allocate(shape, dtype=float, order="C"):
            if fail_next[0]:
                fail_next[0] = False
                failures[0] += 1
                job.sim.count("fault:out-of-memory")
                raise MemoryError("simulated: unable to allocate array")
            out = np.empty(shape, dtype=dtype, order=order)
            out.reshape(-1, order="A").view(np.uint8)[...] = 0xA5
            owner.append((out, k))
            return out
        return allocate

    owner = []
    allocators = [make(k) for k in range(3)]

    def check_all(what):
        for i, l in live.items():
            diff = fields.first_difference(l.buf, l.want)
            ensure(
                diff is None, "overwritten",
                lambda: f"{what}: buffer {i} of user {l.user} in use was changed: {diff}",
            )

    def program(ctx):
        util = ctx.util
        buffer = ctx.universe.modules["fv3gfs.util.buffer"]
        timer = util.Timer()
        mine = ctx.rank

        def fill(l, salt):
            flat = [np.arange(n) for n in l.buf.shape]
            l.buf[...] = fields.value_at(salt, mine, fields.broadcast(flat), l.buf.dtype)
            l.want = l.buf.copy()

        for n, op in enumerate(plan["ops"]):
            if op["user"] != mine:
                continue
            ctx.think()
            what = f"operation {n}"
            if op["do"] == "open":
                l = Live()
                l.user, l.op = mine, op
                dtype = np.dtype(op["dtype"])
                shape = tuple(op["shape"])
                alloc = allocators[op["alloc"]]
                args = (timer,) if op["timer"] else ()
                if op["kind"] == "array":
                    style = [dtype, dtype.type if dtype.isnative else dtype, op["dtype"]][op["style"]]
                    l.cm = buffer.array_buffer(alloc, shape, style)
                else:
                    l.array = fields.laid_out(shape, dtype, op["mem"])
                    flat = fields.broadcast([np.arange(k) for k in shape])
                    l.array[...] = fields.value_at(1000 + n, mine, flat, dtype)
                    l.original = l.array.copy()
                    l.base = l.array if l.array.base is None else l.array.base
                    if op["readonly"] and op["kind"] == "recv":
                        l.array.flags.writeable = False
                    f = util.send_buffer if op["kind"] == "send" else util.recv_buffer
                    l.cm = f(alloc, l.array, *args)
                fail_next[0] = op["fail"]
                before = failures[0]
                try:
                    with ctx.lib("open:" + op["kind"], allow=(MemoryError,)):
                        l.buf = l.cm.__enter__()
                except MemoryError:
                    ensure(failures[0] > before, "wrong-error:open", f"{what}: MemoryError of its own")
                    run.count("probe:allocation-failed")
                    run.count("failed-once")
                    check_all(what)
                    continue
                finally:
                    fail_next[0] = False
                ensure(failures[0] == before, "swallowed-error:open", what)
                b = l.buf
                ensure(isinstance(b, np.ndarray), "no-array", what)
                ensure(b.shape == shape, "wrong-shape", f"{what}: {b.shape} instead of {shape}")
                ensure(b.dtype == dtype, "wrong-dtype", f"{what}: {b.dtype} instead of {dtype}")
                ensure(b.flags.c_contiguous, "not-contiguous", what)
                ensure(b.flags.writeable or op["readonly"], "not-writable", what)
                own = b is l.array or np.shares_memory(b, l.array) if l.array is not None else False
                for i, other in live.items():
                    ensure(
                        not np.shares_memory(b, other.buf), "shared",
                        lambda: f"{what}: user {mine} got the memory user {other.user} has as buffer {i}",
                    )
                    if other.array is not None:
                        ensure(not np.shares_memory(b, other.array), "shared", what)
                if not own:
                    for a, k in owner:
                        if np.shares_memory(a, b):
                            ensure(k == op["alloc"], "wrong-allocator",
                                   f"{what}: memory of allocator {k} given for allocator {op['alloc']}")
                    if any(np.shares_memory(b, h) for h in handed):
                        run.count("probe:recycled")
                        if run.stats.get("failed-once"):
                            run.count("probe:reused-after-failure")
                    handed.append(b)
                if op["kind"] == "send":
                    diff = fields.first_difference(b, l.original)
                    ensure(diff is None, "wrong-data:send", lambda: f"{what}: {diff}")
                    ensure(b.tobytes() == l.original.tobytes(), "wrong-data:send", what)
                check_all(what)
                if op["kind"] == "send":
                    l.want = b.copy()
                    if not own:  # nothing the owner of the array does later changes what is sent
                        l.array[...] = 0
                elif l.array is None or l.array.flags.writeable:
                    fill(l, 5000 + n)
                elif own:
                    l.want = b.copy()
                else:
                    fill(l, 5000 + n)
                live[op["id"]] = l
                run.count("probe:" + op["kind"])
                if len(live) > 1:
                    run.count("probe:overlap")
            elif op["id"] not in live:
                continue
            elif op["do"] == "write":
                l = live[op["id"]]
                if l.buf.flags.writeable:
                    fill(l, 9000 + n)
            else:
                l = live.pop(op["id"])
                if any(i > op["id"] for i in live):
                    run.count("probe:not-lifo")
                kind, how = l.op["kind"], op["how"]
                if how == "abandon":
                    run.count("probe:abandoned")
                    gen, l.cm = getattr(l.cm, "gen", None), None
                    if gen is not None:
                        gen.close()
                elif how != "normal":
                    e = _error(how)
                    run.count("probe:left-by-error")
                    try:
                        swallowed = l.cm.__exit__(type(e), e, e.__traceback__)
                    except BaseException as got:
                        ensure(got is e or got.__cause__ is e or got.__context__ is e or type(got) is type(e),
                               "error-replaced", f"{what}: {got!r} instead of {e!r}")
                    else:
                        ensure(not swallowed, "error-swallowed", f"{what}: {e!r}")
                elif kind == "recv" and not l.array.flags.writeable and l.array is not l.buf:
                    run.count("probe:readonly-destination")
                    try:
                        l.cm.__exit__(None, None, None)
                    except ValueError:
                        run.count("failed-once")
                    else:
                        ensure(False, "not-delivered", f"{what}: a read-only array took data")
                else:
                    with ctx.lib("close:" + kind):
                        l.cm.__exit__(None, None, None)
                    if kind == "recv":
                        diff = fields.first_difference(l.array, l.want)
                        ensure(diff is None, "wrong-data:recv", lambda: f"{what}: {diff}")
            check_all(what)
            job.sim.log("op", n)
        return True

    ALLOC.armed = False
    job.start(program)


def simplify(plan):
    if plan["cfg"]["users"] > 1:
        p = copy.deepcopy(plan)
        p["cfg"]["users"] -= 1
        for op in p["ops"]:
            op["user"] %= p["cfg"]["users"]
        yield p
    for k, simple in (("fail", False), ("timer", False), ("readonly", False), ("alloc", 0), ("mem", "strided"),
                      ("how", "normal"), ("dtype", "float64"), ("style", 0)):
        if any(op.get(k, simple) != simple for op in plan["ops"]):
            p = copy.deepcopy(plan)
            for op in p["ops"]:
                if k in op:
                    op[k] = simple
            yield p


def nontrivial(stats):
    return stats.get("probe:overlap", 0) > 0 and stats.get("probe:recycled", 0) > 0
