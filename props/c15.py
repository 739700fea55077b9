"""Captured streams are captured completely and always restored."""
import atexit
import copy
import errno
import os
import re
import resource
import shutil
import tempfile

from simkit.job import ensure

from . import common

ID = "C15"
LEVEL = "exploration"
RUNS = {"quick": 4000, "thorough": 150000}
QUICK_SECONDS = 30.0
UNIVERSES = 1
RULE = (
    "each run: 1-3 users with 1-2 streams each (text, line-buffered, binary, unbuffered) on real "
    "descriptors perform 4-60 writes through Python or directly to the descriptor, flushes, and "
    "captures entered and left, nested and interleaved, normally, by errors or abandoned, with "
    "descriptors running out, no directory for temporary files, and short or refused writes; "
    "non-trivial: at least one capture with something written in it; distinct: different event log"
)
REAL = ["fv3gfs.util _capture_stream.py as in /repo", "Python I/O stack, kernel descriptors and files"]
SIMULATED = ["interleaving of the users", "descriptor exhaustion and full disk: by resource limits"]
ASSUMPTIONS = [
    "order is required where the program fixes it: per way of writing, and across ways after a flush",
    "captures of one stream are left in the reverse of the order they were entered",
    "one Python stream object per descriptor",
]
PROBES = ("probe:captured", "probe:nested-same-stream", "probe:left-by-error", "probe:abandoned",
          "probe:refused-entry", "probe:pending-at-entry", "probe:pending-at-exit", "probe:short-write",
          "probe:big", "probe:interleaved")
ERRORS = ["ValueError", "KeyboardInterrupt", "StopIteration", "OSError", "GeneratorExit", "SystemExit"]
KINDS = ["text", "text", "text", "line", "binary", "raw"]
SCRATCH = [None]


def prepare():
    base = SCRATCH[0] = tempfile.mkdtemp(prefix="verif-c15-")
    owner = os.getpid()

    def clean():
        if os.getpid() == owner:
            shutil.rmtree(base, ignore_errors=True)

    atexit.register(clean)


def generate(rng, tier):
    n_users = rng.choice([1, 1, 2, 3])
    streams = [
        {"user": u, "kind": rng.choice(KINDS), "std": False}
        for u in range(n_users) for _ in range(rng.choice([1, 1, 2]))
    ]
    if rng.random() < 0.3:
        streams[0]["std"] = True
    cfg = {
        "policy": rng.choice(common.POLICIES), "send": "eager", "coll": "never", "latency": False,
        "users": n_users, "one_process": True, "streams": streams,
    }
    p_err = rng.choice([0.0, 0.3, 0.6])
    p_fault = rng.choice([0.0, 0.2])
    ops = []
    depth = [0] * len(streams)
    max_depth = rng.choice([1, 2, 3])
    for _ in range(rng.choice([4, 10, 25, 60])):
        s = rng.randrange(len(streams))
        r = rng.random()
        if r < 0.2 and depth[s] < max_depth:
            op = {"do": "enter", "s": s}
            if rng.random() < p_fault:
                op["fault"] = rng.choice(["fds", "fds", "tmp"])
                op["k"] = rng.randrange(4)
            depth[s] += 1
        elif r < 0.4 and depth[s]:
            op = {"do": "leave", "s": s, "how": "normal"}
            if rng.random() < p_err:
                op["how"] = rng.choice(ERRORS + ["abandon"])
            if rng.random() < p_fault:
                op["fault"] = "fds"
                op["k"] = 0
            depth[s] -= 1
        elif r < 0.5:
            op = {"do": "flush", "s": s}
        else:
            op = {"do": rng.choice(["python", "python", "direct", "direct", "buffer"]), "s": s,
                  "size": rng.choice([0, 1, 3, 10, 10, 100, 5000, 9000] + ([300000] if rng.random() < 0.1 else [])),
                  "eol": rng.random() < 0.5}
            if op["do"] == "direct" and rng.random() < p_fault:
                op["full"] = rng.choice([0, 5, 40, 4096])
        ops.append(op)
    return {"cfg": cfg, "ops": ops, "faults": []}


def large(rng):
    """Megabytes in one capture, in several streams."""
    plan = generate(rng, "quick")
    for op in plan["ops"]:
        if "size" in op and "full" not in op and rng.random() < 0.4:
            op["size"] = rng.choice([1_100_000, 4_300_000, 9_000_000])
    return plan


FIXED = (large,) * 12

TOKEN = re.compile(rb"<(\d+)\.([a-z]*\n?)>")


class Token:
    __slots__ = ("id", "chan", "written", "reached", "data")


class Dest:
    def __init__(self, name):
        self.name = name
        self.tokens = []


class Stream:
    def __init__(self, k, d):
        self.k = k
        self.kind = d["kind"]
        mem = os.memfd_create(f"dest{k}")
        self.keep = mem
        if d["std"]:
            self.fd = os.dup2(mem, 1)
        else:
            self.fd = os.dup(mem)
        if self.kind in ("text", "line"):
            self.f = open(self.fd, "w", buffering=1 if self.kind == "line" else -1, newline="",
                          encoding="ascii", closefd=False)
        elif self.kind == "binary":
            self.f = open(self.fd, "wb", closefd=False)
        else:
            self.f = open(self.fd, "wb", buffering=0, closefd=False)
        self.dests = [Dest("original")]
        self.captures = []  # (context manager, out)
        self.pending = []

    def flushed(self, clock):
        for t in self.pending:
            t.reached = clock
        self.pending = []

    def content(self):
        n = os.fstat(self.keep).st_size
        return os.pread(self.keep, n, 0) if n else b""


def open_fds():
    out = {}
    for name in os.listdir("/proc/self/fd"):
        try:
            st = os.fstat(int(name))
        except OSError:
            continue
        out[int(name)] = (st.st_dev, st.st_ino)
    return out


def lowest_free():
    fd = os.dup(2)
    os.close(fd)
    return fd


def execute(run):
    plan = run.plan
    cfg = plan["cfg"]
    job = run.job(cfg["users"], cfg)
    util = job.universes[0].util
    scratch = tempfile.mkdtemp(dir=SCRATCH[0])
    tempfile.tempdir = scratch
    streams = [Stream(k, d) for k, d in enumerate(cfg["streams"])]
    clock = [0]
    soft, hard = resource.getrlimit(resource.RLIMIT_NOFILE)
    fsoft, fhard = resource.getrlimit(resource.RLIMIT_FSIZE)
    base = open_fds()

    def verify(kind, tokens, data, what):
        """data is exactly the tokens, in an order the writes allow."""
        pos, got = 0, []
        while pos < len(data):
            m = TOKEN.match(data, pos)
            ensure(m is not None, kind + ":garbled", lambda: f"{what}: at {pos} {data[pos:pos + 60]!r}")
            got.append((int(m.group(1)), m.group(0)))
            pos = m.end()
        want = {t.id: t for t in tokens}
        ids = [i for i, _ in got]
        missing = sorted(set(want) - set(ids))
        extra = sorted(set(ids) - set(want))
        ensure(not missing, kind + ":missing", f"{what}: writes {missing[:8]} are missing")
        ensure(not extra, kind + ":extra", f"{what}: writes {extra[:8]} do not belong here")
        ensure(len(ids) == len(want), kind + ":twice", f"{what}: {ids[:40]}")
        seq = [want[i] for i in ids]
        for (i, raw), t in zip(got, seq):
            ensure(raw == t.data, kind + ":garbled", f"{what}: write {i}")
        last = {}
        for pos, t in enumerate(seq):
            ensure(last.get(t.chan, -1) < t.written, kind + ":order", f"{what}: {ids[:40]}")
            last[t.chan] = t.written
        # what had reached the descriptor before something else was written comes first
        earliest = 1 << 61  # when the first of the later ones had reached it
        for t in reversed(seq):
            ensure(earliest >= t.written, kind + ":order", f"{what}: {ids[:40]}")
            earliest = min(earliest, t.reached)

    def quiet(what):
        """No capture is active anywhere: everything is as at the start."""
        if any(s.captures for s in streams):
            return
        now = open_fds()
        ensure(
            now == base, "descriptors",
            lambda: f"{what}: descriptors left open {sorted(set(now) - set(base))}, "
            f"gone {sorted(set(base) - set(now))}, "
            f"elsewhere {sorted(f for f in base if f in now and base[f] != now[f])}",
        )
        left = os.listdir(scratch)
        ensure(not left, "temporary-files", f"{what}: {left}")

    def error(name):
        return StopIteration(7) if name == "StopIteration" else getattr(__import__("builtins"), name)("boom")

    def leave(s, how, what, fault=None):
        cm, out = s.captures.pop()
        dest = s.dests.pop()
        if s.pending:
            run.count("probe:pending-at-exit")
        if fault is not None:
            run.count("fault:no-descriptors")
            resource.setrlimit(resource.RLIMIT_NOFILE, (lowest_free(), hard))
        failed = False
        try:
            if how == "normal":
                try:
                    cm.__exit__(None, None, None)
                except OSError as e:
                    failed = True
                    ensure(fault is not None, "raised:leave", f"{what}: {e!r}")
                except Exception as e:
                    ensure(False, "raised:leave", f"{what}: {e!r}")
            elif how == "abandon":
                run.count("probe:abandoned")
                gen = getattr(cm, "gen", None)
                if gen is not None:
                    gen.close()
                else:
                    cm.__exit__(GeneratorExit, GeneratorExit(), None)
            else:
                e = error(how)
                run.count("probe:left-by-error")
                try:
                    swallowed = cm.__exit__(type(e), e, None)
                except BaseException as got:
                    ensure(got is e or type(got) is type(e) or got.__cause__ is e or got.__context__ is e,
                           "error-replaced", f"{what}: {got!r} for {e!r}")
                else:
                    ensure(not swallowed, "error-swallowed", f"{what}: {e!r}")
        finally:
            resource.setrlimit(resource.RLIMIT_NOFILE, (soft, hard))
        s.flushed(clock[0])
        if dest.tokens:
            run.count("probe:captured")
        if not failed:
            verify("captured", dest.tokens, out.getvalue(), what)
        st, now = os.fstat(s.fd), None
        if not s.captures:
            now = os.fstat(s.keep)
            ensure((st.st_dev, st.st_ino) == (now.st_dev, now.st_ino), "not-restored", what)

    def program(ctx):
        for i, op in enumerate(plan["ops"]):
            s = streams[op["s"]]
            if cfg["streams"][op["s"]]["user"] != ctx.rank:
                continue
            ctx.think()
            clock[0] += 1
            do = op["do"]
            what = f"operation {i} ({do}) on stream {s.k}"
            if sum(1 for x in streams if x.captures) > 1:
                run.count("probe:interleaved")
            if do == "enter":
                if s.pending:
                    run.count("probe:pending-at-entry")
                fault = op.get("fault")
                cm = util.capture_stream(s.f)
                before = open_fds()
                if fault == "fds":
                    run.count("fault:no-descriptors")
                    resource.setrlimit(resource.RLIMIT_NOFILE, (lowest_free() + op["k"], hard))
                elif fault == "tmp":
                    run.count("fault:no-temporary-directory")
                    tempfile.tempdir = os.path.join(scratch, "missing")
                try:
                    out = cm.__enter__()
                except OSError as e:
                    ensure(fault is not None, "raised:enter", f"{what}: {e!r}")
                    run.count("probe:refused-entry")
                    out = None
                except Exception as e:
                    ensure(False, "raised:enter", f"{what}: {e!r}")
                finally:
                    resource.setrlimit(resource.RLIMIT_NOFILE, (soft, hard))
                    tempfile.tempdir = scratch
                if out is None:
                    del cm
                    after = open_fds()
                    ensure(after == before, "descriptors",
                           f"{what}: {sorted(set(after) ^ set(before))} after a refused entry")
                else:
                    s.flushed(clock[0])
                    s.captures.append((cm, out))
                    s.dests.append(Dest(f"capture {i}"))
                    if len(s.captures) > 1:
                        run.count("probe:nested-same-stream")
            elif do == "leave":
                if s.captures:
                    leave(s, op["how"], what, op.get("fault"))
            elif do == "flush":
                s.f.flush()
                s.flushed(clock[0])
            else:
                t = Token()
                t.id, t.written, t.reached = i, clock[0], 1 << 60
                body = b"abcdefghijklmnopqrstuvwxyz"[i % 26 : i % 26 + 1] * op["size"]
                t.data = b"<%d.%s%s>" % (i, body, b"\n" if op["eol"] else b"")
                t.chan = do
                if op["size"] > 70000:
                    run.count("probe:big")
                if do == "buffer" and s.kind not in ("text", "line"):
                    t.chan = do = "python"
                if do == "direct":
                    data = t.data
                    if "full" in op:
                        run.count("fault:full-disk")
                        resource.setrlimit(resource.RLIMIT_FSIZE, (op["full"], fhard))
                    try:
                        n = os.write(s.fd, data)
                    except OSError as e:
                        ensure(e.errno == errno.EFBIG, "write-failed", f"{what}: {e!r}")
                        n = None
                    finally:
                        resource.setrlimit(resource.RLIMIT_FSIZE, (fsoft, fhard))
                    if n is not None and n < len(data):
                        run.count("probe:short-write")
                    while n is not None and n < len(data):
                        n += os.write(s.fd, data[n:])
                    if n is None:
                        continue
                    t.reached = clock[0]
                elif do == "buffer":
                    s.f.buffer.write(t.data)
                    s.pending.append(t)
                elif s.kind in ("text", "line"):
                    s.f.write(t.data.decode())
                    s.pending.append(t)
                else:
                    s.f.write(t.data)
                    s.pending.append(t)
                    if s.kind == "raw":
                        s.flushed(clock[0])
                s.dests[-1].tokens.append(t)
            job.sim.log("op", i, do, len(s.captures), os.fstat(s.fd).st_ino == os.fstat(s.keep).st_ino)
            quiet(what)
        return True

    try:
        job.start(program)
        job.universes[0].activate()
        for s in streams:
            while s.captures:
                clock[0] += 1
                leave(s, "normal", f"end, stream {s.k}")
        quiet("end")
        for s in streams:
            s.f.flush()
            s.flushed(clock[0])
            verify("original", s.dests[0].tokens, s.content(), f"original of stream {s.k}")
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def simplify(plan):
    p = copy.deepcopy(plan)
    for s in p["cfg"]["streams"]:
        s["std"] = False
    if p != plan:
        yield p
    for i, s in enumerate(plan["cfg"]["streams"]):
        if s["kind"] != "text":
            p = copy.deepcopy(plan)
            p["cfg"]["streams"][i]["kind"] = "text"
            yield p
    for i, op in enumerate(plan["ops"]):
        for k, simple in (("size", 1), ("eol", False), ("how", "normal")):
            if k in op and op[k] != simple:
                p = copy.deepcopy(plan)
                p["ops"][i][k] = simple
                yield p
        if "fault" in op:
            p = copy.deepcopy(plan)
            del p["ops"][i]["fault"]
            yield p


def nontrivial(stats):
    return stats.get("probe:captured", 0) > 0
