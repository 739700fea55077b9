"""The mock communicator behaves like MPI or refuses, never differs silently."""
import copy

import numpy as np

from simkit import fields
from simkit.job import ensure

from . import common

ID = "C17"
LEVEL = "exploration"
RUNS = {"quick": 3000, "thorough": 100000}
QUICK_SECONDS = 30.0
UNIVERSES = 7
RULE = (
    "each run: a random program of 3-60 sends, receives (blocking or not, with tags), waits, "
    "broadcasts, scatters, gathers with any root and barriers of 1-6 ranks, correct for MPI, is run on "
    "the simulated MPI and on DummyComm, where ranks take turns in a seeded order and repeat calls "
    "that say they cannot proceed; everything received is compared; non-trivial: data was compared "
    "and a call was repeated; distinct: different event-log checksum"
)
REAL = ["fv3gfs.util testing/dummy_comm.py, utils.py as in /repo"]
SIMULATED = ["order of the ranks", "MPI, as the reference model (simkit/mpi.py)"]
ASSUMPTIONS = [
    "the two sides of a message use the same shape, dtype and memory order",
    "programs are deadlock-free with buffered sends",
    "random programs keep clear of the known findings (known_findings.txt): one tag, one Gather, waits "
    "in posting order and once, no changes to what bcast returned, non-root ranks after the root; fixed "
    "programs show each finding",
]
PROBES = ("probe:repeated-call", "probe:irecv", "probe:any-tag", "probe:refused-root", "probe:not-contiguous")
SHAPES = [[1], [3], [2, 3], [2, 2, 2], [4, 1]]
DTYPES = ["float64", "int64", "float32", "int32", "bool", "complex128"]


def fixed_plan(finding, n, ops, policy="ascending"):
    base = {"shape": [2], "dtype": "int64", "mem": "C"}
    ops = [dict(base, **op) if op["do"] in ("send", "recv", "irecv") else op for op in ops]
    cfg = {"policy": policy, "send": "eager", "coll": "never", "latency": False, "ranks": n, "one_process": False}
    return lambda rng: {"cfg": cfg, "ops": ops, "faults": [], "finding": finding}


def _send(tag, **k):
    return {"do": "send", "rank": 0, "to": 1, "tag": tag, **k}


def _recv(tag, **k):
    return {"do": "recv", "rank": 1, "source": 0, "tag": tag, **k}


def _irecv(req):
    return {"do": "irecv", "rank": 1, "source": 0, "tag": 0, "req": req}


def _wait(req, again=False):
    return {"do": "wait", "rank": 1, "req": req, "again": again}


def _coll(do, **k):
    return {"do": do, "root": 0, "shape": [2], "dtype": "int64", **k}


# one program for each way in which the mock is known to differ from MPI (known_findings.txt)
FIXED = (
    fixed_plan("early-collective", 2, [_coll("bcast", what="int", modify=False)], "descending"),
    fixed_plan("early-scatter", 2, [_coll("scatter")], "descending"),
    fixed_plan("early-recv", 2, [_send(0), _recv(0), {"do": "send", "rank": 1, "to": 0, "tag": 0},
                                 {"do": "recv", "rank": 0, "source": 1, "tag": 0}, _send(0), _recv(0)], "descending"),
    fixed_plan("two-gathers", 2, [_coll("gather"), _coll("gather")]),
    fixed_plan("tags", 2, [_send(0), _send(1), _recv(1), _recv(0)]),
    fixed_plan("waits-out-of-order", 2, [_send(0), _send(0), _irecv(0), _irecv(1), _wait(1), _wait(0)]),
    fixed_plan("recv-after-irecv", 2, [_send(0), _send(0), _irecv(0), _recv(0), _wait(0)]),
    fixed_plan("waited-twice", 2, [_send(0), _send(0), _irecv(0), _wait(0, True), _recv(0)]),
    fixed_plan("bcast-shared", 2, [_coll("bcast", what="dict", modify=True)]),
)


def signature(result):
    finding = (result.get("plan") or {}).get("finding")
    return f"{finding}:{result['violation']}" if finding else result["violation"]


def generate(rng, tier):
    n = rng.choice([1, 2, 2, 3, 3, 4, 6])
    cfg = {
        "policy": rng.choice(common.POLICIES), "send": "eager", "coll": "never",
        "latency": rng.random() < 0.5, "ranks": n, "one_process": False,
    }
    pairs = {}
    n_tags = 1
    gathers = 0
    unwaited = {}  # pair -> requests of receives not waited for, in posting order
    max_ahead = rng.choice([1, 3, 8])
    unexpected = {}  # pair -> tags of messages sent and not matched
    posted = {}  # pair -> [tag, request] not matched
    pending = []  # requests of receives: (id, rank)
    matched = set()
    sends = []  # requests of sends
    ops = []
    weights = {"send": 6, "recv": 6, "irecv": rng.choice([0, 3]), "wait": 4, "bcast": rng.choice([0, 1, 2]),
               "scatter": rng.choice([0, 1, 2]), "gather": rng.choice([0, 1, 2]), "barrier": 0.3, "bad": 0.3}
    kinds = list(weights)
    n_req = 0

    def match(pair):
        for tag in list(unexpected.get(pair, ())):
            for p in posted.get(pair, ()):
                if p[0] in (None, tag):
                    unexpected[pair].remove(tag)
                    posted[pair].remove(p)
                    matched.add(p[1])
                    break

    def some_pair():
        pair = (rng.randrange(n), rng.randrange(n))
        if pair not in pairs:
            if len(pairs) >= 4:
                return rng.choice(list(pairs))
            pairs[pair] = {"shape": rng.choice(SHAPES), "dtype": rng.choice(DTYPES), "mem": rng.choice("CCF")}
        return pair

    def wait_one(reqs):
        i = rng.choice([0, len(reqs) - 1, rng.randrange(len(reqs))])
        rid, rank = reqs.pop(i)
        ops.append({"do": "wait", "req": rid, "rank": rank, "again": False})
        for q in unwaited.values():
            if rid in q:
                q.remove(rid)

    def in_turn(rid):
        return any(q and q[0] == rid for q in unwaited.values())

    def emit(k):
        nonlocal n_req, gathers
        if k == "send":
            pair = some_pair()
            if len(unexpected.get(pair, ())) >= max_ahead:
                return
            tag = rng.randrange(n_tags)
            op = {"do": "send", "rank": pair[0], "to": pair[1], "tag": tag, **pairs[pair]}
            if rng.random() < 0.4:
                op["req"] = n_req
                sends.append((n_req, pair[0]))
                n_req += 1
            ops.append(op)
            unexpected.setdefault(pair, []).append(tag)
            match(pair)
        elif k == "recv":
            ready = [p for p, t in unexpected.items() if t and not unwaited.get(p)]
            if not ready:
                return
            pair = rng.choice(ready)
            tag = rng.choice(unexpected[pair])
            any_ = rng.random() < 0.15
            # an earlier posted receive that takes any tag would have taken it already
            if any_:
                tag_ = None
                unexpected[pair].pop(0)
            else:
                tag_ = tag
                unexpected[pair].remove(tag)
            ops.append({"do": "recv", "rank": pair[1], "source": pair[0], "tag": tag_, **pairs[pair]})
        elif k == "irecv":
            pair = some_pair()
            if len(posted.get(pair, ())) >= 3:
                return
            tag = None if rng.random() < 0.1 else rng.randrange(n_tags)
            ops.append({"do": "irecv", "rank": pair[1], "source": pair[0], "tag": tag, "req": n_req, **pairs[pair]})
            pending.append((n_req, pair[1]))
            posted.setdefault(pair, []).append((tag, n_req))
            unwaited.setdefault(pair, []).append(n_req)
            n_req += 1
            match(pair)
        elif k == "wait":
            ready = [r for r in pending if r[0] in matched and in_turn(r[0])]
            if ready and (not sends or rng.random() < 0.6):
                r = rng.choice(ready)
                pending.remove(r)
                wait_one([r])
            elif sends:
                wait_one(sends)
        elif k == "bad":
            pair = some_pair()
            ops.append({"do": "bad", "rank": pair[0], "to": pair[1]})
        elif k == "barrier":
            ops.append({"do": "barrier"})
        else:
            if k == "gather":
                gathers += 1
                if gathers > 1:
                    return
            op = {"do": k, "root": 0, "shape": rng.choice(SHAPES), "dtype": rng.choice(DTYPES)}
            if k == "gather" or rng.random() < 0.08:
                op["root"] = rng.randrange(n)
            if k == "bcast":
                op["what"] = rng.choice(["int", "dict", "array", "none", "str"])
                op["modify"] = False
            ops.append(op)

    for _ in range(rng.choice([3, 10, 25, 60])):
        emit(rng.choices(kinds, [weights[x] for x in kinds])[0])
    # finish: every posted receive gets its message, everything is waited for and received
    for pair, ps in posted.items():
        while ps:
            tag = ps[0][0] or 0
            unexpected.setdefault(pair, []).append(tag)
            ops.append({"do": "send", "rank": pair[0], "to": pair[1], "tag": tag, **pairs[pair]})
            match(pair)
    while pending:
        r = next(r for r in pending if in_turn(r[0]))
        pending.remove(r)
        wait_one([r])
    while sends:
        wait_one(sends)
    while any(unexpected.values()):
        emit("recv")
    return {"cfg": cfg, "ops": ops, "faults": []}


def _object(what, n):
    if what == "array":
        return np.arange(3) + 1000 * n
    return {"int": n, "dict": {"n": n, "l": [n, n + 1]}, "none": None, "str": f"s{n}"}[what]


def run_program(ctx, comm, plan, attempt, results):
    """The part of the program one rank executes; ``attempt`` performs one call."""
    rank = ctx.rank
    size = plan["cfg"]["ranks"]
    requests = {}
    seen = results.setdefault(rank, {})

    def data(op, n, shape=None, who=rank):
        out = fields.laid_out(shape or op["shape"], op["dtype"], op.get("mem", "C"))
        c = fields.broadcast([np.arange(k) for k in out.shape])
        out[...] = fields.value_at(n, who, c, op["dtype"])
        return out

    def blank(op, shape=None):
        out = fields.laid_out(shape or op["shape"], op["dtype"], op.get("mem", "C"))
        out[...] = True
        return out

    def tagged(op):
        return {} if op["tag"] is None else {"tag": op["tag"]}

    for n, op in enumerate(plan["ops"]):
        do = op["do"]
        if op.get("rank", rank) != rank:
            continue
        ctx.think()
        if do == "send":
            buf = data(op, n)
            if "req" in op:
                requests[op["req"]] = (attempt(n, lambda: comm.Isend(buf, dest=op["to"], tag=op["tag"])), buf, None)
            else:
                attempt(n, lambda: comm.Send(buf, dest=op["to"], tag=op["tag"]))
                buf[...] = 0  # the caller may reuse it at once
        elif do == "recv":
            buf = blank(op)
            attempt(n, lambda: comm.Recv(buf, source=op["source"], **tagged(op)))
            seen[n] = buf.copy()
            buf[...] = 0
        elif do == "irecv":
            buf = blank(op)
            requests[op["req"]] = (
                attempt(n, lambda: comm.Irecv(buf, source=op["source"], **tagged(op))), buf, n
            )
        elif do == "wait":
            req, buf, m = requests.pop(op["req"])
            attempt(n, req.wait)
            if m is not None:
                seen[m] = buf.copy()
            buf[...] = 0
            if op["again"]:
                attempt(n, req.wait)
                if m is not None:
                    ensure(not buf.any(), "received-twice", f"rank {rank}, operation {n}")
        elif do == "bad":
            buf = np.zeros((4, 4))[1:3, 1:3]
            try:
                comm.Send(buf, dest=op["to"])
            except ValueError:
                seen[n] = "refused"
            else:
                seen[n] = "sent"
        elif do == "barrier":
            attempt(n, comm.barrier)
        elif do == "bcast":
            value = _object(op["what"], n) if rank == op["root"] else None
            got = attempt(n, lambda: comm.bcast(value, root=op["root"]), refusable=op["root"] != 0)
            seen[n] = copy.deepcopy(got)
            if op["modify"] and isinstance(got, np.ndarray):
                got[...] = -1
            if op["modify"] and isinstance(got, dict):
                got["l"].append(rank)
        elif do == "scatter":
            send = None
            if rank == op["root"]:
                send = data(op, n, [size] + op["shape"])
            recv = blank(op)
            refused = attempt(n, lambda: comm.Scatter(send, recv, root=op["root"]), refusable=op["root"] != 0)
            seen[n] = refused if isinstance(refused, str) else recv.copy()
            recv[...] = 0
            if send is not None:
                send[...] = 0
        else:
            send = data(op, n)
            recv = blank(op, [size] + op["shape"]) if rank == op["root"] else None
            attempt(n, lambda: comm.Gather(send, recv, root=op["root"]))
            send[...] = 0
            if recv is not None:
                seen[n] = recv.copy()


def execute(run):
    plan = run.plan
    cfg = plan["cfg"]
    n = cfg["ranks"]
    want, got = {}, {}

    def on_mpi(ctx):
        run_program(ctx, ctx.comm, plan, lambda i, call, refusable=False: call(), want)
        return True

    mpi_job = run.job(n, cfg)
    mpi_job.start(on_mpi)
    mpi_job.check_drained()

    # DummyComm is for one process with all ranks in it
    job = run.job(n, {**cfg, "one_process": True})
    util = job.universes[0].util
    shared = {}
    comms = [util.testing.DummyComm(r, n, shared) for r in range(n)]
    progress = [0]
    waiting = []
    finding = plan.get("finding")
    done_ops = set()
    sent, taken = {}, {}

    def early(i, op, rank):
        """Would the mock mix up an early call (known finding)?"""
        if op["do"] in ("bcast", "scatter"):
            return op["root"] == 0 and rank != 0 and (0, i) not in done_ops
        if op["do"] in ("recv", "wait"):
            pair = pair_of.get(i)
            return pair is not None and sent.get(pair, 0) > 0 and sent[pair] <= taken.get(pair, 0)
        return False

    pair_of, by_req = {}, {}
    for i, op in enumerate(plan["ops"]):
        if op["do"] == "irecv":
            by_req[op["req"]] = (op["source"], op["rank"])
        elif op["do"] == "recv":
            pair_of[i] = (op["source"], op["rank"])
        elif op["do"] == "wait" and op["req"] in by_req:
            pair_of[i] = by_req[op["req"]]

    def on_dummy(ctx):
        task = ctx.task

        def attempt(i, call, refusable=False):
            while True:
                at = progress[0]
                op = plan["ops"][i]
                if not finding and early(i, op, ctx.rank):
                    waiting.append(task)
                    job.sim.block(f"operation {i}: not its turn")
                    continue
                try:
                    result = call()
                except util.testing.ConcurrencyError as e:
                    run.count("probe:repeated-call")
                    job.sim.log("cannot proceed", ctx.rank, i)
                    if progress[0] == at:
                        waiting.append(task)
                        job.sim.block(f"operation {i} {plan['ops'][i]['do']}: {e}")
                    continue
                except NotImplementedError:
                    if refusable:
                        run.count("probe:refused-root")
                        return "refused"
                    raise
                progress[0] += 1
                done_ops.add((ctx.rank, i))
                if op["do"] == "send":
                    pair = (op["rank"], op["to"])
                    sent[pair] = sent.get(pair, 0) + 1
                elif i in pair_of:
                    taken[pair_of[i]] = taken.get(pair_of[i], 0) + 1
                while waiting:
                    job.sim.wake(waiting.pop())
                job.sim.log("done", ctx.rank, i)
                return result

        with ctx.lib("dummy"):
            run_program(ctx, comms[ctx.rank], plan, attempt, got)
        return True

    job.start(on_dummy)
    for r in range(n):
        for i, w in want.get(r, {}).items():
            g = got.get(r, {}).get(i)
            if isinstance(g, str) and g == "refused" and plan["ops"][i]["do"] != "bad":
                continue
            what = f"rank {r}, operation {i} {plan['ops'][i]}"
            kind = "wrong-data:" + plan["ops"][i]["do"]
            run.count("compared")
            if isinstance(w, np.ndarray):
                ensure(isinstance(g, np.ndarray), kind, lambda: f"{what}: {g!r} instead of {w!r}")
                diff = fields.first_difference(g, w)
                ensure(diff is None, kind, lambda: f"{what}: {diff}")
                ensure(g.dtype == w.dtype, kind, what)
            else:
                ensure(type(g) is type(w) and g == w, kind, lambda: f"{what}: {g!r} instead of {w!r}")
    probes(run, plan)


def probes(run, plan):
    order = {}
    gathers = 0
    sent = {}
    reqs = []
    for op in plan["ops"]:
        if op["do"] == "irecv":
            run.count("probe:irecv")
            reqs.append(op["req"])
        if op.get("tag", 0) is None:
            run.count("probe:any-tag")
        if op["do"] == "wait" and op["again"]:
            run.count("probe:waited-twice")
        if op["do"] == "wait" and op["req"] in reqs:
            if reqs[0] != op["req"]:
                run.count("probe:waited-out-of-order")
            reqs.remove(op["req"])
        if op["do"] == "bad":
            run.count("probe:not-contiguous")
        if op["do"] == "gather":
            gathers += 1
        if op["do"] == "send":
            sent.setdefault((op["rank"], op["to"]), []).append(op["tag"])
        if op["do"] == "recv" and op["tag"] is not None:
            q = sent.get((op["source"], op["rank"]), [])
            if q and q[0] != op["tag"]:
                run.count("probe:tags-out-of-order")
            if op["tag"] in q:
                q.remove(op["tag"])
    if gathers > 1:
        run.count("probe:gather-ahead")


def simplify(plan):
    ops = plan["ops"]
    for i, op in enumerate(ops):
        if op.get("shape", [1]) != [1] and op["do"] in ("bcast", "scatter", "gather"):
            p = copy.deepcopy(plan)
            p["ops"][i]["shape"] = [1]
            yield p
    p = copy.deepcopy(plan)
    for op in p["ops"]:
        if "shape" in op:
            op["shape"], op["dtype"] = [1], "int64"
        if "mem" in op:
            op["mem"] = "C"
    if p != plan:
        yield p


def nontrivial(stats):
    return stats.get("compared", 0) > 0 and stats.get("probe:repeated-call", 0) > 0
