"""Seeded batches of runs, minimisation, replay files and evidence."""
import copy
import gc
import importlib
import json
import os
import random
import select
import signal
import sys
import time
import traceback
import zlib

REAL = time.perf_counter
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("VERIF_OUT", "") or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JOBS = int(os.environ.get("VERIF_JOBS", "8"))


class CheckError(Exception):
    pass


def prepare(prop, universes=None):
    """Everything a run needs that is the same for all runs (before forking)."""
    import warnings

    warnings.simplefilter("ignore")
    from . import job, store, universe

    job.install()
    import numcodecs.blosc

    numcodecs.blosc.use_threads = False
    numcodecs.blosc.set_nthreads(1)
    store.register()
    getattr(prop, "prepare", lambda: None)()
    universe.pool(universes if universes is not None else getattr(prop, "UNIVERSES", 24))
    gc.collect()
    gc.freeze()


def seed_of(prop_id, seed, index):
    return zlib.crc32(f"{prop_id}/{seed}/{index}".encode()) | (index << 32)


def one_run(prop, spec):
    """Execute one run in this process. spec: plan, seed, [choices], [trace]."""
    from . import core, job

    choices = core.Choices(spec["seed"], spec.get("choices"))
    run = job.Run(copy.deepcopy(spec["plan"]), choices, spec.get("trace", False))
    out = {"violation": None, "harness": None}
    try:
        prop.execute(run)
    except core.Violation as v:
        out["violation"] = v.kind
        out["message"] = str(v.message)[:6000]
        out["choices"] = choices.log
    except BaseException as e:
        if core.from_package(e):
            v = core.uncaught(e)
            out["violation"], out["message"], out["choices"] = v.kind, v.message, choices.log
        else:
            out["harness"] = traceback.format_exc()[-6000:]
    out["digest"] = f"{run.digest:08x}-{zlib.crc32(repr(choices.log).encode()):08x}"
    out["stats"] = run.stats
    out["steps"] = run.steps
    out["sim_time"] = run.sim_time
    if spec.get("trace"):
        out["trace"] = run.trace[-400:]
    return out


class Child:
    __slots__ = ("pid", "fd", "chunks", "spec", "start", "limit", "tag")


def spawn(prop, spec, tag, limit):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            null = os.open(os.devnull, os.O_RDWR)
            for fd in (0, 1, 2):
                if fd != 2 or not os.environ.get("VERIF_DEBUG"):
                    os.dup2(null, fd)
            if spec.get("index") is not None and "plan" not in spec:
                spec = planned(prop, spec)
            out = one_run(prop, spec)
            out["plan"] = spec["plan"] if out["violation"] or out["harness"] or spec.get("want_plan") else None
            data = json.dumps(out, default=str).encode()
            while data:
                n = os.write(w, data)
                data = data[n:]
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(0)
    os.close(w)
    c = Child()
    c.pid, c.fd, c.chunks, c.spec, c.tag = pid, r, [], spec, tag
    c.start, c.limit = REAL(), limit
    return c


def planned(prop, spec):
    rng = random.Random(spec["seed"])
    fixed = getattr(prop, "FIXED", ())
    if spec["index"] < len(fixed):
        plan = fixed[spec["index"]](rng)
    else:
        plan = prop.generate(rng, spec.get("tier", "quick"))
    return {**spec, "plan": plan}


def reap(c):
    os.close(c.fd)
    try:
        os.kill(c.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    _, status = os.waitpid(c.pid, 0)
    return status


def run_many(prop, specs, jobs=JOBS, limit=60.0):
    """Yield (tag, spec, result) as runs finish; specs is an iterator of (tag, spec).

    result is None when the process died, 'hang' when it exceeded its time limit.
    The caller may send() nothing; closing the generator kills what is running.
    """
    live = {}
    poller = select.poll()
    specs = iter(specs)
    exhausted = False
    try:
        while True:
            while not exhausted and len(live) < jobs:
                try:
                    tag, spec = next(specs)
                except StopIteration:
                    exhausted = True
                    break
                c = spawn(prop, spec, tag, limit)
                live[c.fd] = c
                poller.register(c.fd, select.POLLIN | select.POLLHUP)
            if not live:
                return
            for fd, _ in poller.poll(500):
                c = live[fd]
                data = os.read(fd, 1 << 20)
                if data:
                    c.chunks.append(data)
                    continue
                poller.unregister(fd)
                del live[fd]
                reap(c)
                try:
                    result = json.loads(b"".join(c.chunks))
                except ValueError:
                    result = None
                yield c.tag, c.spec, result
            now = REAL()
            for fd, c in list(live.items()):
                if now - c.start > c.limit:
                    poller.unregister(fd)
                    del live[fd]
                    reap(c)
                    yield c.tag, c.spec, "hang"
    finally:
        for c in live.values():
            reap(c)


def run_alone(prop, spec, limit=180.0):
    for _, _, result in run_many(prop, [(0, spec)], 1, limit):
        return result


def settle(prop, spec, result):
    """A result that is not a proper one is tried again alone, then classified."""
    if isinstance(result, dict):
        return result
    again = run_alone(prop, spec, 120.0)
    if isinstance(again, dict):
        return again
    full = spec if "plan" in spec else planned(prop, spec)
    kind = "no-progress:hang" if again == "hang" else "process-died"
    return {
        "violation": kind, "harness": None, "message": "the run never finished" if again == "hang"
        else "the process running the simulation died", "plan": full["plan"], "choices": [],
        "digest": "", "stats": {}, "steps": 0, "sim_time": 0.0, "unminimised": True,
    }


# -- minimisation -----------------------------------------------------------------------

def list_paths(plan):
    """The lists of a plan that may be shortened."""
    return [k for k in ("faults", "ops") if isinstance(plan.get(k), list)]


def candidates(prop, plan):
    for key in list_paths(plan):
        items = plan[key]
        size = len(items)
        while size >= 1:
            for i in range(0, len(items), size):
                if len(items[i : i + size]) == len(items) and key == "ops":
                    continue
                p = copy.deepcopy(plan)
                del p[key][i : i + size]
                yield p
            size //= 2
    yield from getattr(prop, "simplify", lambda p: ())(copy.deepcopy(plan))
    cfg = plan.get("cfg", {})
    for k, simple in (("policy", "ascending"), ("send", "eager"), ("coll", "never"), ("latency", False)):
        if k in cfg and cfg[k] != simple:
            p = copy.deepcopy(plan)
            p["cfg"][k] = simple
            yield p


def first_success(prop, specs, kind, deadline):
    """The earliest spec in order that still shows the violation (evaluated in parallel)."""
    specs = list(specs)
    done = {}
    best = None
    gen = run_many(prop, list(enumerate(specs)), JOBS, 30.0)
    for tag, spec, result in gen:
        if isinstance(result, dict) and result["violation"] == kind:
            if best is None or tag < best[0]:
                best = (tag, spec, result)
        done[tag] = True
        if best is not None and all(i in done for i in range(best[0])):
            break
        if REAL() > deadline:
            break
    gen.close()
    return best


def minimise(prop, spec, result, budget=40.0):
    """A smaller plan and choice list with the same violation."""
    deadline = REAL() + budget
    kind = result["violation"]
    plan, seed = result["plan"], spec["seed"]
    choices = result["choices"]
    improved = True
    while improved and REAL() < deadline:
        improved = False
        cands = []
        seen = set()
        for p in candidates(prop, plan):
            s = json.dumps(p, sort_keys=True)
            if s in seen or s == json.dumps(plan, sort_keys=True):
                continue
            seen.add(s)
            cands.append(p)
            if len(cands) >= 240:
                break
        specs = []
        for p in cands:
            specs.append({"plan": p, "seed": seed, "choices": []})
            specs.append({"plan": p, "seed": seed})
        best = first_success(prop, specs, kind, deadline)
        if best is not None:
            plan = best[1]["plan"]
            result = best[2]
            choices = result["choices"]
            improved = True
    # then the schedule
    while choices and REAL() < deadline:
        specs = []
        n = len(choices)
        cuts = sorted({0, n // 8, n // 4, n // 2, 3 * n // 4, n - 1})
        for c in cuts:
            specs.append({"plan": plan, "seed": seed, "choices": choices[:c]})
        size = max(1, n // 8)
        while size >= max(1, n // 64):
            for i in range(0, n, size):
                if any(choices[i : i + size]):
                    specs.append({
                        "plan": plan, "seed": seed,
                        "choices": choices[:i] + [0] * len(choices[i : i + size]) + choices[i + size :],
                    })
            size //= 2
        best = first_success(prop, specs, kind, deadline)
        if best is None:
            break
        new = best[1]["choices"]
        while new and new[-1] == 0:
            new = new[:-1]
        if (len(new), sum(1 for c in new if c)) >= (len(choices), sum(1 for c in choices if c)):
            break
        choices, result = new, best[2]
    return plan, choices, result


# -- a whole check ----------------------------------------------------------------------

def known_findings(prop_id):
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith(f"finding: property={prop_id} signature="):
                sig, _, text = line.split("signature=", 1)[1].partition(" ")
                out.append((sig, text))
    return out


def signature(prop, result):
    f = getattr(prop, "signature", None)
    return f(result) if f else result["violation"]


def write_replay(prop, seed, index, spec_seed, plan, choices, result):
    os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
    path = os.path.join("replays" if OUT == HERE else OUT + "/replays", f"{prop.ID}-{seed}-{index}.json")
    with open(os.path.join(HERE, path), "w") as f:
        json.dump(
            {
                "property": prop.ID, "verif_seed": seed, "run": index, "seed": spec_seed,
                "violation": result["violation"], "message": result.get("message", ""),
                "digest": result.get("digest"), "plan": plan, "choices": choices,
            },
            f, indent=1,
        )
    return path


def replay_fresh(path):
    """Replay a file in a fresh interpreter; returns its JSON result or None."""
    import subprocess

    try:
        p = subprocess.run(
            [sys.executable, os.path.join(HERE, "replay.py"), "--json", os.path.join(HERE, path)],
            stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=300, cwd=HERE,
        )
        return json.loads(p.stdout.decode().strip().splitlines()[-1])
    except Exception:
        return None


def merge(total, stats):
    for k, v in stats.items():
        total[k] = total.get(k, 0) + v


def check(prop_id, tier):
    started = REAL()
    prop = importlib.import_module(f"props.{prop_id.lower()}")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    quota = prop.RUNS[tier]
    cap = {"quick": 300.0, "thorough": 780.0}[tier]
    soft = {"quick": getattr(prop, "QUICK_SECONDS", 60.0), "thorough": 700.0}[tier]
    minimum = max(20, min(quota, prop.RUNS["quick"]) // 8)
    fast = float(os.environ.get("VERIF_FAST", "0"))  # tools/mutate.py: a short look, no minimisation
    if fast:
        soft, minimum = fast, 0
    print(f"{prop_id}: VERIF_SEED={seed} tier={tier} runs<={quota}", flush=True)
    prepare(prop)

    def specs():
        for i in range(len(getattr(prop, "FIXED", ())) if fast else 0, quota):
            el = REAL() - started
            if (el > soft and i >= minimum) or el > cap:
                return
            yield i, {"index": i, "seed": seed_of(prop_id, seed, i), "tier": tier,
                      "want_plan": i < 3}

    stats, digests, nontrivial = {}, set(), set()
    runs, sim_time, steps, samples = 0, 0.0, 0, []
    bad = []
    known = known_findings(prop_id)
    known_hit = {}
    first_bad_at = None
    harness_errors = 0
    gen = run_many(prop, specs(), JOBS)
    for index, spec, result in gen:
        if result == "hang" and bad:
            break  # one of them is enough
        result = settle(prop, spec, result)
        if result["harness"]:
            # no verdict from this run; a violation found by another one still counts
            if not harness_errors:
                print(f"harness error in run {index}:\n{result['harness']}", flush=True)
            harness_errors += 1
            if harness_errors >= 40:
                break
            continue
        runs += 1
        merge(stats, result["stats"])
        sim_time += result["sim_time"]
        steps += result["steps"]
        digests.add(result["digest"])
        if prop.nontrivial(result["stats"]):
            nontrivial.add(result["digest"])
        if index < 3 and result.get("plan") and len(samples) < 3:
            samples.append({"run": index, "seed": spec["seed"], "plan": result["plan"],
                            "steps": result["steps"], "digest": result["digest"],
                            "stats": result["stats"]})
        if result["violation"]:
            sig = signature(prop, result)
            hit = [t for s, t in known if s == sig]
            if hit:
                known_hit[sig] = hit[0]
                continue
            bad.append((index, spec, result))
            if first_bad_at is None:
                first_bad_at = REAL()
            kinds = {b[2]["violation"] for b in bad}
            if len(bad) >= 6 or len(kinds) >= 3 or fast:
                break
        if first_bad_at is not None and REAL() - first_bad_at > 5.0:
            break
    gen.close()
    if fast:
        print(f"{prop_id}: {runs} runs, {sorted({b[2]['violation'] for b in bad})}, {harness_errors} harness errors")
        return 1 if bad else 2 if harness_errors else 0

    search_s = REAL() - started
    violations = 0
    if bad:
        bad.sort(key=lambda b: b[0])
        seen = set()
        for index, spec, result in bad:
            if result["violation"] in seen or len(seen) >= 3:
                continue
            seen.add(result["violation"])
            violations += 1
            plan, choices, final = result["plan"], result["choices"], result
            if not result.get("unminimised"):
                try:
                    plan, choices, final = minimise(prop, spec, result)
                except Exception:
                    traceback.print_exc()
            path = write_replay(prop, seed, index, spec["seed"], plan, choices, final)
            again = None if result.get("unminimised") else replay_fresh(path)
            exact = bool(again) and again["violation"] == final["violation"] and (
                again["digest"] == run_digest(prop, spec["seed"], plan, choices)
            )
            print(f"run {index} (seed {spec['seed']}): {final['violation']}")
            print("  " + final.get("message", "").replace("\n", "\n  "))
            print(f"  replay reproduces in a fresh process: {exact}")
            print(f"VIOLATION property={prop_id} replay={path}", flush=True)
    wall = REAL() - started
    for sig, text in sorted(known_hit.items()):
        print(f"KNOWN-FINDING: property={prop_id} {text}")

    faults = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("fault:")}
    probes = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("probe:")}
    other = {k: v for k, v in sorted(stats.items()) if k[:6] not in ("fault:", "probe:")}
    evidence = {
        "property": prop_id,
        "tier": tier,
        "seed": seed,
        "level": prop.LEVEL,
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(nontrivial),
            "rule": prop.RULE,
            "samples": samples,
            "distinct_executions": len(digests),
            "distinctness_measure": "checksum of the whole event log (every scheduling point, "
            "message, delivery, fault) together with every choice made",
            "runs_per_hour_one_seed_each": round(runs / max(search_s, 1e-9) * 3600),
            "scheduling_steps": steps,
            "simulated_seconds": round(sim_time, 3),
            "faults_injected": faults,
            "probes": probes,
            "counters": other,
            "components_real": prop.REAL,
            "components_simulated": prop.SIMULATED,
        },
        "assumptions": prop.ASSUMPTIONS,
        "wall_s": round(wall, 2),
        "violations": violations,
    }
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", f"{prop_id}.json"), "w") as f:
        json.dump(evidence, f, indent=1)
    print(
        f"{prop_id}: {runs} runs ({len(digests)} distinct), {steps} steps, "
        f"{sim_time:.1f} simulated s, faults {faults}, probes {probes}, {wall:.1f} s"
    )
    if violations:
        return 1
    if harness_errors:
        print(f"{harness_errors} runs ended with a harness error: no verdict")
        return 2
    if runs < minimum:
        print(f"only {runs} runs finished in time: no verdict")
        return 2
    missing = [p for p in getattr(prop, "PROBES", ()) if not stats.get(p)]
    if missing and not known_hit:
        print(f"warning: never reached: {missing}")
    return 0


def run_digest(prop, seed, plan, choices):
    r = run_alone(prop, {"plan": plan, "seed": seed, "choices": choices})
    return r["digest"] if isinstance(r, dict) else None


def replay(path, as_json=False):
    with open(path) as f:
        rec = json.load(f)
    prop = importlib.import_module(f"props.{rec['property'].lower()}")
    prepare(prop)
    spec = {"plan": rec["plan"], "seed": rec["seed"], "trace": not as_json}
    if rec["violation"] not in ("no-progress:hang", "process-died"):
        spec["choices"] = rec["choices"]
    result = settle(prop, spec, run_alone(prop, spec, 120.0))
    if as_json:
        print(json.dumps({k: result[k] for k in ("violation", "digest", "harness")}))
        return 0
    for line in result.get("trace", []):
        print("  ", *line)
    if result["harness"]:
        print(result["harness"])
        return 2
    if result["violation"]:
        print(f"{result['violation']}\n{result.get('message', '')}")
        print(f"same violation as recorded: {result['violation'] == rec['violation']}")
        print(f"VIOLATION property={rec['property']} replay={path}")
        return 1
    print("the property held in this execution")
    return 0
