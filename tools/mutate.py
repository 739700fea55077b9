"""mutate.py OUT [-t] [-j N] [-s SECONDS] [file ...]: small automatic changes, and which check notices.

Every change is made in a scratch copy of /repo.  The checks that concern the file get a few
seconds each, in order, until one reports a violation.  With -t the
package's own tests are run for changes nothing reported; what survives both is worth a look (many such changes alter
nothing).  Results go to OUT, one JSON object per line; changes already in it are skipped.
"""
import ast
import concurrent.futures
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import threading

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
UTIL = "fv3gfs/util/"
CHECKS = {
    "communicator.py": "C01 C02 C03 C07 C08 C04 C05 C06 C12 C16",
    "buffer.py": "C13 C07 C04 C06 C05",
    "boundary.py": "C01 C02 C03", "_boundary_utils.py": "C01 C02 C03 C16", "rotate.py": "C01 C02 C03",
    "partitioner.py": "C07 C01 C09 C02 C12 C16",
    "zarr_monitor.py": "C09 C10 C16", "io.py": "C11 C12", "filesystem.py": "C11 C12", "_xarray.py": "C11 C12",
    "_legacy_restart.py": "C12", "quantity.py": "C01 C07 C09 C11 C03 C12 C16", "nudging.py": "C16",
    "_timing.py": "C14 C06", "_capture_stream.py": "C15", "utils.py": "C13 C01 C07 C16",
    "time.py": "C12 C16", "units.py": "C09 C11", "constants.py": "C01 C07 C09",
}
CMP = {ast.Lt: [ast.LtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq],
       ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add], ast.FloorDiv: [ast.Mult], ast.Mod: [ast.FloorDiv],
       ast.Div: [ast.Mult]}


def mutants(source):
    """(description, mutated source) for every small change."""
    tree = ast.parse(source)
    nodes = list(ast.walk(tree))
    seen = set()

    def variants(i, node):
        """functions that change node number i of a copy of the tree"""
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            for new in CMP.get(type(node.ops[0]), ()):
                yield "compare", lambda n, p, new=new: setattr(n, "ops", [new()])
        if isinstance(node, ast.BoolOp):
            new = ast.Or if isinstance(node.op, ast.And) else ast.And
            yield "bool", lambda n, p: setattr(n, "op", new())
            for k in range(len(node.values)):
                yield "drop-operand", lambda n, p, k=k: n.values.pop(k) if len(n.values) > 2 else replace(p, n, n.values[1 - k])
        if isinstance(node, ast.BinOp):
            for new in BIN.get(type(node.op), ()):
                yield "arithmetic", lambda n, p, new=new: setattr(n, "op", new())
            yield "left", lambda n, p: replace(p, n, n.left)
        if isinstance(node, ast.UnaryOp):
            yield "unary", lambda n, p: replace(p, n, n.operand)
        if isinstance(node, (ast.If, ast.IfExp, ast.While)):
            for v in (True, False):
                if not (v and isinstance(node, ast.While)):
                    yield f"if-{v}", lambda n, p, v=v: setattr(n, "test", ast.Constant(v))
        if isinstance(node, ast.Constant):
            if isinstance(node.value, bool):
                yield "constant", lambda n, p: setattr(n, "value", not n.value)
            elif isinstance(node.value, int):
                yield "constant", lambda n, p: setattr(n, "value", n.value + 1)
                yield "constant", lambda n, p: setattr(n, "value", n.value - 1)
            elif isinstance(node.value, str):
                yield "string", lambda n, p: setattr(n, "value", n.value + "x")
        if isinstance(node, ast.Call):
            if len(node.args) >= 2:
                def swap(n, p):
                    n.args[0], n.args[1] = n.args[1], n.args[0]
                yield "swap-arguments", swap
            if len(node.args) == 1 and not isinstance(node.args[0], ast.Starred):
                yield "unwrap", lambda n, p: replace(p, n, n.args[0])
            if isinstance(node.func, ast.Attribute) and not node.args and not node.keywords:
                yield "no-call", lambda n, p: replace(p, n, n.func.value)
            for k in range(len(node.keywords)):
                yield "drop-keyword", lambda n, p, k=k: n.keywords.pop(k)
        if isinstance(node, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete, ast.Raise, ast.Return, ast.Continue, ast.Break)):
            if not (isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)):
                yield "delete", lambda n, p: replace(p, n, ast.Pass())
        if isinstance(node, ast.Try):
            if node.finalbody:
                def drop(n, p):
                    if n.handlers:
                        tail = n.finalbody
                        n.finalbody = []
                        replace(p, n, [n] + tail)
                    else:
                        replace(p, n, n.body + n.finalbody)
                yield "no-finally", drop
            if node.handlers:
                yield "no-except", lambda n, p: replace(p, n, n.body + n.orelse + n.finalbody)
        if isinstance(node, ast.Slice):
            for part in ("lower", "upper", "step"):
                if getattr(node, part) is not None:
                    yield "slice", lambda n, p, part=part: setattr(n, part, None)
        if isinstance(node, (ast.List, ast.Tuple)) and isinstance(getattr(node, "ctx", None), ast.Load) and len(node.elts) == 2:
            yield "swap-items", lambda n, p: n.elts.reverse()
        if isinstance(node, ast.For):
            yield "reverse-loop", lambda n, p: setattr(n, "iter", ast.Call(ast.Name("reversed", ast.Load()), [
                ast.Call(ast.Name("list", ast.Load()), [n.iter], [])], []))
            yield "skip-first", lambda n, p: setattr(n, "iter", ast.Subscript(ast.Call(ast.Name("list", ast.Load()), [n.iter], []),
                                                     ast.Slice(ast.Constant(1), None, None), ast.Load()))
        if isinstance(node, ast.FunctionDef) and node.decorator_list:
            yield "no-decorator", lambda n, p: setattr(n, "decorator_list", [])

    def replace(parent, old, new):
        for field, value in ast.iter_fields(parent):
            if value is old:
                setattr(parent, field, new if not isinstance(new, list) else new)
                return
            if isinstance(value, list) and any(v is old for v in value):
                k = [v is old for v in value].index(True)
                value[k : k + 1] = new if isinstance(new, list) else [new]
                return
        raise LookupError

    skip = set()
    for n in nodes:  # annotations, docstrings, messages of errors and logs
        if isinstance(n, ast.arg) and n.annotation:
            skip.update(id(x) for x in ast.walk(n.annotation))
        if isinstance(n, ast.FunctionDef) and n.returns:
            skip.update(id(x) for x in ast.walk(n.returns))
        if isinstance(n, ast.AnnAssign):
            skip.update(id(x) for x in ast.walk(n.annotation))
        if isinstance(n, ast.Raise) and n.exc:
            skip.update(id(x) for x in ast.walk(n.exc))
        if isinstance(n, ast.Call) and ast.unparse(n.func).startswith(("logger.", "logging.", "warnings.", "cast", "FutureWarning")):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and id(n.value) in skip:
            skip.add(id(n))
        if isinstance(n, ast.FunctionDef) and n.name in ("__repr__", "__str__"):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.Assign) and "__all__" in ast.unparse(n.targets[0]):
            skip.update(id(x) for x in ast.walk(n))
    base = ast.unparse(tree)
    for i, node in enumerate(nodes):
        if id(node) in skip or isinstance(node, (ast.Import, ast.ImportFrom)):
            continue
        for what, change in variants(i, node):
            t = copy.deepcopy(tree)
            target = list(ast.walk(t))[i]
            parent = None
            for p in ast.walk(t):
                for c in ast.iter_child_nodes(p):
                    if c is target:
                        parent = p
            try:
                change(target, parent)
                text = ast.unparse(ast.fix_missing_locations(t))
                compile(text, "x", "exec")
            except (LookupError, SyntaxError, ValueError, AttributeError, TypeError):
                continue
            if text in seen or text == base:
                continue
            seen.add(text)
            old, new = base.splitlines(), text.splitlines()
            k = next((k for k, (a, b) in enumerate(zip(old, new)) if a != b), min(len(old), len(new)) - 1)
            line = getattr(node, "lineno", 0)
            yield f"{line} {what}: {old[k].strip()[:110]} => {new[k].strip()[:110]}", text


def sh(cmd, cwd, env=None, limit=200):
    e = {k: v for k, v in os.environ.items() if k != "PYTHONPATH"}
    e.update(env or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=limit)
        return p.returncode, out.decode(errors="replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.communicate()
        return -1, "timeout"


LOCK = threading.Lock()


def work(job, out, seconds, copies, test_lock):
    path, what, text = job
    with LOCK:
        scratch = copies.pop()
    target = os.path.join(scratch, UTIL, path)
    keep = open(target).read()
    try:
        open(target, "w").write(text)
        rec = {"file": path, "what": what, "by": None, "detail": ""}
        rc, o = sh([PY, "check.py", ",".join(CHECKS[path].split()), "quick"], HERE, {
            "VERIF_REPO": scratch, "VERIF_SEED": "1", "VERIF_FAST": str(seconds), "VERIF_OUT": scratch, "VERIF_JOBS": "3"})
        last = (o.strip().splitlines() or [""])[-1][:200]
        odd = [l for l in o.splitlines() if l.endswith("harness errors") and not l.endswith(" 0 harness errors")]
        if rc == 1 and "runs, [" in last:
            rec.update(by=last[:3], detail=last)
        elif rc == -1:
            rec["odd"] = "timeout"
        elif rc not in (0, 2):
            rec["odd"] = o[-300:]
        if odd:
            rec["odd"] = odd
        if rec["by"] is None and "-t" in sys.argv:
            with test_lock:
                rc, o = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "4", "--timeout=120", "tests", "-x",
                            "--ignore=tests/mpi", "--deselect", "tests/quantity/test_storage.py"], scratch,
                           {"PYTHONPATH": scratch, "PYTHONDONTWRITEBYTECODE": "1", "OMP_NUM_THREADS": "1"}, 400)
            rec["tests"] = "pass" if rc == 0 else (o.strip().splitlines() or [""])[-1][-150:]
        with LOCK:
            open(out, "a").write(json.dumps(rec) + "\n")
    finally:
        open(target, "w").write(keep)
        with LOCK:
            copies.append(scratch)


def main():
    args = sys.argv[1:]
    opts = {"-j": "3", "-s": "6"}
    for o in opts:
        if o in args:
            k = args.index(o)
            opts[o] = args[k + 1]
            del args[k : k + 2]
    args = [a for a in args if a != "-t"]
    out, files = args[0], args[1:] or list(CHECKS)
    n = int(opts["-j"])
    done = set()
    if os.path.exists(out):
        done = {(r["file"], r["what"]) for r in map(json.loads, open(out))}
    copies = []
    root = tempfile.mkdtemp(prefix="mutants_")
    for k in range(n):
        d = os.path.join(root, str(k))
        sh(["cp", "-a", "/repo", d], "/")
        copies.append(d)
    jobs = []
    for f in files:
        source = open(os.path.join("/repo", UTIL, f)).read()
        jobs += [(f, w, t) for w, t in mutants(source) if (f, w) not in done]
    random.Random(1).shuffle(jobs)
    print(len(jobs), "changes", flush=True)
    test_lock = threading.Semaphore(2)
    try:
        with concurrent.futures.ThreadPoolExecutor(n) as pool:
            for f in [pool.submit(work, j, out, float(opts["-s"]), copies, test_lock) for j in jobs]:
                f.result()
    finally:
        shutil.rmtree(root, ignore_errors=True)


main()
