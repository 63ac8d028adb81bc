"""Mutation campaign (development aid, not a registered check).

python3 tools/mutate.py N [SEED] [FILE-PATTERN]

Small changes of the source are applied to scratch copies; those which pass
the existing tests are handed to the checks that execute the changed
function.  Results: /tmp/mut/results.jsonl
"""
import ast
import concurrent.futures as cf
import fnmatch
import glob
import json
import os
import random
import shutil
import subprocess
import sys
import threading

REPO, ROOT = "/repo", os.path.dirname(os.path.dirname(
    os.path.abspath(__file__)))
SRC = "src/oemof/solph"
BASE = "/tmp/mut"
WORKERS = 6
SKIP = ("_console_scripts.py", "__init__.py", "_helpers.py", "helpers.py")
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">",
       ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is",
       ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*",
       ast.Pow: "*"}
NAMES = {"inputs": "outputs", "outputs": "inputs", "minimum": "maximum",
         "maximum": "minimum", "inflow_conversion_factor":
         "outflow_conversion_factor", "outflow_conversion_factor":
         "inflow_conversion_factor", "first": "last", "last": "first",
         "invest": "total", "total": "invest", "old": "total",
         "min": "max", "max": "min", "startup": "shutdown",
         "shutdown": "startup", "nonconvex": "investment",
         "tsam_weighting": "timeincrement",
         "objective_weighting": "timeincrement",
         "timeincrement": "objective_weighting",
         "TIMESTEPS": "TIMEPOINTS", "lifetime": "age", "age": "lifetime"}


def mutants(path):
    text = open(path).read()
    tree = ast.parse(text)
    lines = text.splitlines(keepends=True)
    offs = [0]
    for ln in lines:
        offs.append(offs[-1] + len(ln.encode()))
    raw = text.encode()
    pos = lambda r, c: offs[r - 1] + c
    span = lambda n: (pos(n.lineno, n.col_offset),
                      pos(n.end_lineno, n.end_col_offset))
    seg = lambda n: raw[slice(*span(n))].decode()
    out = []

    def put(n, new, kind, func):
        a, b = span(n)
        out.append(dict(file=path, line=n.lineno, a=a, b=b, new=new,
                        old=raw[a:b].decode(), kind=kind, func=func))

    def walk(n, func, quiet):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            func = f"{func}.{n.name}" if func else n.name
            if n.name.startswith("__") and n.name != "__init__" or (
                    n.name in ("warn", "plot_partload")):
                return
        if isinstance(n, (ast.Raise, ast.Import, ast.ImportFrom)):
            return
        if isinstance(n, ast.Assign) and isinstance(
                n.targets[0], ast.Name) and n.targets[0].id in (
                "msg", "e1", "e2", "e3", "error_msg"):
            return
        if isinstance(n, ast.Call) and seg(n.func).split(".")[-1] in (
                "warn", "info", "debug", "warning"):
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = n.left, n.comparators[0]
            put(n, f"{seg(l)} {CMP[type(n.ops[0])]} {seg(r)}", "cmp", func)
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            put(n, f"(({seg(n.left)}) {BIN[type(n.op)]} ({seg(n.right)}))",
                "bin", func)
            if isinstance(n.op, (ast.Add, ast.Mult, ast.Div, ast.Sub)):
                put(n, f"({seg(n.left)})", "left", func)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (
                ast.USub, ast.Not)):
            put(n, f"({seg(n.operand)})", "unary", func)
        if isinstance(n, ast.Constant) and not isinstance(n.value, str):
            if n.value is True or n.value is False:
                put(n, str(not n.value), "const", func)
            elif isinstance(n.value, (int, float)):
                put(n, f"({n.value} + 1)", "const", func)
                if n.value == 1:
                    put(n, "0", "const", func)
        if isinstance(n, ast.BoolOp):
            w = " or " if isinstance(n.op, ast.And) else " and "
            put(n, "(" + w.join(f"({seg(v)})" for v in n.values) + ")",
                "bool", func)
        if isinstance(n, ast.Attribute) and n.attr in NAMES:
            put(n, f"{seg(n.value)}.{NAMES[n.attr]}", "attr", func)
        if isinstance(n, ast.Subscript):
            sl = n.slice
            els = sl.elts if isinstance(sl, ast.Tuple) else [sl]
            for e in els:
                if isinstance(e, ast.Name) and e.id in ("t", "p", "g", "i",
                                                        "k"):
                    put(e, "0", "index", func)
                    put(e, f"({e.id} - 1)", "index", func)
            if isinstance(sl, ast.Tuple) and len(sl.elts) >= 2 and all(
                    isinstance(x, ast.Name) for x in sl.elts[:2]):
                a, b = sl.elts[:2]
                out.append(dict(file=path, line=n.lineno, a=span(a)[0],
                                b=span(b)[1], new=f"{b.id}, {a.id}",
                                old=f"{a.id}, {b.id}", kind="swap",
                                func=func))
        if isinstance(n, ast.If):
            put(n.test, "True", "if", func)
            put(n.test, "False", "if", func)
        if isinstance(n, ast.IfExp):
            put(n.test, "True", "if", func)
            put(n.test, "False", "if", func)
        if isinstance(n, (ast.AugAssign,)) or (
                isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)
                and not seg(n.value.func).split(".")[-1] in (
                    "warn", "info", "debug", "warning", "__init__")):
            put(n, "pass", "drop", func)
        if isinstance(n, (ast.Continue, ast.Break)):
            put(n, "pass", "drop", func)
        for c in ast.iter_child_nodes(n):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and (
                    c in n.decorator_list):
                continue
            walk(c, func, quiet)

    walk(tree, "", False)
    return out


def apply(m, root):
    rel = os.path.relpath(m["file"], REPO)
    raw = open(m["file"], "rb").read()
    new = raw[:m["a"]] + m["new"].encode() + raw[m["b"]:]
    try:
        compile(new, rel, "exec")
    except SyntaxError:
        return False
    with open(os.path.join(root, rel), "wb") as f:
        f.write(new)
    return True


def restore(m, root):
    rel = os.path.relpath(m["file"], REPO)
    shutil.copy(m["file"], os.path.join(root, rel))


def env(root, *more):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
             MPLBACKEND="Agg", OMP_NUM_THREADS="1",
             PATH="/opt/venv/bin:" + os.environ["PATH"])
    e["PYTHONPATH"] = ":".join([os.path.join(root, "src"), *more])
    return e


def tests(root):
    try:
        r = subprocess.run(
            ["/opt/venv/bin/python", "-m", "pytest", "-x", "-q", "-p",
             "no:cacheprovider", "--timeout=120"], cwd=root,
            env=env(root, os.path.join(root, "tests")), timeout=300,
            capture_output=True)
        return r.returncode == 0
    except subprocess.TimeoutExpired:
        return False


COST = {}
PREF = [  # checks to be tried first
    ("_investment_flow_block", ["S05", "S07", "S29", "S33", "S06"]),
    ("_invest_non_convex", ["S05", "S07", "S08", "S09", "S10"]),
    ("_non_convex", ["S09", "S08", "S10"]),
    ("_shared", ["S09", "S08", "S10"]),
    ("_simple_flow_block", ["S02", "S03", "S04"]),
    ("_generic_storage", ["S16", "S17", "S18", "S07", "S19"]),
    ("_results", ["S25", "S28"]), ("processing", ["S26", "S27", "S29"]),
    ("_flow.py", ["S33", "S36", "S02"]), ("_options", ["S33", "S36"]),
    ("_energy_system", ["S35"]), ("_models", ["S35", "S24"]),
]


def coverage():
    cov = {}
    for f in glob.glob(os.path.join(ROOT, "evidence", "S*.json")):
        if "debug" in f:
            continue
        e = json.load(open(f))
        COST[e["property"]] = e["wall_s"]
        for fn in e["coverage"]["functions_encoded"]:
            cov.setdefault(fn, set()).add(e["property"])
    return cov




def relevant(m, cov):
    mod = os.path.relpath(m["file"], os.path.join(REPO, SRC))
    mod = mod.removesuffix(".py").replace("/", ".")
    fs = [k for k in cov if k.startswith(mod + ":")]
    parts = m["func"].split(".")
    best, n = set(), 0
    for k in fs:
        q = [x for x in k.split(":")[1].split(".") if x != "<locals>"]
        c = 0
        for x, y in zip(q, parts):
            if x != y:
                break
            c += 1
        if c > n:
            best, n = set(cov[k]), c
        elif c == n and n:
            best |= cov[k]
    exact = best
    pref = next((v for k, v in PREF if k in m["file"]), [])
    pref = [p for p in pref if p in exact]
    rest = sorted(exact - set(pref), key=lambda p: COST[p])
    return pref + [p for p in rest if COST[p] < 60]


def check(p, root):
    try:
        r = subprocess.run(
            ["/opt/venv/bin/python", "-m", "symsolph.cli", p, "--serial"], cwd=root,
            env=env(root, ROOT), timeout=900, capture_output=True,
            text=True)
        return r.returncode, r.stdout[-300:]
    except subprocess.TimeoutExpired:
        return 99, "timeout"


def main():
    n = int(sys.argv[1])
    seed = int(sys.argv[2]) if len(sys.argv) > 2 else 1
    pat = sys.argv[3] if len(sys.argv) > 3 else "*"
    files = [f for f in glob.glob(f"{REPO}/{SRC}/**/*.py", recursive=True)
             if os.path.basename(f) not in SKIP and fnmatch.fnmatch(f, pat)]
    ms = [m for f in sorted(files) for m in mutants(f)]
    print(len(ms), "mutants in", len(files), "files")
    done = set()
    res = f"{BASE}/results.jsonl"
    if os.path.exists(res):
        for ln in open(res):
            d = json.loads(ln)
            done.add((d["file"], d["line"], d["old"], d["new"]))
    random.Random(seed).shuffle(ms)
    ms = [m for m in ms if (m["file"], m["line"], m["old"], m["new"])
          not in done][:n]
    cov = coverage()
    roots = []
    for i in range(WORKERS):
        w = f"{BASE}/w{i}"
        if os.path.exists(w):
            shutil.rmtree(w)
        os.makedirs(w)
        for x in ("src", "tests", "docs"):
            shutil.copytree(f"{REPO}/{x}", f"{w}/{x}", symlinks=True)
        [shutil.copy(x, w) for x in glob.glob(f"{REPO}/*.*")]
        roots.append(w)
    lock = threading.Lock()
    out = open(res, "a")

    def work(m):
        with lock:
            root = roots.pop()
        try:
            if not apply(m, root):
                return
            m["tests"] = tests(root)
            if m["tests"]:
                m["relevant"] = relevant(m, cov)
                m["caught"] = None
                m["broken"] = []
                for p in m["relevant"]:
                    rc, tail = check(p, root)
                    if rc == 1:
                        m["caught"] = p
                        break
                    if rc:
                        m["broken"].append((p, rc, tail))
            with lock:
                out.write(json.dumps(m) + "\n")
                out.flush()
        finally:
            restore(m, root)
            with lock:
                roots.append(root)

    with cf.ThreadPoolExecutor(WORKERS) as ex:
        list(ex.map(work, ms))


if __name__ == "__main__":
    main()
