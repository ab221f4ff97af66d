"""Mutation testing of the checks: which changes pass the tests, and which of those do the checks notice?

python3 tools/mutate.py gen OUT.json            list the mutants of the library
python3 tools/mutate.py run OUT.json DIR W N    worker W of N: test the mutants, then run the checks on the survivors

Everything happens in scratch copies below DIR.  Not used by any check.
"""

import ast
import json
import os
import random
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = {
    "treebeard/mp_tree.py": "C01 C02 C03 C05 C04 C06 C15 C08 C09 C10 C11 C12 C07 C16 C24 C14 C21 C13 C23 C19",
    "treebeard/ns_tree.py": "C01 C02 C03 C05 C04 C06 C15 C10 C11 C12 C07 C16 C24 C14 C21 C13 C23",
    "treebeard/al_tree.py": "C01 C02 C03 C05 C04 C06 C15 C11 C07 C16 C24 C14 C21 C13 C23",
    "treebeard/ltree/__init__.py": "C20 C01 C02 C03 C05 C04 C06 C15 C11 C12 C07 C16 C24 C14 C21 C13 C23",
    "treebeard/ltree/fields.py": "C01 C06 C24 C11 C25",
    "treebeard/models.py": "C22 C01 C02 C06 C04 C03 C07 C11 C15 C16 C24 C21 C13 C14 C23",
    "treebeard/utils.py": "C07 C11 C01 C14 C23",
    "treebeard/forms.py": "C17 C18 C26",
    "treebeard/admin.py": "C18 C23",
    "treebeard/templatetags/admin_tree.py": "C18",
    "treebeard/numconv.py": "C19",
    "treebeard/deprecation.py": "C21",
}
SWAP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in",
        ast.Is: "is not", ast.IsNot: "is"}  # fmt: skip
LOOK = {"__gt": "__gte", "__gte": "__gt", "__lt": "__lte", "__lte": "__lt", "__startswith": "__contains", "__in": None}


def seg(src, lines, n):
    a = sum(len(x) for x in lines[: n.lineno - 1]) + n.col_offset
    b = sum(len(x) for x in lines[: n.end_lineno - 1]) + n.end_col_offset
    return a, b


def mutants(path, src):
    lines = src.splitlines(keepends=True)
    tree = ast.parse(src)
    out = []
    for p in ast.walk(tree):
        for c in ast.iter_child_nodes(p):
            c.up = p

    def add(n, new, what):
        a, b = seg(src, lines, n)
        out.append({"file": path, "line": n.lineno, "a": a, "b": b, "new": new, "old": src[a:b], "what": what})

    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in SWAP:
            l, r = ast.unparse(n.left), ast.unparse(n.comparators[0])
            add(n, f"({l} {SWAP[type(n.ops[0])]} {r})", "compare")
        if isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "(" + op.join(f"({ast.unparse(v)})" for v in n.values) + ")", "boolop")
            for k in range(len(n.values)):
                vs = [v for i, v in enumerate(n.values) if i != k]
                o2 = " and " if isinstance(n.op, ast.And) else " or "
                add(n, "(" + o2.join(f"({ast.unparse(v)})" for v in vs) + ")", "drop operand")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, f"({ast.unparse(n.operand)})", "not")
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            s = "-" if isinstance(n.op, ast.Add) else "+"
            add(n, f"({ast.unparse(n.left)} {s} {ast.unparse(n.right)})", "arith")
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.BitOr, ast.BitAnd)):
            add(n, f"({ast.unparse(n.left)})", "left only")
        if isinstance(n, ast.Constant) and type(n.value) is int:
            add(n, str(n.value + 1), "const+1")
        if isinstance(n, ast.Constant) and type(n.value) is bool:
            add(n, str(not n.value), "bool")
        if isinstance(n, ast.If):
            add(n.test, "True", "if True")
            add(n.test, "False", "if False")
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            add(n, "pass", "drop call")
        if isinstance(n, (ast.AugAssign,)) or (isinstance(n, ast.Assign) and not isinstance(n.up, (ast.Module, ast.ClassDef))):
            if isinstance(n, ast.AugAssign) or isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
                add(n, "pass", "drop assign")
        if isinstance(n, ast.Call):
            for i, kw in enumerate(n.keywords):
                if kw.arg is None:
                    continue
                k2 = [k for j, k in enumerate(n.keywords) if j != i]
                m = ast.Call(n.func, n.args, k2)
                add(n, ast.unparse(ast.fix_missing_locations(m)), f"drop {kw.arg}")
                for a, b in LOOK.items():
                    if kw.arg.endswith(a) and b:
                        k3 = [ast.keyword(kw.arg[: -len(a)] + b, kw.value) if j == i else k for j, k in enumerate(n.keywords)]
                        add(n, ast.unparse(ast.fix_missing_locations(ast.Call(n.func, n.args, k3))), f"{kw.arg} -> {b}")
            if isinstance(n.func, ast.Attribute) and n.func.attr in (
                "order_by", "filter", "exclude", "select_for_update", "select_related", "prefetch_related", "distinct", "annotate", "using",
                "reverse", "only", "strip", "values", "copy",
            ):  # fmt: skip
                add(n, ast.unparse(n.func.value), f"drop .{n.func.attr}()")
        if isinstance(n, (ast.FunctionDef,)):
            for d in n.decorator_list:
                if ast.unparse(d) == "atomic":
                    add(d, "(lambda f: f)", "drop @atomic")
        if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            pass
    return out


def gen(out):
    ms = []
    for f in FILES:
        src = open(os.path.join("/repo", f)).read()
        ms += mutants(f, src)
    random.Random(7).shuffle(ms)
    for i, m in enumerate(ms):
        m["id"] = i
    json.dump(ms, open(out, "w"))
    print(len(ms), "mutants")


BIN = "/usr/lib/postgresql/16/bin"


def aspg(d, *cmd):
    return subprocess.run(["setpriv", "--reuid=postgres", "--regid=postgres", "--clear-groups", "env", f"HOME={d}", *cmd], cwd=d,
                          stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)  # fmt: skip


def worker(listing, d, w, n):
    ms = json.load(open(listing))
    base = os.path.join(d, f"w{w}")
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    os.chmod(d, 0o755)
    os.chmod(base, 0o755)
    repo = os.path.join(base, "repo")
    subprocess.run(["cp", "-a", "/repo", repo], check=True)
    subprocess.run(["git", "checkout", "-q", "HEAD", "--", "."], cwd=repo, check=True)
    pg = os.path.join(base, "pg")
    subprocess.run(["install", "-d", "-o", "postgres", "-g", "postgres", "-m", "700", pg], check=True)
    aspg(pg, f"{BIN}/initdb", "-D", f"{pg}/data", "-U", "treebeard", "--auth=trust", "-E", "UTF8", "--locale=C.UTF-8", "--no-sync")
    aspg(pg, f"{BIN}/pg_ctl", "-w", "-t", "120", "-D", f"{pg}/data", "-l", f"{pg}/log", "-o",
         f"-k {pg} -c listen_addresses='' -c fsync=off -c full_page_writes=off -c synchronous_commit=off", "start")  # fmt: skip
    env = {**os.environ, "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "TZ": "UTC"}
    log = open(os.path.join(d, f"result{w}.jsonl"), "a")

    def tests(engine):
        e = {**env, "DATABASE_ENGINE": engine, "DATABASE_HOST": pg}
        try:
            p = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-n", "2", "--timeout=120",
                                "--no-migrations"], cwd=repo, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400)  # fmt: skip
        except subprocess.TimeoutExpired:
            return False, "timeout"
        return p.returncode == 0, p.stdout[-300:]

    done = set()
    for f in os.listdir(d):
        if f.startswith("result"):
            for ln in open(os.path.join(d, f)):
                done.add(json.loads(ln)["id"])
    try:
        for m in ms[w::n]:
            if m["id"] in done:
                continue
            p = os.path.join(repo, m["file"])
            src = open(os.path.join("/repo", m["file"])).read() if False else subprocess.run(
                ["git", "show", f"HEAD:{m['file']}"], cwd=repo, stdout=subprocess.PIPE, text=True).stdout
            if src[m["a"] : m["b"]] != m["old"]:
                continue
            new = src[: m["a"]] + m["new"] + src[m["b"] :]
            r = dict(m)
            try:
                compile(new, p, "exec")
            except SyntaxError:
                continue
            open(p, "w").write(new)
            t = time.time()
            ok, why = tests("sqlite")
            if ok:
                ok, why = tests("psql")
            r["tests"] = ok
            if ok and not TESTS_ONLY:
                r["caught"] = None
                r["runs"] = {}
                for c in FILES[m["file"]].split():
                    if not os.path.exists(os.path.join(ROOT, "vf", "checks", c.lower() + ".py")):
                        continue
                    try:
                        q = subprocess.run(["bash", "run.sh", c, "--tier", "quick"], cwd=ROOT_RUN, env={**env, "VF_REPO": repo, "VF_PROCS": "3", "VF_EVIDENCE": base},
                                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)  # fmt: skip
                        rc, tail = q.returncode, q.stdout[-400:]
                    except subprocess.TimeoutExpired:
                        rc, tail = "timeout", ""
                    r["runs"][c] = rc
                    if rc == 1 or rc not in (0, 1):
                        r["caught"], r["how"] = c if rc == 1 else f"{c}!{rc}", tail
                        break
            r["time"] = round(time.time() - t)
            log.write(json.dumps(r) + "\n")
            log.flush()
            open(p, "w").write(src)
    finally:
        aspg(pg, f"{BIN}/pg_ctl", "-w", "-m", "immediate", "-D", f"{pg}/data", "stop")


TESTS_ONLY = os.environ.get("TESTS_ONLY")

if sys.argv[1] == "gen":
    gen(sys.argv[2])
else:
    # the checks are run from a copy of the committed work, one per worker
    d, w = sys.argv[3], int(sys.argv[4])
    os.makedirs(d, exist_ok=True)
    ROOT_RUN = os.path.join(d, f"verif{w}")
    shutil.rmtree(ROOT_RUN, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", ROOT, ROOT_RUN], check=True)
    worker(sys.argv[2], d, w, int(sys.argv[5]))
