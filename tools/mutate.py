"""mutate.py [--list] [--seed N] [--num N] [--files a,b]: applies small changes one at a time to a
scratch copy of the package and reports those that no check (which executes the line) notices.
Only an aid for finding weak spots of the checks (needs /tmp/linecov.json of linecov.py)."""
import argparse
import ast
import importlib
import json
import multiprocessing as mp
import os
import random
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
PKG = "/repo/nonlinear_avoidance"
TIMES = dict(C01=9, C02=10, C03=16, C04=1, C05=14, C06=1, C07=9, C08=8, C09=3, C10=107, C11=137,
             C12=117, C13=30, C14=24, C15=70, C16=20, C17=80, C18=31, C19=38, C20=28, C21=115,
             C22=12, C23=20, C24=45)
SWAP = {"sin": "cos", "cos": "sin", "max": "min", "min": "max", "maximum": "minimum",
        "minimum": "maximum", "any": "all", "all": "any", "argmin": "argmax", "argmax": "argmin",
        "sum": "max", "vstack": "hstack", "logical_and": "logical_or"}
NEG = {ast.Lt: ">=", ast.GtE: "<", ast.Gt: "<=", ast.LtE: ">", ast.Eq: "!=", ast.NotEq: "==",
       ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
ARI = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}


def mutants(name, covered):
    path = os.path.join(PKG, name)
    src = open(path).read()
    lines = src.splitlines(keepends=True)
    starts = [0]
    for ll in lines:
        starts.append(starts[-1] + len(ll.encode()))
    raw = src.encode()
    tree = ast.parse(src)

    def pos(node):
        return (starts[node.lineno - 1] + node.col_offset,
                starts[node.end_lineno - 1] + node.end_col_offset)

    out = []

    def add(node, start, end, new, kind):
        old = raw[start:end].decode()
        if old == new or node.lineno not in covered or "__all__" in old:
            return
        text = (raw[:start] + new.encode() + raw[end:]).decode()
        try:
            ast.parse(text)
        except SyntaxError:
            return
        out.append((name, node.lineno, kind, old, new, text))

    for node in ast.walk(tree):
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            left, right = pos(node.left)[1], pos(node.comparators[0])[0]
            add(node, left, right, f" {NEG[type(node.ops[0])]} ", "negate")
        elif isinstance(node, ast.BinOp) and type(node.op) in ARI:
            left, right = pos(node.left)[1], pos(node.right)[0]
            mid = raw[left:right].decode()
            sym = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/"}[type(node.op)]
            add(node, left, right, mid.replace(sym, ARI[type(node.op)], 1), "arith")
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.USub, ast.Not)):
            start, end = pos(node)
            add(node, start, end, "(" + raw[pos(node.operand)[0]:end].decode() + ")", "drop unary")
        elif isinstance(node, ast.BoolOp):
            start, end = pos(node)
            sym, new = (" and ", " or ") if isinstance(node.op, ast.And) else (" or ", " and ")
            left, right = pos(node.values[0])[1], pos(node.values[1])[0]
            add(node, left, right, raw[left:right].decode().replace(sym.strip(), new.strip()), "bool")
        elif isinstance(node, ast.Constant):
            start, end = pos(node)
            if node.value is True or node.value is False:
                add(node, start, end, str(not node.value), "const")
            elif isinstance(node.value, int):
                add(node, start, end, str(node.value + 1), "const")
                if node.value > 0:
                    add(node, start, end, str(node.value - 1), "const")
            elif isinstance(node.value, float):
                add(node, start, end, repr(node.value * 1.5), "const")
        elif isinstance(node, ast.Call):
            func = node.func
            ident = func.attr if isinstance(func, ast.Attribute) else getattr(func, "id", "")
            start, end = pos(func)
            if ident in SWAP:
                add(node, end - len(ident), end, SWAP[ident], "swap")
            elif ident in ("abs", "copy", "deepcopy"):
                add(node, start, end, "", "drop call")
            if len(node.args) == 2 and not node.keywords:
                one, two = pos(node.args[0]), pos(node.args[1])
                new = (raw[two[0]:two[1]] + raw[one[1]:two[0]] + raw[one[0]:one[1]]).decode()
                add(node, one[0], two[1], new, "swap args")
        elif isinstance(node, (ast.Continue, ast.Break)):
            add(node, *pos(node), "pass", "drop statement")
        elif isinstance(node, ast.AugAssign) or (
                isinstance(node, ast.Expr) and isinstance(node.value, ast.Call)) or (
                isinstance(node, ast.Assign) and not isinstance(node.targets[0], ast.Tuple)):
            add(node, *pos(node), "pass", "drop statement")
        elif isinstance(node, ast.If):
            start, end = pos(node.test)
            add(node.test, start, end, "False", "never")
            if not node.orelse:
                add(node.test, start, end, "True", "always")
    return out


def one(text):
    return " ".join(text.split())[:70]


def _run(job):
    import signal
    pid, fam, case = job
    import mc.core as core
    core.CASE_TIMEOUT = 40
    mod = importlib.import_module(f"mc.checks.{pid.lower()}")
    family = next(ff for ff in mod.FAMILIES if ff.name == fam)
    try:
        res = core.run_case(family, case, core.Ctx())
    except BaseException as exc:
        return None
    return None if res is None else (pid, fam, res)


def runner(pids):
    """Child: prints the first check that notices."""
    from mc import core
    core.setup()
    for pid in pids:
        mod = importlib.import_module(f"mc.checks.{pid.lower()}")
        jobs = []
        for fam in mod.FAMILIES:
            cases = list(fam.cases("quick"))
            random.Random(1).shuffle(cases)
            jobs += [(ii / len(cases), pid, fam.name, cc) for ii, cc in enumerate(cases)]
        jobs = [jj[1:] for jj in sorted(jobs, key=lambda jj: jj[0])]
        pool = mp.get_context("fork").Pool(int(os.environ.get("MC_PROCS", "8")))
        for res in pool.imap_unordered(_run, jobs, chunksize=max(1, min(50, len(jobs) // 100))):
            if res is not None:
                print("CAUGHT", json.dumps(res)[:300], flush=True)
                os._exit(0)
        pool.close()
        pool.join()
    print("SURVIVED", flush=True)


if __name__ == "__main__":
    par = argparse.ArgumentParser()
    par.add_argument("--seed", type=int, default=1)
    par.add_argument("--num", type=int, default=20)
    par.add_argument("--files", default="")
    par.add_argument("--list", action="store_true")
    par.add_argument("--runner", default="")
    par.add_argument("--out", default="/tmp/mutants.txt")
    args = par.parse_args()
    if args.runner:
        runner(args.runner.split(","))
        sys.exit()
    cov = json.load(open("/tmp/linecov.json"))
    for name in sorted(cov):
        if args.files and not any(name.startswith(ff) for ff in args.files.split(",")):
            continue
        covered = {int(nn): pp for nn, pp in cov[name].items()}
        every = mutants(name, covered)
        random.Random(args.seed).shuffle(every)
        if args.list:
            print(name, len(every))
            continue
        for mut in every[:args.num]:
            name, line, kind, old, new, text = mut
            work = "/tmp/mutwork"
            shutil.rmtree(work, ignore_errors=True)
            shutil.copytree("/repo", work, ignore=shutil.ignore_patterns(".git", "figures", "*.png"))
            open(os.path.join(work, "nonlinear_avoidance", name), "w").write(text)
            pids = sorted(covered[line], key=lambda pp: TIMES.get(pp, 50))
            t0 = time.time()
            env = dict(os.environ, MC_REPO=work, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
                       MPLBACKEND="Agg", PYTHONHASHSEED="0")
            proc = subprocess.Popen([sys.executable, os.path.abspath(__file__), "--runner",
                                     ",".join(pids)], env=env, stdout=subprocess.PIPE, cwd=VERIF,
                                    stderr=subprocess.PIPE, text=True, start_new_session=True)
            try:
                text, err = proc.communicate(timeout=600)
            except subprocess.TimeoutExpired:
                text, err = "TIMEOUT", ""
            try:
                os.killpg(proc.pid, 9)
            except ProcessLookupError:
                pass
            verdict = (text.strip().splitlines() or ["NOTHING " + err[-300:]])[-1]
            with open(args.out, "a") as out:
                out.write(f"{verdict[:110]} | {name}:{line} {kind} `{one(old)}` -> `{one(new)}` "
                          f"{pids} {time.time() - t0:.0f}s\n")
    shutil.rmtree("/tmp/mutwork", ignore_errors=True)
