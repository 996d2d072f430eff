"""Explorer: runs every case of a finite, fully enumerated space against the code in /repo.

A check module defines FAMILIES, a list of Family(name, cases, run):
  cases(tier) -> list of JSON-able cases, simplest first: the complete bounded space;
  run(ctx, case) -> drives the real code through the case and compares with the oracle.
Nothing is sampled: every case of every family is run, in every run of the check.
"""
from __future__ import annotations

import hashlib
import json
import math
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import warnings
from dataclasses import dataclass
from typing import Callable

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
CASE_TIMEOUT = 60.0
MAX_REPORTS = 20


class Violation(Exception):
    def __init__(self, label, message):
        super().__init__(message)
        self.label = label
        self.message = message


class BreakpointHit(RuntimeError):
    """The code under test ran into one of its breakpoint() statements."""


class CaseTimeout(BaseException):
    pass


@dataclass
class Family:
    name: str
    cases: Callable
    run: Callable


class Ctx:
    def __init__(self):
        self.states = set()
        self.outcomes = set()
        self.transitions = 0
        self.traces = 0
        self.n_require = 0
        self.current = ()

    # --- counting
    @staticmethod
    def _hash(key):
        return hashlib.blake2b(repr(key).encode(), digest_size=8).digest()

    def visit(self, *key):
        """A distinct state (configuration) of the code under test."""
        self.states.add(self._hash((self.current, key)))

    def outcome(self, *key):
        self.outcomes.add(self._hash(key))

    # --- driving the code under test
    @staticmethod
    def load(module):
        import importlib
        try:
            return importlib.import_module(module)
        except CaseTimeout:
            raise
        except Exception as exc:  # noqa
            raise Violation("import", f"import of {module} failed: {exc!r}") from exc

    def call(self, label, fn, *args, **kwargs):
        """One transition: a call into the code under test; it may not raise."""
        self.transitions += 1
        try:
            return fn(*args, **kwargs)
        except CaseTimeout:
            raise
        except Violation:
            raise
        except Exception as exc:  # noqa
            tb = traceback.extract_tb(exc.__traceback__)
            loc = next((f"{os.path.basename(f.filename)}:{f.name}" for f in reversed(tb)
                        if f.filename.startswith(REPO)), "?")
            raise Violation(f"{label}:raises",
                            f"{label} raised {type(exc).__name__}({exc}) in {loc}") from exc

    def raises(self, label, fn, *args, exceptions=Exception, **kwargs):
        """One transition which has to be refused."""
        self.transitions += 1
        try:
            fn(*args, **kwargs)
        except CaseTimeout:
            raise
        except exceptions:
            return
        raise Violation(f"{label}:not refused", f"{label} was not refused")

    # --- oracle
    def require(self, cond, label, message=""):
        self.n_require += 1
        if not cond:
            raise Violation(label, f"{label}: {message() if callable(message) else message}")

    def finite(self, value, label):
        import numpy as np
        arr = np.asarray(value, dtype=float)
        self.require(bool(np.all(np.isfinite(arr))), f"{label}:finite", lambda: f"{arr}")
        return arr

    def close(self, value, expected, label, atol=1e-6, rtol=0.0):
        import numpy as np
        arr = np.asarray(value, dtype=float)
        exp = np.asarray(expected, dtype=float)
        self.require(arr.shape == exp.shape, f"{label}:shape", lambda: f"{arr.shape} {exp.shape}")
        self.require(bool(np.allclose(arr, exp, atol=atol, rtol=rtol)), label,
                     lambda: f"got {arr.tolist()}, expected {exp.tolist()}")


def _alarm(signum, frame):
    raise CaseTimeout()


def _no_breakpoint(*args, **kwargs):
    raise BreakpointHit("breakpoint() reached")


def setup():
    sys.dont_write_bytecode = True
    os.environ.setdefault("MPLBACKEND", "Agg")
    for path in (os.path.join(VERIF, "standins"), REPO):
        if path in sys.path:
            sys.path.remove(path)
        sys.path.insert(0, path)
    sys.breakpointhook = _no_breakpoint
    warnings.simplefilter("ignore")
    import logging
    logging.disable(logging.CRITICAL)
    try:
        import numpy as np
        np.seterr(all="ignore")
    except ImportError:
        pass


def run_case(family, case, ctx):
    """Returns None or (label, message)."""
    import contextlib
    import io
    import numpy as np
    np.random.seed(0)
    ctx.current = (family.name,)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_TIMEOUT)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            family.run(ctx, case)
        ctx.traces += 1
        return None
    except Violation as exc:
        return (exc.label, exc.message)
    except CaseTimeout:
        return ("timeout", f"no answer within {CASE_TIMEOUT} s")
    except Exception as exc:  # noqa: a result the oracle cannot even evaluate
        tb = traceback.extract_tb(exc.__traceback__)
        loc = " < ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(tb[-4:]))
        return (f"unexpected {type(exc).__name__}", f"{type(exc).__name__}: {exc} at {loc}")
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


_WORK = []


def _worker(job):
    fam_idx, start, stop, step = job
    families, all_cases = _WORK
    fam, cases = families[fam_idx], all_cases[fam_idx]
    ctx = Ctx()
    fails = []
    error = None
    for ii in range(start, stop, step):
        try:
            res = run_case(fam, cases[ii], ctx)
        except Exception:  # a defect of the harness itself
            error = f"{fam.name} case {json.dumps(cases[ii])}\n{traceback.format_exc()}"
            break
        if res is not None:
            fails.append((fam_idx, ii, res[0], res[1]))
            if len(fails) >= 2000:
                break
    return (fam_idx, ctx.states, ctx.outcomes, ctx.transitions, ctx.traces, ctx.n_require,
            fails, error)


def load_known(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as ff:
        data = json.load(ff)
    return [ee for ee in data.get("findings", []) if ee["property"] == pid]


def matches(entry, fam_name, case, label):
    if entry.get("family") != fam_name or entry.get("label") != label:
        return False
    for key, val in entry.get("case", {}).items():
        if not isinstance(case, dict) or case.get(key) != val:
            return False
    return True


def main(pid, families):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    setup()
    only = os.environ.get("MC_FAMILY")
    if only:
        families = [ff for ff in families if ff.name in only.split(",")]
    all_cases = [list(ff.cases(tier)) for ff in families]
    n_total = sum(len(cc) for cc in all_cases)
    if not n_total or any(not len(cc) for cc in all_cases):
        print("empty case space", file=sys.stderr)
        return 2
    global _WORK
    _WORK = [families, all_cases]

    n_proc = min(int(os.environ.get("MC_PROCS", os.cpu_count() or 1)), 8)
    jobs = []
    for fi, cc in enumerate(all_cases):
        n_jobs = min(len(cc), max(n_proc * 4, math.ceil(len(cc) / 400)))
        jobs += [(fi, ss, len(cc), n_jobs) for ss in range(n_jobs)]

    states, outcomes = set(), set()
    transitions = traces = n_require = 0
    fails, errors = [], []
    per_family = {ff.name: {"cases": len(cc), "states": 0, "transitions": 0, "oracle_checks": 0}
                  for ff, cc in zip(families, all_cases)}
    if n_proc > 1 and len(jobs) > 1:
        pool = mp.get_context("fork").Pool(n_proc)
        results = pool.imap_unordered(_worker, jobs)
    else:
        pool, results = None, map(_worker, jobs)
    for fi, st, oc, tr, tc, nr, ff, err in results:
        name = families[fi].name
        per_family[name]["states"] += len(st - states)
        states |= st
        outcomes |= oc
        transitions += tr
        per_family[name]["transitions"] += tr
        per_family[name]["oracle_checks"] += nr
        traces += tc
        n_require += nr
        fails += ff
        if err:
            errors.append(err)
    if pool is not None:
        pool.close()
        pool.join()

    if errors:
        print(errors[0], file=sys.stderr)
        print(f"harness error in {pid}", file=sys.stderr)
        if not fails:
            return 2

    known = load_known(pid)
    fired = {}
    real = []
    for fi, ii, label, msg in sorted(fails):
        fam = families[fi]
        entry = next((ee for ee in known if matches(ee, fam.name, all_cases[fi][ii], label)), None)
        if entry is not None:
            fired.setdefault(json.dumps(entry, sort_keys=True), entry)
        else:
            real.append((fi, ii, label, msg))
    for entry in known:
        if json.dumps(entry, sort_keys=True) in fired:
            print(f"KNOWN-FINDING: property={pid} {entry['what']}")

    samples = [{"family": ff.name, "case": cc[len(cc) // 2]} for ff, cc in zip(families, all_cases)]
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": len(states), "transitions": transitions,
            "traces_validated_against_impl": traces, "samples": samples[:6],
            "oracle_checks": n_require, "distinct_outcomes": len(outcomes),
            "cases": n_total, "exhaustive": not errors, "families": per_family,
            "explanation": "every case of every family was enumerated and run on the code in "
                           "/repo; no sampling, no cap",
        },
        "assumptions": [
            "third-party packages vartools and dynamic_obstacle_avoidance are replaced by the "
            "stand-ins of /verif/standins",
            "floating point results are compared within a tolerance",
        ],
        "wall_s": round(time.time() - t0, 2), "violations": len(real),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as ff:
        json.dump(evidence, ff, indent=1)

    print(f"{pid} [{tier}] cases={n_total} states={len(states)} transitions={transitions} "
          f"traces={traces} oracle_checks={n_require} distinct_outcomes={len(outcomes)} "
          f"wall={time.time() - t0:.1f}s")
    for name, vals in per_family.items():
        print(f"   {name}: {vals}")
    if not real:
        return 0
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    seen = {}
    for fi, ii, label, msg in real:
        key = (families[fi].name, label)
        seen[key] = seen.get(key, 0) + 1
        if seen[key] > 1 or len(seen) > MAX_REPORTS:
            continue
        path = os.path.join(VERIF, "replays", f"{pid}_{len(seen)}.json")
        with open(path, "w") as ff:
            json.dump({"property": pid, "family": families[fi].name, "label": label,
                       "message": msg, "case": all_cases[fi][ii]}, ff, indent=1)
        print(f"  {families[fi].name}: {msg}  case={json.dumps(all_cases[fi][ii])[:600]}")
        print(f"VIOLATION property={pid} replay={path}")
    for key, num in seen.items():
        print(f"   {key}: {num} failing cases")
    return 1
