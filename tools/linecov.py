"""linecov.py: which lines of the package each check executes (sampled cases) -> /tmp/linecov.json.
Only an aid for planting bugs and finding unclaimed code; no check uses it."""
import importlib
import json
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True


def one(pid, out):
    hits = {}
    mon = sys.monitoring
    tool = mon.COVERAGE_ID
    mon.use_tool_id(tool, "linecov")

    def line(code, number):
        name = code.co_filename
        if "/nonlinear_avoidance/" in name:
            hits.setdefault(name.split("/nonlinear_avoidance/", 1)[1], {}).setdefault(number, 0)
            if CASES[0]:
                hits[name.split("/nonlinear_avoidance/", 1)[1]][number] = 1
                return mon.DISABLE
            return None
        return mon.DISABLE

    CASES = [False]
    mon.register_callback(tool, mon.events.LINE, line)
    mon.set_events(tool, mon.events.LINE)
    from mc import core
    core.setup()
    mod = importlib.import_module(f"mc.checks.{pid.lower()}")
    CASES[0] = True
    for fam in mod.FAMILIES:
        cases = list(fam.cases("quick"))
        step = max(1, len(cases) // 40)
        for case in cases[::step]:
            core.run_case(fam, case, core.Ctx())
    json.dump({ff: sorted(nn for nn, vv in ll.items() if vv) for ff, ll in hits.items()},
              open(out, "w"))


if __name__ == "__main__":
    if len(sys.argv) > 1:
        one(sys.argv[1], sys.argv[2])
        sys.exit()
    pids = [ll.split('"id": "')[1][:3] for ll in open(os.path.join(VERIF, "properties.jsonl"))]
    env = dict(os.environ, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg")
    running = []
    for pid in pids:
        running.append(subprocess.Popen([sys.executable, __file__, pid, f"/tmp/linecov_{pid}.json"],
                                        env=env, cwd=VERIF, stdout=subprocess.DEVNULL))
        while sum(pp.poll() is None for pp in running) >= 4:
            next(pp for pp in running if pp.poll() is None).wait()
    for pp in running:
        pp.wait()
    table = {}
    for pid in pids:
        for name, lines in json.load(open(f"/tmp/linecov_{pid}.json")).items():
            for nn in lines:
                table.setdefault(name, {}).setdefault(nn, []).append(pid)
    json.dump(table, open("/tmp/linecov.json", "w"))
