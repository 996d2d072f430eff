"""Plants a bug: seed(id, property, path, [(old, new)], demo, needs, breaks) writes seeded/<id>/ after
confirming in a scratch copy that the change applies, that the stable test passes, and that the
demonstration passes without and fails with the change."""
import json
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = """#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD:$here/stubs" MPLBACKEND=Agg
exec /opt/venv/bin/python "$here/demo.py"
"""


def run(cmd, cwd):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, timeout=900)


def seed(sid, prop, edits, demo, needs, breaks):
    """edits: list of (path, old, new)."""
    out = os.path.join(VERIF, "seeded", sid)
    work = f"/tmp/seedwork_{sid}"
    shutil.rmtree(work, ignore_errors=True)
    run(f"git clone -q /repo {work}", "/tmp")
    for path, old, new in edits:
        full = os.path.join(work, path)
        text = open(full).read()
        assert text.count(old) == 1, (sid, path, text.count(old), old)
        first = text[:text.index(old)].count("\n") + 1
        span = f"{first},{first + old.count(chr(10)) - (old[-1] == chr(10))}"
        for line in run(f"git blame -s -L{span} e07aec0.. -- {path}", work).stdout.splitlines():
            if not line.startswith("^"):
                print("   not a line of the original:", line)
        open(full, "w").write(text.replace(old, new))
    diff = run("git diff", work).stdout
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    shutil.copytree(os.path.join(VERIF, "standins"), os.path.join(out, "stubs"),
                    ignore=shutil.ignore_patterns("__pycache__"))
    open(os.path.join(out, "patch.diff"), "w").write(diff)
    open(os.path.join(out, "demo.sh"), "w").write(SH)
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    open(os.path.join(out, "demo.py"), "w").write(
        "import sys\n\n\ndef no_breakpoint(*args, **kwargs):\n"
        "    raise RuntimeError(\"breakpoint\")\n\n\nsys.breakpointhook = no_breakpoint\n" + demo)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks},
              open(os.path.join(out, "meta.json"), "w"), indent=1)
    bad = run(f"bash {out}/demo.sh", work)
    good = run(f"bash {out}/demo.sh", "/repo")
    tests = run("/opt/venv/bin/python -B -m pytest -q -p no:cacheprovider "
                "tests/test_graph_handler.py -k test_graph_element", work)
    check = run("true", VERIF) if os.environ.get("NOCHECK") else run(f"MC_REPO={work} VERIF_EVIDENCE=/tmp/ev ./check.sh {prop}", VERIF)
    caught = "VIOLATION" in check.stdout
    print(sid, prop, "demo good:", good.returncode, "bad:", bad.returncode, "tests:",
          tests.returncode, "caught:", caught, check.returncode)
    if good.returncode or not bad.returncode or tests.returncode:
        print(good.stdout[-1500:], bad.stdout[-1500:], tests.stdout[-800:])
    if not caught:
        print(check.stdout[-800:])
    else:
        print("   ", [ll for ll in check.stdout.splitlines() if "failing cases" in ll][:4])
    shutil.rmtree(work, ignore_errors=True)
