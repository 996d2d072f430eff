"""python -m mc.run <property id>  |  python -m mc.run --replay <file>"""
import importlib
import json
import os
import sys

sys.dont_write_bytecode = True


def main():
    from mc import core
    if sys.argv[1] == "--replay":
        with open(sys.argv[2]) as ff:
            rep = json.load(ff)
        core.setup()
        mod = importlib.import_module(f"mc.checks.{rep['property'].lower()}")
        fam = next(ff for ff in mod.FAMILIES if ff.name == rep["family"])
        os.environ["MC_REPLAY"] = "1"
        res = core.run_case(fam, rep["case"], core.Ctx())
        print("REPRODUCED" if res else "PASSES", res)
        return 1 if res else 0
    pid = sys.argv[1]
    core.setup()
    mod = importlib.import_module(f"mc.checks.{pid.lower()}")
    return core.main(pid, mod.FAMILIES)


if __name__ == "__main__":
    sys.exit(main())
