#!/opt/venv/bin/python
"""Run the check of one property: run_check.py C01 [--tier thorough] [--replay FILE]."""
import importlib
import os
import sys
import traceback

if "PYTHONHASHSEED" not in os.environ:
    os.environ["PYTHONHASHSEED"] = "0"  # Deterministic.
    os.execv(sys.executable, [sys.executable, *sys.argv])
if "--tier" in sys.argv:
    i = sys.argv.index("--tier")
    os.environ["VERIF_TIER"] = sys.argv[i + 1]
    del sys.argv[i : i + 2]
sys.dont_write_bytecode = True
os.environ.setdefault("JAX_PLATFORMS", "cpu")
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness"))

import common  # noqa: E402


def main():
    prop = sys.argv[1]
    check = common.Check(prop)
    try:
        err = common.setup_repo()
        if err is not None:
            check.traces += 1
            check.case = "import gpcm"
            check.fail("import", f"gpcm cannot be imported: {type(err).__name__}: {err}")
            return check.finish()
        mod = importlib.import_module(prop.lower())
        if len(sys.argv) > 2 and sys.argv[2] == "--worker":
            check.worker(mod, *sys.argv[3:])
            return 0
        if len(sys.argv) > 3 and sys.argv[2] == "--replay":
            import json

            for v in json.load(open(sys.argv[3])):
                check.case = v["case"]
                mod.replay(check, v["case"])
                check.traces += 1
        else:
            mod.run(check)
        return check.finish()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        if check.violations:
            # What was found before the failure still counts.
            return check.finish(extra={"incomplete": traceback.format_exc()[-500:]})
        return 3


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
