"""python -m checks.run Cxx quick|thorough  -> exit 0 / 1 (VIOLATION line) ; evidence/Cxx.json"""
import sys, os
os.environ.setdefault("PYTHONHASHSEED", "0")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
sys.dont_write_bytecode = True
if __name__ == "__main__" and os.environ.get("_SYMX_REEXEC") != "1":
    os.environ["_SYMX_REEXEC"] = "1"
    os.execv(sys.executable, [sys.executable, "-B", "-m", "checks.run"] + sys.argv[1:])
from symx import runner
from checks import registry


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    c = registry.get(prop, tier)
    sys.exit(runner.run_check(prop, c["jobs"], tier, c["level"], c["assumptions"], c["deadline"], c.get("stubs", ()), c.get("method", "")))


if __name__ == "__main__":
    main()
