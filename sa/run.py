"""python3 -m sa.run <PROPERTY> [quick|thorough]"""

from __future__ import annotations
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)


def main():
    if os.environ.get("PYTHONHASHSEED") != "0":
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable, "-m", "sa.run"] + sys.argv[1:])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    from sa.report import Report
    from sa.project import get_project

    mod = importlib.import_module(f"sa.checks.{prop.lower()}")
    rep = Report(prop, tier)
    p = get_project()
    for path, err in p.parse_errors:
        rep.errors.append(f"cannot parse {path}: {err}")
    mod.check(p, rep)
    sys.exit(rep.finish(seed))


if __name__ == "__main__":
    main()
