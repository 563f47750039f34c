#!/usr/bin/env python3
"""check.py Cxx [--tier quick|thorough]   or   check.py --replay FILE"""
import os
import sys

PY = "/opt/veriftools/pyvenv/bin/python3"
if os.path.exists(PY) and os.environ.get("_VERIF_PY") != "1" and os.path.realpath(sys.prefix) != os.path.realpath("/opt/veriftools/pyvenv"):
    os.environ["_VERIF_PY"] = "1"
    os.environ.setdefault("PYTHONHASHSEED", "0")
    os.execv(PY, [PY] + sys.argv)

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)

from symx import runner  # noqa: E402


def main():
    a = sys.argv[1:]
    if a and a[0] == "--selftest":
        return runner.selftest()
    if a and a[0] == "--replay":
        return runner.replay_file(a[1])
    prop = a[0]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    return runner.run_property(prop, tier, int(os.environ.get("VERIF_SEED") or 0))


if __name__ == "__main__":
    sys.exit(main())
