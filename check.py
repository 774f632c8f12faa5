#!/usr/bin/env python3
"""Runs the deterministic simulation that decides one property.

  check.py --property F01 [--tier quick|thorough]     exit 0: held; exit 1: VIOLATION line; anything else: harness error
  check.py --replay FILE                              re-executes one recorded run
  check.py --selftest F01 [--runs N]                  every seed twice, in fresh processes with another hash seed
"""
import os
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"


def reexec() -> None:
    want = {"PYTHONHASHSEED": os.environ.get("VERIF_HASHSEED", "0"), "PYTHONDONTWRITEBYTECODE": "1", "PYTHONUTF8": "0",
            "LC_ALL": "C.UTF-8", "PYTHONWARNINGS": "ignore", "PYTHONNOUSERSITE": "1"}
    py = PY if os.path.exists(PY) else sys.executable
    if os.environ.get("VERIF_REEXEC") == "1" and all(os.environ.get(k) == v for k, v in want.items()):
        return
    env = dict(os.environ)
    env.update(want)
    env["VERIF_REEXEC"] = "1"
    env.pop("PYTHONPATH", None)
    env.pop("COLUMNS", None)
    os.execve(py, [py] + [os.path.abspath(sys.argv[0])] + sys.argv[1:], env)


if __name__ == "__main__":
    reexec()
    sys.path.insert(0, VERIF)
    sys.dont_write_bytecode = True
    from sim import driver

    sys.exit(driver.main(sys.argv[1:]))
