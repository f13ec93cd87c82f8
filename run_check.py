#!/usr/bin/env python3
"""Entry point of every check:  run_check.py C05 [--tier quick|thorough] [--replay FILE]

Re-executes itself under the interpreter that has skops' dependencies, with a
pinned environment, then hands over to pbt.core.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
PINNED = {
    "PYTHONHASHSEED": "0",
    "PYTHONDONTWRITEBYTECODE": "1",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "NUMBA_NUM_THREADS": "1",
    "MPLBACKEND": "Agg",
    "PYTHONWARNINGS": "ignore",
    "LC_ALL": "C.UTF-8",
    "LANG": "C.UTF-8",
    "TZ": "UTC",
    "COLUMNS": "200",
    "PYTHONFAULTHANDLER": "",
}


def main():
    if os.environ.get("PBT_CHILD") != "1":
        env = dict(os.environ)
        env.update(PINNED)
        env["PBT_CHILD"] = "1"
        for k in ("PYTHONPATH", "PYTHONSTARTUP", "PYTHONINSPECT"):
            env.pop(k, None)
        exe = PY if os.path.exists(PY) else sys.executable
        os.execve(exe, [exe, os.path.abspath(__file__)] + sys.argv[1:], env)
    sys.path[:] = [p for p in sys.path if os.path.abspath(p or ".") != HERE]
    sys.path.insert(0, HERE)
    sys.path.insert(0, os.environ.get("SKOPS_REPO", "/repo"))
    from pbt import core

    sys.exit(core.main(sys.argv[1:]))


if __name__ == "__main__":
    main()
