#!/usr/bin/env python3
"""python3 check.py C01 [--tier quick|thorough] [--seed N] [--count N]   |   python3 check.py --replay FILE"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
PY = os.environ.get("VERIF_PYTHON") or "/opt/venv/bin/python"
if os.path.exists(PY) and not os.environ.get("_QUOCS_SIM_REEXEC"):
    os.environ["_QUOCS_SIM_REEXEC"] = "1"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv(PY, [PY] + sys.argv)
from sim.driver import main  # noqa: E402

sys.exit(main())
