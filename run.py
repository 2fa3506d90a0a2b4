#!/usr/bin/env python3-vt
"""python3-vt run.py <PROPERTY> [--tier quick|thorough] [--replay FILE] [--case SUBSTR]"""
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0" or os.environ.get("OMP_NUM_THREADS") != "1":
    os.environ.update(PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1")
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from symx.engine import main

sys.exit(main())
