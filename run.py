#!/usr/bin/env python3
"""python3 /verif/run.py C01 [--tier quick|thorough] [--seed N] [--replay FILE]"""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get("PYTHONHASHSEED") != "0" or not sys.flags.dont_write_bytecode:
    env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
    for k in ("PYTHONPATH", "PYTHONHOME", "PYTHONSTARTUP"): env.pop(k, None)
    os.execve(sys.executable, [sys.executable, "-B", os.path.abspath(__file__)] + sys.argv[1:], env)
sys.path[:0] = [os.environ.get("XLMON_REPO", "/repo"), HERE, os.path.join(HERE, "lib")]
from xlmon import runner
sys.exit(runner.main(sys.argv[1:]))
