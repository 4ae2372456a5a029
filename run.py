#!/usr/bin/env python3
"""run.py CNN [--thorough] [--replay FILE]: run the check of one property against /repo."""
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0" or not sys.flags.dont_write_bytecode:
    env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
               PYTHONPYCACHEPREFIX="/nonexistent-pycache")
    env.pop("PYTHONPATH", None)
    env.pop("PYTHONOPTIMIZE", None)
    os.execve(sys.executable, [sys.executable, "-B"] + sys.argv, env)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from hv import core

sys.exit(core.main(sys.argv[1:]))
