#!/usr/bin/env python3
"""Entry point: check.py <PROPERTY> [--tier quick|thorough] [--replay FILE]"""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VT = "/opt/veriftools/pyvenv/bin/python"
if os.environ.get("VH_CHILD") != "1":
    env = dict(os.environ, VH_CHILD="1", PYTHONDONTWRITEBYTECODE="1",
               PYTHONHASHSEED=os.environ.get("PYTHONHASHSEED", "0"),
               LC_ALL="C.UTF-8", TZ="UTC", PYTHONUTF8="1", PYTHONWARNINGS="ignore",
               # never trust cached bytecode: judge the working tree
               PYTHONPYCACHEPREFIX="/nonexistent-pycache")
    env.pop("PYTHONPATH", None)
    exe = VT if os.path.exists(VT) else "python3-vt"
    os.execvpe(exe, [exe, "-B", os.path.abspath(__file__)] + sys.argv[1:], env)
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path[:0] = [HERE, REPO]
from vh import core
sys.exit(core.main())
