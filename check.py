#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]    exit 0 held / 1 violated / 2 the analysis could not be carried out"""
import os
import sys
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "rules"))
sys.dont_write_bytecode = True
import framework
sys.exit(framework.main(sys.argv[1:]))
