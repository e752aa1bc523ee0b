#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough] [--replay FILE] [--keep]"""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import runner
try:
    sys.exit(runner.run(importlib.import_module(sys.argv[1].lower()), sys.argv[2:]))
except Exception:
    traceback.print_exc()
    sys.exit(2)
