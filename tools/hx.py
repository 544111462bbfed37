#!/usr/bin/env python3-vt
"""run one property's replay harness alone: tools/hx.py C12 [secs] [seed]"""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..")); sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "specs"))
import importlib
from fvc import check
class S: pass
s = S(); s.id = sys.argv[1].upper(); s.harness = s.id.lower() + ".cpp"; s.sanitize = os.environ.get("SAN") == "1"
k, t = check.run_harness(s, float(sys.argv[2]) if len(sys.argv) > 2 else 10, [], sys.argv[3] if len(sys.argv) > 3 else 1); print(k, t)
