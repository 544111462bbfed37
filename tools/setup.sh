#!/bin/bash
# builds the AST extractor and pre-compiles the repository objects used by the replay harnesses
cd "$(dirname "$0")/.."
python3-vt - <<'E'
import sys; sys.path.insert(0, ".")
from fvc.prog import build_extractor
build_extractor()
from fvc.check import lib_objects
for s in (False, True):
    try: lib_objects(s)
    except Exception as ex: print(ex)
E
exit 0
