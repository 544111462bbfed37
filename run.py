#!/usr/bin/env -S python3-vt
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from fvc.check import main
sys.exit(main(sys.argv[1:]))
