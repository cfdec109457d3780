#!/usr/bin/env python3
"""run_check.py <property id>: see lib/engine.py.  Exit 0 / 1 (VIOLATION) / 2 (machinery)."""
import os, sys, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
from engine import Check, MachineryError
try:
    rc = Check(sys.argv[1]).run()
except MachineryError as e:
    print('MACHINERY-ERROR: %s' % e)
    rc = 2
except Exception:
    traceback.print_exc()
    rc = 2
sys.exit(rc)
