#!/usr/bin/env python3
"""check.py <property>: decides one property of /repo's current working tree. VERIF_TIER, VERIF_SEED."""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from pvlib import core

if __name__ == "__main__":
    pid = sys.argv[1].upper()
    mod = importlib.import_module("pvlib.checks." + pid.lower())
    sys.exit(core.main(pid, mod.run))
