#!/usr/bin/env python3
"""Decides one property: check.py C01 [quick|thorough]; see DESIGN.md."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from hsmv import checks

if __name__ == '__main__':
    if sys.argv[1] == '--replay':
        sys.exit(checks.replay(sys.argv[2]))
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    try:
        rc = checks.run(sys.argv[1], tier, seed)
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
