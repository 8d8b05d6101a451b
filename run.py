#!/usr/bin/env python3
"""Run one check:  run.py C01   (VERIF_TIER=quick|thorough, VERIF_SEED=n)
Replay a finding:  run.py --replay replays/C01-....json
Environment check: run.py --setup
"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vf import host

if __name__ == "__main__":
    sys.exit(host.main(sys.argv[1:]))
