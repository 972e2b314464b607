#!/usr/bin/env python3
"""Seeded deterministic simulation of emlearn: one check per property.

  check.py C01                 seeded search (VERIF_SEED, VERIF_TIER), exit 0 held / 1 VIOLATION / 2 error
  check.py C01 --replay FILE   execute a replay file exactly; exit 1 when it reproduces the violation
  check.py C01 --determinism N  run N seeds several times with different layouts, compare the event-log hashes
"""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import simrun
sys.exit(simrun.main(sys.argv[1:]))
