#!/opt/veriftools/pyenv/bin/python3
"""Decides one property of mearaj/bips: verifies every function contract the
property is made of against the current source tree.

  check.py PROPERTY              (VERIF_TIER=quick|thorough, VERIF_SEED)
  check.py --replay FILE         run the recorded failing input again
"""
import sys
sys.dont_write_bytecode = True
import os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from driver import main

if __name__ == "__main__":
    main.run(sys.argv[1:])
