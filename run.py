#!/usr/bin/env python3
"""Entry point of the checks.

  run.py check C01 [--thorough] [--runs N] [--workers N] [--seed S] [--cap SECONDS]
  run.py replay FILE
  run.py logs C01 --runs N [--workers N] [--hashseed H]     event-log digests, for determinism diffs
"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from dst import driver  # noqa: E402

if __name__ == '__main__':
    sys.exit(driver.main(sys.argv[1:]))
