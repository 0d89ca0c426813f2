#!/usr/bin/env python3
"""Entry point of all checks:  python3 check.py C01   (run in /verif)
exit 0: property holds on everything analysed; 1: VIOLATION line printed; 2: the analysis could not give an answer."""
import sys, os, json, time, traceback, importlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sa"))
import runner
if __name__ == "__main__":
    sys.exit(runner.main(sys.argv[1]))
