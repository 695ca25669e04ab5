#!/usr/bin/env python3
"""run.py <property id> [--case group:index]   tier and seed come from VERIF_TIER and VERIF_SEED"""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.stdout.reconfigure(errors="replace", line_buffering=True)


def main():
    pid = sys.argv[1]
    only = None
    if "--case" in sys.argv:
        g, i = sys.argv[sys.argv.index("--case") + 1].rsplit(":", 1)
        only = (g, int(i))
    m = importlib.import_module("checks." + pid.lower())
    return m.main(only)


if __name__ == "__main__":
    sys.exit(main())
