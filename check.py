#!/usr/local/bin/python3-vt
"""Entry point: check.py <property id>. Decides one property from the current source of /repo (nothing of it is run)."""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    mod = importlib.import_module("analyzer.props." + pid.lower())
    return mod.check(tier)


if __name__ == "__main__":
    sys.exit(main())
