"""Entry point of all checks: run.py PROPERTY [quick|thorough] [--replay FILE]"""
import argparse
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
from mc import engine  # noqa: E402

if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"), choices=("quick", "thorough"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    sys.exit(engine.main(a.property, lambda: importlib.import_module("checks." + a.property.lower()), a.tier, a.replay))
