#!/usr/bin/env python3
"""run.py <property> quick|thorough"""
import os, sys, importlib
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "lib")); sys.path.insert(0, os.path.join(V, "checks"))
os.chdir(V)
def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    m = importlib.import_module(pid.lower())
    sys.exit(m.run(tier))
main()
