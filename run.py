#!/opt/veriftools/pyvenv/bin/python3
"""Runs the check of one property: run.py <ID> [--tier quick|thorough] [--seed N] [--replay FILE] [--scale X] [--workers N]"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import engine

if __name__ == "__main__":
    sys.exit(engine.main(sys.argv[1:]))
