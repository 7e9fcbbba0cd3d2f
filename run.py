#!/usr/bin/env python3
"""Decide one property:  run.py CNN [--tier quick|thorough] [--only NAME] [-v]"""
import argparse
import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--only')
    ap.add_argument('--jobs', type=int)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    from sa import check
    mod = importlib.import_module('sa.checks.' + a.property.lower())
    sys.exit(check.run_check(a.property, mod, a.tier, int(os.environ.get('VERIF_SEED') or 1), a.only, a.jobs, a.v))


main()
