#!/usr/bin/env python3
"""Decide one property by static analysis of /repo's current source.

usage: check.py <property> [--thorough] [--root DIR] [-v]
"""
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--root", default="/repo")
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    if a.v:
        os.environ["APGSA_VERBOSE"] = "1"
    from apgsa import driver
    return driver.main(a.prop, "thorough" if a.thorough else "quick", a.root, HERE, not a.no_evidence)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
