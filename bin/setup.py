#!/usr/bin/env python3
"""Builds the framework from the committed files: everything a check can reuse."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib, overlay, e1, e2, e3, e6
from concurrent.futures import ThreadPoolExecutor

overlay.write_overlay()
overlay.write_futures01()
overlay.write_msrc()


def main():
    # a tree that does not build is for the checks to report
    for f in (e2.build, e3.build, e6.build):
        try:
            f()
        except lib.Broken as e:
            print(e)
    for bins in e1.BINS.values():
        for b in bins:
            e1.native(b)
            e1.native(b, True)
    return 0


sys.exit(main())
