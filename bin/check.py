#!/usr/bin/env python3
"""check.py <property> [--replay ..]: decides one property on /repo's current tree."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib


def main():
    pid = sys.argv[1]
    if pid in ("C01", "C02", "C03", "C04", "C05", "C09"):
        import e1 as eng
    else:
        import e3 as eng
    try:
        if len(sys.argv) > 2 and sys.argv[2] == "--replay":
            return eng.replay(pid, *sys.argv[3:])
        return eng.check(pid)
    except lib.Broken as e:
        print(f"check of {pid} cannot run: {e}", flush=True)
        return 2


if __name__ == "__main__":
    sys.exit(main())
