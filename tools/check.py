#!/usr/bin/env python3
"""check.py PROPERTY: decides one property on the current tree of /repo."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common  # noqa: E402


def main():
    pid = sys.argv[1]
    mod = {"P01": "perm", "P02": "perm", "P03": "perm", "P04": "own", "P05": "own", "P06": "own", "P07": "steps", "P08": "steps", "P09": "dom", "P10": "regions", "P11": "flow", "P12": "md", "P13": "md", "P14": "cache", "P15": "pre", "P16": "serve", "P17": "cmd"}[pid]
    try:
        return importlib.import_module("check_" + mod).run(pid)
    except Exception as e:
        if isinstance(e, common.Broken):
            print("check broken:", e, file=sys.stderr)
        else:
            traceback.print_exc()
        # What was found before counts.
        if common.Report.last and common.Report.last.violations:
            return common.Report.last.finish()
        return 2


sys.exit(main())
