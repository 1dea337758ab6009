#!/usr/bin/env python3-vt
"""Usage: check.py ID [--only HARNESS,...] [--budget SECONDS] [-j N] | --replay FILE"""
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    exe = sys.executable
    if not os.path.exists("/opt/veriftools/pyvenv/bin/python") or "pyvenv" in exe:
        os.execv(exe, [exe, "-B"] + sys.argv)
    os.execv("/opt/veriftools/pyvenv/bin/python", ["/opt/veriftools/pyvenv/bin/python", "-B"] + sys.argv)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def main(argv):
    from sx import runner
    if argv[0] == "--replay":
        return runner.replay_file(argv[1])
    prop = argv[0]
    only, budget, n = None, None, 8
    i = 1
    while i < len(argv):
        if argv[i] == "--only":
            only = argv[i + 1].split(",")
        elif argv[i] == "--budget":
            budget = float(argv[i + 1])
        elif argv[i] == "-j":
            n = int(argv[i + 1])
        i += 2
    return runner.Run(prop, os.environ.get("VERIF_TIER", "quick"), only, n, budget).main()


sys.exit(main(sys.argv[1:]))
