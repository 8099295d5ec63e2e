#!/usr/bin/env python3
"""python3 check.py <property id> [--tier quick|thorough]"""
import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)


def main():
    a = sys.argv[1:]
    if a == ["--selfcheck"]:
        from sa.loader import Repo
        print("analyser ready: %d modules" % len(Repo().mods))
        return 0
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        i = a.index("--tier")
        tier = a[i + 1]
        del a[i:i + 2]
    from sa.report import Report
    pid = a[0]
    m = importlib.import_module("sa.checks." + pid.lower())
    rep = Report(pid, "thorough" if tier == "thorough" else "quick")
    expl = m.run(rep, rep.tier)
    return rep.finish(expl)


if __name__ == "__main__":
    sys.exit(main())
