#!/usr/bin/env python3
import importlib
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'engine'), os.path.join(HERE, 'props')]
sys.setrecursionlimit(20000)


def main():
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else 'quick')
    import runner
    prop = importlib.import_module(pid)
    rep = runner.Report(pid, tier)
    prop.run(rep, tier)
    sys.exit(runner.finish(rep, prop, prop.ASSUMPTIONS, prop.RULE))


main()
