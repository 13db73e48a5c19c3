#!/usr/bin/env python3
"""checks/run.py PNN [--tier quick|thorough] [--seed N] [--replay FILE]"""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def main():
    a = sys.argv[1:]
    pid = a.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    replay = None
    while a:
        o = a.pop(0)
        if o == "--tier":
            tier = a.pop(0)
        elif o == "--seed":
            seed = int(a.pop(0))
        elif o == "--replay":
            replay = a.pop(0)
    mod = importlib.import_module(pid.lower())
    c = mod.C(tier, seed)
    return c.replay(replay) if replay else c.main()


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
