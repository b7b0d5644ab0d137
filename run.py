"""Runs the check of one property: run.py ID [--tier quick|thorough] [--replay FILE]"""
import argparse
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def main():
    p = argparse.ArgumentParser()
    p.add_argument("property")
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    p.add_argument("--replay")
    p.add_argument("--cases", type=int)
    p.add_argument("--workers", type=int, default=8)
    p.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    a = p.parse_args()
    from vlib import engine

    try:
        engine.load_target()
        mod = importlib.import_module("props." + a.property.lower())
        if a.replay:
            return engine.run_replay(mod, a.replay)
        return engine.run_check(mod, a.tier, a.seed, a.cases, a.workers)
    except BaseException:
        import traceback

        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
