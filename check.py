#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--replay FILE]"""
import argparse
import json
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a = ap.parse_args()
    from rv import registry
    if a.replay:
        from rv import sut
        d = json.load(open(a.replay))
        print(json.dumps(d, indent=1))
        if "xml" in d:
            print("now:", ascii(sut.convert(d["xml"]).show()))
        return 0
    from rv import engine
    return engine.run(registry.get(a.property), a.tier, a.seed)


if __name__ == "__main__":
    sys.exit(main())
