#!/usr/bin/env python3
"""check.py <property> [quick|thorough] [--replay FILE]"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import harness  # noqa: E402


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 and not sys.argv[2].startswith("-") else os.environ.get("VERIF_TIER", "quick")
    replay = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        return harness.Check(prop, tier, seed).run(replay)
    except harness.Broken as e:
        print(f"ERROR property={prop}: {e}", file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.exit(main())
