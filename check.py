#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N]: decides one property on /repo's working tree."""
import os, sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import base


def main():
    args = sys.argv[1:]
    prop = args[0]
    tier = os.environ.get("VERIF_TIER") or "quick"
    seed = os.environ.get("VERIF_SEED") or "1"
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    if "--seed" in args:
        seed = args[args.index("--seed") + 1]
    seed = int(seed) if seed.lstrip("-").isdigit() else int.from_bytes(seed.encode()[:6], "little")
    seed &= (1 << 62) - 1
    import props
    try:
        return props.CHECKS[prop](prop, tier, seed)
    except base.CheckError as e:
        print("CHECK ERROR: property=%s %s" % (prop, e))
        return 2


if __name__ == "__main__":
    sys.exit(main())
