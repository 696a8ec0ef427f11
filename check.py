#!/usr/bin/env python3
"""Check one property of /repo by deterministic simulation.

    check.py PROPERTY [--tier quick|thorough] [--n N] [--seed S] [--workers W]
    check.py --replay FILE

"""
import argparse
import os
import sys

PYTHON = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.abspath(__file__))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int,
                    default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--n", type=int)
    ap.add_argument("--workers", type=int)
    ap.add_argument("--wall", type=float)
    ap.add_argument("--replay")
    ap.add_argument("--selftest", action="store_true")
    args = ap.parse_args()

    want = {"PYTHONDONTWRITEBYTECODE": "1"}
    if os.path.exists(PYTHON) and (
        os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv")
        or any(os.environ.get(k) != v for k, v in want.items())
    ) and os.environ.get("DST_CHILD") != "1":
        os.environ.update(want, DST_CHILD="1")
        os.execv(PYTHON, [PYTHON, os.path.join(HERE, "check.py"), *sys.argv[1:]])

    sys.path.insert(0, HERE)
    os.chdir(HERE)
    from dst import env

    jit = os.environ.get("DST_JIT") == "1"
    env.setup(jit=jit)
    from dst import campaign, kinds, lanes  # noqa: F401

    if args.selftest:
        print("imports work")
        return 0
    if args.replay:
        return campaign.replay(args.replay)
    if args.property not in lanes.LANES:
        print("unknown property " + str(args.property))
        return 2
    return campaign.run(args.property, args.tier, args.seed, n=args.n,
                        workers=args.workers, jit=jit, wall_cap=args.wall)


if __name__ == "__main__":
    sys.exit(main())
