import argparse
import json
import os
import sys

from . import core


def registry():
    from . import ambient, evalviz, gaussian, general, indep, networks, neural, pipeline, programs, relations, reports, structure

    checks = {}
    for module in (structure, gaussian, indep, evalviz, neural, general, pipeline, programs, ambient, reports, relations, networks):
        checks.update(module.CHECKS)
    return checks


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    parser.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    parser.add_argument("--replay", help="runs the workload recorded in a replay file again")
    args = parser.parse_args()
    if args.replay:
        with open(args.replay) as f:
            rec = json.load(f)
        args.property, args.tier, args.seed = rec["property"], rec["tier"], rec["seed"]
    checks = registry()
    if args.property not in checks:
        print(f"unknown property {args.property}")
        return 2
    return core.run(args.property, checks[args.property], args.tier, args.seed)


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    os._exit(code)
