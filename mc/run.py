"""Command line: run.py <property> [--tier quick|thorough] [--replay file] [--only harness,...]"""
import argparse
import os
import pathlib
import sys

sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent))
from mc import engine  # noqa: E402


def main():
    par = argparse.ArgumentParser()
    par.add_argument("property")
    par.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    par.add_argument("--replay")
    par.add_argument("--only")
    par.add_argument("--jobs", type=int)
    args = par.parse_args()
    if args.replay:
        return engine.replay(args.replay)
    tier = "thorough" if args.tier == "thorough" else "quick"
    mods = sorted(pathlib.Path(__file__).parent.glob(f"checks/{args.property.lower()}_*.py"))
    if len(mods) != 1:
        print(f"no check module for {args.property}")
        return 2
    mod = f"mc.checks.{mods[0].stem}"
    return engine.run_check(args.property, mod, tier, jobs=args.jobs,
                            only=args.only.split(",") if args.only else None)


if __name__ == "__main__":
    sys.exit(main())
