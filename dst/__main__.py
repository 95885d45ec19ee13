import argparse
import os
import sys
import traceback

from .core import HarnessError


def main():
    ap = argparse.ArgumentParser(prog="dst")
    sub = ap.add_subparsers(dest="cmd", required=True)
    c = sub.add_parser("check")
    c.add_argument("property")
    d = sub.add_parser("digests")
    d.add_argument("property")
    r = sub.add_parser("replay")
    r.add_argument("file")
    s = sub.add_parser("selftest")
    s.add_argument("properties", nargs="*")
    for p in (c, d, s):
        p.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
        p.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
        p.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 1))
        p.add_argument("--runs", type=int)
        p.add_argument("--budget", type=float)
    a = ap.parse_args()
    from . import runner

    try:
        if a.cmd == "check":
            tier = "thorough" if a.tier == "thorough" else "quick"
            return runner.cmd_check(a.property, tier, a.seed, a.workers, a.runs, a.budget)
        if a.cmd == "digests":
            return runner.cmd_digests(a.property, "quick", a.seed, a.workers, a.runs or 50)
        if a.cmd == "replay":
            return runner.cmd_replay(a.file)
        return runner.cmd_selftest(a.properties or runner.ALL, a.seed, a.runs or 60)
    except HarnessError as e:
        print("HARNESS ERROR:", e, file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


sys.exit(main())
