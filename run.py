import argparse
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import core  # noqa: E402

if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only", help="comma separated sub-checks")
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    rc = core.main(a.property, a.tier, seed, a.replay, a.only.split(",") if a.only else None, a.scale)
    sys.stdout.flush()
    os._exit(rc)
