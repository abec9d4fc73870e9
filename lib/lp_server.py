"""Line-oriented LP service (HiGHS through scipy), run by the tools interpreter.

Reads one JSON object per line: {c, A_ub, b_ub, A_eq, b_eq, bounds}; answers one JSON
object per line: {status, fun, x}.  status: 0 optimal, 2 infeasible, 3 unbounded.
"""
import json
import sys

from scipy.optimize import linprog


def main():
    for line in sys.stdin:
        p = json.loads(line)
        r = linprog(
            p["c"],
            A_ub=p.get("A_ub") or None,
            b_ub=p.get("b_ub") or None,
            A_eq=p.get("A_eq") or None,
            b_eq=p.get("b_eq") or None,
            bounds=p["bounds"],
            method="highs",
        )
        out = {"status": int(r.status)}
        if r.status == 0:
            out["fun"] = float(r.fun)
            out["x"] = [float(v) for v in r.x]
        sys.stdout.write(json.dumps(out) + "\n")
        sys.stdout.flush()


try:
    main()
except (BrokenPipeError, KeyboardInterrupt):
    pass
