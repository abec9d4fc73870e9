"""The lines which report the convergence of the simulation on the screen."""
import re

import numpy as np

from core import fail, require

LINE = re.compile(r"^\s*(\d+)\s*-th REPLICATION;\s*SUM=\s*(\S+)\s+NEW=\s*(\S+)\s+MEAN=\s*(\S+)\s+CONVERGENCE=\s*(\S+)\s*$")


def check(text, values, tol, what):
    """One line for each year from the fifth on, about the statistic of the years so far.

    Returns whether a year after the fifth was reported with convergence well above one."""
    tol = tol or 0.025
    lines = [m.groups() for m in map(LINE.match, text.splitlines()) if m]
    require([int(l[0]) for l in lines] == list(range(5, len(values) + 1)), "%s: progress reported for years %s of %d", what, [l[0] for l in lines], len(values))
    high = False
    reached, unsure = 0, 0
    for l in lines:
        y = int(l[0])
        v = np.array(values[:y], dtype=float)
        mean = v.mean()
        got = [float(x) for x in l[1:]]
        for g, w, name in zip(got, (v.sum(), v[-1], mean), ("SUM", "NEW", "MEAN")):
            if not abs(g - w) <= 1e-9 * (1 + v.sum()):
                fail("%s: year %d of %s reported with %s=%r, expected %r", what, y, list(v), name, g, w)
        if mean > 0:
            conv = (max(0.0, (v**2).mean() - mean**2) / y) ** 0.5 / (tol * mean)
            if not abs(got[3] - conv) <= 1e-6 + 2e-7 / tol + 1e-6 * conv:
                fail("%s: year %d of %s with tolerance %g reported with CONVERGENCE=%r, expected %r", what, y, list(v), tol, got[3], conv)
            high = high or conv > 1.01
            if abs(conv - 1) < 1e-5:
                unsure += 1
            elif conv < 1:
                reached += 1
    marks = text.count("SIMULATION CONVERGED")
    require(reached <= marks <= reached + unsure, "%s: convergence announced %d times, reached %d times", what, marks, reached)
    return high
