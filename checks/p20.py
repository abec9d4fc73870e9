"""P20: accumulation of the yearly statistics."""
import numpy as np

import e2e
import system
import years
from core import Sub, require
from nums import equal, same

RULE = (
    "Annual counters of 1-7 years (areas, levels, causes; years without losses, equal and very different years) are "
    "handed to the yearly routine; after every year all accumulators, distributions and sums of squares are compared "
    "with sums over the years and the annual counters have to be zero; whole runs of several years are compared with "
    "the reference simulator. Non-trivial: at least two years with losses."
)


def accumulate(c):
    def after(env, ref, y):
        want = years.accumulated(c, ref, y)
        for k in want:
            same(env[k], want[k], "%s after year %d" % (k, y), 1e-9)
        for k in years.ANNUAL:
            require(not np.any(env[k]), "%s is not reset after year %d", k, y)
        for k in ("HLOLE", "DPLOLE", "EUES"):
            equal(env[k].sum(axis=1), np.full(c["n"], y), "years in the distribution %s" % k)

    years.run(c, after)
    lossy = sum(y["size"] > 0 and y["fill"] > 0 for y in c["years"])
    return {"nontrivial": lossy > 1, "classes": ["levels %d" % c["nf"]]}


def run(spec):
    info = e2e.differential(spec)
    info["nontrivial"] = info["nontrivial"] and "several years" in info["classes"]
    return info


SUBS = [
    Sub("accumulate", years.cases(), accumulate, 1200, 40000),
    Sub("whole", system.systems(areas=(1, 3), fin=(2, 4), step=24), run, 32, 1500, cpu=300, chunk=4),
    Sub("hourly", system.systems(areas=(1, 3), fin=(2, 2), step=1), run, 16, 800, cpu=300, chunk=2),
]
