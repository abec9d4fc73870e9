"""P22: printed results."""
import numpy as np

import e2e
import outparse
import system
import years
from core import Sub, fail, require

RULE = (
    "Years with generated counters are handed to the yearly routine until it stops; every number of the annual tables, "
    "the final table, the summary and the distributions is read back from the output and compared with the one "
    "computed from the counters; whole runs (all print options) likewise with the reference simulator, including peak and "
    "installed capacity. Non-trivial: several areas, losses by both causes (runs: load is lost)."
)


def text(c):
    env, ref, out = years.run(c)
    e2e.compare(years.spec_of(c), {"output": out}, ref, caps=[float(a["cap"]) for a in c["areas"]])
    both = any(R.lol["H"]["G"].any() and R.lol["H"]["T"].any() for R in ref.years)
    return {"nontrivial": both and c["n"] > 1, "classes": ["levels %d" % c["nf"], "daily" if ref.daily else "hourly"]}


def run(spec):
    return e2e.differential(spec)


SUBS = [
    Sub("text", years.cases(), text, 1200, 40000),
    Sub("whole", system.systems(areas=(1, 4), fin=(1, 2)), run, 48, 2000, cpu=300, chunk=6),
]
