"""P02: whole runs against the reference simulator."""
import e2e
import system
from core import Sub

RULE = (
    "Complete input file sets of 1-4 areas (units with forced, partial and planned outages, lines with six states, "
    "contracts, joint ownership, forecast uncertainty, all step/draw/sharing options) are run through the entry "
    "point; every printed number is compared with the reference simulator. Non-trivial: the run has loss of load "
    "and its result is determined (no tie at a whole megawatt, no choice between several optimal curtailments)."
)
ASSUMPTIONS = ["the random sequences of units and lines are those documented in refsim.py"]

SUBS = [
    Sub("whole", system.systems(), lambda c: e2e.differential(c), 160, 6000, cpu=200),
]
