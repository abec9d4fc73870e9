"""P27: the printed maintenance schedule."""
import numpy as np
from hypothesis import strategies as st

import e2e
import inputs
import maint
import p25
import p26
import system
from core import Sub, require

RULE = (
    "Areas with 0-60 units (predetermined outages and outages left to the program) are scheduled by the scheduling routine, "
    "by the reading of input files and in whole runs, with and without the printing of the schedule; what is printed has to "
    "be the schedule made (weeks of every unit, weekly peaks before, with maintenance), and in whole runs the one simulated: "
    "the reference simulator, given the printed weeks as predetermined, has to reach the printed results. Non-trivial: at "
    "least three units with maintenance are printed (whole: and there is loss of load)."
)


def info(secs, us, out):
    k = sum(bool(w) for w in out)
    cl = ["areas %d" % len(secs)]
    cl += ["both kinds"] * (len({x["pa"] for x, w in zip(us, out) if w}) > 1)
    cl += ["reported"] * any(s["infeasible"] for s in secs)
    cl += ["more than 40 units"] * any(len(s["rows"]) > 40 for s in secs)
    return {"nontrivial": bool(secs) and k > 2, "classes": cl}


def direct(c):
    out, text, WP, names, itab = p26.schedule(c)
    us = p26.flat(c["units"])
    secs = maint.printed(text, us, names, out, WP, c["irepm"], 6)
    require(itab >= 6 and (not secs or itab >= secs[-1]["tables"][0]), "number of tables %d", itab)
    return info(secs, us, out)


def printing(s):
    return s.map(lambda c: dict(c, irepm=1))


@st.composite
def described(draw):
    spec = draw(p26.described())
    spec["mc"]["M"] = draw(st.sampled_from([1, 1, 0]))
    return spec


def read(spec):
    maint.take()
    got = inputs.load(spec)
    text = maint.take()
    us = p26.flat(spec["units"], spec["unames"])
    out = maint.weeks_of(got["JPLOUT"], len(us))
    secs = maint.printed(text, us, spec["unames"], out, p26.peaks(spec), spec["mc"]["M"], 0)
    return info(secs, us, out)


@st.composite
def planned(draw):
    spec = draw(system.systems(areas=(1, 3), fin=(1, 2), random_units=False, lfu=False, margin=(100, 150)))
    for a in spec["areas"]:
        a["win"] = draw(p26.windows())
    for u in spec["units"]:
        u["pa"] = draw(st.integers(0, 1))
        if draw(st.integers(0, 3)):
            u["out"] = draw(p25.periods())
        if not u["pa"] and draw(st.booleans()):
            d1, d2 = draw(p26.durations())
            u["out"] = [0, d1, 0, d2]
    spec["mc"]["M"] = 1
    return spec


def run(spec):
    res = e2e.run(spec)
    names = [x.strip("'") for x in system.unit_names(spec)]
    secs = maint.sections(res["output"])
    marks = {}
    for s in secs:
        for name, _, m in s["rows"]:
            marks[name] = {k for k in range(52) if m[k] != ".."}
    shown = dict(spec, units=[])
    out = []
    for u, name in zip(spec["units"], names):
        w = marks.get(name, set())
        r = maint.runs(w)
        require(len(r) < 3, "unit %s: weeks %s", name, r)
        p = [x for b, k in r for x in (b + 1, k)]
        shown["units"].append(dict(u, pa=1, out=p + [0] * (4 - len(p))))
        out.append(w)
    us = [dict(u, cap=max(u["cap"])) for u in spec["units"]]
    maint.printed(res["output"], us, names, out, p26.peaks(spec), True, 0)
    r = info(secs, us, out)
    sim, why = e2e.reference(shown)
    if sim is None:
        return {"nontrivial": False, "classes": r["classes"] + [why]}
    e2e.compare(spec, res, sim)
    loss = sum(e2e.pick(R.plol["H"], "S").sum() for R in sim.years)
    return {"nontrivial": bool(loss) and any(out), "classes": r["classes"] + ["loss"] * bool(loss)}


SUBS = [
    Sub("schedule", p26.cases(), direct, 320, 8000, cpu=60),
    Sub("many", printing(p26.cases(most=60)), direct, 64, 2400, cpu=60),
    Sub("input", described(), read, 96, 4000, cpu=60, chunk=8),
    Sub("whole", planned(), run, 32, 2000, cpu=200, chunk=4),
]
