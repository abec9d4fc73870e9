"""P23: snapshots."""
import os
import pickle

import numpy as np
from hypothesis import strategies as st

import e2e
import state
import system
import years
from core import Sub, fail, require
from nums import arr, equal, frozen, same, unchanged

RULE = (
    "Snapshots of generated contents and sizes are written and loaded back; years with generated counters are handed to "
    "the yearly routine and every snapshot it writes is compared with sums over the years, and the years in which it "
    "is written with the interval and the year limit; whole runs are repeated with another interval and without "
    "snapshots being due, and the snapshot of their end compared with the reference simulator. Non-trivial: "
    "snapshots during the run (round trip: several areas)."
)


@st.composite
def contents(draw):
    return {"n": draw(st.integers(1, 12)), "seed": draw(st.integers(0, 10**6)), "clock": draw(st.integers(1, 40)) * 8760.0,
            "num": draw(st.integers(0, 20)), "ratio": draw(st.floats(0, 1e6))}


def round_trip(c):
    import inspect

    from reliabilityassessment.monte_carlo.intm import intm
    from reliabilityassessment.monte_carlo.rstart import rstart

    rng = np.random.default_rng(c["seed"])
    env = state.environment(c["n"], nu=c["num"] + 1, nl=c["num"])
    for k, v in env.items():
        if isinstance(v, np.ndarray) and v.dtype == float:
            env[k] = np.array(rng.random(v.shape) * 100)
    env.update(CLOCK=c["clock"], XLAST=c["ratio"], SSQ=c["ratio"] ** 2, NUMINQ=c["num"], ITAB=int(rng.integers(0, 20000)),
               INTVT=int(rng.integers(1, 9999)), MFA=4 * int(rng.integers(0, 24)), IPOINT=4 * int(rng.integers(0, 24)),
               WOLSHA=rng.random(c["n"]), ATRIB=np.array([c["clock"], 4.0]))
    given = {k: env[k] for k in inspect.signature(intm).parameters}
    before = frozen(**given)
    state.call(intm, env)
    unchanged(before, **given)
    for k, v in given.items():  # what happens afterwards does not matter
        if isinstance(v, np.ndarray) and v.shape:
            v[...] = 0
    got = rstart("DUMP.pkl")
    os.remove("DUMP.pkl")
    require(set(got) == set(given), "snapshot holds %s", sorted(set(got) ^ set(given)))
    for k in given:
        if k == "ATRIB":
            require(np.ravel(got[k])[-1] == 4.0, "type of the event %r", got[k])
            continue
        equal(got[k], before[k], "loaded %s" % k)
    return {"nontrivial": c["n"] > 1}


SCALARS = ("CLOCK", "XLAST", "SSQ", "ITAB", "MFA", "NUMINQ", "IPOINT")
SYSTEM = ("LT", "BB", "ZB", "LSFLG", "EVNTS")


def during(c):
    from reliabilityassessment.monte_carlo.rstart import rstart

    mc = c["mc"]
    mid = []

    def after(env, ref, y):
        due = y % mc["IN"] == 0 or y == mc["FIN"]
        there = os.path.exists("DUMP.pkl")
        require(there == due, "snapshot after year %d of %d at interval %d: %s", y, mc["FIN"], mc["IN"], there)
        if not there:
            return
        if y < mc["FIN"]:
            mid.append(y)
        d = rstart("DUMP.pkl")
        os.remove("DUMP.pkl")
        want = years.accumulated(c, ref, y)
        for k, v in want.items():
            if k in d:
                same(d[k], v, "%s of the snapshot after year %d" % (k, y), 1e-9)
                same(d[k], env[k], "%s of the snapshot and of the run" % k, 1e-9)
        lacking = [k for k in ("SOLSHA", "SGNSPP", "HLOLE", "DPLOLE", "EUES", "XNEWA", "XNEWP", "SWLSHA", "SWNTPA") if k not in d]
        require(not lacking, "snapshot lacks %s", lacking)
        v = [ref.statistic(R) for R in ref.years]
        same(d["XLAST"], sum(v), "sum of the tested statistic")
        same(d["SSQ"], sum(x * x for x in v), "sum of squares of the tested statistic")
        require(d["CLOCK"] == 8760.0 * y, "clock of the snapshot %r", d["CLOCK"])
        for k in SCALARS[4:] + SYSTEM:
            equal(d[k], env[k], "%s of the snapshot" % k)
        tables = y if mc["IJ"] else 0
        require(d["ITAB"] == tables, "%r tables counted, %d written", d["ITAB"], tables)
        require(d["INTVT"] in (y, mc["IN"] * (y // mc["IN"]), mc["IN"] * (y // mc["IN"] + 1)), "next snapshot %r", d["INTVT"])

    years.run(c, after)
    return {"nontrivial": bool(mid), "classes": ["interval %d" % mc["IN"]]}


@st.composite
def runs(draw):
    s = draw(system.systems(areas=(1, 3), fin=(1, 4), step=24))
    s["mc"]["IN"] = draw(st.integers(1, 5))
    s["other"] = draw(st.sampled_from([1, 2, 9]))
    return s


def whole(spec):
    from reliabilityassessment.monte_carlo.rstart import rstart

    other = spec.pop("other")
    got = {}

    def keep(work, res):
        p = os.path.join(work, "DUMP.pkl")
        got["d"] = rstart(p) if os.path.exists(p) else None

    a = e2e.run(spec, keep)
    spec2 = dict(spec, mc=dict(spec["mc"], IN=other))
    b = e2e.run(spec2)
    require(a["output"] == b["output"], "the results depend on the interval of the snapshots (%d and %d)", spec["mc"]["IN"], other)
    require(got["d"] is not None, "no snapshot at the year limit")
    d = got["d"]
    Y = spec["mc"]["FIN"]
    require(d["CLOCK"] == 8760.0 * Y, "snapshot of the end at %r", d["CLOCK"])
    for k in ("HLOLE", "DPLOLE", "EUES"):
        equal(np.asarray(d[k]).sum(axis=1), np.full(len(spec["areas"]), float(Y)), "years in %s" % k)
    sim, why = e2e.reference(spec)
    if sim is None:
        return {"nontrivial": Y > 1, "classes": [why]}
    for p in "HP":
        for cause in "GTS":
            for k, s in (("lol", "SOL"), ("mgn", "SGN")):
                same(d[s + cause + p + "A"], sum(e2e.pick(getattr(R, k)[p], cause) for R in sim.years), s + cause + p + "A of the snapshot")
                same(d[s + cause + p + "P"], sum(e2e.pick(getattr(R, "p" + k)[p], cause) for R in sim.years), s + cause + p + "P of the snapshot")
    loss = sum(e2e.pick(R.plol["H"], "S").sum() for R in sim.years)
    return {"nontrivial": bool(loss)}


SUBS = [
    Sub("round_trip", contents(), round_trip, 600, 20000),
    Sub("during", years.cases(years=(1, 9)), during, 800, 30000),
    Sub("whole", runs(), whole, 32, 1500, cpu=300, chunk=4),
]
