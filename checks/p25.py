"""P25: predetermined planned outages."""
import contextlib
import io

import numpy as np
from hypothesis import strategies as st

import e2e
import inputs
import p03
import state
import system
from core import Sub, require
from nums import arr, equal, frozen, same, unchanged

RULE = (
    "Sets of 1-20 units (in `hundreds` 100-700) in 1-5 areas with up to two planned outages each (first and last week, one to many weeks, "
    "running beyond the year, areas without units or with one, any order, any plants) are given to the scheduling routine and, as "
    "input files, to the reading of the data; in every week the scheduled units have to be exactly those whose outages "
    "cover it, and the week's routine has to take exactly them out of service; whole runs are compared with the "
    "reference simulator. Non-trivial: at least two units with an outage, one of them with two."
)


@st.composite
def periods(draw, overlap=False):
    if draw(st.integers(0, 3)) == 0:
        return [0, 0, 0, 0]
    b1 = draw(st.sampled_from([1, 2, 26, 51, 52]) | st.integers(1, 52))
    d1 = draw(st.sampled_from([1, 2, 52]) | st.integers(1, 12))
    e1 = b1 + d1
    if overlap and draw(st.integers(0, 5)) == 0:
        # two outages which overlap, from the same week perhaps
        return [b1, d1, draw(st.sampled_from([b1, b1, min(52, b1 + 1)]) | st.integers(1, 52)), draw(st.sampled_from([d1, d1 + 1]) | st.integers(1, 12))]
    if e1 <= 52 and draw(st.booleans()):
        b2 = draw(st.sampled_from([e1, 52]) | st.integers(e1, 52))
        return [b1, d1, b2, draw(st.sampled_from([1, 5]) | st.integers(1, 12))]
    if draw(st.integers(0, 4)) == 0:
        return [0, 0, b1, d1]
    return [b1, d1, 0, 0]


@st.composite
def cases(draw):
    n = draw(st.integers(1, 5))
    units = []
    for _ in range(draw(st.integers(1, 20))):
        p = draw(periods(True))
        units.append({
            "area": draw(st.integers(0, n - 1)), "out": p, "cap": [draw(st.integers(1, 900)) for _ in range(4)],
            "for": draw(st.sampled_from([0, 0.02, 0.3])), "dfor": draw(st.sampled_from([0, 0.05])), "der": draw(st.sampled_from([0, 25, 50])),
        })
    plant = list(range(len(units)))
    if draw(st.integers(0, 2)):
        # numbers in any order, several units in a plant
        plant = draw(st.lists(st.integers(0, draw(st.sampled_from([2, 20]))), min_size=len(units), max_size=len(units)))
    return {"n": n, "units": units, "plant": plant, "irepm": draw(st.integers(0, 1))}


def weeks(p):
    b1, d1, b2, d2 = p
    out = set()
    for b, d in ((b1, d1), (b2, d2)):
        if b > 0:
            out |= set(range(b - 1, min(52, b - 1 + d)))
    return out


def listed(J, units, what):
    J = np.asarray(J)
    require(J.shape[0] == 52, "%s: %d weeks", what, J.shape[0])
    for w in range(52):
        want = [u for u, x in enumerate(units) if w in weeks(x["out"])]
        got = J[w, 1 : 1 + int(J[w, 0])].tolist()
        require(sorted(got) == want, "%s: in week %d units %s are on planned outage, expected %s", what, w + 1, got, want)


def schedule(c):
    from reliabilityassessment.data_processing.smaint import smaint

    n, us = c["n"], c["units"]
    nu = len(us)
    ID = arr([[i, p, u["area"], u["out"][0] - 1, u["out"][1], u["out"][2] - 1, u["out"][3], 1] for i, (u, p) in enumerate(zip(us, c["plant"]))], int)
    RATES = arr([u["cap"] for u in us])
    PROBG = arr([[1 - u["dfor"] - u["for"], 1 - u["for"]] for u in us])
    DER = arr([1 - u["der"] / 100 for u in us])
    rng = np.random.default_rng(1)
    WP = 100 + rng.random((n, 52))
    out = io.StringIO()
    ones = np.ones(n, int)
    keep = frozen(RATES=RATES, PROBG=PROBG, DER=DER, WP=WP)
    with contextlib.redirect_stdout(out):
        J, itab = smaint(n, ID, 3, RATES, PROBG, DER, arr([1000.0] * n), WP, c["irepm"], ones * 0, ones * 51, ones * 30, ones * 31,
                         ["A%03d" % i for i in range(nu)], ["%02d" % i for i in range(nu)])
    unchanged(keep, RATES=RATES, PROBG=PROBG, DER=DER, WP=WP)
    listed(J, us, "schedule")
    require(int(itab) >= 3, "number of tables decreases")
    applied(c, J)
    return info(us)


def applied(c, J):
    """The units taken out of service in the weeks of a year."""
    from reliabilityassessment.monte_carlo.week import week

    nu = len(c["units"])
    env = state.environment(c["n"], nu, JPLOUT=np.array(J), PLNDST=np.ones(nu), JSTEP=24, JFREQ=24, INDX=1)
    state.start(env)
    seen = set()
    for _ in range(3000):
        if env["IPOINT"] == -1:
            break
        t, kind = state.step(env)
        if t > 8760:
            break
        if kind != 2:
            continue
        w = int(t // 168)
        if w < 52:
            seen.add(w)
            want = [0.0 if w in weeks(u["out"]) else 1.0 for u in c["units"]]
            equal(env["PLNDST"], want, "units in service in week %d" % (w + 1))
    require(seen == set(range(52)), "weeks %s do not begin", sorted(set(range(52)) - seen))


def info(us):
    k = [sum(1 for b in (u["out"][0], u["out"][2]) if b > 0) for u in us]
    late = any(51 in weeks(u["out"]) for u in us)
    return {"nontrivial": sum(x > 0 for x in k) > 1 and max(k) > 1, "classes": ["last week"] * late + ["first week"] * any(0 in weeks(u["out"]) for u in us)}


@st.composite
def many(draw):
    """Parameters of data with hundreds of units."""
    return {"n": draw(st.integers(1, 3)), "count": draw(st.integers(480, 520) | st.integers(100, 700)), "seed": draw(st.integers(0, 10**6)), "one": draw(st.booleans()), "per": draw(st.sampled_from([1, 3, 100])), "irepm": draw(st.integers(0, 1))}


def hundreds(v):
    r = np.random.default_rng(v["seed"])
    pick = lambda a: a[int(r.integers(len(a)))]
    units = []
    for k in range(v["count"]):
        b1, d1 = int(r.integers(1, 53)), int(r.integers(1, 9))
        out = [0, 0, 0, 0] if r.random() < 0.4 else [b1, d1, 0, 0]
        if out[0] and b1 + d1 <= 52 and r.random() < 0.5:
            out[2:] = [int(r.integers(b1 + d1, 53)), int(r.integers(1, 9))]
        c = int(r.integers(1, 20))
        units.append({"area": 0 if v["one"] and r.random() < 0.99 else int(r.integers(0, v["n"])), "out": out, "cap": [c, c + 1, c, c + 2], "for": pick([0, 0.02, 0.3]), "dfor": pick([0, 0.05]), "der": pick([0, 25, 50])})
    r = schedule({"n": v["n"], "units": units, "plant": [k // v["per"] for k in range(len(units))], "irepm": v["irepm"]})
    inone = max(np.bincount([u["area"] for u in units]))
    r["classes"] = r["classes"] + ["more than 500 units in an area"] * bool(inone > 500) + ["more than 150 plants"] * (len(units) // v["per"] > 150)
    return r


@st.composite
def described(draw):
    c = draw(cases())
    spec = draw(system.systems(areas=(c["n"], c["n"]) if c["n"] < 5 else (4, 4), lfu=False, planned=False, fin=(1, 1)))
    n = len(spec["areas"])
    spec["units"] = [dict(u, area=u["area"] % n) for u in c["units"]]
    spec["own"] = []
    return spec


def read(spec):
    """From the input file to the schedule."""
    got = inputs.load(spec)
    listed(got["JPLOUT"], spec["units"], "input")
    return info(spec["units"])


def run(spec):
    r = e2e.differential(spec)
    r["nontrivial"] = r["nontrivial"] and sum(u["out"][0] > 0 for u in spec["units"]) > 0
    return r


@st.composite
def planned(draw):
    spec = draw(system.systems(areas=(1, 3), fin=(1, 2), random_units=False, lfu=False, margin=(95, 130)))
    for u in spec["units"]:
        if draw(st.integers(0, 2)):
            u["out"] = draw(periods(True))
    return spec


SUBS = [
    Sub("schedule", cases(), schedule, 160, 6000, cpu=60),
    Sub("hundreds", many(), hundreds, 32, 1000, cpu=100, chunk=4),
    Sub("input", described(), read, 60, 3000, cpu=60, chunk=8),
    Sub("whole", planned(), run, 32, 2000, cpu=200, chunk=4),
]
