"""P26: maintenance that is left to the program; see also P27."""
import contextlib
import io

import numpy as np
from hypothesis import strategies as st

import inputs
import maint
import refsim
import system
from core import Sub, require
from nums import arr, frozen, unchanged

RULE = (
    "Areas with 1-14 units in plants of 1-5 units, part of them with predetermined outages, the others to be scheduled by "
    "the program (one or two outages of 1-12 weeks, rarely 30-52; with or without weeks given), several outage windows and "
    "forbidden periods and weekly peaks between flat and steep are given to the scheduling routine and, as input files, to "
    "the reading of the data. Every placement is checked against the rules one unit after the other (feasible, smallest sum, "
    "reported if nothing is feasible). Non-trivial: at least two units of one area placed by the program and a week that "
    "was too high, or a unit reported."
)


@st.composite
def windows(draw):
    if draw(st.booleans()):
        b, e = 1, 52
    else:
        b = draw(st.sampled_from([1, 2, 10]) | st.integers(1, 40))
        e = draw(st.sampled_from([52, 51]) | st.integers(b, 52))
    k = draw(st.integers(0, 6))
    if k == 0:
        return [b, e, 0, 0]
    if k < 3:
        return [1, 52, 31, 32]
    f1 = draw(st.sampled_from([31, 1, b, 26]) | st.integers(b, e))
    return [b, e, f1, draw(st.sampled_from([f1, min(52, f1 + 1), min(52, f1 + 12)]) | st.integers(f1, 52))]


@st.composite
def durations(draw):
    d = st.sampled_from([1, 2, 3, 4, 6]) | st.integers(1, 12) | st.integers(1, 6)
    if draw(st.integers(0, 14)) == 0:
        d = st.integers(13, 52)
    k = draw(st.integers(0, 9))
    if k < 5:
        return draw(d), 0
    if k < 6:
        return 0, draw(d)
    if k < 7:
        return 0, 0
    return draw(d), draw(d)


@st.composite
def unit(draw, area, plants, peak, auto, easy=False):
    d1, d2 = draw(durations())
    if easy:
        d1, d2 = (d1 + 4) % 5, (d2 + 4) % 5 if d2 else 0
    pa = 0 if draw(st.integers(0, 9)) < auto else 1
    b1 = b2 = 0
    if d1 and (pa or draw(st.integers(0, 2)) == 0):
        b1 = draw(st.integers(1, 52))
    if d2 and (pa or b1):
        b2 = b1 + d1 if b1 else draw(st.integers(1, 52))
        if b2 > 52:
            b2, d2 = 0, 0
    if pa:
        d1, d2 = (d1 if b1 else 0), (d2 if b2 else 0)
    c = draw(st.integers(1, max(1, int(peak * draw(st.sampled_from([0.02, 0.05] if easy else [0.03, 0.1, 0.25, 0.5]))))))
    cap = [c, c, c, c]
    if draw(st.booleans()):
        cap = [draw(st.integers(max(1, c // 2), c)) for _ in range(4)]
    return {
        "area": area, "plant": draw(st.integers(0, plants - 1)), "cap": cap, "pa": pa, "out": [b1, d1, b2, d2],
        "for": draw(st.sampled_from([0, 0.02, 0.1])), "dfor": draw(st.sampled_from([0, 0.03])), "der": draw(st.sampled_from([0, 25])),
    }


@st.composite
def units(draw, areas, peaks, most=14):
    out = []
    for a in range(areas):
        k = draw(st.sampled_from([most, most - 1]) | st.integers(1 if areas == 1 else 0, most))
        plants = draw(st.sampled_from([1, 2, 3, 5, 14]))
        auto = draw(st.sampled_from([3, 7, 7, 10]))
        easy = draw(st.booleans())
        out += [draw(unit(a, plants, peaks[a], auto, easy)) for _ in range(k)]
    if not out:
        out.append(draw(unit(0, 1, peaks[0], 10)))
    if draw(st.integers(0, 4)):  # no two of the same size
        for i, u in enumerate(out):
            u["cap"] = [round(x + 0.0131 * (i + 1), 4) for x in u["cap"]]
    if draw(st.booleans()):
        out = draw(st.permutations(out))
    return out


@st.composite
def cases(draw, most=14):
    n = draw(st.integers(1, 3))
    areas = []
    for _ in range(n):
        areas.append({
            "peak": draw(st.sampled_from([100, 1000]) | st.integers(50, 5000)) + draw(st.sampled_from([0.0, 0.37])),
            "low": draw(st.sampled_from([0.3, 0.6, 0.8, 0.95])), "seed": draw(st.integers(0, 10**6)), "shape": draw(st.integers(0, 3)), "win": draw(windows()),
        })
    us = draw(units(n, [a["peak"] for a in areas], most))
    return {"areas": areas, "units": us, "irepm": draw(st.integers(0, 1)), "nums": draw(st.sampled_from(["index", "ones"]))}


def weekly(a):
    rng = np.random.default_rng(a["seed"])
    w = np.arange(52)
    if a["shape"] == 0:
        v = rng.random(52)
    elif a["shape"] == 1:
        v = (1 + np.cos(2 * np.pi * (w - rng.integers(0, 52)) / 52)) / 2 + 0.05 * rng.random(52)
    elif a["shape"] == 2:
        v = np.floor(4 * rng.random(52))
    else:
        v = np.abs((w - rng.integers(0, 52)) / 52.0) + 0.01 * rng.random(52)
    v = (v - v.min()) / max(v.max() - v.min(), 1e-9)
    # the peak with contracts may be another one than that of the area itself
    return (a["low"] + (1 - a["low"]) * v) * a["peak"] * (1, 1.1, 0.95)[a["seed"] % 3]


def names_of(us):
    """Names of four characters for the plant, then a number of two digits."""
    k = {}
    out = []
    for u in us:
        p = "%s%03d" % ("PQR"[u["area"]], u["plant"])
        k[p] = k.get(p, 0) + 1
        out.append((p, "%02d" % k[p]))
    return out


def schedule(c):
    """Runs the scheduling routine; returns the weeks of the units, the text printed and the weekly peaks."""
    from reliabilityassessment.data_processing.smaint import smaint

    us, n = c["units"], len(c["areas"])
    nm = names_of(us)
    plants = sorted({x for x, _ in nm}) if c["nums"] == "ones" else list(dict.fromkeys(x for x, _ in nm))
    ID = arr([[i, plants.index(nm[i][0]), u["area"], u["out"][0] - 1, u["out"][1], u["out"][2] - 1, u["out"][3], u["pa"]] for i, u in enumerate(us)], int)
    RATES = arr([u["cap"] for u in us])
    PROBG = arr([[1 - u["dfor"] - u["for"], 1 - u["for"]] for u in us])
    DER = arr([1 - u["der"] / 100 for u in us])
    WP = np.array([weekly(a) for a in c["areas"]])
    PK = arr([a["peak"] for a in c["areas"]])
    W = arr([a["win"] for a in c["areas"]], int) - 1
    keep = frozen(RATES=RATES, PROBG=PROBG, DER=DER, WP=WP, PK=PK, W=W)
    maint.take()
    with contextlib.redirect_stdout(io.StringIO()):
        J, itab = smaint(n, ID, 6, RATES, PROBG, DER, PK, WP, c["irepm"], W[:, 0].copy(), W[:, 1].copy(), W[:, 2].copy(), W[:, 3].copy(),
                         [x for x, _ in nm], [x for _, x in nm])
    unchanged(keep, RATES=RATES, PROBG=PROBG, DER=DER, WP=WP, PK=PK, W=W)
    return maint.weeks_of(J, len(us)), maint.take(), WP, [x + y for x, y in nm], int(itab)


def flat(us, names=None):
    """The units as maint wants them."""
    return [dict(u, cap=max(u["cap"]), plant=names[i][:4] if names else (u["area"], u["plant"])) for i, u in enumerate(us)]


def judge(us, areas, WP, out, names, text):
    rep = maint.infeasible(text)
    require(len(rep) == len(set(rep)) and set(rep) <= set(names), "units %s reported", rep)
    cl, most = [], 0
    for a, x in enumerate(areas):
        place, k = maint.automatic(us, a, x["win"], WP[a], x["peak"], out, names, rep)
        cl += k
        most = max(most, len(place))
    cl = sorted(set(cl))
    return {"nontrivial": most > 1 and "some weeks too high" in cl or "reported" in cl, "classes": cl}


def direct(c):
    out, text, WP, names, _ = schedule(c)
    return judge(flat(c["units"]), c["areas"], WP, out, names, text)


@st.composite
def described(draw):
    spec = draw(system.systems(areas=(1, 3), lfu=False, planned=False, ownership=False, fin=(1, 1)))
    n = len(spec["areas"])
    for a in spec["areas"]:
        a["win"] = draw(windows())
        a["profile"]["k"] = draw(st.sampled_from([1, 6, 25]))
    us = draw(units(n, [a["peak"] for a in spec["areas"]], 8))
    spec["units"] = us
    spec["unames"] = ["".join(x) for x in names_of(us)]
    return spec


def peaks(spec):
    """Weekly peaks, with the contracts; the last week has 8 days."""
    S = refsim.Sim(spec)
    load = S.load + np.repeat(S.contract, 24, axis=0).T
    return np.array([[r[168 * w : 168 * w + 168 if w < 51 else 8760].max() for w in range(52)] for r in load])


def read(spec):
    maint.take()
    got = inputs.load(spec)
    text = maint.take()
    us = flat(spec["units"], spec["unames"])
    return judge(us, spec["areas"], peaks(spec), maint.weeks_of(got["JPLOUT"], len(us)), spec["unames"], text)


SUBS = [
    Sub("schedule", cases(), direct, 1200, 24000, cpu=60),
    Sub("many", cases(most=40), direct, 120, 4000, cpu=60),
    Sub("input", described(), read, 160, 6000, cpu=60, chunk=8),
]
