"""P10: load profiles scaled to the annual peaks."""
import os

import numpy as np
from hypothesis import strategies as st

import e2e
import inputs
import system
from core import Sub, require
from nums import equal, same

RULE = (
    "Load files of 1-14 and of 95-130 areas are generated: blocks in any order, half-day lines with or without leading date "
    "tokens, whole numbers or decimals, profiles larger or smaller than the peak, flat, zero or negative (more than the peak) in places, shares below one, "
    "peak in the first or last hour. The hourly loads are compared with the profile written, scaled to the peak; "
    "whole systems are read and simulated with such files. Non-trivial: several areas whose blocks are out of order."
)


@st.composite
def files(draw):
    n = draw(st.integers(1, 14))
    areas = []
    for _ in range(n):
        areas.append(
            {
                "seed": draw(st.integers(0, 10**6)),
                "top": draw(st.sampled_from([1, 100, 9999, 4000000]) | st.integers(1, 20000)),
                "kind": draw(st.sampled_from(["noise", "noise", "flat", "sparse", "negative", "decimals", "ramp", "unit"])),
                "at": draw(st.sampled_from([0, 11, 12, 23, 8747, 8748, 8759]) | st.integers(0, 8759)),
                "peak": draw(st.sampled_from([1, 0]) | st.integers(1, 9000) | st.floats(0.1, 9000)),
            }
        )
    return {
        "areas": areas, "blocks": list(draw(st.permutations(range(n)))), "lead": draw(st.integers(0, 4)),
        "gap": draw(st.integers(1, 4)), "end": draw(st.booleans()),
    }


def values(a):
    rng = np.random.default_rng(a["seed"])
    top = a["top"]
    if a["kind"] == "flat":
        return np.full(8760, float(top))
    if a["kind"] == "ramp":
        v = np.floor(np.arange(8760) * top / 8760.0)
    elif a["kind"] == "sparse":
        v = np.where(rng.random(8760) < 0.01, np.floor(rng.random(8760) * top), 0)
    elif a["kind"] == "decimals":
        v = np.round(rng.random(8760) * top, 2)
    else:
        v = np.floor(rng.random(8760) * top)
    if a["kind"] == "negative":
        v = v - top * [1, 2, 6][a["seed"] % 3] // 2
    v[a["at"]] = top
    if a["kind"] == "unit":
        # shares, such as those of the peak of a larger area
        v = np.round(v / top * (0.05 + a["seed"] % 100 / 105.0), 4)
    return v


def spell(c, k):
    """Tokens before the loads of a half-day line."""
    day, half = k // 2, k % 2
    if c["lead"] == 0:
        return ""
    if c["lead"] == 1:
        return "%04d " % (k + 1)
    if c["lead"] == 2:
        return "%02d %02d 84 %d " % (day // 31 + 1, day % 31 + 1, half + 1)
    if c["lead"] == 3:
        return "     " if half else "%02d%02d84 7 " % (day // 31 + 1, day % 31 + 1)
    return "99999 -3 0.5 "


def profiles(c):
    from reliabilityassessment.data_processing.xldnew import xldnew

    V = [values(a) for a in c["areas"]]
    out = []
    for i in c["blocks"]:
        out.append("AREA:A%d" % (i + 1))
        for k in range(730):
            v = V[i][12 * k : 12 * k + 12]
            out.append(spell(c, k) + (" " * c["gap"]).join("%d" % x if x == int(x) else "%r" % float(x) for x in v))
    name = os.path.abspath("LEEI-generated")
    peak = np.array([float(a["peak"]) for a in c["areas"]])
    keep = peak.copy()
    try:
        with open(name, "w") as f:
            f.write("\n".join(out) + ("\n" if c["end"] else ""))
        got = xldnew(name, peak)
    finally:
        os.remove(name)
    equal(peak, keep, "annual peaks changed")
    require(np.shape(got) == (len(V), 8760), "shape of the loads %s", np.shape(got))
    for i, v in enumerate(V):
        same(got[i], v / v.max() * keep[i], "load of area %d" % (i + 1), 1e-11)
        same(got[i].max(), keep[i], "peak of area %d" % (i + 1), 1e-12)
    n = len(V)
    return {"nontrivial": c["blocks"] != list(range(n)), "classes": ["areas %d" % n, "lead %d" % c["lead"]] + sorted({a["kind"] for a in c["areas"]})}


@st.composite
def many(draw):
    """More areas than two digits can count; only some profiles differ."""
    c = draw(files())
    n = draw(st.integers(95, 130))
    base = c["areas"]
    rng = np.random.default_rng(draw(st.integers(0, 10**6)))
    c["areas"] = [dict(base[i % len(base)], seed=i, peak=1 + i) for i in range(n)]
    c["blocks"] = [int(i) for i in rng.permutation(n)]
    return c


@st.composite
def blocks(draw, areas, **kw):
    spec = draw(system.systems(areas=areas, random_units=False, planned=False, **kw))
    spec["blocks"] = list(draw(st.permutations(range(len(spec["areas"])))))
    spec["dates"] = draw(st.integers(0, 2))
    return spec


def read(spec):
    got = inputs.load(spec)["HRLOAD"]
    same(got, system.loads(spec), "hourly load", 1e-10)
    return {"nontrivial": spec["blocks"] != sorted(spec["blocks"])}


def run(spec):
    r = e2e.differential(spec)
    r["nontrivial"] = r["nontrivial"] and spec["blocks"] != sorted(spec["blocks"])
    return r


SUBS = [
    Sub("profiles", files(), profiles, 160, 8000, cpu=60),
    Sub("many", many(), profiles, 6, 300, cpu=120, chunk=1),
    Sub("read", blocks((1, 4), fin=(1, 1)), read, 80, 3000, cpu=60),
    Sub("whole", blocks((1, 3), fin=(1, 1)), run, 32, 1500, cpu=200, chunk=4),
]
