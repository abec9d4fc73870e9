"""P08: daily, weekly, annual and pool peaks."""
import numpy as np
from hypothesis import strategies as st

import system
from core import Sub, require
from nums import equal, frozen, same, unchanged

RULE = (
    "Hourly loads of 1-5 areas (smooth, noisy, with equal peaks in several hours or days, flat, negative after "
    "contracts, extremes at the first or last hour) are generated and every peak recomputed by plain scanning; "
    "systems with contracts are read from files. Non-trivial: not all loads of an area are equal."
)


@st.composite
def cases(draw):
    n = draw(st.integers(1, 5))
    return {
        "n": n,
        "seed": draw(st.integers(0, 10**6)),
        "levels": draw(st.sampled_from([1, 2, 3, 10, 100, 0, -1])),
        "neg": draw(st.booleans()),
        "flat": draw(st.lists(st.integers(0, 364), max_size=3)),
        "set": draw(
            st.lists(
                st.tuples(
                    st.integers(0, n - 1),
                    st.sampled_from([0, 23, 24, 8735, 8736, 8759, 8567, 8568]) | st.integers(0, 8759),
                    st.sampled_from([1000.0, 1000.0, 999.5, -5.0]),
                ),
                max_size=8,
            )
        ),
    }


def build(c):
    rng = np.random.default_rng(c["seed"])
    if c["levels"] == 0:
        x = rng.random((c["n"], 8760)) * 900
    elif c["levels"] < 0:  # differences of watts
        x = 900 + rng.integers(0, 50, size=(c["n"], 8760)) * 1e-6
    else:
        x = rng.integers(0, c["levels"], size=(c["n"], 8760)) * (900.0 / c["levels"])
    if c["neg"]:
        x = x - 950
    for d in c["flat"]:
        x[:, 24 * d : 24 * d + 24] = 7.0
    for a, h, v in c["set"]:
        x[a, h] = v
    return x


def first_max(v):
    k = 0
    for i in range(len(v)):
        if v[i] > v[k]:
            k = i
    return k


def expected(x):
    n = len(x)
    dy = np.zeros((n, 365))
    hr = np.zeros((n, 365), int)
    for a in range(n):
        for d in range(365):
            day = x[a, 24 * d : 24 * d + 24].tolist()
            k = first_max(day)
            dy[a, d], hr[a, d] = day[k], 24 * d + k
    wk = np.zeros((n, 52))
    for a in range(n):
        for w in range(52):
            wk[a, w] = max(dy[a, 7 * w : 7 * w + (8 if w == 51 else 7)].tolist())
    mx = np.array([first_max(dy[a].tolist()) for a in range(n)])
    return dy, hr, wk, mx


def peaks(case):
    from reliabilityassessment.data_processing.dpeak import _dpeak, dpeak
    from reliabilityassessment.data_processing.plhr import plhr
    from reliabilityassessment.data_processing.wpeakf import _wpeakf, wpeakf

    x = build(case)
    before = frozen(x=x)
    dy, hr, wk, mx = expected(x)
    for f in (dpeak, _dpeak):
        MAXHR, DYLOAD, MAXDAY = f(x)
        equal(DYLOAD, dy, f.__name__ + " daily peak")
        equal(MAXHR, hr, f.__name__ + " hour of the daily peak")
        equal(MAXDAY, mx, f.__name__ + " day of the annual peak")
        equal(DYLOAD[np.arange(len(x)), MAXDAY], x.max(axis=1), f.__name__ + " annual peak")
    for f in (wpeakf, _wpeakf):
        d2 = dy.copy()
        equal(f(d2), wk, f.__name__ + " weekly peak")
        equal(d2, dy, "daily peaks changed by " + f.__name__)
    got = plhr(x)
    equal(np.asarray(got).shape, (365,), "number of pool peak hours")
    pool = x.sum(axis=0)
    for d in range(365):
        h = int(got[d])
        require(24 * d <= h < 24 * d + 24, "pool peak hour %d of day %d", h, d)
        day = pool[24 * d : 24 * d + 24]
        if case["levels"]:  # whole numbers: sums are exact
            require(h == 24 * d + first_max(day.tolist()), "pool peak of day %d at hour %d, expected %d", d, h, 24 * d + first_max(day.tolist()))
        top = day.max()
        require(pool[h] >= top - 1e-9 * max(1, abs(top)), "pool peak of day %d at hour %d: %r, but %r", d, h, pool[h], top)
        for e in range(24 * d, h):
            # an earlier hour as high, whatever the order of summation
            require(not (x[:, e] == x[:, h]).all(), "pool peak of day %d at hour %d, but hour %d is as high", d, h, e)
    unchanged(before, x=x)
    return {"nontrivial": len(np.unique(x[0])) > 1, "classes": ["levels %d" % case["levels"]]}


def weekly(case):
    """Weekly peaks of arbitrary daily peaks."""
    from reliabilityassessment.data_processing.wpeakf import _wpeakf, wpeakf

    rng = np.random.default_rng(case["seed"])
    x = rng.integers(-3, 4, size=(case["n"], 365)).astype(float)
    for a, d, v in case["set"]:
        x[a, d % 365] = v
    want = np.array([[max(r[7 * w : (7 * w + 7 if w < 51 else 365)]) for w in range(52)] for r in x.tolist()])
    for f in (wpeakf, _wpeakf):
        equal(f(x.copy()), want, f.__name__)
    return {"nontrivial": True}


def from_files(spec):
    import inputs

    R = inputs.load(spec)
    n = len(spec["areas"])
    x = system.loads(spec)
    for c in spec["contracts"]:
        x[c["from"], 24 * (c["beg"] - 1) : 24 * c["end"]] += c["mw"]
        x[c["to"], 24 * (c["beg"] - 1) : 24 * c["end"]] -= c["mw"]
    dy = x.reshape(n, 365, 24).max(axis=2)
    same(R["DYLOAD"], dy, "daily peak", 1e-7)
    same(R["WPEAK"], np.array([[max(r[7 * w : (7 * w + 7 if w < 51 else 365)]) for w in range(52)] for r in dy]), "weekly peak", 1e-7)
    eps = 1e-6
    for a in range(n):
        d = int(R["MAXDAY"][a])
        require(dy[a, d] >= dy[a].max() - eps, "annual peak of area %d on day %d", a + 1, d)
        require(not (dy[a, :d] >= dy[a, d] + eps).any(), "annual peak of area %d earlier", a + 1)
        for k in range(365):
            require(abs(x[a, R["MAXHR"][a, k]] - dy[a, k]) < eps, "hour of the daily peak of area %d day %d", a + 1, k)
    pool = x.sum(axis=0)
    for d in range(365):
        h = int(R["MXPLHR"][d])
        require(24 * d <= h < 24 * d + 24 and pool[h] >= pool[24 * d : 24 * d + 24].max() - eps, "pool peak hour of day %d", d)
    return {"nontrivial": True}


SUBS = [
    Sub("peaks", cases(), peaks, 320, 12000, cpu=60),
    Sub("weekly", cases(), weekly, 400, 8000),
    Sub("files", system.systems(random_units=False, contracts=2, ownership=False), from_files, 120, 4000, cpu=60),
]
