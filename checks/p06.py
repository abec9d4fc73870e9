"""P06: capacity owned and located."""
import numpy as np
from hypothesis import strategies as st

import e2e
import system
from core import Sub, require
from nums import arr, equal, frozen, same, unchanged

RULE = (
    "Ownership matrices (single, joint, incomplete, areas without units), units in any order and availabilities "
    "are generated and the sums recomputed unit by unit; the input tables are read back from files; whole runs "
    "with joint ownership are compared with the reference simulator. Non-trivial: a unit is owned jointly or by "
    "an area other than its own and is available (runs: and load is lost)."
)


@st.composite
def cases(draw):
    n = draw(st.integers(1, 6))
    u = draw(st.integers(1, 12))
    own, loc, av = [], [], []
    for _ in range(u):
        a = draw(st.integers(0, n - 1))
        kind = draw(st.integers(0, 4))
        s = [0.0] * n
        if kind <= 1:
            s[a] = 1.0
        elif kind == 2:
            s[draw(st.integers(0, n - 1))] = 1.0
        elif kind == 3:
            s = [p / 100.0 for p in system.share_split(draw, n)]
        else:
            s = [draw(st.integers(0, 100)) / 100.0 / n for _ in range(n)]
        loc.append(a)
        own.append(s)
        av.append(draw(st.sampled_from([0.0, 1.0]) | st.floats(0, 2000)))
    return {"n": n, "own": own, "loc": loc, "avail": av}


def split(case):
    from reliabilityassessment.monte_carlo.sumcap import sumcap

    n = case["n"]
    CAPOWN = arr(case["own"]).T.copy()
    AVAIL = arr(case["avail"])
    CAPCON = arr(case["loc"], int)
    before = frozen(o=CAPOWN, a=AVAIL, c=CAPCON)
    CAPAVL, SYSOWN, SYSCON, TRNSFJ = sumcap(AVAIL, CAPOWN, CAPCON)
    unchanged(before, o=CAPOWN, a=AVAIL, c=CAPCON)
    owned, located = [0.0] * n, [0.0] * n
    part = [[0.0] * len(AVAIL) for _ in range(n)]
    for k, (a, s, v) in enumerate(zip(case["loc"], case["own"], case["avail"])):
        located[a] += v
        for i in range(n):
            owned[i] += s[i] * v
            part[i][k] = s[i] * v
    same(CAPAVL, part, "share of unit")
    same(SYSOWN, owned, "owned capacity")
    same(SYSCON, located, "located capacity")
    same(TRNSFJ, arr(located) - arr(owned), "scheduled transfer")
    complete = all(abs(sum(s) - 1) < 1e-12 for s in case["own"])
    if complete:
        same(np.sum(TRNSFJ), 0.0, "sum of the transfers", 1e-9 * max(1, sum(case["avail"])))
        same(np.sum(SYSOWN), np.sum(SYSCON), "pool capacity")
    other = any(v > 0 and s[a] < 1 for a, s, v in zip(case["loc"], case["own"], case["avail"]))
    return {"nontrivial": other, "classes": ["complete" if complete else "incomplete"]}


@st.composite
def order(draw):
    c = draw(cases())
    return {"c": c, "areas": draw(st.permutations(range(c["n"]))), "units": draw(st.permutations(range(len(c["loc"]))))}


def renumber(case):
    """Renumbering areas and units renumbers the result."""
    from reliabilityassessment.monte_carlo.sumcap import sumcap

    c, pa, pu = case["c"], case["areas"], case["units"]
    own, av, loc = arr(c["own"]).T, arr(c["avail"]), arr(c["loc"], int)
    A = sumcap(av.copy(), own.copy(), loc.copy())
    inv = np.argsort(pa)
    B = sumcap(av[pu].copy(), own[pa][:, pu].copy(), inv[loc[pu]].copy())
    for k, name in ((1, "owned"), (2, "located"), (3, "transfer")):
        same(B[k], A[k][pa], name + " after renumbering")
    return {"nontrivial": list(pa) != sorted(pa) or list(pu) != sorted(pu)}


def from_files(spec):
    """The ownership and location tables made from the files."""
    import inputs

    R = inputs.load(spec)
    n, u = len(spec["areas"]), len(spec["units"])
    want = np.zeros((n, u))
    for k, x in enumerate(spec["units"]):
        want[x["area"], k] = 1
    for o in spec["own"]:
        want[:, o["unit"]] = arr(o["pct"]) / 100.0
    same(R["CAPOWN"], want, "ownership")
    equal(R["CAPCON"], [x["area"] for x in spec["units"]], "location of unit")
    # capacity of the summary at the annual peak
    return {"nontrivial": bool(spec["own"])}


def run(spec):
    info = e2e.differential(spec)
    info["nontrivial"] = info["nontrivial"] and bool(spec["own"])
    return info


SUBS = [
    Sub("sums", cases(), split, 1500, 60000),
    Sub("renumber", order(), renumber, 600, 20000),
    Sub("files", system.systems(random_units=False), from_files, 120, 4000, cpu=60),
    Sub("whole", system.systems(areas=(2, 4), ownership=2, contracts=False, fin=(1, 1)), run, 64, 2500, cpu=200, chunk=8),
]
