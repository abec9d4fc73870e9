"""P07: firm contracts."""
import numpy as np
from hypothesis import strategies as st

import e2e
import system
from core import Sub, require
from nums import arr, equal, frozen, same, unchanged

RULE = (
    "Contract tables (any pairs, both directions, several per pair, overlapping, first and last day) are generated; "
    "transfers of every day and hour are recomputed row by row; adding and removing restores the loads; rows (up "
    "to 300) are read back from files; whole runs with contracts are compared with the reference simulator. Non-trivial: at "
    "least one contract with power (several for the same pair are counted in the classes); runs: and load is lost."
)


@st.composite
def tables(draw):
    """pointer matrix and daily powers, as the program keeps them"""
    n = draw(st.integers(1, 6))
    pairs = [(i, j) for i in range(n) for j in range(n) if i != j]
    use = draw(st.lists(st.sampled_from(pairs), unique=True, max_size=8)) if pairs else []
    rows = []
    for k, (i, j) in enumerate(use):
        segs = []
        for _ in range(draw(st.integers(0, 3))):
            b = draw(st.sampled_from([0, 1, 363, 364]) | st.integers(0, 364))
            e = draw(st.sampled_from([b, 364]) | st.integers(b, 364))
            segs.append([b, e, draw(st.sampled_from([1.0, 100.0, -20.0, 0.25]) | st.floats(0.5, 900))])
        rows.append([i, j, segs])
    return {
        "n": n, "rows": rows, "extra": draw(st.integers(0, 3)), "order": draw(st.permutations(range(len(use)))),
        "seed": draw(st.integers(0, 10**6)), "days": draw(st.lists(st.sampled_from([0, 1, 363, 364]) | st.integers(0, 364), min_size=1, max_size=6)),
    }


def build(case):
    n = case["n"]
    JENT = -np.ones((n, n), dtype=int)
    INTCH = np.zeros((len(case["rows"]) + case["extra"] + (not case["rows"]), 365))
    want = np.zeros((365, n))
    for k, (i, j, segs) in enumerate(case["rows"]):
        p = case["order"][k]
        JENT[i, j] = p
        for b, e, mw in segs:
            for d in range(b, e + 1):
                INTCH[p, d] += mw
                want[d, i] += mw
                want[d, j] -= mw
    return JENT, INTCH, want


def daily(case):
    from reliabilityassessment.monte_carlo.findtn import findtn

    JENT, INTCH, want = build(case)
    before = frozen(j=JENT, i=INTCH)
    power = 0
    for d in case["days"]:
        t = findtn(JENT, INTCH, d)
        same(t, want[d], "transfer of day %d" % d)
        same(np.sum(t), 0.0, "sum of the transfers of day %d" % d, 1e-6)
        power += np.abs(want[d]).sum()
    unchanged(before, j=JENT, i=INTCH)
    return {"nontrivial": bool(power)}


def hourly(case):
    from reliabilityassessment.data_processing.xporta import _xporta, xporta
    from reliabilityassessment.data_processing.xports import xports

    JENT, INTCH, want = build(case)
    load = np.random.default_rng(case["seed"]).integers(100, 3000, size=(case["n"], 8760)) / 4.0
    add = np.repeat(want, 24, axis=0).T
    for f in (xporta, _xporta):
        got = load.copy()
        f(JENT.copy(), INTCH.copy(), got)
        same(got, load + add, f.__name__)
        xports(JENT.copy(), INTCH.copy(), got)
        same(got, load, "loads after adding (%s) and removing" % f.__name__)
    before = frozen(j=JENT, i=INTCH)
    got = load.copy()
    xports(JENT, INTCH, got)
    same(got, load - add, "xports")
    xporta(JENT, INTCH, got)
    same(got, load, "loads after removing and adding")
    unchanged(before, j=JENT, i=INTCH)
    return {"nontrivial": bool(np.abs(want).sum())}


@st.composite
def rows_of_file(draw):
    spec = draw(system.systems(areas=(2, 5), random_units=False, ownership=False, contracts=False))
    n = len(spec["areas"])
    rows = []
    pairs = [[i, j] for i in range(n) for j in range(n) if i != j]
    pairs = draw(st.lists(st.sampled_from(pairs), min_size=1, max_size=4))
    for _ in range(draw(st.integers(1, 14))):
        f, t = draw(st.sampled_from(pairs))
        b = draw(st.sampled_from([1, 2, 365]) | st.integers(1, 365))
        e = draw(st.sampled_from([b, 365]) | st.integers(b, 365))
        mw = draw(st.integers(1, 500) | st.sampled_from([0.5, 12.25, -30]))
        rows.append({"from": f, "to": t, "beg": b, "end": e, "mw": mw})
    spec["contracts"] = rows
    return spec


@st.composite
def many_rows(draw):
    """More rows than there can be pairs of areas."""
    spec = draw(system.systems(areas=(5, 12), integer=True, random_units=False, ownership=False, contracts=False))
    n = len(spec["areas"])
    rng = np.random.default_rng(draw(st.integers(0, 10**6)))
    pairs = [(i, j) for i in range(n) for j in range(n) if i != j]
    pairs = [pairs[k] for k in rng.permutation(len(pairs))[: draw(st.integers(1, len(pairs)))]]
    for _ in range(draw(st.integers(61, 300))):
        f, t = pairs[rng.integers(len(pairs))]
        b, e = sorted(int(d) for d in rng.integers(1, 366, size=2))
        spec["contracts"].append({"from": int(f), "to": int(t), "beg": b, "end": e, "mw": int(rng.integers(-10, 90))})
    return spec


def from_files(spec):
    import inputs
    from reliabilityassessment.monte_carlo.findtn import findtn

    R = inputs.load(spec)
    n = len(spec["areas"])
    want = np.zeros((365, n))
    for c in spec["contracts"]:
        for d in range(c["beg"] - 1, c["end"]):
            want[d, c["from"]] += c["mw"]
            want[d, c["to"]] -= c["mw"]
    for d in range(365):
        same(findtn(R["JENT"], R["INTCH"], d), want[d], "transfer of day %d" % (d + 1))
    load = system.loads(spec)
    same(R["HRLOAD"], load, "loads are restored", 1e-7)
    # peaks including interchanges
    tot = load + np.repeat(want, 24, axis=0).T
    same(R["DYLOAD"], tot.reshape(n, 365, 24).max(axis=2), "daily peaks with interchanges", 1e-7)
    pairs = [(c["from"], c["to"]) for c in spec["contracts"]]
    return {"nontrivial": True, "classes": ["several contracts of a pair"] if len(set(pairs)) < len(pairs) else []}


def run(spec):
    info = e2e.differential(spec)
    info["nontrivial"] = info["nontrivial"] and bool(spec["contracts"])
    return info


SUBS = [
    Sub("daily", tables(), daily, 1200, 40000),
    Sub("hourly", tables(), hourly, 240, 6000, cpu=60),
    Sub("files", rows_of_file(), from_files, 160, 5000, cpu=60),
    Sub("many", many_rows(), from_files, 24, 1000, cpu=60),
    Sub("whole", system.systems(areas=(2, 4), contracts=2, ownership=False, fin=(1, 1)), run, 64, 2500, cpu=200, chunk=8),
]
