"""P01: every consistent data set is simulated to completion, reproducibly."""
import copy
import os
import shutil
import subprocess
import sys

import numpy as np
from hypothesis import strategies as st

import e2e
import outparse
import system
from core import REPO, Sub, fail, require

RULE = (
    "Whole runs of generated systems of every kind (1-11 areas, in `large` up to 20 areas, 57 lines, 600 units and 380 contracts, with and without generation or load, plentiful, "
    "scarce or no capacity, random, planned and joint units, contracts larger than load, tight networks, forecast "
    "uncertainty, all options, load-flow detail, files in any form) must end without an exception, with one final "
    "report over an admissible number of years whose distributions contain every year once; sequences of several "
    "systems in one process and fresh processes must write the same bytes. Non-trivial: load is lost in a run "
    "(sequences: and another system was run in between)."
)


# ------------------------------------------------------------------ generator
@st.composite
def extreme(draw, areas=(1, 11), fin=(1, 3)):
    n = draw(st.sampled_from([2, 3, 5, 1, 4, 10, 7, 11]).filter(lambda k: areas[0] <= k <= areas[1]))
    spec = {"areas": [], "units": [], "lines": [], "contracts": [], "own": [], "mc": {}}
    lfu = n <= 3 and draw(st.integers(0, 3)) == 0
    for i in range(n):
        p = draw(system.profiles())
        if draw(st.booleans()):
            p["k"] = 60
        peak = draw(st.sampled_from([p["top"], 1000, 0.5, 1]))
        spec["areas"].append(
            {
                "peak": peak, "profile": p, "lfu": draw(st.sampled_from([0, 3, 10, 30])) if lfu else 0,
                "lim": draw(st.sampled_from([30000, 30000, 0, 50])),
            }
        )
    scale = draw(st.sampled_from([100, 90, 110, 20, 300]))
    for i in range(n):
        k = draw(st.sampled_from([2, 1, 3, 0, 6]))
        own_scale = draw(st.sampled_from([1.0, 1.0, 0.7, 1.4]))
        for j in range(k):
            c = max(0, int(spec["areas"][i]["peak"] * scale * own_scale / 100.0 / k) + draw(st.integers(-3, 3)))
            f = draw(st.sampled_from([0, 0.02, 0.3, 1]))
            spec["units"].append(
                {
                    "area": i, "cap": draw(st.sampled_from([[c] * 4, [c, 0, c, 2 * c], [0, c, c, c]])),
                    "for": f, "dfor": 0 if f else draw(st.sampled_from([0, 0.1, 1])), "der": draw(st.sampled_from([0, 50, 100])),
                    "out": draw(system.outages(draw(st.booleans()))),
                }
            )
    if not spec["units"]:
        spec["units"].append({"area": n - 1, "cap": [5] * 4, "for": 0, "dfor": 0, "der": 0, "out": [0, 0, 0, 0]})
    spec["units"] = draw(st.permutations(spec["units"]))
    pairs = [(i, draw(st.integers(0, i - 1))) for i in range(1, n)]
    for _ in range(draw(st.integers(0, 3)) if n > 2 else 0):
        f = draw(st.integers(0, n - 1))
        t = draw(st.integers(0, n - 2))
        pairs.append((f, t if t < f else t + 1))
    for f, t in pairs:
        probs = draw(st.sampled_from([[1, 0, 0, 0, 0, 0], [0.8, 0.1, 0.05, 0.05, 0, 0], [0.5, 0.1, 0.1, 0.1, 0.1, 0.1], [0, 0, 0, 0, 0, 1]]))
        big = draw(st.booleans())
        states = []
        for s in range(6):
            cap = [20000, 20000] if big else [draw(st.sampled_from([0, 1, 60, 300])) for _ in range(2)]
            states.append([-draw(st.sampled_from([0, 1, 10, 60, 100]))] + cap + [probs[s]])
        spec["lines"].append({"from": f, "to": t, "states": states})
    for _ in range(draw(st.integers(0, 4)) if n > 1 else 0):
        f = draw(st.integers(0, n - 1))
        t = draw(st.integers(0, n - 2))
        b = draw(st.integers(1, 365))
        spec["contracts"].append(
            {"from": f, "to": t if t < f else t + 1, "beg": b, "end": draw(st.integers(b, 365)), "mw": draw(st.sampled_from([1, 50, 400, 5000]))}
        )
    if n > 1:
        for u in draw(st.lists(st.integers(0, len(spec["units"]) - 1), max_size=3, unique=True)):
            spec["own"].append({"unit": u, "pct": system.share_split(draw, n)})
    wk = sorted(draw(st.integers(1, 51)) for _ in range(3))
    spec["mc"] = {
        "END WK1": wk[0], "END WK2": wk[1], "END WK3": wk[2], "LS": draw(st.integers(0, 1)), "WHERE": draw(st.integers(1, 2)),
        "WHEN": draw(st.integers(1, 2)), "KVS": draw(st.integers(1, 2)), "KVT": draw(st.integers(1, 2)), "KVL": draw(st.integers(1, n)),
        "CVT": draw(st.sampled_from([0, 0.0001, 0.5, 5])), "FIN": draw(st.integers(*fin)), "STEP": draw(st.sampled_from([24, 24, 24, 1])),
        "FREQ": draw(st.sampled_from([1, 24])), "MAXE": draw(st.sampled_from([1000, 20, 99999, 10, 1, 19])), "II": draw(st.sampled_from([0, 0, 0, 1])),
        "IJ": draw(st.integers(0, 1)), "IN": draw(st.integers(1, 7)), "IR": draw(st.integers(0, 1)), "D": draw(st.integers(0, 1)),
        "M": draw(st.integers(0, 1)), "SEED": draw(st.integers(1, 9999999)),
    }
    if weight(spec) > 20000:
        spec["mc"].update(STEP=24)
    if weight(spec) > 20000:
        spec["mc"].update(FIN=1)
    spec["dates"] = draw(st.integers(0, 2))
    if draw(st.booleans()):
        spec["shuffle"] = draw(st.integers(0, 10**6))
        spec["omit"] = ["ZZFC", "ZZOD", "ZZDD"]
        spec["blocks"] = list(draw(st.permutations(range(n))))
    return spec


def weight(spec):
    """Rough number of network evaluations of a run."""
    n = len(spec["areas"])
    return n * n * spec["mc"]["FIN"] * (8760 if spec["mc"].get("STEP", 1) == 1 else 365) * (5 if any(a["lfu"] for a in spec["areas"]) else 1)


@st.composite
def big(draw):
    """Parameters of large data: many areas, lines, units or contracts."""
    n = draw(st.sampled_from([1, 2, 3, 12, 20]) | st.integers(1, 20))
    return {
        "n": n, "units": draw(st.sampled_from([n, 2 * n, 520, 600])), "extra": draw(st.integers(0, 2 * n)), "seed": draw(st.integers(0, 10**6)),
        "one": draw(st.integers(0, 3)) == 0, "contracts": draw(st.sampled_from([0, 1, 100])), "auto": draw(st.booleans()), "sharing": draw(st.booleans()),
        "detail": draw(st.booleans()), "maxe": draw(st.sampled_from([1000, 20, 10])), "lfu": n < 4 and draw(st.integers(0, 3)) == 0,
    }


def large(v):
    n = v["n"]
    r = np.random.default_rng(v["seed"])
    # the load is near its peak in few hours, so that few hours need the network
    areas = [{"peak": int(r.integers(300, 2000)), "lfu": 3 if v["lfu"] else 0, "lim": int(r.choice([30000, 30000, 300])), "profile": {
        "seed": int(r.integers(10**6)), "top": 1000, "lo": 200, "k": 60, "daily": True, "season": False, "phase": int(r.integers(24)), "at": int(r.integers(8760))}} for _ in range(n)]
    at = np.arange(v["units"]) % n
    if v["one"]:
        at[n:] = 0
    of = np.bincount(at, minlength=n)
    units = []
    for i in at:
        c = max(1, int(areas[i]["peak"] * r.uniform(0.95, 1.25) / of[i]))
        b, d = int(r.integers(1, 45)), int(r.integers(1, 8))
        units.append({"area": int(i), "cap": [c] * 4, "dfor": float(r.choice([0, 0.01])), "for": float(r.choice([0, 0.01, 0.03])) if of[i] > 1 else 0.001, "der": 20,
                      "pa": 0 if v["auto"] and of[i] > 4 else 1, "out": [b, d, 0, 0] if of[i] > 4 else [0, 0, 0, 0]})
    pairs = [(i, int(r.integers(0, i))) for i in range(1, n)]
    if n > 1:
        pairs += [tuple(int(x) for x in r.choice(n, 2, replace=False)) for _ in range(v["extra"])]
    lines = [{"from": f, "to": t, "states": [[-int(r.choice([1, 10, 60])), int(r.integers(5, 300)), int(r.integers(5, 300)), p] for p in (0.9, 0.1, 0, 0, 0, 0)]} for f, t in pairs]
    contracts = []
    if v["contracts"]:
        for i in range(n):
            for j in range(n):
                if i != j and r.random() * 100 < max(v["contracts"], 40):
                    b, e = sorted(int(x) for x in r.integers(1, 366, 2))
                    contracts.append({"from": i, "to": j, "beg": b, "end": e, "mw": int(r.integers(1, 12))})
    mc = {"LS": 0 if v["sharing"] else 1, "FIN": 1, "STEP": 24, "FREQ": int(r.choice([1, 24])), "MAXE": v["maxe"], "IJ": int(r.integers(2)), "M": int(r.integers(2)), "II": int(v["detail"]), "KVL": 1}
    spec = {"areas": areas, "units": units, "lines": lines, "contracts": contracts, "own": [], "mc": mc}
    info = completes(spec)
    cl = ["%s areas" % (">11" if n > 11 else "1-11")] + ["more than 500 units in an area"] * bool(of.max() > 500) + ["more than 30 lines"] * (len(lines) > 30)
    cl += ["contracts of more than 60 pairs"] * (len(contracts) > 60) + ["energy limit below 20"] * (v["maxe"] < 20)
    return {"nontrivial": info["nontrivial"], "classes": cl}


# ------------------------------------------------------------------ what every run must satisfy
def report_of(spec, res):
    files = set(res["files"])
    require("output.txt" in files, "no report, only %s", sorted(files))
    try:
        fin = outparse.final(res["output"])
    except outparse.Bad as e:
        fail("output not readable: %s", e)
    require(fin["count"] == 1, "%d final reports", fin["count"])
    y = fin["years"]
    require(1 <= y <= spec["mc"]["FIN"], "%d years reported, limit %d", y, spec["mc"]["FIN"])
    n = len(spec["areas"])
    require(sorted(fin["dist"]) == list(range(1, n + 1)), "distributions of areas %s", sorted(fin["dist"]))
    for a, rows in fin["dist"].items():
        require(len(rows) == 22, "distribution with %d rows", len(rows))
        t = np.array(rows)
        for c, p in ((1, 2), (3, 4), (6, 7)):
            require(t[:, c].sum() == y, "distribution of area %d, column %d: %g years of %d", a, c, t[:, c].sum(), y)
            require((t[:, c] >= 0).all() and abs(t[:, p].sum() - 1) < 0.02, "probabilities of area %d, column %d add up to %g", a, c, t[:, p].sum())
    require(len(fin["summary"]) == n + 1, "summary has %d rows", len(fin["summary"]))
    nums = [x for r in fin["rows"].values() for x in r] + [x for _, r in fin["summary"] for x in r]
    require(np.isfinite(nums).all(), "results which are not numbers: %s", [k for k, r in fin["rows"].items() if not np.isfinite(r).all()][:5])
    for k, r in fin["rows"].items():
        require(all(x >= 0 for x in r), "negative result in row %s: %s", k, r)
    return fin


def lost(fin):
    return any(r[0] > 0 for k, r in fin["rows"].items() if k[0] is None)


def completes(spec):
    try:
        res = e2e.run(spec)
    except Exception as e:
        import traceback

        tb = traceback.extract_tb(e.__traceback__)[-1]
        fail("the run ends with %s: %s (%s:%d)", type(e).__name__, e, os.path.basename(tb.filename), tb.lineno)
    fin = report_of(spec, res)
    n = len(spec["areas"])
    cl = ["areas %s" % (n if n < 5 else "5-9" if n < 10 else "10+")]
    for k, v in (("LS", "loss sharing"), ("II", "load-flow detail"), ("IJ", "annual tables"), ("M", "maintenance printed")):
        if spec["mc"][k] == (0 if k == "LS" else 1):
            cl.append(v)
    if fin["years"] < spec["mc"]["FIN"]:
        cl.append("converged")
    if not lost(fin):
        cl.append("no loss")
    return {"nontrivial": lost(fin), "classes": cl}


# ------------------------------------------------------------------ reproducible
def shown(files):
    """What a run wrote; the snapshot by its contents."""
    return {k: v for k, v in files.items() if not k.endswith(".pkl")}


def in_fresh_process(spec):
    d = os.path.abspath("fresh")
    data, work = os.path.join(d, "data"), os.path.join(d, "work")
    os.makedirs(work)
    try:
        system.write(spec, data)
        env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="random")
        r = subprocess.run(
            [sys.executable, "-c", "import sys; from reliabilityassessment.monte_carlo.narpMain import narpMain; narpMain(sys.argv[1])", data],
            cwd=work, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=600,
        )
        require(r.returncode == 0, "the run in a fresh process ends with status %d: %s", r.returncode, r.stderr.decode()[-300:])
        return {f: open(os.path.join(work, f), "rb").read() for f in sorted(os.listdir(work))}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def same_files(a, b, what):
    require(set(a) == set(b), "%s: files %s and %s", what, sorted(a), sorted(b))
    a, b = shown(a), shown(b)
    for k in a:
        if a[k] != b[k]:
            la, lb = a[k].decode().splitlines(), b[k].decode().splitlines()
            j = next((i for i, (x, y) in enumerate(zip(la, lb)) if x != y), min(len(la), len(lb)))
            fail("%s: %s differs in line %d: %r and %r", what, k, j + 1, la[j : j + 1], lb[j : j + 1])


def repeats(case):
    specs, order = case["specs"], case["order"]
    first, loss, after_other = {}, False, False
    for step, k in enumerate(order):
        k %= len(specs)
        try:
            res = e2e.run(copy.deepcopy(specs[k]))
        except Exception as e:
            fail("run %d of the sequence ends with %s: %s", step + 1, type(e).__name__, e)
        fin = report_of(specs[k], res)
        loss = loss or lost(fin)
        if k in first:
            same_files(first[k], res["files"], "system %d, run %d of the sequence" % (k + 1, step + 1))
            after_other = after_other or any(j % len(specs) != k for j in order[:step])
        else:
            first[k] = res["files"]
    k = case["fresh"] % len(specs)
    if k in first:
        same_files(first[k], in_fresh_process(specs[k]), "system %d in a fresh process" % (k + 1))
    return {"nontrivial": loss and (after_other or len(first) > 1), "classes": ["systems %d" % len(first)]}


@st.composite
def sequences(draw):
    k = draw(st.sampled_from([2, 3, 2, 1]))
    specs = []
    for _ in range(k):
        if draw(st.booleans()):
            specs.append(draw(system.systems(areas=(1, 4), fin=(1, 2), step=24)))
        else:
            s = draw(extreme(areas=(1, 4), fin=(1, 2)))
            s["mc"]["STEP"] = 24
            specs.append(s)
    order = list(draw(st.permutations(range(k))))
    order += [order[0]] + draw(st.lists(st.sampled_from(order), max_size=1))
    return {"specs": specs, "order": order, "fresh": draw(st.sampled_from(order))}


# ------------------------------------------------------------------ the number of years
def whole(spec):
    return e2e.differential(spec)


SUBS = [
    Sub("completes", extreme(), completes, 96, 6000, cpu=400, chunk=3),
    Sub("large", big(), large, 32, 1500, cpu=400, chunk=2),
    Sub("repeats", sequences(), repeats, 32, 1200, cpu=400, chunk=2),
    Sub("whole", system.systems(areas=(1, 4), fin=(1, 3), convergence=True), whole, 32, 1500, cpu=300, chunk=4),
]
