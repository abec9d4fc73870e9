"""P18: counting of the losses."""
import numpy as np
from hypothesis import strategies as st

import e2e
import hours
import state
import system
from core import Sub, require
from nums import arr, equal, frozen, unchanged

RULE = (
    "Remaining margins of 1-8 areas (mixed signs, equal ones, sums around zero) at any forecast level are counted "
    "repeatedly by the hourly and peak routines, in both forms, and every counter is compared with a direct count; "
    "hours with generation, transmission and mixed losses and whole runs are compared with the references. "
    "Non-trivial: some but not all areas lose load (hours, runs: load is lost)."
)


@st.composite
def histories(draw):
    n = draw(st.integers(1, 8))
    ev = []
    top = draw(st.sampled_from([500, 500, 40000, 10**6]))
    for _ in range(draw(st.integers(1, 12))):
        m = draw(st.lists(st.sampled_from([0, -1, 1, -10, 10]) | st.integers(-top, top), min_size=n, max_size=n))
        k = draw(st.integers(0, 5))
        if k == 0 and n > 1:  # pool without a margin, or one away from it
            m[-1] = -sum(m[:-1]) + draw(st.integers(-1, 1))
        if not any(x < 0 for x in m):
            m[draw(st.integers(0, n - 1))] = -draw(st.integers(1, 300))
        ev.append([draw(st.integers(0, 4)), m])
    return {"n": n, "ev": ev, "old": draw(st.integers(0, 1))}


def count(c):
    from reliabilityassessment.monte_carlo import hrstat, pkstat

    n = c["n"]
    for mod, name, suf in ((hrstat, "hrstat", "H"), (hrstat, "_hrstat", "H"), (pkstat, "pkstat", "P"), (pkstat, "_pkstat", "P")):
        fn = getattr(mod, name)
        env = state.statistics(n)
        if c["old"]:
            rng = np.random.default_rng(1)
            for k in env:
                env[k] = env[k] + rng.integers(0, 50, env[k].shape)
        want = {k: v.copy() for k, v in env.items()}
        free = {"LOL": {}, "MGN": {}}
        amb = np.zeros((n, 5))  # losses with the pool's margin at zero: cause of the areas not determined
        ambm = np.zeros((n, 5))
        pk = [k + x + suf + w for k in ("LOL", "MGN") for x in "GT" for w in "AP"]
        for lev, m in c["ev"]:
            env["NST"], env["MARGIN"] = lev, arr(m, int)
            state.call(fn, env)
            equal(env["MARGIN"], m, "margins")
            s = sum(m)
            want["LOL%s%sP" % ("G" if s < 0 else "T", suf)][lev] += 1
            for i, x in enumerate(m):
                if x < 0:
                    if suf == "H":
                        want["LSFLG"][i] += 1
                    if s == 0:
                        amb[i, lev] += 1
                        ambm[i, lev] -= x
                    else:
                        g = "G" if s < 0 else "T"
                        want["LOL%s%sA" % (g, suf)][i, lev] += 1
                        want["MGN%s%sA" % (g, suf)][i, lev] -= x
                        want["MGN%s%sP" % (g, suf)][lev] -= x
        for k in env:
            if k in ("NST", "MARGIN"):
                continue
            if k in pk and amb.any() and not k.startswith("LOL") or k in pk and amb.any() and k.endswith("A"):
                continue
            equal(env[k], want[k], "%s: %s" % (name, k))
        if amb.any():
            for k, extra in (("LOL%s" + suf + "A", amb), ("MGN%s" + suf + "A", ambm), ("MGN%s" + suf + "P", ambm.sum(axis=0))):
                g = [env[k % x] - want[k % x] for x in "GT"]
                equal(g[0] + g[1], extra, "%s: %s of both causes" % (name, k % "?"))
                require((g[0] >= 0).all() and (g[1] >= 0).all(), "%s: %s decreases", name, k % "?")
    mixed = any(any(x < 0 for x in m) and any(x >= 0 for x in m) for _, m in c["ev"])
    sig = sorted({("G" if sum(m) < 0 else "T" if sum(m) > 0 else "zero") for _, m in c["ev"]})
    return {"nontrivial": mixed, "classes": sig}


def run(spec):
    info = e2e.differential(spec)
    info["nontrivial"] = info["nontrivial"] and "loss in some areas only" in info["classes"]
    return info


SUBS = [
    Sub("count", histories(), count, 2000, 80000),
    Sub("hours", hours.cases(areas=(2, 4)), hours.run, 500, 20000, cpu=120),
    Sub("whole", system.systems(areas=(2, 4), fin=(1, 1)), run, 48, 2000, cpu=200, chunk=6),
]
