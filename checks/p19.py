"""P19: forecast levels and draws within an hour."""
import numpy as np
from hypothesis import strategies as st

import e2e
import hours
import system
from core import Sub, require

RULE = (
    "Systems with random outages, forecast uncertainty, several areas and lines are taken through up to 60 consecutive "
    "hours (or days) by the program's hourly routine, with daily and hourly drawing, from any day including the turn "
    "of the year; after every hour all counters are compared with a reference with its own draws and levels, and the "
    "order of the levels is checked on the counters alone. Non-trivial: a loss occurs (levels: with uncertainty)."
)


def levels(c):
    info = hours.run(c)
    info["nontrivial"] = info["nontrivial"] and bool(c["lfu"] and any(c["lfu"]))
    return info


def draws(c):
    info = hours.run(c)
    info["nontrivial"] = info["nontrivial"] and any(u["for"] for u in c["units"])
    return info


def order(c):
    """Losses never increase from one level to the next, hour by hour."""
    import state
    from reliabilityassessment.monte_carlo.hour import hour

    env = hours.arrays(c)
    env["NUMINQ"], env["IPOINT"] = 0, -1
    seen = False
    before = np.zeros(5)
    bp = np.zeros(5)
    for t in hours.clocks(c):
        if env["NUMINQ"]:
            state.call(hours._remove(), env, state.REMOVE)
        env["CLOCK"], env["ATRIB"] = t, np.array([t, 1.0])
        state.call(hour, env, "NUMINQ MFA IPOINT JHOUR".split())
        now = env["LOLGHP"] + env["LOLTHP"]
        d = now - before
        require(set(d.tolist()) <= {0.0, 1.0}, "an hour counts %s losses of the pool", d.tolist())
        require((np.diff(d) <= 0).all(), "loss at a level but not at a higher load: %s", d.tolist())
        peak = env["LOLGPP"] + env["LOLTPP"]
        e = peak - bp
        require((e == d).all() or not e.any(), "levels of the peak loss %s, of the hour %s", e.tolist(), d.tolist())
        h = int((t - 1) % 8760)
        at = c["step"] == 24 or h == env["MXPLHR"][h // 24]
        require(e.any() == (d.any() and at), "peak loss counted: %s, loss: %s, peak hour: %s", bool(e.any()), bool(d.any()), bool(at))
        before, bp = now.copy(), peak.copy()
        seen = seen or 0 < d.sum() < 5
    return {"nontrivial": seen}


def run(spec):
    info = e2e.differential(spec)
    info["nontrivial"] = info["nontrivial"] and spec["mc"]["FREQ"] == 24
    return info


@st.composite
def daily_draws(draw):
    s = draw(system.systems(areas=(1, 3), fin=(1, 2), step=1))
    s["mc"]["FREQ"] = draw(st.sampled_from([24, 24, 1]))
    for a in s["areas"]:
        a["lfu"] = draw(st.sampled_from([0, 2, 4, 5.5]))
    return s


SUBS = [
    Sub("levels", hours.cases(lfu=True), levels, 500, 20000, cpu=120),
    Sub("draws", hours.cases(step=1, lfu=False), draws, 500, 20000, cpu=120),
    Sub("order", hours.cases(lfu=True), order, 300, 10000, cpu=120),
    Sub("whole", daily_draws(), run, 48, 2000, cpu=200, chunk=6),
]
