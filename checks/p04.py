"""P04: season, week, day and hour in effect."""
import numpy as np
from hypothesis import strategies as st

import e2e
import hours
import p03
import state
import system
from core import Sub, require
from nums import same

RULE = (
    "Whole years (up to twelve, by hours or days) are stepped through with the program's handlers for one area that is "
    "always short, so that the energy counted in every hour reveals capacity and load; season ends, ratings and outage "
    "weeks are generated. Single hours in any order (year ends included) with contracts and several areas are compared "
    "with a reference; whole runs without random outages are compared with the reference simulator. Non-trivial: "
    "outages and ratings change within the year (hours: a loss occurs; runs: load is lost)."
)


@st.composite
def years(draw):
    c = draw(p03.walks())
    c["n"] = 1
    c["seed"] = draw(st.integers(0, 10**6))
    return c


def year(c):
    nu = len(c["rates"])
    rates = np.array(c["rates"], float)
    rng = np.random.default_rng(c["seed"])
    top = rates.max(axis=1).sum()
    load = (top + 2 + rng.permutation(8760) * 3.0).reshape(1, 8760)
    pk = load.reshape(365, 24).argmax(axis=1) + 24 * np.arange(365)
    env = state.environment(
        1, nu, QTR=np.array(c["wk"]) * 168 + 0.5, JSTEP=c["step"], JFREQ=c["step"], RATES=rates, HRLOAD=load,
        JPLOUT=p03.table(c["out"], nu), CAPOWN=np.ones((1, nu)), CAPCON=np.zeros(nu, int), MXPLHR=pk,
        INDX=int(c["step"] == 24), FINISH=8760 * 50,
    )
    state.start(env)
    last = np.zeros(4)
    count = 0
    keys = ("LOLGHA", "MGNGHA", "LOLGPA", "MGNGPA")
    while env["CLOCK"] < 8760 * c["years"]:
        t, kind = state.step(env)
        if kind == 4:
            last[:] = 0
            continue
        now = np.array([np.asarray(env[k])[0, 0] for k in keys])
        d, last = now - last, now
        if kind != 1:
            require(not d.any(), "losses counted outside of an hour")
            continue
        count += 1
        h = int((t - 1) % 8760)
        cap_hour = h if c["step"] == 1 else h // 24 * 24
        lh = h if c["step"] == 1 else pk[h // 24]
        season = sum(cap_hour >= w * 168 for w in c["wk"])
        week = cap_hour // 168
        cap = sum(r[season] for r, o in zip(rates, c["out"]) if not (week < 52 and week in o))
        want = int(load[0, lh] - cap)
        peak = lh == pk[h // 24]
        require(d[0] == 1 and d[1] == want, "hour %d of year %d: %d losses of %d MWh, expected one of %d", h, t // 8760, d[0], d[1], want)
        require((d[2], d[3]) == ((1, want) if peak else (0, 0)), "hour %d: peak loss %d of %d MW, expected %d of %d", h, d[2], d[3], peak, want * peak)
    require(count == c["years"] * 8760 // c["step"], "%d hours simulated", count)
    change = any(c["out"]) and any(len(set(r)) > 1 for r in c["rates"])
    return {"nontrivial": change, "classes": ["step %d" % c["step"], "years %d" % c["years"]]}


def one_hours(c):
    return hours.run(c)


@st.composite
def fixed(draw):
    s = draw(system.systems(areas=(1, 4), random_units=False, fin=(1, 2), contracts=2, sharing=False))
    if not any(u["out"][1] for u in s["units"]):
        s["units"][0]["out"] = [draw(st.integers(1, 40)), draw(st.integers(1, 12)), 0, 0]
    return s


def run(spec):
    info = e2e.differential(spec)
    return info


SUBS = [
    Sub("year", years(), year, 100, 4000, cpu=100),
    Sub("hours", hours.cases(random_units=False, contracts=True, ample=True, apart=True, areas=(2, 4)), one_hours, 500, 20000, cpu=100),
    Sub("whole", fixed(), run, 48, 2500, cpu=200, chunk=6),
]
