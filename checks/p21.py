"""P21: end of the simulation."""
import numpy as np
from hypothesis import strategies as st

import contextlib
import io

import e2e
import progress
import system
import years
from core import Sub, fail, require, versions
from nums import same

RULE = (
    "Sequences of yearly results (alike, drifting, single outliers, zero) are handed to the convergence test in both "
    "forms and, as counters with every choice of the tested statistic, to the yearly routine; the year of the stop is "
    "compared with the direct criterion, and every progress line on the screen (sum, newest value, mean, convergence index) with "
    "the definition; whole runs with convergence, and of up to 110 years, are compared with the reference simulator. "
    "Non-trivial: the criterion holds before the year limit (runs: load is lost)."
)


@st.composite
def sequences(draw):
    n = draw(st.integers(1, 15) if draw(st.integers(0, 5)) else st.integers(16, 80))
    base = draw(st.sampled_from([0.0, 1.0, 10.0, 3.5, 1000.0]))
    spread = draw(st.sampled_from([0.0, 0.01, 0.1, 0.5, 1.0]))
    v = [max(0.0, base * (1 + spread * draw(st.integers(-10, 10)) / 10.0)) for _ in range(n)]
    if draw(st.booleans()):
        v[draw(st.integers(0, n - 1))] = draw(st.sampled_from([0.0, base * 3, base * 30]))
    return {"v": v, "cv": draw(st.sampled_from([0.0, 0.001, 0.01, 0.025, 0.05, 0.1, 0.3, 1.0, 1.5])), "fin": draw(st.integers(1, 20) if n < 16 else st.integers(n - 2, n + 9))}


def criterion(v, cv):
    """True/False, None at the tolerance"""
    v = np.array(v)
    n = len(v)
    if n < 5 or v.sum() == 0:
        return False
    mean = v.mean()
    err = (max(0.0, (v**2).mean() - mean**2) / n) ** 0.5
    tol = cv or 0.025
    if abs(err - tol * mean) < 1e-6 * mean:
        return None
    return err < tol * mean


def test(c):

    early = False
    for _, fn in versions("monte_carlo.cvchk", "cvchk"):
        screen = io.StringIO()
        last, ssq = 0.0, 0.0
        for y in range(1, len(c["v"]) + 1):
            v = c["v"][:y]
            want = criterion(v, c["cv"])
            end = y >= c["fin"]
            with contextlib.redirect_stdout(screen):
                flag, ssq, last = fn(8760.0 * y, 8760 * c["fin"], y, c["cv"], sum(v), last, ssq)
            same(last, sum(v), "sum kept")
            same(ssq, sum(x * x for x in v), "sum of squares")
            if want is not None or end:
                require(bool(flag) == bool(want or end), "%s: stop %r after year %d of %s with %g, year limit %d", fn.__name__, flag, y, v, c["cv"], c["fin"])
            early = early or bool(want) and not end
        progress.check(screen.getvalue(), c["v"], c["cv"], fn.__name__)
    return {"nontrivial": early}


def stops(c):
    import refsim

    seen = []

    def after(env, ref, y):
        try:
            want = ref.converged(y)
        except refsim.Undetermined:
            raise StopIteration
        seen.append(y)
        require(bool(env["RFLAG"]) == want, "after year %d of %d: stop %r, expected %r (statistic %s)", y, c["mc"]["FIN"], env["RFLAG"], want,
                [ref.statistic(R) for R in ref.years])

    try:
        env, ref, text = years.run(c, after)
    except StopIteration:
        return {"nontrivial": False, "classes": ["at the tolerance"]}
    require(text.count("FINAL RESULTS") == 1, "%d final reports", text.count("FINAL RESULTS"))
    return {"nontrivial": len(seen) < c["mc"]["FIN"], "classes": ["".join(str(c["mc"][k]) for k in ("WHERE", "WHEN", "KVS", "KVT"))]}


@st.composite
def runs(draw):
    s = draw(system.systems(areas=(1, 3), fin=(5, 9), step=24, convergence=True))
    if draw(st.booleans()):
        for u in s["units"]:
            u["for"] = 0.01 if u["for"] else 0
    return s


@st.composite
def long_runs(draw):
    return draw(system.systems(areas=(1, 2), fin=(25, 110), step=24, sharing=False))


def long_run(spec):
    return run(spec, max_lp=50000, max_short=100000)


def run(spec, **kw):
    sim, why = e2e.reference(spec, **kw)
    if sim is None:
        return {"nontrivial": False, "classes": [why]}
    res = e2e.run(spec)
    e2e.compare(spec, res, sim)
    progress.check(res["stdout"], [sim.statistic(R) for R in sim.years], spec["mc"]["CVT"], "progress of the run")
    early = len(sim.years) < spec["mc"]["FIN"]
    loss = sum(e2e.pick(R.plol["H"], "S").sum() for R in sim.years)
    return {"nontrivial": bool(loss), "classes": ["stopped early"] if early else ["to the limit"]}


SUBS = [
    Sub("criterion", sequences(), test, 3000, 100000),
    Sub("stops", years.cases(years=(1, 12), converge=True), stops, 1200, 50000),
    Sub("long", long_runs(), long_run, 12, 600, cpu=400, chunk=2),
    Sub("whole", runs(), run, 40, 1500, cpu=400, chunk=5),
]
