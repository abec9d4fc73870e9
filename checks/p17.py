"""P17: evaluations of the network do not depend on each other."""
import numpy as np
from hypothesis import strategies as st

import e2e
import netgen
import p15
import refsim
import system
from core import Sub, fail, require
from nums import arr, equal, frozen, same, unchanged

RULE = (
    "Histories of 2-8 network evaluations (line states, capacities, loads, transfers, sharing changing from one to the "
    "next; with linear programs among them) run on the program's shared arrays; every result is compared with the "
    "same evaluation on fresh arrays and the shared arrays and inputs with their initial content. Non-trivial: a line "
    "changes its admittance between evaluations and a linear program is solved before the last one."
)


@st.composite
def histories(draw):
    c = draw(netgen.evaluations(areas=(2, 5), count=draw(st.integers(2, 8))))
    c["first"] = [True] + [draw(st.booleans()) for _ in c["ev"][1:]]
    # some evaluations are repeated
    for k in range(1, len(c["ev"])):
        if draw(st.integers(0, 3)) == 0:
            c["ev"][k] = dict(c["ev"][draw(st.integers(0, k - 1))])
    c["ref"] = draw(st.sampled_from([0, 0, 0, c["n"] - 1]))
    c["ioi"] = draw(st.sampled_from([0, 0, 1]))
    return c


def sequence(c):
    A = netgen.Arrays(c, c["ref"])
    kept = None
    lps = 0
    changed = False
    for k, e in enumerate(c["ev"]):
        before = frozen(lim=A.BN[:, [0, 3, 4]], blpa=A.BLPA, lp=A.LP, st=A.STMULT)
        got = A.run(e, c["first"][k])
        unchanged(before, lim=A.BN[:, [0, 3, 4]], blpa=A.BLPA, lp=A.LP, st=A.STMULT)
        if kept is None:
            kept = frozen(bb=A.BB, zb=A.ZB, lt=A.LT, b0=A.BLP0)
        else:
            same(A.BB, kept["bb"], "admittance matrix after evaluation %d" % k, 1e-7)
            same(A.ZB, kept["zb"], "impedance matrix after evaluation %d" % k, 1e-7)
            equal(A.LT, kept["lt"], "order of the areas")
            same(A.BLP0, kept["b0"], "base admittances")
        want = netgen.Arrays(c, c["ref"]).run(e, True)
        same_result(c, e, got, want, k)
        if k and (np.array(e["state"]) != c["ev"][k - 1]["state"]).any():
            changed = True
        sim = netgen.Bare(c, e["sharing"])
        M = arr(e["cap"]) - arr(e["load"])
        m = sim.net.model(e["state"])
        prop = refsim.proportional(M, arr(e["load"]), e["sharing"])
        if k < len(c["ev"]) - 1 and (sim._limits(m[0] @ prop, m[1], m[2], sim.net.lim, sim.net.lim) > 1e-6).any():
            lps += 1
    return {"nontrivial": bool(lps and changed), "classes": ["length %d" % len(c["ev"])]}


def same_result(c, e, got, want, k):
    tol = 20 * p15.tolerance(e, c)
    what = "evaluation %d" % (k + 1)
    require(got[0] == want[0], "%s: shortage flag %r, alone %r", what, got[0], want[0])
    if np.abs(got[2] - want[2]).max() <= tol and (len(got[1]) == 0 or np.abs(got[1] - want[1]).max() <= tol):
        return
    # another choice among equally good ones is possible if rounding decides
    a, b = np.maximum(got[2], 0).sum(), np.maximum(want[2], 0).sum()
    require(abs(a - b) <= tol, "%s: total curtailment %.9g, alone %.9g", what, a, b)
    sim = netgen.Bare(c, e["sharing"])
    try:
        sim._evaluate(arr(e["cap"]), arr(e["load"]), arr(e["tr"]), e["state"])
    except refsim.Undetermined:
        return
    if sim.lps:
        fail("%s: areas lack %s, alone %s", what, got[2].tolist(), want[2].tolist())
    fail("%s: result %s, alone %s", what, got[2].tolist(), want[2].tolist())


def inputs_kept(c):
    """The evaluation changes none of the arrays given to it."""
    from reliabilityassessment.monte_carlo.transm import transm

    e = c["ev"][0]
    A = netgen.Arrays(c, c["ref"])
    n, nl = c["n"], len(c["lines"])
    x = dict(
        state=arr(e["state"], int) + 1, tr=arr(e["tr"]), trj=np.linspace(0, 1, n) * 0, cap=arr(e["cap"]), load=arr(e["load"]),
        pln=np.ones(3), pct=np.array([1.0, 0.5, 0.0]), st=A.STMULT, blpa=A.BLPA, lp=A.LP, lim=A.BN[:, [0, 3, 4]].copy(),
    )
    before = frozen(**x)
    for first in (0, 1):
        transm(first, 0, 5.0, 4, A.ioi, A.BN, A.BLPA, A.BLP0, A.BB, A.LT, A.ZB, A.LP, A.ref, A.STMULT, x["state"],
               0 if e["sharing"] else 1, x["tr"], x["trj"], x["cap"], x["load"], x["pln"], x["pct"])
        x["lim"] = A.BN[:, [0, 3, 4]].copy()
        unchanged(before, **x)
    return {"nontrivial": True}


def run(spec):
    info = e2e.differential(spec)
    info["nontrivial"] = info["nontrivial"] and "network evaluated" in info["classes"]
    return info


SUBS = [
    Sub("history", histories(), sequence, 1000, 40000, cpu=60),
    Sub("inputs", histories(), inputs_kept, 400, 10000, cpu=60),
    Sub("whole", system.systems(areas=(2, 4), fin=(1, 1), daily=False), run, 48, 2000, cpu=200, chunk=6),
]
