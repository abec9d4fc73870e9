"""P12: power flows."""
import numpy as np
from hypothesis import strategies as st

import e2e
import netgen
import p11
import refsim
import system
from core import Sub, require
from nums import arr, equal, frozen, same, unchanged

RULE = (
    "Connected networks (2-9 areas, any reference area, parallel lines) and injections, balanced and not, are "
    "generated; angles, flows and net flows of the program's routines are checked line by line and area by area "
    "against the laws stated and against an independent solution of the network, with lines reversed and reordered; "
    "the flows reported by evaluations without limits are checked in the same way. Non-trivial: at least three areas, "
    "two lines and an injection."
)


@st.composite
def cases(draw):
    c = draw(p11.networks())
    c["inj"] = [draw(st.integers(-300, 300) | st.floats(-300, 300) | st.just(0)) for _ in range(c["n"])]
    c["flip"] = [draw(st.booleans()) for _ in c["lines"]]
    c["perm"] = draw(st.permutations(range(len(c["lines"]))))
    return c


def solve(c, inj):
    """Angles (reference zero) with the injections of the other areas given."""
    lt = p11.order(c)[:-1]
    L = p11.laplacian(c)
    th = np.zeros(c["n"])
    th[lt] = np.linalg.solve(L[np.ix_(lt, lt)], inj[lt])
    return th


def laws(c):
    from reliabilityassessment.monte_carlo.flo import flo
    from reliabilityassessment.monte_carlo.theta import theta
    from reliabilityassessment.monte_carlo.thetac import thetac
    from reliabilityassessment.monte_carlo.tm1 import tm1

    BN, LP, BLP = p11.arrays(c)
    n, ref = c["n"], c["ref"]
    inj = arr(c["inj"])
    inj[ref] -= inj.sum()
    _, B, LT, Z = tm1(BN, LP, BLP, ref)
    x = inj[LT]
    keep = frozen(Z=Z, x=x, LT=LT, LP=LP, BLP=BLP)
    th = theta(Z, x)
    cond = np.abs(Z).max() * np.abs(B).max() * n
    tol = 1e-12 * max(1, np.abs(inj).max()) * cond
    require(th.shape == (n,), "angles of shape %s", th.shape)
    full = thetac(th, LT)
    require(full[ref] == 0, "angle of the reference area is %r", full[ref])
    for k, a in enumerate(p11.order(c)[:-1]):
        require(full[a] == th[k], "angle of area %d is %r, not %r", a + 1, full[a], th[k])
    want = solve(c, inj)
    require(np.abs(full - want).max() <= 1e-11 * max(1e-3, np.abs(want).max()) * cond, "angles %s, expected %s", full.tolist(), want.tolist())
    S, F = flo(LP, BLP, full)
    unchanged(keep, Z=Z, x=x, LT=LT, LP=LP, BLP=BLP)
    require(F.shape == (len(LP),) and S.shape == (n,), "flows of shape %s, net flows of shape %s", F.shape, S.shape)
    for k, (f, t, b) in enumerate(c["lines"]):
        require(abs(F[k] - (full[f] - full[t]) * -b) <= 1e-9 * max(1, abs(F[k])), "flow on line %d is %r", k + 1, F[k])
    net = np.zeros(n)
    for k, (f, t, b) in enumerate(c["lines"]):
        net[t] += F[k]
        net[f] -= F[k]
    same(S, net, "net flow", 1e-9 * max(1, cond * 1e-3))
    # the laws hold with the sign of the admittances in the input: what an area injects leaves it
    out = -S
    require(np.abs(out - inj).max() <= 10 * tol, "areas inject %s, lines carry away %s", inj.tolist(), out.tolist())
    # reversed and reordered lines
    d = dict(c, lines=[[c["lines"][k][1], c["lines"][k][0], c["lines"][k][2]] if c["flip"][k] else c["lines"][k] for k in c["perm"]])
    BN, LP2, BLP2 = p11.arrays(d)
    _, _, LT2, Z2 = tm1(BN, LP2, BLP2, ref)
    S2, F2 = flo(LP2, BLP2, thetac(theta(Z2, x), LT2))
    back = arr([F2[i] * (-1 if c["flip"][k] else 1) for i, k in enumerate(c["perm"])])
    orig = np.array([F[k] for k in c["perm"]])
    require(np.abs(back - orig).max() <= 10 * tol, "flows %s, with reversed lines %s", orig.tolist(), back.tolist())
    require(np.abs(S2 - S).max() <= 10 * tol, "net flows %s, with reversed lines %s", S.tolist(), S2.tolist())
    return {"nontrivial": n > 2 and len(c["lines"]) > 1 and bool(np.abs(inj).max() > 0), "classes": ["areas %d" % n]}


@st.composite
def angles(draw):
    c = draw(p11.networks())
    c["th"] = [draw(st.integers(-20, 20) | st.floats(-20, 20)) for _ in range(c["n"])]
    return c


def any_angles(c):
    """The flow routine for angles that solve nothing."""
    from reliabilityassessment.monte_carlo.flo import flo

    _, LP, BLP = p11.arrays(c)
    th = arr(c["th"])
    C = p11.incidence(c)
    S, F = flo(LP, BLP, th.copy())
    want = (C @ th) * -arr([l[2] for l in c["lines"]])
    same(F, want, "flow", 1e-12)
    same(S, -C.T @ want, "net flow", 1e-10)
    return {"nontrivial": c["n"] > 2}


@st.composite
def contracts(draw):
    """Evaluations without limits and with firm transfers that need no curtailment."""
    c = draw(netgen.evaluations(areas=(2, 6), limits=False))
    for l in c["lines"]:
        l["states"] = [[s[0], 10**7, 10**7] for s in l["states"]]
    c["lim"] = [1e8] * c["n"]
    c["ref"] = draw(st.sampled_from([0, c["n"] - 1]))
    return c


def reported(c):
    e = c["ev"][0]
    sim = netgen.Bare(c, e["sharing"])
    j, flow, adj = netgen.Arrays(c, c["ref"]).run(e)
    M = arr(e["cap"]) - arr(e["load"])
    H = sim.net.model(e["state"])[0]
    if j:
        p = M + adj  # exports; with firm transfers and no sharing the second step reports what it adds
        if not e["sharing"] and np.any(e["tr"]):
            inj = np.maximum(arr(e["tr"]), np.minimum(M, 0))
            p = p - refsim.proportional(inj, arr(e["load"]), False)
    else:
        p = M - adj
    require(abs(p.sum()) <= 1e-6 * max(1, np.abs(p).max()), "exports do not balance: %s", p.tolist())
    same(flow, H @ p, "reported flow", 1e-6)
    C = sim.net.incidence()
    same(C.T @ flow, p, "flows out of the areas", 1e-6)
    return {"nontrivial": bool(np.abs(p).max() > 1e-6) and c["n"] > 2, "classes": ["second step" if j else "first step"]}


def run(spec):
    info = e2e.differential(spec)
    info["nontrivial"] = info["nontrivial"] and "network evaluated" in info["classes"]
    return info


SUBS = [
    Sub("laws", cases(), laws, 2500, 100000),
    Sub("angles", angles(), any_angles, 800, 20000),
    Sub("reported", contracts(), reported, 1000, 40000, cpu=60),
    Sub("whole", system.systems(areas=(3, 5), fin=(1, 1), daily=False), run, 32, 2000, cpu=200, chunk=4),
]
