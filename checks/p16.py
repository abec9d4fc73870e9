"""P16: curtailment with loss sharing."""
import numpy as np
from hypothesis import strategies as st

import e2e
import netgen
import p15
import refsim
import system
from core import Sub, fail, require
from nums import arr, same

RULE = (
    "Networks, capacities, loads, transfers and line states as for P15 with loss sharing: generation within capacity, "
    "losses within load, balance, line and sum-of-flow limits hold, and the pool's total curtailment equals the "
    "optimum of an independently solved linear program and is not larger than without sharing; renumbering, reversing "
    "and another reference area leave the total; whole runs with sharing are compared with the reference simulator. "
    "Non-trivial: the proportional sharing exceeds a limit, so the linear program decides."
)


def check(case, ref=0):
    e = case["ev"][0]
    A = netgen.Arrays(case, ref)
    j, flow, adj = A.run(e)
    sim = netgen.Bare(case, True)
    tol = p15.tolerance(e, case)
    M, inj = p15.desired(e)
    cap, load, lim = arr(e["cap"]), arr(e["load"]), sim.net.lim
    classes = ["areas %d" % case["n"]]
    p1, total1, f1 = p15.expected_total(case, e, sim)
    if j == 0:
        require((adj >= -tol).all(), "no curtailment reported, but areas lack %s", adj.tolist())
        if p1 is not None:
            require((M - p1 >= -10 * tol).all(), "no curtailment reported, but areas lack power")
        p15.admissible(sim.net, e["state"], M - adj, "first step", tol, lim)
        return {"nontrivial": False, "classes": classes + ["nothing short"]}
    if p1 is not None:
        require(not (M - p1 >= 10 * tol).all(), "loss sharing although nothing is short")
    p = M + adj
    model = sim.net.model(e["state"])
    fl = p15.admissible(sim.net, e["state"], p, "result", tol, lim)
    same(flow, fl, "reported flows", 1e-6)
    # export = generation + curtailment - load
    require((adj <= load + 10 * tol).all(), "loss %s beyond the load %s", adj.tolist(), load.tolist())
    require((-adj <= cap + 10 * tol).all(), "unused capacity %s of %s", (-adj).tolist(), cap.tolist())
    got = float(np.maximum(adj, 0).sum())
    fun, C, q, f = refsim.optimum(sim.net, model, model[1], model[2], lim, lim, M, cap, load, unique=False)
    require(abs(got - fun) <= 20 * tol, "total curtailment %.9g, smallest possible %.9g", got, fun)
    if not np.any(e["tr"]):
        other = dict(e, sharing=False)
        j2, _, adj2 = netgen.Arrays(case, ref).run(other)
        alone = float(np.maximum(adj2, 0).sum()) if j2 else 0.0
        require(got <= alone + 20 * tol, "total curtailment %.9g with sharing, %.9g without", got, alone)
    prop = refsim.proportional(M, load, True)
    g = sim._limits(model[0] @ prop, model[1], model[2], lim, lim)
    tight = (g > 1e-6).any()
    if not (g > -1e-6).any():  # clearly within the limits
        same(p, prop, "proportional sharing", 1e-6)
    if tight:
        classes.append("limits bind")
    return {"nontrivial": bool(tight), "classes": classes}


def metamorphic(v):
    c = v["case"]
    tol = 20 * p15.tolerance(c["ev"][0], c)
    a = p15.total_of(c)
    b = p15.total_of(p15.renumbered(v))
    require(abs(a - b) <= tol, "total curtailment %.9g, after renumbering areas and lines %.9g", a, b)
    d = p15.total_of(c, v["ref"])
    require(abs(a - d) <= tol, "total curtailment %.9g, with area %d as reference %.9g", a, v["ref"] + 1, d)
    return {"nontrivial": a > 0}


@st.composite
def variants(draw):
    v = draw(p15.variants())
    v["case"]["ev"][0]["sharing"] = True
    return v


@st.composite
def congested(draw):
    c = draw(netgen.congested())
    c["ev"][0]["sharing"] = True
    return c


def large(v):
    case = netgen.large_case(v, True)
    info = check(case)
    info["classes"] = ["%d areas or more" % (case["n"] // 10 * 10), "%d lines or more" % (len(case["lines"]) // 20 * 20)] + info["classes"][1:]
    return info


def run(spec):
    info = e2e.differential(spec)
    info["nontrivial"] = info["nontrivial"] and spec["mc"]["LS"] == 0
    return info


SUBS = [
    Sub("single", netgen.evaluations(sharing=True), check, 1000, 50000, cpu=60),
    Sub("congested", congested(), check, 600, 30000, cpu=60),
    Sub("renumber", variants(), metamorphic, 500, 25000, cpu=60),
    Sub("reference", variants(), lambda v: check(v["case"], v["ref"]), 300, 10000, cpu=60),
    Sub("large", netgen.large(), large, 60, 3000, cpu=100, chunk=4),
    Sub("whole", system.systems(areas=(2, 4), sharing=2, fin=(1, 1)), run, 48, 2000, cpu=200, chunk=6),
]
