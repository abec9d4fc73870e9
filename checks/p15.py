"""P15: curtailment without loss sharing."""
import numpy as np
from hypothesis import strategies as st

import e2e
import netgen
import refsim
import system
from core import Sub, fail, require
from nums import arr, equal, same

RULE = (
    "Networks (2-6 areas, in `large` 12-30 areas with 11-74 lines, parallel lines, six states per line, tight and wide capacities different by direction, sum-"
    "of-flow limits), capacities, loads and scheduled transfers are generated; the program's result has to satisfy "
    "balance, line, sum-of-flow and bus bounds, and its total curtailment has to equal that of a linear program "
    "solved independently; the system is renumbered, lines reordered and reversed, another area made the reference. "
    "Non-trivial: some area is short and the proportional assistance exceeds a limit, so the linear program decides."
)


def tolerance(e, case):
    return 1e-6 * max(1.0, max(map(abs, e["cap"] + e["load"] + e["tr"])))


def desired(e):
    M = arr(e["cap"]) - arr(e["load"])
    return M, np.maximum(arr(e["tr"]), np.minimum(M, 0))


def admissible(net, state, p, what, tol, lim):
    """Injections which the network can carry in this state."""
    model = net.model(state)
    require(abs(p.sum()) <= tol * 10, "%s: injections do not balance: %r", what, p.sum())
    flow = model[0] @ p
    over = np.maximum(flow - model[1], -flow - model[2])
    if over.max() > tol * 10:
        k = int(over.argmax())
        fail("%s: line %d carries %.6g, capacity %.6g forward %.6g backward", what, k, flow[k], model[1][k], model[2][k])
    require((np.abs(p) <= lim + tol * 10).all(), "%s: sum of flows %s exceeds %s", what, p.tolist(), lim.tolist())
    return flow


def expected_total(case, e, sim):
    """(first-step export, smallest total curtailment) or None if the first step is not determined."""
    M, inj = desired(e)
    load, cap = arr(e["load"]), arr(e["cap"])
    model = sim.net.model(e["state"])
    fwd, bwd = model[1], model[2]
    lim = sim.net.lim
    try:
        p1, f1, _, _ = sim.allocate(inj, load, False, model, fwd, bwd, lim, lim, True)
    except refsim.Undetermined:
        return None, None, None
    left = M - p1
    if (left >= -1e-9).all():
        return p1, 0.0, f1
    if (np.abs(left) < 1e-7).any() and (left < 0).any() and (left >= -1e-7).all():
        return None, None, None  # at the edge
    out1 = sim.net.incidence().T @ f1
    caps = (np.maximum(fwd - f1, 0), np.maximum(bwd + f1, 0), np.maximum(lim + out1, 0), np.maximum(lim - out1, 0))
    fun, C, p, flow = refsim.optimum(sim.net, model, *caps, left, unique=False)
    return p1, fun, f1


def check(case, ref=0):
    e = case["ev"][0]
    A = netgen.Arrays(case, ref)
    j, flow, adj = A.run(e)
    sim = netgen.Bare(case, False)
    tol = tolerance(e, case)
    M, inj = desired(e)
    lim = sim.net.lim
    p1, total, f1 = expected_total(case, e, sim)
    p = adj + M if j else M - adj  # exports
    zero = not np.any(e["tr"])
    classes = ["areas %d" % case["n"]]
    if j == 0:
        require((adj >= -tol).all(), "no curtailment reported, but areas lack %s", adj.tolist())
        if p1 is not None:
            require(total <= tol * 10, "no curtailment reported, but %.6g is needed", total)
            same(p, p1, "first-step export", 1e-6)
        admissible(sim.net, e["state"], p, "first step", tol, lim)
        return {"nontrivial": False, "classes": classes + ["nothing short"]}
    got = float(np.maximum(adj, 0).sum())
    if total is not None:
        require(abs(got - total) <= tol * 20, "total curtailment %.9g, smallest possible %.9g", got, total)
    fl = admissible(sim.net, e["state"], p, "result", tol, lim)
    if zero:
        short = M < 0
        require((p[short] <= tol * 10).all() and (p[short] >= M[short] - tol * 10).all(), "import of a short area beyond its deficit: %s of %s", p.tolist(), M.tolist())
        require((p[~short] >= -tol * 10).all() and (p[~short] <= M[~short] + tol * 10).all(), "export beyond the surplus: %s of %s", p.tolist(), M.tolist())
        same(flow, fl, "reported flows", 1e-6)
    if p1 is not None:
        same(flow, sim.net.model(e["state"])[0] @ (p - p1), "reported second-step flows", 1e-6)
        left = M - p1
        q = p - p1
        short = left < 0
        require((q[short] <= tol * 10).all() and (q[short] >= left[short] - tol * 10).all(), "second-step import beyond the deficit")
        require((q[~short] >= -tol * 10).all() and (q[~short] <= left[~short] + tol * 10).all(), "second-step export beyond the surplus")
    prop = refsim.proportional(M, arr(e["load"]), False)
    f = sim.net.model(e["state"])[0] @ prop
    g = sim._limits(f, *sim.net.model(e["state"])[1:3], lim, lim)
    tight = (g > 1e-6).any() and (M < 0).any() and (M > 0).any()
    if tight:
        classes.append("limits bind")
    if not zero:
        classes.append("transfers")
    if total is None:
        classes.append("first step not unique")
    return {"nontrivial": bool(tight), "classes": classes}


def total_of(case, ref=0):
    e = case["ev"][0]
    j, flow, adj = netgen.Arrays(case, ref).run(e)
    return float(np.maximum(adj, 0).sum()) if j else 0.0


@st.composite
def variants(draw):
    case = draw(netgen.evaluations(areas=(2, 5), transfers=False, sharing=False))
    n = case["n"]
    return {
        "case": case,
        "areas": draw(st.permutations(range(n))),
        "lines": draw(st.permutations(range(len(case["lines"])))),
        "flip": [draw(st.booleans()) for _ in case["lines"]],
        "ref": draw(st.integers(0, n - 1)),
    }


def renumbered(v, sharing=False):
    c = v["case"]
    inv = np.argsort(v["areas"])  # new number of each area
    lines = []
    for k in v["lines"]:
        l = c["lines"][k]
        f, t = int(inv[l["from"]]), int(inv[l["to"]])
        s = l["states"]
        if v["flip"][k]:
            f, t, s = t, f, [[x[0], x[2], x[1]] for x in s]
        lines.append({"from": f, "to": t, "states": s})
    e = c["ev"][0]
    pick = lambda x: [x[i] for i in v["areas"]]
    e2 = {"cap": pick(e["cap"]), "load": pick(e["load"]), "tr": pick(e["tr"]), "state": [e["state"][k] for k in v["lines"]], "sharing": e["sharing"]}
    return {"n": c["n"], "lines": lines, "lim": pick(c["lim"]), "ev": [e2]}


def metamorphic(v):
    c = v["case"]
    tol = 20 * tolerance(c["ev"][0], c)
    a = total_of(c)
    b = total_of(renumbered(v))
    require(abs(a - b) <= tol, "total curtailment %.9g, after renumbering areas and lines %.9g", a, b)
    d = total_of(c, v["ref"])
    require(abs(a - d) <= tol, "total curtailment %.9g, with area %d as reference %.9g", a, v["ref"] + 1, d)
    return {"nontrivial": a > 0}


def any_reference(v):
    return check(v["case"], v["ref"])


def large(v):
    case = netgen.large_case(v, False)
    info = check(case)
    info["classes"] = ["%d areas or more" % (case["n"] // 10 * 10), "%d lines or more" % (len(case["lines"]) // 20 * 20)] + info["classes"][1:]
    return info


def run(spec):
    info = e2e.differential(spec)
    info["nontrivial"] = info["nontrivial"] and "network evaluated" in info["classes"]
    return info


SUBS = [
    Sub("single", netgen.evaluations(sharing=False), check, 1400, 60000, cpu=60),
    Sub("no_transfer", netgen.evaluations(transfers=False, sharing=False, areas=(2, 6)), check, 700, 30000, cpu=60),
    Sub("congested", netgen.congested(), check, 1600, 60000, cpu=60),
    Sub("renumber", variants(), metamorphic, 700, 30000, cpu=60),
    Sub("reference", variants(), any_reference, 300, 10000, cpu=60),
    Sub("large", netgen.large(), large, 80, 4000, cpu=100, chunk=5),
    Sub("whole", system.systems(areas=(2, 4), sharing=False, fin=(1, 1)), run, 48, 2000, cpu=200, chunk=6),
]
