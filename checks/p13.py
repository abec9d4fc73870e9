"""P13: first-step assistance."""
import numpy as np
from hypothesis import strategies as st

import e2e
import system
from core import Sub, require, versions
from nums import arr, equal, frozen, same, unchanged

RULE = (
    "Surpluses and deficits of 1-8 areas (zeros, all short, all in surplus, exactly balanced, tiny and large amounts), "
    "loads, numbering by any reference area and both sharing rules are generated and checked against the balance, "
    "bounds and proportionality stated; areas are renumbered and all amounts scaled. Non-trivial: surplus and deficit "
    "both occur."
)


@st.composite
def cases(draw):
    n = draw(st.integers(1, 8))
    kind = draw(st.integers(0, 5))
    v = st.integers(-200, 200) | st.floats(-200, 200).filter(lambda x: abs(x) > 1e-6) | st.just(0)
    inj = [draw(v) for _ in range(n)]
    if kind == 0:
        inj = [-abs(x) for x in inj]
    elif kind == 1:
        inj = [abs(x) for x in inj]
    elif kind == 2 and n > 1:
        inj[-1] = -sum(inj[:-1])
    elif kind == 3:
        inj = [x * 1000 for x in inj]
    load = [draw(st.integers(1, 500) | st.floats(0.5, 500)) for _ in range(n)]
    return {"inj": inj, "load": load, "nls": draw(st.integers(0, 1)), "ref": draw(st.integers(0, n - 1)), "k": draw(st.sampled_from([0.5, 2, 4]))}


def call(f, case, scale=1.0):
    n = len(case["inj"])
    lt = [i for i in range(n) if i != case["ref"]] + [case["ref"]]
    LT = np.array(lt)
    INJ = (arr(case["inj"]) * scale)[LT]
    LOD = arr(case["load"]) * scale
    before = frozen(i=INJ, l=LOD, t=LT)
    p, c = f(INJ, LOD, LT, n, case["nls"])
    unchanged(before, i=INJ, l=LOD, t=LT)
    out = np.zeros(n)
    out[LT] = np.asarray(p, float)
    return out, np.asarray(c, float)


def rule(case):
    """The stated rule, area by area."""
    m, load = case["inj"], case["load"]
    sup = sum(x for x in m if x > 0)
    de = -sum(x for x in m if x <= 0)
    n = len(m)
    if de <= sup:
        return [x * de / sup if x > 0 else float(x) for x in m], [0.0] * n
    if case["nls"]:
        p = [float(x) if x > 0 else x * sup / de for x in m]
        return p, [0.0 if x > 0 else x * sup / de - x for x in m]
    tot = sum(load)
    c = [l * (de - sup) / tot for l in load]
    return [x + y for x, y in zip(m, c)], c


def shares(case):

    m, load = arr(case["inj"]), arr(case["load"])
    sup, de = m[m > 0].sum(), -m[m <= 0].sum()
    tol = 1e-9 * max(1.0, np.abs(m).sum())
    wp, wc = rule(case)
    edge = abs(sup - de) <= tol  # covered or not is a matter of rounding, the result is not
    for _, f in versions("monte_carlo.assign", "assign"):
        p, c = call(f, case)
        name = f.__name__
        require(abs(p.sum()) <= 10 * tol, "%s: transfers do not balance: %r", name, p.sum())
        require((c >= -tol).all(), "%s: negative curtailment", name)
        if case["nls"] or de <= sup:
            require((p[m > 0] <= m[m > 0] + tol).all() and (p[m > 0] >= -tol).all(), "%s: export beyond the surplus", name)
            require((p[m <= 0] >= m[m <= 0] - tol).all() and (p[m <= 0] <= tol).all(), "%s: import beyond the deficit", name)
        if de <= sup - tol:
            require((np.abs(c) <= tol).all(), "%s: curtailment although the surplus suffices", name)
        if de > sup:
            require(abs(c.sum() - (de - sup)) <= 10 * tol, "%s: curtailed %r of %r", name, c.sum(), de - sup)
        same(p, wp, name + " transfer", 1e-8)
        same(c, wc, name + " curtailment", 1e-8)
        p2, c2 = call(f, case, case["k"])
        if not edge:
            same(p2, p * case["k"], name + " scaled transfer", 1e-8)
            same(c2, c * case["k"], name + " scaled curtailment", 1e-8)
    return {"nontrivial": bool(sup > 0 and de > 0), "classes": ["covered" if de <= sup else "sharing" if not case["nls"] else "proportional to deficits"]}


@st.composite
def open_networks(draw):
    """Networks without limits: the result of the module is the first step."""
    import netgen

    c = draw(netgen.evaluations(areas=(2, 6), transfers=False, limits=False, states=False))
    for l in c["lines"]:
        l["states"] = [[s[0], 10**7, 10**7] for s in l["states"]]
    c["lim"] = [1e8] * c["n"]
    return c


def unlimited(c):
    import netgen

    e = c["ev"][0]
    j, flow, adj = netgen.Arrays(c).run(e)
    M = arr(e["cap"]) - arr(e["load"])
    if not (M < 0).any():
        require(j == 0, "shortage reported without any")
        return {"nontrivial": False}
    p, cc = rule({"inj": M.tolist(), "load": e["load"], "nls": 0 if e["sharing"] else 1})
    require(j == 1, "no shortage reported")
    same(M + adj, p, "transfer of the module", 1e-7)
    return {"nontrivial": bool((M > 0).any())}


def run(spec):
    info = e2e.differential(spec)
    info["nontrivial"] = info["nontrivial"] and "network evaluated" in info["classes"]
    return info


SUBS = [
    Sub("shares", cases(), shares, 3000, 100000),
    Sub("unlimited", open_networks(), unlimited, 600, 20000, cpu=60),
    Sub("whole", system.systems(areas=(2, 4), fin=(1, 1), tight_lines=False), run, 40, 2000, cpu=200, chunk=5),
]
