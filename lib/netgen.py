"""Generated networks and single evaluations of the transmission module."""
import numpy as np
from hypothesis import strategies as st

import refsim
from nums import arr

ADM = [0.5, 1, 2, 5, 10, 50, 60, 120]


@st.composite
def topology(draw, areas=(2, 6), extra=4, parallel=True):
    """Connected: a tree in random orientation plus additional (also parallel) lines."""
    n = draw(st.integers(*areas))
    pairs = []
    for i in range(1, n):
        j = draw(st.integers(0, i - 1))
        pairs.append((i, j) if draw(st.booleans()) else (j, i))
    for _ in range(draw(st.integers(0, extra))):
        f = draw(st.integers(0, n - 1))
        t = draw(st.integers(0, n - 2))
        t += t >= f
        if parallel or ((f, t) not in pairs and (t, f) not in pairs):
            pairs.append((f, t))
    order = draw(st.permutations(range(len(pairs))))
    return n, [list(pairs[k]) for k in order]


amount = st.sampled_from([1, 5, 10, 20, 30, 50, 100, 300]) | st.integers(1, 300) | st.floats(0.5, 300)


@st.composite
def evaluations(draw, areas=(2, 5), transfers=True, states=True, limits=True, count=1, sharing=None):
    n, pairs = draw(topology(areas=areas, extra=3))
    wide = draw(st.integers(0, 3))
    lines = []
    for f, t in pairs:
        s = []
        for k in range(6 if states else 1):
            if wide == 0:
                c = [30000, 30000]
            elif wide == 1:
                v = draw(st.sampled_from([5, 20, 60, 30000]))
                c = [v, v]
            else:
                c = [draw(amount), draw(amount)]
            s.append([-draw(st.sampled_from(ADM))] + c)
        if not states:
            s = s * 6
        lines.append({"from": f, "to": t, "states": s})
    lim = [30000.0] * n
    if limits and draw(st.booleans()):
        lim = [draw(st.sampled_from([30000.0, 30000.0, 20.0, 100.0]) | st.floats(1, 200)) for _ in range(n)]
    ev = []
    for _ in range(count):
        load = [draw(st.sampled_from([100, 50]) | st.integers(1, 400) | st.floats(1, 400)) for _ in range(n)]
        if draw(st.integers(0, 5)) == 0:
            load[draw(st.integers(0, n - 1))] = 0  # generation only
        cap = [max(0.0, l + draw(st.sampled_from([0, -20, 20, 50, -50]) | st.integers(-200, 200) | st.floats(-200, 200))) for l in load]
        if draw(st.integers(0, 3)) == 0:
            cap = [int(c) for c in cap]
        tr = [0.0] * n
        if transfers and draw(st.booleans()):
            for _ in range(draw(st.integers(1, 2))):
                i, j = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))
                mw = draw(amount)
                tr[i] += mw
                tr[j] -= mw
        state = [draw(st.integers(0, 5)) if states else 0 for _ in lines]
        ev.append({"cap": cap, "load": load, "tr": tr, "state": state, "sharing": draw(st.booleans()) if sharing is None else sharing})
    return {"n": n, "lines": lines, "lim": lim, "ev": ev}


def large(areas=(12, 30)):
    """Parameters of a network of many areas and lines, which large_case fills in."""
    return st.fixed_dictionaries({
        "n": st.integers(*areas), "extra": st.integers(0, 45), "seed": st.integers(0, 2**31), "wide": st.integers(0, 3),
        "limits": st.booleans(), "transfers": st.integers(0, 3), "states": st.booleans(), "even": st.integers(0, 2),
    })


def large_case(v, sharing):
    r = np.random.default_rng(v["seed"])
    n = v["n"]
    pairs = [(i, int(r.integers(0, i))) for i in range(1, n)]
    for _ in range(v["extra"]):
        f, t = r.choice(n, 2, replace=False)
        pairs.append((int(f), int(t)))
    pairs = [pairs[k] if r.random() < 0.5 else pairs[k][::-1] for k in r.permutation(len(pairs))]
    lines = []
    for f, t in pairs:
        s = []
        for k in range(6):
            a = -float(r.choice(ADM))
            if v["wide"] == 0:
                s.append([a, 30000.0, 30000.0])
            elif v["wide"] == 1:
                s.append([a] + [float(r.integers(5, 100))] * 2)
            else:
                s.append([a, float(r.integers(5, 400)), float(r.integers(5, 400))])
        lines.append({"from": f, "to": t, "states": s})
    load = [float(x) for x in r.integers(50, 400, n)]
    lo = -200 if v["even"] else -60  # overall deficit or mostly surplus
    cap = [max(0.0, l + float(r.integers(lo, 220))) for l in load]
    tr = [0.0] * n
    for _ in range(v["transfers"]):
        i, j = r.choice(n, 2, replace=False)
        mw = float(r.integers(1, 150))
        tr[i] += mw
        tr[j] -= mw
    lim = [float(r.choice([30000.0, 60.0, 150.0])) if v["limits"] else 30000.0 for _ in range(n)]
    state = [int(r.integers(0, 6)) if v["states"] else 0 for _ in lines]
    return {"n": n, "lines": lines, "lim": lim, "ev": [{"cap": cap, "load": load, "tr": tr, "state": state, "sharing": sharing}]}


def degenerate_case(seed, admittances=(0.5, 1, 10, 60, 100)):
    """Areas cut off by a limit of 0, capacities of 0, coefficients of different size: many
    ties in the program of the network."""
    r = np.random.default_rng(seed)
    n = int(r.integers(3, 9))
    pairs = [(i, int(r.integers(0, i))) for i in range(1, n)]
    for _ in range(int(r.integers(0, 6))):
        f, t = r.choice(n, 2, replace=False)
        pairs.append((int(f), int(t)))
    narrow = r.random()
    lines = []
    for f, t in pairs:
        c = [20000.0, 20000.0] if r.random() < narrow else [float(x) for x in r.choice([0, 0, 1, 60, 300], 2)]
        s = [[-float(r.choice(admittances))] + c for _ in range(6)]
        lines.append({"from": f, "to": t, "states": s})
    big = 30000.0
    lim = [float(x) for x in r.choice([0, 50, big], n, p=[0.25, 0.25, 0.5])]
    few = [0.0, 3.0, 0.5, 300.0, 1000.0, 440.0]
    load = [float(x) for x in (r.choice(few, n) if r.random() < 0.6 else r.integers(0, 400, n))]
    cap = [float(x) for x in (r.choice(few, n) if r.random() < 0.6 else np.maximum(0, load + r.integers(-200, 220, n)))]
    tr = [0.0] * n
    for _ in range(int(r.integers(0, 3))):
        i, j = r.choice(n, 2, replace=False)
        mw = float(r.choice([5, 78.25, 5000]))
        tr[i] += mw
        tr[j] -= mw
    state = [int(r.integers(0, 6)) for _ in lines]
    return {"n": n, "lines": lines, "lim": lim, "ev": [{"cap": cap, "load": load, "tr": tr, "state": state, "sharing": bool(r.random() < 0.6)}]}


def line_numbers(ends):
    """Line numbers which need not follow the order of the lines; determined by the lines."""
    nl = len(ends)
    k = sum(i * (3 * f + t + 1) for i, (f, t) in enumerate(ends)) % 4
    if k == 0:
        return list(range(nl))
    if k == 1:  # a permutation
        return [int(x) for x in np.random.default_rng(nl).permutation(nl)]
    if k == 2:
        return list(range(nl))[::-1]
    return [nl + 2 - i for i in range(nl)]


class Bare(refsim.Sim):
    """The network part of the reference simulator alone."""

    def __init__(self, case, sharing, guide=None):
        spec = {
            "areas": [{"lim": v} for v in case["lim"]],
            "lines": [{"from": l["from"], "to": l["to"], "states": [s + [0] for s in l["states"]]} for l in case["lines"]],
        }
        self.net = refsim.Net(spec)
        self.n = case["n"]
        self.sharing = sharing
        self.lps = self.guided = self.trans_calls = 0
        self.max_lp = 10**9
        self.guide = None


class Arrays:
    """The arrays which the program keeps between evaluations."""

    def __init__(self, case, ref=0):
        n, nl = case["n"], len(case["lines"])
        self.n, self.nl, self.ref = n, nl, ref
        self.BN = np.zeros((n, 5))
        self.BN[:, 0] = range(n)
        self.BN[:, 3] = self.BN[:, 4] = case["lim"]
        self.BLPA = arr([l["states"] for l in case["lines"]]).reshape(nl, 18).copy()
        ends = [(l["from"], l["to"]) for l in case["lines"]]
        self.LP = arr([[m, f, t] for m, (f, t) in zip(line_numbers(ends), ends)], int)
        self.BB, self.ZB = np.zeros((n, n)), np.zeros((n, n))
        self.LT, self.BLP0 = np.zeros(n, int), np.zeros(nl)
        self.STMULT = np.ones((nl, 2))
        self.PLN = np.ones(3)
        self.ioi = case.get("ioi", 0)

    def run(self, e, first=True, hour=4):
        """(nothing curtailed?, flows, shortage of each area)"""
        from reliabilityassessment.monte_carlo.transm import transm

        j, flow, adj = transm(
            0 if first else 1, 0, float(hour + 1), hour, self.ioi, self.BN, self.BLPA, self.BLP0, self.BB, self.LT, self.ZB,
            self.LP, self.ref, self.STMULT, arr(e["state"], int) + 1, 0 if e["sharing"] else 1,
            arr(e["tr"]), np.zeros(self.n), arr(e["cap"]), arr(e["load"]), arr(e.get("pln", self.PLN)), arr(e.get("pct", self.PLN)),
        )
        return int(j), np.array(flow, float), np.array(adj, float)[: self.n]


@st.composite
def congested(draw, areas=(3, 4)):
    """Firm transfers which the network cannot carry completely, and short areas besides."""
    n, pairs = draw(topology(areas=areas, extra=3))
    lines = []
    for f, t in pairs:
        c = draw(st.sampled_from([5, 20, 60, 84, 200, 400]) | st.integers(1, 200))
        s = [-draw(st.sampled_from(ADM)), c, c if draw(st.booleans()) else draw(st.integers(1, 300))]
        lines.append({"from": f, "to": t, "states": [s] * 6})
    lim = [draw(st.sampled_from([30000.0, 30000.0, 30000.0, 60.0])) for _ in range(n)]
    tr = [0.0] * n
    for _ in range(draw(st.integers(1, 2))):
        i = draw(st.integers(0, n - 1))
        j = draw(st.integers(0, n - 2))
        j += j >= i
        mw = draw(st.integers(20, 300))
        tr[i] += mw
        tr[j] -= mw
    load, cap = [], []
    for i in range(n):
        l = draw(st.integers(200, 900)) + draw(st.sampled_from([0.0, 0.11, 0.23, 0.37]))
        m = draw(st.integers(-100, 200)) + (tr[i] if draw(st.integers(0, 3)) else 0.0)
        load.append(l)
        cap.append(max(0, int(l + m)))
    return {"n": n, "lines": lines, "lim": lim,
            "ev": [{"cap": cap, "load": load, "tr": tr, "state": [0] * len(lines), "sharing": False}]}
