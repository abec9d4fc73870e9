"""Sequences of years through the program's yearly routine, with generated annual counters."""
import os

import numpy as np
from hypothesis import strategies as st

import e2e
import refsim
import state
from core import fail, require
from nums import arr, equal, same

CV = {"WHERE": (1, 2), "WHEN": (1, 2), "KVS": (1, 2), "KVT": (1, 2)}


@st.composite
def cases(draw, years=(1, 7), converge=False, areas=(1, 4)):
    n = draw(st.sampled_from([12] + 4 * list(range(areas[0], areas[1] + 1))))
    nf = draw(st.sampled_from([1, 5]))
    fin = draw(st.integers(*years))
    kind = draw(st.integers(0, 4))
    base = draw(st.integers(0, 10**6))
    ys = []
    for _ in range(fin):
        y = {"seed": draw(st.integers(0, 10**6)), "size": draw(st.sampled_from([0, 2, 5, 25, 300])), "fill": draw(st.sampled_from([0.0, 0.3, 0.7, 1.0])), "mw": draw(st.sampled_from([90, 90, 3000, 10**6]))}
        if converge:
            # years which resemble each other
            y = {"seed": base if draw(st.integers(0, 3)) else y["seed"], "size": 20, "fill": 1.0}
        ys.append(y)
    if kind == 0 and not converge:
        ys = [dict(ys[0]) for _ in ys]
    mc = {k: draw(st.integers(*v)) for k, v in CV.items()}
    mc["KVL"] = draw(st.integers(1, n))
    mc["FIN"] = fin
    mc["CVT"] = draw(st.sampled_from([0, 0.01, 0.05, 0.1, 0.2, 0.5, 1, 2])) if converge else draw(st.sampled_from([0, 0.0001, 0.05]))
    mc["IJ"] = draw(st.integers(0, 1))
    mc["IN"] = draw(st.integers(1, 9))
    mc["MAXE"] = draw(st.sampled_from([20, 100, 1000, 5000, 1010, 39, 7]))
    mc["STEP"] = draw(st.sampled_from([1, 1, 24]))
    return {
        "n": n, "nf": nf, "years": ys, "mc": mc,
        "areas": [{"peak": draw(st.integers(100, 5000)) + 0.11, "cap": draw(st.integers(100, 6000))} for _ in range(n)],
        "sparse": draw(st.booleans()),
    }


class Year(refsim.Result):
    """The counters of a year."""

    def __init__(self, y, n, nf, daily):
        rng = np.random.default_rng(y["seed"])

        def lol(shape, top):
            v = np.zeros(shape)
            v[..., :nf] = rng.integers(0, y["size"] + 1, v[..., :nf].shape) * (rng.random(v[..., :nf].shape) < y["fill"])
            return np.minimum(v, top)

        def mgn(v):
            return np.where(v > 0, v + np.floor(v * rng.random(v.shape) * y.get("mw", 90)), 0)

        self.lol, self.mgn, self.plol, self.pmgn = {"H": {}, "P": {}}, {"H": {}, "P": {}}, {"H": {}, "P": {}}, {"H": {}, "P": {}}
        for c in "GT":
            self.lol["H"][c], self.plol["H"][c] = lol((n, 5), 4000), lol(5, 4000)
            self.mgn["H"][c], self.pmgn["H"][c] = mgn(self.lol["H"][c]), mgn(self.plol["H"][c])
            if daily:
                for a in (self.lol, self.plol, self.mgn, self.pmgn):
                    a["P"][c] = a["H"][c].copy()
            else:
                self.lol["P"][c] = np.minimum(np.floor(self.lol["H"][c] * rng.random((n, 5)) * 1.2), np.minimum(self.lol["H"][c], 365))
                self.plol["P"][c] = np.minimum(np.floor(self.plol["H"][c] * rng.random(5) * 1.2), np.minimum(self.plol["H"][c], 365))
                self.mgn["P"][c], self.pmgn["P"][c] = mgn(self.lol["P"][c]), mgn(self.plol["P"][c])


class Ref:
    """The statistics of the years as the reports have to show them."""

    def __init__(self, c):
        self.n, self.nf, self.mc = c["n"], c["nf"], c["mc"]
        self.daily = c["mc"]["STEP"] == 24
        self.base_level = 2 if self.nf == 5 else 0
        self.all = [Year(y, self.n, self.nf, self.daily) for y in c["years"]]
        self.years = []

    weights = refsim.Sim.weights
    statistic = refsim.Sim.statistic
    converged = refsim.Sim.converged


def spec_of(c):
    return {"areas": c["areas"], "mc": c["mc"]}


def keys(c, p, w):
    return [(k, k + c + p + w) for k in ("LOL", "MGN")]


def source(R, name):
    """Counter of a year by its name, e.g. LOLGHA."""
    k, c, p, w = name[:3], name[3], name[4], name[5]
    d = {"LOL": (R.plol, R.lol), "MGN": (R.pmgn, R.mgn)}[k][w == "A"][p]
    return d["G"] + d["T"] if c == "S" else d[c]


ANNUAL = [k + c + p + w for k in ("LOL", "MGN") for c in "GT" for p in "HP" for w in "AP"]


def accumulated(c, ref, y):
    """All accumulators after the first y years."""
    Y = ref.all[:y]
    w = ref.weights()
    out = {}
    for k, s, m in (("LOL", "SOL", "SWL"), ("MGN", "SGN", "SWN")):
        for cause in "GTS":
            for p in "HP":
                for x in "AP":
                    v = [source(R, k + cause + p + x) for R in Y]
                    out[s + cause + p + x] = sum(v)
                    out[m + cause + p + x] = sum(q @ w for q in v)
    n = c["n"]
    out["XNEWA"] = sum(np.array([(source(R, a) @ w) ** 2 for a in ("LOLSHA", "MGNSHA", "LOLSPA")]).T for R in Y)
    out["XNEWP"] = sum(np.array([(source(R, a) @ w) ** 2 for a in ("LOLSHP", "MGNSHP", "LOLSPP")]) for R in Y)
    dp, hl, eu = e2e.distributions(Y, n, ref.base_level, max(1, int(c["mc"]["MAXE"]) // 20))
    out["DPLOLE"], out["HLOLE"], out["EUES"] = dp, hl, eu
    return out


def environment(c):
    mc = c["mc"]
    n = c["n"]
    sus = np.zeros((n + 1, 6))
    for i, a in enumerate(c["areas"]):
        sus[i, :2] = a["peak"], a["cap"]
    env = state.environment(
        n, NFCST=c["nf"], NORR=2 if c["nf"] == 5 else 0, KVLOC=mc["KVL"] - 1, KVSTAT=mc["KVS"], KVTYPE=mc["KVT"], KVWHEN=mc["WHEN"],
        KWHERE=mc["WHERE"], CVTEST=mc["CVT"], LSTEP=max(1, int(mc["MAXE"]) // 20), FINISH=8760 * mc["FIN"], INTV=mc["IN"], INTVT=mc["IN"],
        IOJ=mc["IJ"], INDX=int(mc["STEP"] == 24), SUSTAT=sus,
    )
    env["LSFLG"] = np.arange(n, dtype=float)
    env["BB"] = np.arange(n * n, dtype=float).reshape(n, n)
    env["ZB"] = env["BB"] + 0.5
    env["LT"] = np.arange(n)[::-1].copy()
    return env


YEAR = "IPOINT MFA NUMINQ SSQ XLAST RFLAG INTVT ITAB".split()


def run(c, after=None):
    """Feeds the years to the program until it stops. Returns (env, reference, text of output.txt).

    after(env, ref, y) is called after every year.
    """
    from reliabilityassessment.monte_carlo.year import year

    ref = Ref(c)
    env = environment(c)
    for f in ("output.txt", "DUMP.pkl"):
        if os.path.exists(f):
            os.remove(f)
    for y, R in enumerate(ref.all):
        for k in ANNUAL:
            env[k][...] = source(R, k)
        env["CLOCK"] = 8760.0 * (y + 1)
        env["ATRIB"] = np.array([env["CLOCK"], 4.0])
        env["RFLAG"] = 0
        # the calendar holds the yearly event alone
        env["NUMINQ"], env["IPOINT"], env["MFA"] = 0, -1, 0
        state.call(year, env, YEAR)
        require(env["NUMINQ"] == 1 and env["EVNTS"][env["IPOINT"] + 1] == 8760.0 * (y + 2) and env["EVNTS"][env["IPOINT"] + 2] == 4,
                "after year %d the end of the next one is not scheduled", y + 1)
        ref.years.append(R)
        if after:
            after(env, ref, y + 1)
        if env["RFLAG"]:
            break
    text = open("output.txt").read() if os.path.exists("output.txt") else ""
    return env, ref, text
