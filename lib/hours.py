"""Sequences of hours through the program's hourly routine, and the reference for them."""
import numpy as np
from hypothesis import strategies as st

import e2e
import netgen
import refsim
import state
from core import fail, require
from nums import arr, same

COUNTERS = [k + c + p + w for k in ("LOL", "MGN") for c in "GT" for p in "HP" for w in "AP"]
LFU = [0, 2, 4, 5.5]


def load_of(c):
    """Hourly loads, away from whole numbers."""
    rng = np.random.default_rng(c["seed"])
    n = c["n"]
    out = np.zeros((n, 8760))
    for i in range(n):
        v = c["base"][i] * (1 - c["depth"] * rng.random(8760))
        out[i] = np.floor(v) + c["frac"][i]
    return out


def peak_hours(load):
    return load.sum(axis=0).reshape(365, 24).argmax(axis=1) + 24 * np.arange(365)


@st.composite
def cases(draw, areas=(1, 4), step=None, freq=None, lfu=None, random_units=True, contracts=None, sharing=None, ample=False,
          apart=False):
    n = draw(st.integers(*areas))
    lines, lim, pl = [], [30000.0] * n, []
    if n > 1:
        _, pairs = draw(netgen.topology(areas=(n, n), extra=2))
        wide = ample or draw(st.booleans())
        for f, t in pairs:
            s = []
            for _ in range(6):
                c = [20000, 20000] if wide else [draw(st.integers(1, 200)), draw(st.integers(1, 200))]
                s.append([-draw(st.sampled_from([1, 10, 60]))] + c)
            lines.append({"from": f, "to": t, "states": s})
            p = draw(st.sampled_from([[1, 0, 0, 0, 0, 0], [0.5, 0.5, 0, 0, 0, 0], [0.4, 0.2, 0.1, 0.1, 0.1, 0.1], [0, 0, 1, 0, 0, 0]]))
            pl.append(p)
        if not ample and draw(st.integers(0, 3)) == 0:
            lim = [float(draw(st.integers(10, 300))) for _ in range(n)]
    base = [draw(st.integers(200, 1500)) for _ in range(n)]
    units = []
    scarce = draw(st.integers(0, n))
    for i in range(n):
        total = base[i] * draw(st.integers(70, 100) if i == scarce or scarce == n else st.integers(88, 115)) / 100.0
        k = draw(st.integers(1, 3))
        for _ in range(k):
            u = {"area": i, "rate": int(total / k), "for": 0, "dfor": 0, "der": 0, "pln": draw(st.integers(0, 9)) > 0}
            if random_units and draw(st.booleans()):
                u["for"] = draw(st.sampled_from([0.02, 0.1]))
                u["dfor"] = draw(st.sampled_from([0, 0.05, 0.1]))
                u["der"] = draw(st.sampled_from([0, 20, 50, 100]))
            units.append(u)
    if draw(st.booleans()):
        units = draw(st.permutations(units))
    own = []
    if n > 1 and draw(st.integers(0, 2)) == 0:
        u = draw(st.integers(0, len(units) - 1))
        s = [0.0] * n
        s[draw(st.integers(0, n - 1))] += 0.5
        s[draw(st.integers(0, n - 1))] += 0.5
        own.append([u, s])
    con = []
    if n > 1 and (contracts or contracts is None and draw(st.booleans())):
        for _ in range(draw(st.integers(1, 3))):
            f = draw(st.integers(0, n - 1))
            t = draw(st.integers(0, n - 2))
            b = draw(st.sampled_from([0, 364]) | st.integers(0, 364))
            con.append({"from": f, "to": t + (t >= f), "mw": draw(st.integers(5, 150)), "beg": b,
                        "end": draw(st.sampled_from([b, 364]) | st.integers(b, 364))})
    step = step or draw(st.sampled_from([1, 1, 24]))
    freq = freq or draw(st.sampled_from([1, 24]))
    use = draw(st.booleans()) if lfu is None else lfu
    day = draw(st.sampled_from([0, 1, 363, 364]) | st.integers(0, 364))
    c = {
        "n": n, "lines": lines, "lim": lim, "pl": pl, "base": base, "units": units, "own": own, "con": con, "step": step,
        "freq": freq, "lfu": [draw(st.sampled_from(LFU)) for _ in range(n)] if use else None,
        "seed": draw(st.integers(0, 10**6)), "depth": draw(st.sampled_from([0.05, 0.2, 0.4])),
        "frac": [0.11, 0.23, 0.37, 0.07][:n], "sharing": draw(st.booleans()) if sharing is None else sharing,
        "year": draw(st.integers(0, 2)), "day": day, "draws": draw(st.integers(0, 10**6)),
    }
    if apart:
        # single hours in any order
        c["freq"] = 1
        c["clocks"] = draw(st.lists(st.tuples(st.integers(0, 2), st.sampled_from([0, 1, 23, 24, 8735, 8736, 8759]) | st.integers(0, 8759)),
                                    min_size=1, max_size=30))
    else:
        c["count"] = draw(st.integers(1, 60))
    return c


def clocks(c):
    """Times of the hourly events: the end of the hour, or of the day."""
    if "clocks" in c:
        if c["step"] == 24:
            return [float(y * 8760 + (h // 24 + 1) * 24) for y, h in c["clocks"]]
        return [float(y * 8760 + h + 1) for y, h in c["clocks"]]
    t0 = c["year"] * 8760 + c["day"] * 24
    return [float(t0 + (k + 1) * c["step"]) for k in range(c["count"])]


def factors(c):
    if c["lfu"] is None:
        return np.ones((c["n"], 1))
    return np.array([1.0 + k * np.array(c["lfu"]) / 100.0 for k in refsim.LEVELS]).T


class Ref(netgen.Bare):
    def __init__(self, c):
        super().__init__(c, c["sharing"])
        self.nl, self.nu = len(c["lines"]), len(c["units"])
        self.max_lp = 300
        self.guide = e2e.program_choice(self)


def seeds_of(c):
    rng = np.random.default_rng(c["draws"])
    odd = lambda k: (rng.integers(1, 2**30, k) * 2 + 1).astype(np.int32) % (2**31 - 1)
    return odd(len(c["units"])), odd(len(c["lines"]))


def arrays(c):
    """The environment for the hourly routine."""
    n, nu, nl = c["n"], len(c["units"]), len(c["lines"])
    own = np.zeros((n, nu))
    for k, u in enumerate(c["units"]):
        own[u["area"], k] = 1
    for k, s in c["own"]:
        own[:, k] = s
    JENT = -np.ones((n, n), int)
    INTCH = np.zeros((100, 365))
    p = 0
    for x in c["con"]:
        if JENT[x["from"], x["to"]] == -1:
            JENT[x["from"], x["to"]] = p
            p += 1
        INTCH[JENT[x["from"], x["to"]], x["beg"] : x["end"] + 1] += x["mw"]
    LINENO = -np.ones((n, n), int)
    for k, l in enumerate(c["lines"]):
        LINENO[l["from"], l["to"]] = LINENO[l["to"], l["from"]] = k
    load = load_of(c)
    f = factors(c)
    F = np.ones((n, 5))
    F[:, : f.shape[1]] = f
    gs, ls = seeds_of(c)
    env = state.environment(
        n, nu, nl, JSTEP=c["step"], JFREQ=c["freq"], CAPOWN=own, CAPCON=np.array([u["area"] for u in c["units"]]),
        PROBG=np.array([[1 - (u["for"] + u["dfor"]), 1 - u["for"]] for u in c["units"]]),
        DERATE=np.array([1 - u["der"] / 100.0 for u in c["units"]]), RATING=np.array([u["rate"] for u in c["units"]], float),
        PLNDST=np.array([float(u["pln"]) for u in c["units"]]), JENT=JENT, INTCH=INTCH, LINENO=LINENO, HRLOAD=load,
        FCTERR=F, NFCST=f.shape[1], MXPLHR=peak_hours(load), NLS=0 if c["sharing"] else 1,
        LP=arr([[k, l["from"], l["to"]] for k, l in zip(netgen.line_numbers([(l["from"], l["to"]) for l in c["lines"]]), c["lines"])], int).reshape(nl, 3),
        PROBL=np.cumsum(arr(c["pl"]).reshape(nl, 6), axis=1).T.copy(),
        BLPA=arr([l["states"] for l in c["lines"]]).reshape(nl, 18).copy(),
        BN=np.array([[i, 0, 0, v, v] for i, v in enumerate(c["lim"])], float), IGSEED=gs.copy(), ILSEED=ls.copy(),
    )
    return env


class Count:
    """The statistics of the reference."""

    def __init__(self, n):
        self.n = n
        self.v = {k: np.zeros((n, 5) if k.endswith("A") else 5) for k in COUNTERS}
        self.ls = np.zeros(n)

    def add(self, X, lev, peak):
        total = X.sum()
        short = X < 0
        self.ls[short] += 1
        for p in "HP" if peak else "H":
            self.v["LOL%s%sP" % ("T" if total >= 0 else "G", p)][lev] += 1
            c = "T" if total > 0 else "G"
            self.v["LOL%s%sA" % (c, p)][short, lev] += 1
            self.v["MGN%s%sA" % (c, p)][short, lev] -= X[short]
            self.v["MGN%s%sP" % (c, p)][lev] -= X[short].sum()

    def compare(self, env, what):
        for k in COUNTERS:
            w = self.v[k]
            g = np.asarray(env[k], float)
            if g.shape == w.shape and (g == w).all():
                continue
            # a pool margin of exactly zero: the areas' cause is not determined
            same(g, w, "%s after %s" % (k, what))
        same(env["LSFLG"], self.ls, "loss flags after %s" % what)


def run(c, count_classes=True):
    """Runs the hours; returns the facts for the evidence."""
    from reliabilityassessment.monte_carlo.hour import hour

    env = arrays(c)
    ref = Ref(c)
    n = c["n"]
    cnt = Count(n)
    load = load_of(c)
    f = factors(c)
    pk = peak_hours(load)
    rate = np.array([u["rate"] * u["pln"] for u in c["units"]], float)
    gs, ls = [arr(x, int).tolist() for x in seeds_of(c)]
    own = env["CAPOWN"].copy()
    loc = np.zeros((n, len(c["units"])))
    for k, u in enumerate(c["units"]):
        loc[u["area"], k] = 1
    cl = set()
    losses = 0
    drawn = None
    env["NUMINQ"], env["IPOINT"] = 0, -1
    for k, t in enumerate(clocks(c)):
        if env["NUMINQ"]:
            state.call(_remove(), env, state.REMOVE)
        env["CLOCK"] = t
        env["ATRIB"] = np.array([t, 1.0])
        state.call(hour, env, "NUMINQ MFA IPOINT JHOUR".split())
        require(env["NUMINQ"] == 1 and (env["EVNTS"][env["IPOINT"] + 1], env["EVNTS"][env["IPOINT"] + 2]) == (t + c["step"], 1),
                "after the hour at %r the next one is not scheduled %d hours later", t, c["step"])
        # reference
        h = int((t - 1) % 8760)
        day = h // 24
        if c["step"] == 24:
            h = int(pk[day])
        if c["step"] == 24 or c["freq"] == 1 or h % 24 == 0:
            g, st_ = [], []
            for j, u in enumerate(c["units"]):
                gs[j] = gs[j] * 65539 % 2**31
                r = gs[j] * 0.4656613e-9
                g.append(1.0 if r < 1 - (u["for"] + u["dfor"]) else 1 - u["der"] / 100.0 if r < 1 - u["for"] else 0.0)
            for j, p in enumerate(c["pl"]):
                ls[j] = ls[j] * 65539 % 2**31
                st_.append(min(5, int((ls[j] * 0.4656613e-9 > np.cumsum(p)).sum())))
            tr = np.zeros(n)
            for x in c["con"]:
                if x["beg"] <= day <= x["end"]:
                    tr[x["from"]] += x["mw"]
                    tr[x["to"]] -= x["mw"]
            av = rate * arr(g)
            new = (loc @ av, loc @ av - own @ av + tr, st_)
            if drawn is not None and drawn[2] != st_:
                cl.add("line states change")
            drawn = new
        cap, transfer, lst = drawn
        for lev in range(f.shape[1]):
            try:
                X = ref.evaluate(cap, load[:, h] * f[:, lev], transfer, lst)
            except refsim.Undetermined as e:
                return {"nontrivial": losses > 0, "classes": sorted(cl) + ["undetermined after %d hours" % (10 * (k // 10))]}
            except refsim.TooMany:
                return {"nontrivial": losses > 0, "classes": sorted(cl) + ["many"]}
            if X is None:
                if lev:
                    cl.add("stopped at a lower level")
                break
            losses += 1
            if lev:
                cl.add("loss at a lower level")
            if (X < 0).sum() < n:
                cl.add("loss in some areas")
            cl.add("generation" if X.sum() < 0 else "transmission" if X.sum() > 0 else "pool margin zero")
            peak = h == pk[day]
            if peak:
                cl.add("at the peak")
            cnt.add(X, lev, peak)
        cnt.compare(env, "the hour at %r" % t)
    if ref.trans_calls:
        cl.add("network evaluated")
    if c["freq"] == 24 and c["step"] == 1:
        cl.add("drawn daily")
    return {"nontrivial": losses > 0, "classes": sorted(cl)}


def _remove():
    from reliabilityassessment.monte_carlo.remove import remove

    return remove
