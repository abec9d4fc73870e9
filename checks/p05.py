"""P05: draws of the unit and line states."""
import numpy as np
from hypothesis import strategies as st

import e2e
import refsim
import system
from core import Sub, require
from nums import arr, equal, frozen, same, unchanged

RULE = (
    "Probability tables (extreme ones included) of up to 500 units and 300 lines, planned outages, ratings and seeds are generated; sequences of draws are "
    "compared with an exact reference of the generator, single draws at chosen places of the unit interval (its ends, "
    "the boundaries of the states, and inside states of probabilities down to 1e-5) with the interval of the state, frequencies and joint frequencies of long "
    "sequences with the probabilities (7 standard deviations). Non-trivial: at least three different states occur."
)

MOD = 2**31
INV = pow(65539, -1, MOD)


@st.composite
def tables(draw):
    nu, nl = draw(st.integers(1, 8)), draw(st.integers(0, 6))
    units = []
    for _ in range(nu):
        k = draw(st.integers(0, 5))
        if k == 0:
            f, d = 0, 0
        elif k == 1:
            f, d = draw(st.sampled_from([(1, 0), (0, 1), (0.5, 0.5)]))
        else:
            f = draw(st.integers(0, 100)) / 100.0
            d = draw(st.integers(0, 100 - int(round(f * 100)))) / 100.0
        units.append([f, d, draw(st.sampled_from([0, 10, 25, 100]) | st.integers(0, 100)), draw(st.integers(0, 900)), int(draw(st.integers(0, 4)) > 0)])
    lines = []
    for _ in range(nl):
        k = draw(st.integers(0, 3))
        if k == 0:
            p = [0] * 6
            p[draw(st.integers(0, 5))] = 100
        else:
            cut = sorted(draw(st.integers(0, 100)) for _ in range(5))
            p = [b - a for a, b in zip([0] + cut, cut + [100])]
        lines.append([x / 100.0 for x in p])
    return {"units": units, "lines": lines, "seed": draw(st.integers(1, MOD - 1)), "n": draw(st.integers(1, 60))}


def gen_tables(c):
    U = c["units"]
    return (np.array([[1 - (u[0] + u[1]), 1 - u[0]] for u in U]), np.array([u[3] for u in U], float),
            np.array([1 - u[2] / 100.0 for u in U]), np.array([u[4] for u in U], float))


def line_table(c):
    return np.cumsum(arr(c["lines"]).reshape(-1, 6), axis=1).T.copy()


def unit_state(r, u, P, D):
    return 1.0 if r < P[0] else D if r < P[1] else 0.0


def clear(r, bounds):
    """r is not at a boundary of the states, up to the rounding of the scale factor of the generator"""
    return all(abs(r - b) > 4e-8 for b in bounds if 0 < b < 1)


def stream(c):
    """Draws of the seeded program against the exact generator."""
    from reliabilityassessment.monte_carlo.gstate import gstate
    from reliabilityassessment.monte_carlo.lstate import lstate
    from reliabilityassessment.monte_carlo.seeder import seeder

    P, R, D, W = gen_tables(c)
    L = line_table(c)
    nu, nl = len(R), L.shape[1]
    gs, ls = seeder(c["seed"], nu, nl)
    g, l = refsim.seeds(c["seed"], nu, nl)
    equal(arr(gs, np.int64)[:nu], g, "seeds of the units")
    equal(arr(ls, np.int64)[:nl], l, "seeds of the lines")
    before = frozen(P=P, R=R, D=D, W=W, L=L)
    seen = set()
    for k in range(c["n"]):
        pct, av = gstate(gs, P, R, D, W)
        sta = lstate(ls, L)
        unchanged(before, P=P, R=R, D=D, W=W, L=L)
        require(np.shape(pct) == (nu,) and np.shape(av) == (nu,) and np.shape(sta) == (nl,), "shape of the states")
        for i, u in enumerate(c["units"]):
            g[i] = g[i] * 65539 % MOD
            r = g[i] / MOD
            require(gs[i] == g[i], "draw %d: generator of unit %d at %d, expected %d", k, i, gs[i], g[i])
            if clear(r, P[i]):
                want = unit_state(r, u, P[i], D[i])
                require(pct[i] == want, "draw %d: unit %d at %r, expected %r", k, i, pct[i], want)
                same(av[i], want * u[3] * u[4], "draw %d: available capacity of unit %d" % (k, i))
            seen.add(("u", 1 if pct[i] == 1 else 0 if pct[i] == 0 else 2))
            require(u[4] or av[i] == 0, "unit %d on planned outage has %r MW", i, av[i])
        for i in range(nl):
            l[i] = l[i] * 65539 % MOD
            r = l[i] / MOD
            require(ls[i] == l[i], "draw %d: generator of line %d at %d, expected %d", k, i, ls[i], l[i])
            if clear(r, L[:, i]):
                want = 1 + int((r > L[:, i] - 1e-12).sum())
                require(sta[i] == want, "draw %d: line %d in state %d, expected %d", k, i, sta[i], want)
            seen.add(("l", int(sta[i])))
    return {"nontrivial": len(seen) > 2}


@st.composite
def many(draw):
    """As many units and lines as the program accepts."""
    c = draw(tables())
    u, l = c["units"], c["lines"] or [[0.0, 0.1, 0.1, 0.1, 0.2, 0.5]]
    nu, nl = draw(st.integers(2, 500)), draw(st.integers(1, 300))
    return dict(c, units=[u[i % len(u)] for i in range(nu)], lines=[l[i % len(l)] for i in range(nl)], n=draw(st.integers(1, 6)))


@st.composite
def places(draw):
    c = draw(tables())
    c["at"] = [draw(st.sampled_from([1, 2, 3, MOD - 1, MOD - 2, MOD - 30, MOD - 64, MOD - 100]) |
                    st.tuples(st.integers(0, 100), st.integers(-200, 200)).map(lambda t: min(MOD - 1, max(1, t[0] * MOD // 100 + t[1]))) |
                    st.integers(1, MOD - 1)) for _ in range(len(c["units"]) + len(c["lines"]))]
    return c


@st.composite
def rare(draw):
    """States which are hardly ever taken, and draws that take them."""
    small = st.sampled_from([1e-5, 3e-5, 1e-4, 5e-4, 2e-3])
    units, lines, at = [], [], []

    def inside(p):
        """a place in the interval of a state, away from its ends"""
        cum = np.cumsum([0] + list(p))
        k = draw(st.sampled_from([k for k, x in enumerate(p) if x > 0]))
        return int((cum[k] + (0.1 + 0.8 * draw(st.integers(0, 8)) / 8.0) * p[k]) * MOD)

    for _ in range(draw(st.integers(1, 6))):
        f, d = draw(small | st.sampled_from([0, 0.1, 0.99])), draw(small | st.sampled_from([0, 0.005]))
        units.append([f, d, draw(st.integers(0, 100)), draw(st.integers(0, 900)), int(draw(st.integers(0, 4)) > 0)])
        at.append(inside([1 - f - d, d, f]))
    for _ in range(draw(st.integers(1, 6))):
        p = [draw(small | st.just(0)) for _ in range(6)]
        k = draw(st.integers(0, 5))
        p[k] = 0
        p[k] = round(1 - sum(p), 9)
        lines.append(p)
        at.append(inside(p))
    return {"units": units, "lines": lines, "seed": 1, "n": 1, "at": at}


def place(c):
    """The state is the one whose interval contains the random number."""
    from reliabilityassessment.monte_carlo.gstate import gstate
    from reliabilityassessment.monte_carlo.lstate import lstate

    P, R, D, W = gen_tables(c)
    L = line_table(c)
    nu = len(R)
    s = [v * INV % MOD for v in c["at"]]
    pct, av = gstate(np.array(s[:nu], np.int32), P, R, D, W)
    sta = lstate(np.array(s[nu:], np.int32), L)
    seen = set()
    for i, u in enumerate(c["units"]):
        r = c["at"][i] / MOD
        if clear(r, P[i]):
            want = unit_state(r, u, P[i], D[i])
            require(pct[i] == want, "unit with outage probabilities %r, %r at %.10f: %r available, expected %r", u[0], u[1], r, pct[i], want)
            same(av[i], want * u[3] * u[4], "available capacity of unit %d" % i)
        seen.add(float(pct[i]))
    for i, p in enumerate(c["lines"]):
        r = c["at"][nu + i] / MOD
        cum = np.round(np.cumsum(p), 9)
        if clear(r, cum):
            want = 1 + int((r > cum).sum())
            require(sta[i] == want, "line with probabilities %s at %.10f: state %d, expected %d", p, r, sta[i], want)
        seen.add(-int(sta[i]))
    return {"nontrivial": len(seen) > 2}


@st.composite
def longer(draw):
    c = draw(tables())
    c["seed"] = draw(st.integers(0, MOD // 2 - 1)) * 2 + 1
    c["n"] = 3000
    return c


def near(k, n, p, what):
    sd = (max(p * (1 - p), 1e-12) / n) ** 0.5
    require(abs(k / n - p) <= 7 * sd + 2.0 / n, "%s: %d of %d, probability %.4f", what, k, n, p)


def frequency(c):
    from reliabilityassessment.monte_carlo.gstate import gstate
    from reliabilityassessment.monte_carlo.lstate import lstate
    from reliabilityassessment.monte_carlo.seeder import seeder

    P, R, D, W = gen_tables(c)
    D = np.full(len(D), 0.5)
    L = line_table(c)
    nu, nl, n = len(R), L.shape[1], c["n"]
    gs, ls = seeder(c["seed"], nu, nl)
    X, Y = np.zeros((n, nu)), np.zeros((n, nl), int)
    for k in range(n):
        X[k] = gstate(gs, P, R, D, W)[0]
        Y[k] = lstate(ls, L)
    ps = []
    for i, u in enumerate(c["units"]):
        for v, p in ((1.0, 1 - u[0] - u[1]), (0.5, u[1]), (0.0, u[0])):
            near((X[:, i] == v).sum(), n, p, "unit %d at %r" % (i, v))
        ps.append((X[:, i] == 0, u[0], "unit %d out" % i))
    for i, p in enumerate(c["lines"]):
        for k in range(6):
            near((Y[:, i] == k + 1).sum(), n, p[k], "line %d in state %d" % (i, k + 1))
        ps.append((Y[:, i] == 1, p[0], "line %d in state 1" % i))
    for a in range(len(ps)):
        near((ps[a][0][1:] & ps[a][0][:-1]).sum(), n - 1, ps[a][1] ** 2, ps[a][2] + " twice in a row") if 0.05 < ps[a][1] < 0.95 else None
        for b in range(a):
            near((ps[a][0] & ps[b][0]).sum(), n, ps[a][1] * ps[b][1], ps[a][2] + " and " + ps[b][2])
    return {"nontrivial": any(0.05 < p < 0.95 for _, p, _ in ps)}


def other_forms(c):
    """The versions with numpy's generator: given by the seed, right states, right frequencies."""
    from reliabilityassessment.monte_carlo.gstate import _gstate
    from reliabilityassessment.monte_carlo.line_prob_sampling import discrete_prob_gen, lstate, lstate_original

    P, R, D, W = gen_tables(c)
    seed = c["seed"]
    rng = np.random.default_rng(seed)
    n = c["n"] + 40
    hit = np.zeros((3, len(R)))
    for k in range(n):
        x = np.random.default_rng(seed + k).random(len(R))
        pct, av = _gstate(P, R, D, W, np.random.default_rng(seed + k))
        for i, u in enumerate(c["units"]):
            if clear(x[i], P[i]):
                want = unit_state(x[i], u, P[i], D[i])
                require(pct[i] == want, "unit %d at %.10f: %r available, expected %r", i, x[i], pct[i], want)
                same(np.ravel(av)[i], want * u[3] * u[4], "available capacity")
        a, b = _gstate(P, R, D, W, np.random.default_rng(seed + k))
        equal(a, pct, "same seed")
    p = [x for x in c["lines"]]
    if p:
        L = np.round(np.cumsum(arr(p), axis=1), 9)
        L[:, 5] = 1.0
        many = np.repeat(L, 400, axis=0)
        s = lstate(many, seed)
        equal(lstate(many, seed), s, "same seed")
        r = np.random.default_rng(seed).random(len(many))
        want = 1 + (r[:, None] >= np.round(many, 9)).sum(axis=1)
        ok = (np.abs(r[:, None] - many) > 1e-8).all(axis=1) | (want == s)
        require((s[ok] == want[ok]).all(), "line states %s, expected %s", s[ok][:20].tolist(), want[ok][:20].tolist())
        for i, q in enumerate(p):
            row = np.round(np.cumsum(q), 9)
            row[5] = 1.0
            m = 400
            for fn in (lstate_original, discrete_prob_gen):
                s = fn(m, row, seed)
                equal(fn(m, row, seed), s, "same seed")
                require(np.shape(s) == (m,), "shape of the states")
                for k in range(6):
                    near((s == k + 1).sum(), m, q[k], "%s: state %d" % (fn.__name__, k + 1))
    return {"nontrivial": bool(p)}


def run(spec):
    info = e2e.differential(spec)
    info["nontrivial"] = info["nontrivial"] and any(u["for"] for u in spec["units"])
    return info


SUBS = [
    Sub("stream", tables(), stream, 1000, 40000),
    Sub("many", many(), stream, 60, 3000, cpu=60),
    Sub("place", places(), place, 3000, 100000),
    Sub("rare", rare(), place, 1000, 40000),
    Sub("frequency", longer(), frequency, 48, 2000, cpu=200, chunk=6),
    Sub("forms", tables(), other_forms, 200, 8000),
    Sub("whole", system.systems(areas=(1, 3), contracts=False, ownership=False, fin=(1, 2)), run, 40, 2000, cpu=200, chunk=5),
]
