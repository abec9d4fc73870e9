"""P24: capacity outage table."""
import numpy as np
from hypothesis import strategies as st

from core import Sub, require, versions
from nums import frozen, same, unchanged

RULE = (
    "Sets of 1-40 units (capacities 1-1200 MW, equal and different, small and large outage probabilities up to units hardly ever at full capacity, derated "
    "states of any size including none and complete) are added one by one by the vectorised and the literal routine "
    "and by the table routine; the distribution is computed independently by convolution over the attainable outages "
    "and compared at every listed capacity and for completeness of the listed capacities above the truncation, and "
    "again with the units in another order. Non-trivial: at least two units with partial and full outages."
)
ASSUMPTIONS = [
    "A unit is fully available with a probability above 1e-6 (the program leaves other units out); outages whose "
    "cumulative probability is below 1e-9 per added unit may be truncated.",
]

EPS = 1e-9  # truncation of the program for each unit added

prob = st.sampled_from([0.0, 0.001, 0.02, 0.1, 0.5]) | st.floats(0, 0.45).map(lambda v: round(v, 4))


@st.composite
def units(draw, most=8, real=False):
    n = draw(st.integers(1, most))
    pool = draw(st.lists(st.integers(1, 1200) if real else st.integers(1, 60).map(lambda k: 10 * k), min_size=1, max_size=5))
    out = []
    for _ in range(n):
        cap = draw(st.sampled_from(pool) | (st.integers(1, 1200) | st.floats(1, 1200).map(lambda v: round(v, 2)) if real else st.integers(0, 60).map(lambda k: 10 * k)))
        p2, p3 = draw(prob), draw(prob)
        if draw(st.integers(0, 7)) == 0:
            # hardly ever at its full capacity
            p2 = round(draw(st.sampled_from([0.9999, 0.995, 0.97, 0.9])) - p3, 4)
        elif p2 + p3 > 0.95:
            p2 = 0.02
        der = draw(st.sampled_from([0.0, 0.25, 0.5, 1.0]) | st.integers(0, 100).map(lambda v: v / 100))
        out.append([cap, p2, p3, der])
    return {"units": out, "perm": draw(st.permutations(range(n)))}


def distribution(us):
    """Probabilities of the outages (capacity lost: full, derated)."""
    d = {0: 1.0}
    for kt, kp, p2, p3 in us:
        e = {}
        for o, p in d.items():
            for x, q in ((0, 1 - p2 - p3), (kp, p2), (kt, p3)):
                if q > 0:
                    e[o + x] = e.get(o + x, 0.0) + p * q
        d = e
    return d


def compare(n, KA, PA, us, what):
    n = int(n)
    d = distribution(us)
    levels = np.array(sorted(d))
    cum = np.cumsum([d[o] for o in levels[::-1]])[::-1]
    slack = EPS * (len(us) + 1) * 3 + 1e-12
    require(1 <= n <= 5000, "%s: %d states", what, n)
    ka, pa = np.asarray(KA[:n], float), np.asarray(PA[:n], float)
    require(ka[0] == 0 and pa[0] == 1, "%s: starts with outage %r, probability %r", what, ka[0], pa[0])
    require((np.diff(ka) > 0).all(), "%s: outages not increasing: %s", what, ka[:50].tolist())
    require((np.diff(pa) <= 1e-12).all(), "%s: probabilities increase: %s", what, pa[:50].tolist())
    for k in range(n):
        i = int(np.searchsorted(levels, ka[k]))
        want = float(cum[i]) if i < len(levels) else 0.0
        require(abs(pa[k] - want) <= slack, "%s: probability of an outage of at least %g is %.12g, expected %.12g", what, ka[k], pa[k], want)
    listed = set(ka.tolist())
    for o in d:
        if d[o] > slack:
            require(float(o) in listed, "%s: outage %g of probability %.3g is not listed", what, o, d[o])


def added(c):
    """The routine for one more unit, starting from none."""

    us = [(u[0], min(u[0], int(u[0] * u[3]) // 10 * 10), u[1], u[2]) for u in c["units"]]
    for _, f in versions("data_processing.gsm", "gsm"):
        for name, seq in (("", us), (" in another order", [us[i] for i in c["perm"]])):
            KA, PA = np.zeros(5000), np.zeros(5000)
            PA[0] = 1.0
            n = 1
            for k, (kt, kp, p2, p3) in enumerate(seq):
                n = f(n, kt, kp, 1 - p2 - p3, p2, p3, PA, KA)
                if k < 3 or k == len(seq) - 1:
                    compare(n, KA, PA, seq[: k + 1], "%s%s after %d units" % (f.__name__, name, k + 1))
    return info(us)


def info(us):
    full = sum(u[3] > 0 and u[0] > 0 for u in us)
    part = sum(u[2] > 0 and 0 < u[1] < u[0] for u in us)
    classes = ["units %s" % ("1" if len(us) == 1 else "2-4" if len(us) < 5 else "5-12" if len(us) < 13 else "13-40")]
    classes += ["a unit of no capacity"] * any(u[0] == 0 for u in us)
    classes += ["derating to nothing"] * any(u[0] and u[1] == u[0] and u[2] > 0 for u in us)
    return {"nontrivial": len(us) > 1 and full > 0 and part > 0, "classes": classes}


def table(c):
    """The table of an area, with capacities rounded to 10 MW."""
    from reliabilityassessment.data_processing.pmlolp import pmlolp

    tables = []
    for seq in (c["units"], [c["units"][i] for i in c["perm"]]):
        cap = np.array([u[0] for u in seq], float)
        rd = np.array([[u[1], u[2], u[3]] for u in seq], float)
        keep = frozen(cap=cap, rd=rd)
        n, KA, PA = pmlolp(cap, rd, len(seq))
        unchanged(keep, cap=cap, rd=rd)
        us = []
        for u in seq:
            kt = int(u[0] + 5.5) // 10 * 10
            us.append((kt, int(kt * u[3] + 5.5) // 10 * 10, u[1], u[2]))
        compare(n, KA, PA, us, "table")
        tables.append((int(n), KA, PA))
    # fewer units than given: only those count
    k = max(1, len(c["units"]) // 2)
    n, KA, PA = pmlolp(np.array([u[0] for u in c["units"]], float), np.array([[u[1], u[2], u[3]] for u in c["units"]], float), k)
    us = []
    for u in c["units"][:k]:
        kt = int(u[0] + 5.5) // 10 * 10
        us.append((kt, int(kt * u[3] + 5.5) // 10 * 10, u[1], u[2]))
    compare(n, KA, PA, us, "table of the first units")
    return info(us)


SUBS = [
    Sub("added", units(), added, 1500, 60000, cpu=60),
    Sub("table", units(most=12, real=True), table, 1200, 50000, cpu=60),
    Sub("large", units(most=40, real=True), table, 48, 3000, cpu=100, chunk=6),
]
