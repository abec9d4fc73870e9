"""P14: the linear-program solver."""
import json
import os

import numpy as np
from hypothesis import strategies as st

import lpclient
import netgen
import p15
from core import Sub, fail, require
from nums import arr, equal, frozen, same, unchanged

RULE = (
    "Linear programs in the solver's form (inequalities with slacks, equalities with artificial variables, costs not "
    "negative, feasible by construction; degenerate ones, redundant equalities and zero right-hand sides among them) "
    "and those which the transmission module poses for generated networks are solved; the final basis has to be "
    "feasible, its inverse right, artificial variables zero and the objective that of an independent solver. The "
    "auxiliary products and the collection of the result are compared with their definitions, vectorised and literal. "
    "Non-trivial: the initial basis is not optimal."
)


@st.composite
def programs(draw):
    """A x <= b and E x = d with a point x >= 0 satisfying them."""
    n = draw(st.integers(1, 7))
    m1 = draw(st.integers(0, 6))
    m2 = draw(st.integers(0 if m1 else 1, min(4, n)))
    kind = draw(st.integers(0, 3))
    coef = st.integers(-4, 6) if kind < 2 else st.sampled_from([0, 0, 1, 1, -1]) if kind == 2 else st.floats(-5, 5).map(lambda v: round(v, 3))
    x = [draw(st.integers(0, 9)) if draw(st.booleans()) else 0 for _ in range(n)]
    rows = []
    for i in range(m1 + m2):
        a = [draw(coef) for _ in range(n)]
        s = 0 if i >= m1 else draw(st.sampled_from([0, 0, 1, 5, 30]) | st.integers(0, 40))
        v = sum(p * q for p, q in zip(a, x)) + s
        rows.append([a, v])
    if m2 > 1 and draw(st.integers(0, 3)) == 0:  # a redundant equation
        k = draw(st.sampled_from([1, 2]))
        rows[-1] = [[k * v for v in rows[m1][0]], k * rows[m1][1]]
    cost = [draw(st.sampled_from([0, 1, 1]) if kind == 2 else st.sampled_from([0, 1]) | st.integers(0, 5)) for _ in range(n)]
    return {"rows": rows, "m1": m1, "cost": cost, "x": x}


@st.composite
def scaled(draw):
    """Programs whose constraints are written in different units."""
    c = draw(programs())
    factor = st.sampled_from([1, 1e-2, 1e-3, 1e-4])
    rows = []
    for a, v in c["rows"]:
        f = draw(factor)
        rows.append([[f * t for t in a], f * v])
    return dict(c, rows=rows)


def posed(c):
    """The arrays of the solver for a program. A negative right-hand side of an inequality
    becomes an equality with a surplus variable, as the module does."""
    n, m1 = len(c["cost"]), c["m1"]
    ineq = [r for r in c["rows"][:m1] if r[1] >= 0]
    neg = [r for r in c["rows"][:m1] if r[1] < 0]
    eq = c["rows"][m1:]
    k, s = len(ineq), len(neg)
    M = len(c["rows"])
    ns = k + s
    N1 = n + ns
    na = s + len(eq)
    N = N1 + na
    A = np.zeros((200, 250))
    b = np.zeros(200)
    # columns: structural, surplus, slack, artificial
    for i, (a, v) in enumerate(ineq):
        A[i, :n] = a
        A[i, n + s + i] = 1
        b[i] = v
    for i, (a, v) in enumerate(neg):
        A[k + i, :n] = [-t for t in a]
        A[k + i, n + i] = -1
        b[k + i] = -v
        A[k + i, N1 + i] = 1
    for i, (a, v) in enumerate(eq):
        g = -1 if v < 0 else 1
        A[k + s + i, :n] = [g * t for t in a]
        A[k + s + i, N1 + s + i] = 1
        b[k + s + i] = g * v
    XOB = np.zeros(250)
    XOBI = np.zeros((2, 250))
    XOBI[0, N1:N] = 1
    XOBI[1, :n] = c["cost"]
    IBAS = np.arange(n + s, N)
    return M, N, A, XOB, XOBI, IBAS, b, N1


def judge(M, N, N1, A, XOBI, b, IBAS, BS, TAB, what="program"):
    """The final basis against an independent solver; returns the optimum."""
    status, best, _ = lpclient.solve(XOBI[1, :N1].tolist(), None, None, A[:M, :N1].tolist(), b[:M].tolist(), [[0, None]] * N1)
    if status != 0:
        return None
    scale = max(1.0, np.abs(b[:M]).max())
    bas = np.asarray(IBAS[:M])
    require(len(set(bas.tolist())) == M and (bas >= 0).all() and (bas < N).all(), "%s: final basis %r", what, bas.tolist())
    x = np.zeros(N)
    x[bas] = BS[:M]
    require((x >= -1e-6 * scale).all(), "%s: variable %d is %.6g", what, int(x.argmin()), x.min())
    require((np.abs(x[N1:]) <= 1e-6 * scale).all(), "%s: artificial variables %s are not zero", what, x[N1:].tolist())
    left = A[:M, :N] @ x - b[:M]
    size = max(scale, np.abs(A[:M, :N] * x).max())
    require(np.abs(left).max() <= 1e-7 * size, "%s: row %d is off by %.6g", what, int(np.abs(left).argmax()), left[np.abs(left).argmax()])
    got = float(XOBI[1, :N1] @ x[:N1])
    require(abs(got - best) <= 2e-6 * max(scale, abs(best)), "%s: objective %.9g, minimum %.9g", what, got, best)
    return best


def solved(c):
    from reliabilityassessment.monte_carlo.linp import linp

    M, N, A, XOB, XOBI, IBAS, BS, N1 = posed(c)
    keep = frozen(A=A, XOBI=XOBI)
    b = BS.copy()
    start = IBAS.copy()
    first, TAB = linp(M, N, A, XOB, XOBI, IBAS, BS, 5.0, N1)
    unchanged(keep, A=A, XOBI=XOBI)
    require(first == N1, "number of variables %r, expected %r", first, N1)
    fun = judge(M, N, N1, A, XOBI, b, IBAS, BS, TAB)
    if fun is None:  # the independent solver gives up
        return {"nontrivial": False, "classes": ["no reference"]}
    basis = A[:M, IBAS[:M]]
    if np.linalg.cond(basis) < 1e6:
        off = np.abs(TAB[:M, :M] @ basis - np.eye(M)).max()
        require(off <= 1e-8 * np.linalg.cond(basis), "returned matrix is not the inverse of the basis: off by %.3g", off)
    return {"nontrivial": bool((start != IBAS).any()), "classes": ["zero optimum" if abs(fun) < 1e-9 else "positive optimum"] + ["equalities"] * (c["m1"] < len(c["rows"]))}


def network(c):
    """The programs which the module poses, watched at the solver."""
    import reliabilityassessment.monte_carlo.tm2 as tm2

    real = getattr(tm2, "linp", None)
    seen = []

    def watch(M, N, A, XOB, XOBI, IBAS, BS, LCLOCK, N1):
        a, xi, b, start = A.copy(), XOBI.copy(), BS.copy(), IBAS.copy()
        r = real(M, N, A, XOB, XOBI, IBAS, BS, LCLOCK, N1)
        seen.append((M, N, N1, a, xi, b, IBAS.copy(), BS.copy(), r[1], start))
        return r

    e = c["ev"][0]
    if real is not None:
        tm2.linp = watch
    try:
        netgen.Arrays(c).run(e)
    finally:
        if real is not None:
            tm2.linp = real
    moved = False
    for M, N, N1, a, xi, b, bas, bs, tab, start in seen:
        if judge(M, N, N1, a, xi, b, bas, bs, tab, "program of the network") is not None:
            moved |= bool((start[:M] != bas[:M]).any())
    return {"nontrivial": moved, "classes": ["%d programs" % len(seen), "sharing" if e["sharing"] else "no sharing"]}


def degenerate(c):
    return network(netgen.degenerate_case(c["seed"]) if "seed" in c else c)


@st.composite
def products(draw):
    M = draw(st.integers(1, 6))
    r, k = M + draw(st.integers(0, 3)), M + draw(st.integers(0, 4))
    v = st.integers(-9, 9) | st.floats(-9, 9)
    return {
        "M": M, "IN": draw(st.integers(0, k - 1)),
        "A": [[draw(v) for _ in range(k)] for _ in range(r)],
        "T": [[draw(v) for _ in range(k)] for _ in range(r)],
        "P": [draw(v) for _ in range(k)],
    }


def defined(c):
    from reliabilityassessment.monte_carlo.mc import mc
    from reliabilityassessment.monte_carlo.rc import rc
    from reliabilityassessment.monte_carlo.rm import rm

    M, j, A, T, P = c["M"], c["IN"], c["A"], c["T"], c["P"]
    a, t, p = arr(A), arr(T), arr(P)
    same(mc(M, j, t, a), [sum(T[i][k] * A[k][j] for k in range(M)) for i in range(M)], "mc", 1e-12)
    same(rc(M, p, a, j), sum(P[k] * A[k][j] for k in range(M)), "rc", 1e-12)
    same(rm(M, p, t), [sum(P[k] * T[k][i] for k in range(M)) for i in range(M)], "rm", 1e-12)
    equal(a, A, "matrix changed")
    equal(t, T, "matrix changed")
    equal(p, P, "vector changed")
    return {"nontrivial": M > 1}


@st.composite
def results(draw):
    M = draw(st.integers(1, 8))
    extra = draw(st.integers(0, 8))
    N = M + extra
    v = st.integers(-9, 9) | st.floats(-9, 9)
    B1 = [draw(v) for _ in range(M)]
    return {"M": M, "N": N, "bas": draw(st.permutations(range(N)))[:M], "BS": [draw(v) for _ in range(M)], "B": [draw(v) for _ in range(M)], "B1": B1,
            "old": draw(st.booleans())}


def collected(c):
    from reliabilityassessment.monte_carlo.net import _net, net

    M, N = c["M"], c["N"]
    x = {k: s for k, s in zip(c["bas"], c["BS"])}
    want = np.zeros((N, 3))
    for k in range(N):
        v = x.get(k, 0.0)
        want[k, 0] = v if k < N - M else c["B"][k - (N - M)] - v
        want[k, 1] = 1.0 if k >= N - M and c["B1"][k - (N - M)] < 0 else 0.0
    pad = lambda v, n: np.concatenate([arr(v), np.full(n - len(v), 3.0)])
    for f in (net, _net):
        RES = np.full((N + 5, 3), 4.0) if c["old"] else np.zeros((N + 5, 3))
        tail = RES[N:].copy()
        bas = np.concatenate([arr(c["bas"], int), np.full(5, 1)])
        f(pad(c["B"], M + 3), pad(c["B1"], M + 3), RES, bas, pad(c["BS"], M + 3), M, N)
        same(RES[:N], want, f.__name__, 1e-12)
        equal(RES[N:], tail, f.__name__ + " rows beyond")
    return {"nontrivial": M > 1 and N > M}


SUBS = [
    Sub("programs", programs(), solved, 3000, 200000, cpu=20),
    Sub("scaled", scaled(), solved, 2000, 60000, cpu=20),
    Sub("network", netgen.evaluations(), network, 1000, 40000, cpu=60),
    Sub("sharing", netgen.evaluations(transfers=False, sharing=True), network, 600, 20000, cpu=60),
    Sub("congested", netgen.congested(), network, 600, 20000, cpu=60),
    Sub("degenerate", st.integers(0, 2**40).map(lambda s: {"seed": s}), degenerate, 1500, 60000, cpu=60,
        examples=json.load(open(os.path.join(os.path.dirname(__file__), "..", "corpus", "degenerate.json")))),
    Sub("products", products(), defined, 600, 10000),
    Sub("results", results(), collected, 1000, 20000),
]
