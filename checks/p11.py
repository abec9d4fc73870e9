"""P11: admittance and impedance matrices."""
import numpy as np
from hypothesis import strategies as st

import netgen
import refsim
from core import Sub, require, versions
from nums import arr, equal, frozen, same, unchanged

RULE = (
    "Connected networks (2-9 areas, parallel lines, any reference area, admittances of very different size) are "
    "compared with the weighted Laplacian built from the incidence matrix and its inverse; sequences of line changes "
    "and removals are applied with the update routines and compared with the inverse of the changed matrix, also "
    "inside whole evaluations without limits; regular matrices (1-9 rows, needing row exchanges) are factorised and "
    "inverted by both versions and checked by multiplication. Non-trivial: several areas besides the reference, a "
    "change that keeps the network connected, or a factorisation with a row exchange."
)

adm = st.sampled_from(netgen.ADM + [0.1, 300]) | st.floats(0.1, 300)


@st.composite
def networks(draw, areas=(2, 9)):
    n, pairs = draw(netgen.topology(areas=areas, extra=5))
    ref = draw(st.integers(0, n - 1))
    return {"n": n, "lines": [p + [draw(adm)] for p in pairs], "ref": ref}


def incidence(c):
    C = np.zeros((len(c["lines"]), c["n"]))
    for k, (f, t, _) in enumerate(c["lines"]):
        C[k, f] += 1
        C[k, t] -= 1
    return C


def laplacian(c, b=None):
    C = incidence(c)
    return C.T @ np.diag([-l[2] for l in c["lines"]] if b is None else b) @ C


def arrays(c):
    n = c["n"]
    BN = np.zeros((n, 5))
    BN[:, 0] = range(n)
    BN[:, 3:] = 7
    ends = [(f, t) for f, t, _ in c["lines"]]
    LP = arr([[m, f, t] for m, (f, t) in zip(netgen.line_numbers(ends), ends)], int)
    BLP = arr([[-b, 10 + k, 20 + k] for k, (_, _, b) in enumerate(c["lines"])])
    return BN, LP, BLP


def order(c):
    return [i for i in range(c["n"]) if i != c["ref"]] + [c["ref"]]


def reduced(c, L):
    lt = order(c)[:-1]
    out = np.zeros((c["n"], c["n"]))
    out[:-1, :-1] = L[np.ix_(lt, lt)]
    return out


def inverse_of(Z, B, what):
    n = len(B) - 1
    same(Z[n, :], np.zeros(n + 1), what + " last row")
    same(Z[:, n], np.zeros(n + 1), what + " last column")
    P = Z[:n, :n] @ B[:n, :n]
    tol = 1e-13 * max(10, np.abs(Z[:n, :n]).max() * np.abs(B).max() * n * 50)
    require(np.abs(P - np.eye(n)).max() <= max(tol, 1e-8), "%s is not the inverse: off by %.3g", what, np.abs(P - np.eye(n)).max())


def matrices(c):
    from reliabilityassessment.monte_carlo.admitb import admitb
    from reliabilityassessment.monte_carlo.admitr import _admitr, admitr
    from reliabilityassessment.monte_carlo.tm1 import tm1

    BN, LP, BLP = arrays(c)
    keep = frozen(BN=BN, LP=LP, BLP=BLP)
    L = laplacian(c)
    full = admitb(LP, BLP)
    same(full, L, "admittance matrix", 1e-12)
    same(full.sum(axis=1), np.zeros(c["n"]), "row sums", 1e-10 * max(1, np.abs(L).max()))
    for f in (admitr, _admitr):
        B, lt = f(full.copy(), BN, c["ref"])
        same(B, reduced(c, L), f.__name__ + " matrix", 1e-12)
        equal(lt, order(c), f.__name__ + " order of areas")
    b0, B, lt, Z = tm1(BN, LP, BLP, c["ref"])
    equal(b0, BLP[:, 0], "base admittances")
    same(B, reduced(c, L), "reduced matrix", 1e-12)
    equal(lt, order(c), "order of areas")
    inverse_of(Z, B, "impedance matrix")
    b0[:] = 99
    unchanged(keep, BN=BN, LP=LP, BLP=BLP)
    par = len({tuple(sorted(l[:2])) for l in c["lines"]}) < len(c["lines"])
    return {"nontrivial": c["n"] > 2, "classes": ["areas %d" % c["n"], "reference %s" % ("first" if c["ref"] == 0 else "other")] + ["parallel lines"] * par}


@st.composite
def changes(draw):
    c = draw(networks(areas=(2, 7)))
    c["changes"] = [
        {"line": draw(st.integers(0, len(c["lines"]) - 1)), "to": draw(st.sampled_from([0.0]) | adm), "add": draw(st.booleans())}
        for _ in range(draw(st.integers(1, 4)))
    ]
    return c


def connected(c, b):
    left = {c["ref"]}
    while True:
        new = set(left)
        for (f, t, _), v in zip(c["lines"], b):
            if v and (f in left or t in left):
                new |= {f, t}
        if new == left:
            return len(left) == c["n"]
        left = new


def updates(c):
    from reliabilityassessment.monte_carlo.admitm import admitm
    from reliabilityassessment.monte_carlo.admref import admref
    from reliabilityassessment.monte_carlo.tm1 import tm1
    from reliabilityassessment.monte_carlo.ximpa import ximpa
    from reliabilityassessment.monte_carlo.ximpar import ximpar

    BN, LP, BLP = arrays(c)
    _, B, lt, Z = tm1(BN, LP, BLP, c["ref"])
    pos = {a: k for k, a in enumerate(order(c))}
    b = [-l[2] for l in c["lines"]]
    classes, done = set(), 0
    for ch in c["changes"]:
        k = ch["line"]
        f, t, _ = c["lines"][k]
        new = list(b)
        new[k] = -ch["to"]
        if not connected(c, new) or new[k] == b[k]:
            continue
        # the new branch is added before the old one is removed, or the difference at once
        steps = [new[k], -b[k]] if ch["add"] else [new[k] - b[k]]
        for d in steps:
            if d == 0:
                continue
            before = Z.copy()
            if c["ref"] in (f, t):
                i = pos[t if f == c["ref"] else f]
                Z2 = ximpar(Z, -1 / d, i)
                admref(B, i, d)
                classes.add("at the reference")
            else:
                Z2 = ximpa(Z, -1 / d, pos[f], pos[t])
                admitm(B, pos[f], pos[t], d)
                classes.add("between other areas")
            equal(Z, before, "impedance matrix given to the update")
            Z = Z2
        classes.add("removed" if ch["to"] == 0 else "changed")
        b = new
        done += 1
        want = reduced(c, laplacian(c, b))
        scale = max(np.abs(want).max(), max(l[2] for l in c["lines"]), max(abs(d) for d in steps))
        require(np.abs(B - want).max() <= 1e-9 * scale, "updated admittance matrix is off by %.3g", np.abs(B - want).max())
        exact = np.zeros_like(want)
        exact[:-1, :-1] = np.linalg.inv(want[:-1, :-1])
        cond = np.abs(exact).max() * scale * c["n"]
        require(np.abs(Z - exact).max() <= 1e-11 * cond * max(1, np.abs(exact).max()), "updated impedance matrix is off by %.3g", np.abs(Z - exact).max())
    return {"nontrivial": done > 0 and c["n"] > 2, "classes": sorted(classes)}


@st.composite
def square(draw):
    n = draw(st.integers(1, 9))
    kind = draw(st.integers(0, 3))
    if kind == 0:  # permuted, nearly triangular
        p = draw(st.permutations(range(n)))
        A = [[0.0] * n for _ in range(n)]
        for i in range(n):
            A[p[i]][i] = float(draw(st.sampled_from([1, -1, 2, -5, 0.1])))
            for j in range(i + 1, n):
                A[p[i]][j] = float(draw(st.integers(-3, 3)))
    else:
        v = st.integers(-9, 9) if kind < 3 else st.sampled_from([0, 0, 1, -1, 100, 0.01])
        A = [[float(draw(v)) for _ in range(n)] for _ in range(n)]
    return {"A": A, "b": [draw(st.integers(-50, 50)) for _ in range(n)]}


def factors(c):
    from reliabilityassessment.monte_carlo.dgeco import dgeco

    A = arr(c["A"])
    n = len(A)
    b = arr(c["b"])
    if np.linalg.matrix_rank(A) < n or np.linalg.cond(A) > 1e6:
        return {"nontrivial": False, "classes": ["not regular"]}
    cond = np.linalg.cond(A)
    exchanged = False
    for name, f in versions("monte_carlo.dgefa", "dgefa") + [("dgeco", dgeco)]:
        F = A.copy()
        r = f(F, n)
        piv = np.asarray(r if name == "dgeco" else r[1], int)
        require(piv.shape == (n,) and ((piv >= np.arange(n)) & (piv < n)).all(), "%s: pivots %r", name, piv.tolist())
        if name != "dgeco":
            require(r[0] == 0, "%s reports a zero pivot for a regular matrix", name)
        # forward elimination of a vector has to lead to the triangular system of the solution
        x = np.linalg.solve(A, b)
        y = b.copy()
        for k in range(n - 1):
            y[[k, piv[k]]] = y[[piv[k], k]]
            y[k + 1:] += F[k + 1:, k] * y[k]
            require((np.abs(F[k + 1:, k]) <= 1 + 1e-12).all(), "%s: multiplier above one, row %d is not the pivot", name, k)
        exchanged |= bool((piv != np.arange(n)).any())
        r = np.triu(F) @ x - y
        require(np.abs(r).max() <= 1e-12 * cond * max(1, np.abs(y).max()) * n, "%s: factors do not solve the system, residual %.3g", name, np.abs(r).max())
        for inv, g in versions("monte_carlo.dgedi", "dgedi"):
            G = F.copy()
            p = piv.copy()
            g(G, n, p) if inv == "dgedi" else g(G, n, p, 2)
            equal(p, piv, inv + " pivots")
            off = np.abs(G @ A - np.eye(n)).max()
            require(off <= 1e-12 * cond * n, "%s after %s is not the inverse: off by %.3g", inv, name, off)
    return {"nontrivial": exchanged and n > 1, "classes": ["rows %d" % n]}


@st.composite
def histories(draw):
    """Networks without limits in changing line states."""
    c = draw(netgen.evaluations(areas=(2, 6), transfers=False, limits=False, count=draw(st.integers(1, 4))))
    for l in c["lines"]:
        l["states"] = [[s[0], 10**7, 10**7] for s in l["states"]]
    c["lim"] = [1e8] * c["n"]
    c["ref"] = draw(st.sampled_from([0, 0, c["n"] - 1]))
    return c


def evaluations(c):
    """Flows follow from the admittances of the line states, whatever they were before."""
    A = netgen.Arrays(c, c["ref"])
    seen = False
    for k, e in enumerate(c["ev"]):
        j, flow, adj = A.run(e, k == 0)
        sim = netgen.Bare(c, e["sharing"])
        M = arr(e["cap"]) - arr(e["load"])
        if j:
            p = M + adj
            want = sim.net.model(e["state"])[0] @ p
            same(flow, want, "flows of evaluation %d" % (k + 1), 1e-6)
            seen |= any(l["states"][s][0] != l["states"][0][0] for l, s in zip(c["lines"], e["state"])) and bool(np.abs(p).max() > 1e-6)
    return {"nontrivial": bool(seen)}


SUBS = [
    Sub("matrices", networks(), matrices, 1500, 60000),
    Sub("updates", changes(), updates, 2500, 100000),
    Sub("factors", square(), factors, 2500, 100000),
    Sub("evaluations", histories(), evaluations, 800, 30000, cpu=60),
]
