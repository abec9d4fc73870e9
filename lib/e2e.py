"""Whole runs of the program on generated systems, and their comparison with the reference."""
import contextlib
import io
import os
import shutil

import numpy as np

import outparse
import refsim
import system
from core import fail, require

_count = [0]


def run(spec, keep=None):
    """Runs the program in a fresh directory; returns a dict of what it wrote."""
    from reliabilityassessment.monte_carlo.narpMain import narpMain

    _count[0] += 1
    here = os.getcwd()
    d = os.path.abspath("run%d" % _count[0])
    data = os.path.join(d, "data")
    work = os.path.join(d, "work")
    os.makedirs(work)
    try:
        system.write(spec, data)
        os.chdir(work)
        with contextlib.redirect_stdout(io.StringIO()) as so:
            narpMain(data)
        res = {"stdout": so.getvalue(), "files": {}}
        for f in sorted(os.listdir(work)):
            res["files"][f] = open(os.path.join(work, f), "rb").read()
        res["output"] = res["files"].get("output.txt", b"").decode()
        if keep:
            keep(work, res)
        return res
    finally:
        os.chdir(here)
        shutil.rmtree(d, ignore_errors=True)


def close(got, want, digits, what):
    """A printed number with so many digits after the point."""
    if want is None:
        return
    tol = 0.5001 * 10.0 ** (-digits) + 1e-9 * abs(want)
    if not abs(got - want) <= tol:
        fail("%s: printed %r, expected %.9g", what, got, want)


def ratio(a, b):
    return a / b if b > 0 else 0.0


CAUSES = (("GC", "G"), ("TC", "T"), ("GT", "S"))


def pick(d, c):
    return d["G"] + d["T"] if c == "S" else d[c]


def annual_rows(R, n, nf, w, daily):
    """Rows of the annual table: keys as in outparse, with digits."""
    out = {}

    def put(key, lh, mh, lp, mp, digits):
        if daily:
            out[key] = [(lp, 2), (ratio(mp, lp), 2)]
        else:
            out[key] = [(lh, digits[0]), (ratio(mh, lh), 2), (mh, 0), (lp, digits[1]), (ratio(mp, lp), 2)]

    for name, c in CAUSES:
        lh, mh = pick(R.lol["H"], c), pick(R.mgn["H"], c)
        lp, mp = pick(R.lol["P"], c), pick(R.mgn["P"], c)
        for i in range(n):
            for k in range(nf):
                put((i, str(k), name), lh[i, k], mh[i, k], lp[i, k], mp[i, k], (0, 0))
            put((i, "AV", name), lh[i] @ w, mh[i] @ w, lp[i] @ w, mp[i] @ w, (2, 2))
        lh, mh = pick(R.plol["H"], c), pick(R.pmgn["H"], c)
        lp, mp = pick(R.plol["P"], c), pick(R.pmgn["P"], c)
        for k in range(nf):
            put((None, str(k), name), lh[k], mh[k], lp[k], mp[k], (0, 0))
        put((None, "AV", name), lh @ w, mh @ w, lp @ w, mp @ w, (2, 2))
    return out


def final_rows(years, n, nf, w, daily):
    out = {}
    y = float(len(years))
    tot = lambda attr, kd, c: sum(pick(getattr(R, attr)[kd], c) for R in years)

    def put(key, lh, mh, lp, mp, dg=2):
        if daily:
            out[key] = [(lp / y, 2), (ratio(mp, lp), 2)]
        else:
            out[key] = [(lh / y, dg), (ratio(mh, lh), 2), (mh / y, 0), (lp / y, dg), (ratio(mp, lp), 2)]

    for name, c in CAUSES:
        lh, mh, lp, mp = tot("lol", "H", c), tot("mgn", "H", c), tot("lol", "P", c), tot("mgn", "P", c)
        for i in range(n):
            if nf != 1:
                for k in range(nf):
                    put((i + 1, str(k + 1), name), lh[i, k], mh[i, k], lp[i, k], mp[i, k])
            put((i + 1, "AV", name), lh[i] @ w, mh[i] @ w, lp[i] @ w, mp[i] @ w)
        lh, mh, lp, mp = tot("plol", "H", c), tot("pmgn", "H", c), tot("plol", "P", c), tot("pmgn", "P", c)
        if nf != 1:
            for k in range(nf):
                put((None, str(k + 1), name), lh[k], mh[k], lp[k], mp[k])
        put((None, "AV", name), lh @ w, mh @ w, lp @ w, mp @ w, 3)
    return out


def compare_rows(got, want, what):
    require(set(got) == set(want), "%s: rows %s, expected %s", what, sorted(map(str, set(got) ^ set(want)))[:6], "those of the system")
    for key in want:
        g, e = got[key], want[key]
        require(len(g) == len(e), "%s: row %s has %d numbers", what, key, len(g))
        for j, (v, dg) in enumerate(e):
            close(g[j], v, dg, "%s row %s column %d" % (what, key, j))


def peak_capacity(spec):
    """Capacity owned by each area at its annual peak, net of contracts of that day."""
    S = refsim.Sim(spec)
    load = S.load + np.repeat(S.contract, 24, axis=0).T
    out = []
    ends = [spec["mc"][k] * 168 for k in ("END WK1", "END WK2", "END WK3")]
    for i in range(S.n):
        d = int(load[i].reshape(365, 24).max(axis=1).argmax())
        top2 = np.sort(load[i].reshape(365, 24).max(axis=1))[-2:]
        if top2[1] - top2[0] < refsim.EPS and S.contract.any():
            out.append(None)
            continue
        season = sum((d + 1) * 24 > e + 0.5 for e in ends)
        cap = sum(S.own[i, u] * x["cap"][season] for u, x in enumerate(spec["units"]))
        out.append(cap - S.contract[d, i])
    return out


def distributions(years, n, base, lstep):
    """counts [area][22] of the daily-peak, hourly and energy distributions"""
    dp, hl, eu = np.zeros((n, 22)), np.zeros((n, 22)), np.zeros((n, 22))
    for R in years:
        for i in range(n):
            hl[i, min(21, int(pick(R.lol["H"], "S")[i, base]))] += 1
            dp[i, min(21, int(pick(R.lol["P"], "S")[i, base]))] += 1
            eu[i, min(21, int(pick(R.mgn["H"], "S")[i, base] // lstep))] += 1
    return dp, hl, eu


def compare(spec, res, sim, caps=True):
    """Everything printed by the run against the reference."""
    years = sim.years
    n, nf, w = sim.n, sim.nf, sim.weights()
    try:
        fin = outparse.final(res["output"])
        ann = outparse.annual(res["output"])
    except outparse.Bad as e:
        fail("output not readable: %s", e)
    require(fin["count"] == 1, "%d final reports", fin["count"])
    require(fin["years"] == len(years), "%d replications reported, expected %d", fin["years"], len(years))
    if spec["mc"].get("IJ"):
        require([a for a, _ in ann] == list(range(1, len(years) + 1)), "annual tables of years %s", [a for a, _ in ann])
        for (y, rows), R in zip(ann, years):
            compare_rows(rows, annual_rows(R, n, nf, w, sim.daily), "year %d" % y)
    else:
        require(not ann, "annual tables printed without request")
    compare_rows(fin["rows"], final_rows(years, n, nf, w, sim.daily), "final")
    # summary
    yv = {
        "H": [[float(pick(R.lol["H"], "S")[i] @ w) for R in years] for i in range(n)] + [[float(pick(R.plol["H"], "S") @ w) for R in years]],
        "P": [[float(pick(R.lol["P"], "S")[i] @ w) for R in years] for i in range(n)] + [[float(pick(R.plol["P"], "S") @ w) for R in years]],
        "E": [[float(pick(R.mgn["H"], "S")[i] @ w) for R in years] for i in range(n)] + [[float(pick(R.pmgn["H"], "S") @ w) for R in years]],
    }

    def pct(v):
        v = np.array(v)
        m = v.mean()
        if m <= 0:
            return 0.0
        return (max(0.0, (v**2).mean() - m * m) / len(v)) ** 0.5 / m * 100

    require(len(fin["summary"]) == n + 1, "summary has %d rows", len(fin["summary"]))
    pk = [a["peak"] for a in spec["areas"]]
    cp = caps if isinstance(caps, list) else peak_capacity(spec) if caps else [None] * n
    for i, (name, v) in enumerate(fin["summary"]):
        what = "summary row %d" % (i + 1)
        if i < n:
            require(name == "A%d" % (i + 1), "%s is of %s", what, name)
            peak, cap = pk[i], cp[i]
        else:
            peak, cap = sum(pk), None if None in cp else sum(cp)
        exp = [(peak, 0), (cap, 0), (None if cap is None else (cap - peak) / peak * 100, 1)]
        if not sim.daily:
            exp += [(np.mean(yv["H"][i]), 3), (pct(yv["H"][i]), 3), (np.mean(yv["E"][i]), 0), (pct(yv["E"][i]), 0)]
        exp += [(np.mean(yv["P"][i]), 3), (pct(yv["P"][i]), 3)]
        require(len(v) == len(exp), "%s has %d numbers", what, len(v))
        for j, (x, dg) in enumerate(exp):
            close(v[j], x, dg, "%s column %d" % (what, j)) if not (j in (4, 6, 8) and abs(v[j] - x) < 1e-2) else None
    # distributions
    lstep = max(1, int(spec["mc"].get("MAXE", 1000)) // 20)
    dp, hl, eu = distributions(years, n, sim.base_level, lstep)
    require(sorted(fin["dist"]) == list(range(1, n + 1)), "distributions of areas %s", sorted(fin["dist"]))
    for i in range(n):
        rows = fin["dist"][i + 1]
        require(len(rows) == 22, "distribution with %d rows", len(rows))
        for j, r in enumerate(rows):
            exp = [j, dp[i, j], dp[i, j] / len(years), hl[i, j], hl[i, j] / len(years), j * lstep, eu[i, j], eu[i, j] / len(years)]
            for c, (x, dg) in enumerate(zip(exp, (0, 0, 3, 0, 3, 0, 0, 4))):
                close(r[c], x, dg, "distribution of area %d row %d column %d" % (i + 1, j, c))


def program_choice(sim):
    """The program's network evaluation on its own, for hours with several optimal curtailments.

    Which of them is taken is not part of any property; that the chosen one is optimal is
    decided by P15 and P16, that it does not depend on other hours by P17.
    """
    from reliabilityassessment.monte_carlo.transm import transm

    def choose(cap, load, transfer, state):
        n, nl = sim.n, sim.nl
        BN = np.zeros((n, 5))
        BN[:, 0] = range(n)
        BN[:, 3] = BN[:, 4] = sim.net.lim
        BLPA = sim.net.states.reshape(nl, 18).copy()
        LP = np.array([[k, f, t] for k, (f, t) in enumerate(sim.net.lines)], int)
        j, flow, adj = transm(
            0, 0, 1.0, 0, 0, BN, BLPA, np.zeros(nl), np.zeros((n, n)), np.zeros(n, int), np.zeros((n, n)), LP, 0,
            np.ones((nl, 2)), np.array(state, int) + 1, 0 if sim.sharing else 1, np.array(transfer, float), np.zeros(n),
            np.array(cap, float), np.array(load, float), np.ones(sim.nu), np.ones(sim.nu),
        )
        return None if j == 0 else -np.array(adj)[:n]

    return choose


def reference(spec, **kw):
    """The reference years, or None with the reason if the case is not determined or too big."""
    kw.setdefault("guide", program_choice)
    sim = refsim.Sim(spec, **kw)
    try:
        sim.run()
    except refsim.Undetermined as e:
        return None, "undetermined: " + str(e)
    except refsim.TooMany as e:
        return None, "too many shortages: " + str(e)
    return sim, ""


def differential(spec, **kw):
    """The whole-run check: reference first, then the program, then every printed number."""
    sim, why = reference(spec, **kw)
    if sim is None:
        return {"nontrivial": False, "classes": [why]}
    res = run(spec)
    compare(spec, res, sim)
    loss = sum(pick(R.plol["H"], "S").sum() for R in sim.years)
    cl = ["areas %d" % sim.n]
    if loss:
        cl.append("loss")
    if sim.trans_calls:
        cl.append("network evaluated")
    if sim.partial:
        cl.append("loss in some areas only")
    if sim.guided:
        cl.append("choice among optima left to the program")
    if sim.lps:
        cl.append("network limits bind")
    if sim.nf == 5:
        cl.append("forecast uncertainty")
    if len(sim.levels_seen) > 1:
        cl.append("loss at several levels")
    if spec["contracts"]:
        cl.append("contracts")
    if spec["own"]:
        cl.append("joint ownership")
    if sim.daily:
        cl.append("daily peak only")
    if sim.draw_daily:
        cl.append("daily draws")
    if sim.sharing:
        cl.append("loss sharing")
    if len(sim.years) > 1:
        cl.append("several years")
    return {"nontrivial": bool(loss), "classes": cl}
