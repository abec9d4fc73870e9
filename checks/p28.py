"""P28: the printed transmission results."""
import glob
import os

import numpy as np
from hypothesis import strategies as st

import e2e
import netgen
import p15
import refsim
import system
from core import Sub, fail, require
from nums import arr

RULE = (
    "Sequences of 1-6 network evaluations (units out of service, derated and on planned outage among them, hours at "
    "both ends of the year) run with printing on; the records of traout.txt are read back and each has to be that of "
    "one evaluation that needs the linear program, in order, none missing: place and time, units, margins, transfers "
    "and limits as given, injections and flows that follow each other and the limits, the smallest total curtailment, "
    "numbers equal to what the evaluation returns. Whole runs are compared with the evaluations of the reference "
    "simulator, and with the same run without printing. Non-trivial: records of both steps (whole runs: two records)."
)


class Record:
    pass


def read(text, n, nl):
    """The records of the file, for so many areas and lines."""
    rows = [l.split() for l in text.splitlines() if l.strip()]
    out, i = [], 0

    def take(k, what):
        nonlocal i
        require(i < len(rows) and len(rows[i]) == k, "record %d: %s expected, found %s", len(out) + 1, what, rows[i] if i < len(rows) else "the end")
        i += 1
        try:
            return [float(x) for x in rows[i - 1]]
        except ValueError:
            fail("record %d: %s not readable: %s", len(out) + 1, what, rows[i - 1])

    while i < len(rows):
        r = Record()
        r.head = tuple(int(x) for x in take(3, "clock, hour and step"))
        r.units = [int(take(1, "unit")[0]) for _ in range(int(take(1, "number of units")[0]))]
        require(r.head[2] in (0, 1), "record %d: step %d", len(out) + 1, r.head[2])
        r.areas = arr([take(6 if r.head[2] else 5, "row of an area") for _ in range(n)])
        r.lines = arr([take(7, "row of a line") for _ in range(nl)]).reshape(nl, 7)
        out.append(r)
    return out


def file_here():
    f = glob.glob("traout.txt*")
    require(len(f) < 2, "several files %s", f)
    return f[0] if f else None


def near(got, want, tol, what, *a):
    got, want = np.asarray(got, float), np.asarray(want, float)
    bad = np.abs(got - want) > tol
    if bad.any():
        k = int(np.argmax(bad))
        fail(what + ": %d is %s, expected %.6g", *a, k + 1, np.ravel(got)[k], np.ravel(want)[k])


def needed(g, p, slack, exact=True):
    """Whether the linear program is needed; None if rounding may decide."""
    if (g > slack).any():
        return True
    if (g < -slack).all() or exact and np.abs(p).max() == 0 and (g <= 0).all():
        return False
    return None


class Reader:
    """Follows the records along the evaluations."""

    def __init__(self, records):
        self.records, self.pos = records, 0
        self.steps = [0, 0]

    def next(self, need, head, load, what):
        """The record of this step, or None."""
        r = self.records[self.pos] if self.pos < len(self.records) else None
        if need is None:
            # rounding decides; it is this one if it is of the same place
            if r is None or r.head != head or np.abs(r.areas[:, 4] - load).max() > 0.51:
                return None
        elif not need:
            return None
        require(r is not None, "%s: no record", what)
        require(r.head == head, "%s: record of clock, hour and step %s", what, r.head)
        self.pos += 1
        self.steps[head[2]] += 1
        return r

    def follow(self, sim, e, head, units, what, returned=None):
        cap, load, tr = arr(e["cap"]), arr(e["load"]), arr(e["tr"])
        net, n = sim.net, sim.n
        H, fwd, bwd = net.model(e["state"])[:3]
        lim = net.lim
        M = cap - load
        slack = p15.tolerance({"cap": list(cap), "load": list(load), "tr": list(tr)}, None)
        inj = np.maximum(tr, np.minimum(M, 0))
        # first step: no sharing
        p = refsim.proportional(inj, load, False)
        g = sim._limits(H @ p, fwd, bwd, lim, lim)
        r = self.next(needed(g, p, slack), head + (0,), load, what + " step 1")
        if r is not None:
            w = what + " step 1"
            self.common(r, net, e, units, (fwd, bwd), slack, w)
            near(r.areas[:, 1], tr, 0.0051 + slack, w + ": scheduled transfers")
            near(r.areas[:, 3], cap, 0.0051 + slack, w + ": capacities")
            near(r.areas[:, 4], load, 0.0051 + slack, w + ": loads")
            p = r.areas[:, 2]
            self.carries(r, p, 0.0051, H, fwd, bwd, lim, slack, w)
            t = 0.0051 + slack
            require((p <= np.maximum(inj, 0) + t).all() and (p >= np.minimum(inj, 0) - t).all(), "%s: injections %s beyond %s", w, p.tolist(), inj.tolist())
            fun = refsim.optimum(net, net.model(e["state"]), fwd, bwd, lim, lim, inj, unique=False)[0]
            near([np.maximum(p - inj, 0)[inj < 0].sum()], [fun], n * t, w + ": total not carried")
            slack = 0.0051 + slack
        left = M - p
        if (left >= slack).all():
            again = False
        elif (left < -slack).any():
            again = True
        else:
            again = None
        if returned is not None:
            if again is not None:
                require(bool(returned[0]) == again, "%s: second step %r, expected %r", what, bool(returned[0]), again)
            again = bool(returned[0])
            if not again:
                near(returned[2], left, slack * 2, what + ": margins of the first step")
        if again is False:
            return
        f1 = H @ p
        t1 = slack * (1 + np.abs(H).sum())
        if sim.sharing:
            M2, lo, hi, li, lx = M, fwd, bwd, lim, lim
            t1 = 1e-9
        else:
            out = net.incidence().T @ f1
            M2 = left
            lo, hi = np.maximum(fwd - f1, 0), np.maximum(bwd + f1, 0)
            li, lx = np.maximum(lim + out, 0), np.maximum(lim - out, 0)
        q = refsim.proportional(M2, load, sim.sharing)
        g = sim._limits(H @ q, lo, hi, li, lx)
        need = needed(g, q, slack if sim.sharing else slack * 2 + t1, sim.sharing)
        if again is None and need:
            need = None
        r = self.next(need, head + (1,), load, what + " step 2")
        if r is None:
            return
        w = what + " step 2"
        t2 = 0.51 + t1
        self.common(r, net, e, units, (lo, hi), t1, w)
        near(r.areas[:, 3], M2, t2, w + ": margins")
        near(r.areas[:, 4], load, 0.51, w + ": loads")
        near(r.areas[:, 5], li, t2 * 2, w + ": limits of the sum of flows")
        q, C = r.areas[:, 1], r.areas[:, 2]
        self.carries(r, q, 0.51, H, lo, hi, np.minimum(li, lx) if sim.sharing else None, t1, w, (li, lx))
        near(C, np.maximum(q - M2, 0), 2 * t2, w + ": curtailments of these injections")
        fun = refsim.optimum(
            net, net.model(e["state"]), lo, hi, li, lx, M2, cap if sim.sharing else None, load if sim.sharing else None, unique=False
        )[0]
        near([C.sum()], [fun], n * (0.51 + t1 * 4), w + ": total curtailment")
        if returned is not None:
            adj, flow = returned[2], returned[1]
            near(q, adj + M2, 0.51 + slack, w + ": injections of the result")
            near(C, np.maximum(adj, 0), 0.51 + slack, w + ": curtailments of the result")
            near(r.lines[:, 6], flow, 0.51 + slack, w + ": flows of the result")

    def common(self, r, net, e, units, caps, slack, w):
        n = net.n
        require(r.units == units, "%s: units %s, expected %s", w, r.units, units)
        require(r.areas[:, 0].tolist() == list(range(n)), "%s: areas %s", w, r.areas[:, 0].tolist())
        for k, (f, t) in enumerate(net.lines):
            require(r.lines[k, 0] == e["numbers"][k] and r.lines[k, 1:3].tolist() == [f, t], "%s: line %d is %s from %d to %d", w, k + 1, r.lines[k, :3].tolist(), f, t)
        near(-r.lines[:, 3], net.model(e["state"])[3], 0.51, w + ": admittances")
        near(r.lines[:, 4], caps[0], 0.51 + slack, w + ": forward capacities")
        near(r.lines[:, 5], caps[1], 0.51 + slack, w + ": backward capacities")

    def carries(self, r, p, d, H, fwd, bwd, lim, slack, w, both=None):
        """Injections, known within d, and printed flows."""
        n = len(p)
        require(abs(p.sum()) <= n * (d + slack), "%s: injections do not balance: %s", w, p.tolist())
        f = r.lines[:, 6]
        near(f, H @ p, 0.51 + slack + (d + slack) * np.abs(H).sum(axis=1), w + ": flows of these injections")
        t = 0.51 + slack * 2
        require((f <= fwd + t).all() and (-f <= bwd + t).all(), "%s: flows %s beyond the capacities", w, f.tolist())
        li, lx = both or (lim, lim)
        require((p <= lx + d + slack * 2).all() and (-p <= li + d + slack * 2).all(), "%s: injections %s beyond the sum-of-flow limits", w, p.tolist())

    def end(self):
        require(self.pos == len(self.records), "%d records more than evaluations that need one: clock, hour and step %s", len(self.records) - self.pos,
                self.records[self.pos].head if self.pos < len(self.records) else "")

    def info(self, classes=()):
        return {"nontrivial": min(self.steps) > 0, "classes": list(classes) + ["first step"] * (self.steps[0] > 0) + ["second step"] * (self.steps[1] > 0)}


def listed(pln, pct):
    return [(i + 1) if a != 1 or b == 0 else -(i + 1) for i, (a, b) in enumerate(zip(pln, pct)) if a != 1 or b != 1]


@st.composite
def histories(draw):
    if draw(st.integers(0, 3)) == 0:
        c = draw(netgen.congested())
        base = c["ev"][0]
        for _ in range(draw(st.integers(0, 3))):
            c["ev"].append(dict(base, cap=[x + draw(st.integers(-80, 80)) for x in base["cap"]]))
        for e in c["ev"]:
            e["cap"] = [max(0, x) for x in e["cap"]]
    else:
        c = draw(netgen.evaluations(areas=(2, 5), count=draw(st.integers(1, 6))))
    nu = draw(st.sampled_from([1, 2, 5, 30]))
    for e in c["ev"]:
        e["pln"] = draw(st.lists(st.sampled_from([1, 1, 0]), min_size=nu, max_size=nu))
        e["pct"] = draw(st.lists(st.sampled_from([1, 1, 0, 0.5, 0.02, 0.999]), min_size=nu, max_size=nu))
        e["hour"] = draw(st.sampled_from([0, 8759]) | st.integers(0, 8759))
    return c


def history(c):
    if os.path.exists("traout.txt "):
        os.remove("traout.txt ")
    for f in glob.glob("traout*"):
        os.remove(f)
    c = dict(c, ioi=1)
    A = netgen.Arrays(c)
    got = [A.run(e, k == 0, hour=e["hour"]) for k, e in enumerate(c["ev"])]
    f = file_here()
    text = ""
    if f:
        text = open(f).read()
        os.remove(f)
    R = Reader(read(text, A.n, A.nl))
    for k, (e, g) in enumerate(zip(c["ev"], got)):
        sim = netgen.Bare(c, e["sharing"])
        e = dict(e, numbers=A.LP[:, 0])
        R.follow(sim, e, (e["hour"] + 1, e["hour"]), listed(e["pln"], e["pct"]), "evaluation %d" % (k + 1), g)
    R.end()
    # without printing the same, and no file
    A = netgen.Arrays(dict(c, ioi=0))
    for k, (e, g) in enumerate(zip(c["ev"], got)):
        b = A.run(e, k == 0, hour=e["hour"])
        require(g[0] == b[0] and np.array_equal(g[1], b[1]) and np.array_equal(g[2], b[2]), "evaluation %d: another result without printing", k + 1)
    require(file_here() is None, "records without request")
    return R.info(["sharing"] * any(e["sharing"] for e in c["ev"]))


class Logged(refsim.Sim):
    """Keeps the evaluations which reach the network."""

    def evaluate(self, cap, load, transfer, state):
        M = np.trunc(cap - load)
        if (M < 0).any() and not (M < 0).all():  # nothing to share out otherwise
            self.log.append((self.at, self.pct[self.at[4]], cap, load, transfer, list(state)))
        return super().evaluate(cap, load, transfer, state)


def whole(spec):
    spec["mc"]["II"] = 1
    sim = Logged(spec, guide=e2e.program_choice)
    sim.log = []
    try:
        sim.run()
    except (refsim.Undetermined, refsim.TooMany) as e:
        return {"nontrivial": False, "classes": [str(e)]}
    res = e2e.run(spec)
    quiet = e2e.run(dict(spec, mc=dict(spec["mc"], II=0)))
    require(res["output"] == quiet["output"], "another output.txt with the transmission results printed")
    require(not [f for f in quiet["files"] if f.startswith("traout")], "transmission results without request")
    f = [f for f in res["files"] if f.startswith("traout.txt")]
    require(len(f) < 2, "several files %s", f)
    R = Reader(read(res["files"][f[0]].decode() if f else "", sim.n, sim.nl))
    numbers = [k - 1 for k in spec.get("linenos") or range(1, sim.nl + 1)]
    for (y, e, h, dh, di), pct, cap, load, tr, state in sim.log:
        week = dh // 168
        pln = [0 if any(b > 0 and b - 1 <= week < min(52, b - 1 + d) for b, d in (u["out"][:2], u["out"][2:])) else 1 for u in spec["units"]]
        clock = 8760 * y + (24 * (h // 24 + 1) if sim.daily else h + 1)
        ev = {"cap": cap, "load": load, "tr": tr, "state": state, "numbers": numbers}
        R.follow(sim, ev, (clock, h), listed(pln, pct), "hour %d of year %d" % (h + 1, y + 1))
    R.end()
    r = R.info(["areas %d" % sim.n] + ["daily peaks"] * sim.daily + ["sharing"] * sim.sharing)
    r["nontrivial"] = sum(R.steps) > 1
    return r


SUBS = [
    Sub("history", histories(), history, 1200, 40000, cpu=60),
    Sub("whole", system.systems(areas=(2, 4), fin=(1, 2)) | system.systems(areas=(2, 4), fin=(1, 2), contracts=2), whole, 96, 3000, cpu=200, chunk=4),
]
