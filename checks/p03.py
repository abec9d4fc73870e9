"""P03: the event calendar."""
import numpy as np
from hypothesis import strategies as st

import e2e
import state
import system
from core import Sub, require
from nums import same

RULE = (
    "Histories of scheduling and removing events (several at the start, then one removed and one scheduled at a time, "
    "finally all removed; with equal times) against a sorted list; the first events of a simulation; the event "
    "sequence of up to twelve years stepped through with the program's own handlers against the expected sequence, "
    "with the ratings and planned outages in effect after each; whole runs of several years against the reference "
    "simulator. Non-trivial: equal times occur and the middle of the list is used (walks: more than one year)."
)

TIMES = st.integers(0, 40) | st.floats(0, 40) | st.sampled_from([0.5, 8760.0, 2184.5, 168.5])


@st.composite
def histories(draw):
    k = draw(st.integers(1, 18))
    ev = st.tuples(TIMES, st.integers(1, 4))
    first = draw(st.lists(ev, min_size=k, max_size=k))
    # delays from the event just removed
    then = draw(st.lists(st.tuples(st.sampled_from([0, 1, 24, 168, 8760, 0.5]) | TIMES, st.integers(1, 4)), max_size=40))
    return {"first": first, "then": then, "empty": draw(st.integers(0, 9)) == 0, "float": draw(st.booleans())}


def history(c):
    from reliabilityassessment.monte_carlo.filem import filem
    from reliabilityassessment.monte_carlo.initfl import initfl
    from reliabilityassessment.monte_carlo.remove import remove

    MFA, IPOINT, EVNTS = initfl()
    NUM = 0
    model = []  # in order of leaving
    classes = set()

    def file(t, kind):
        nonlocal MFA, IPOINT, NUM
        a = np.array([t, kind], float)
        NUM, MFA, IPOINT = filem(MFA, a, NUM, IPOINT, EVNTS)
        require(a[0] == t and a[1] == kind, "scheduling changed the event")
        k = 0
        while k < len(model) and model[k][0] < t:
            k += 1
        if k < len(model) and model[k][0] == t:
            classes.add("equal times")
        if 0 < k < len(model):
            classes.add("middle")
        model.insert(k, (float(t), int(kind)))
        require(NUM == len(model), "%d events counted, %d scheduled", NUM, len(model))

    def leave():
        nonlocal MFA, IPOINT, NUM
        a = np.full(2, -7.0)
        MFA, NUM, IPOINT = remove(NUM, a, EVNTS, IPOINT)
        want = model.pop(0)
        require((a[0], a[1]) == want, "event at %r type %r comes out, expected at %r type %r", a[0], a[1], *want)
        require(NUM == len(model), "%d events counted, %d scheduled", NUM, len(model))
        require((IPOINT == -1) == (not model), "first entry %r with %d events", IPOINT, len(model))
        return want[0]

    for t, kind in c["first"]:
        file(t, kind)
    now = 0.0
    for d, kind in c["then"]:
        now = max(now, leave())
        file(now + d, kind)
    while model:
        leave()
    if c["empty"]:
        # an emptied calendar may be used again: the slot of the last event is free
        for t, kind in c["first"][:1]:
            file(t, kind)
        leave()
    return {"nontrivial": len(classes) == 2, "classes": sorted(classes)}


def group(seq):
    """Events of the same time in a fixed order."""
    return sorted(seq)


@st.composite
def starts(draw):
    wk = sorted(draw(st.lists(st.integers(1, 51), min_size=3, max_size=3)))
    return {"wk": wk, "step": draw(st.sampled_from([1, 24]))}


def first_events(c):
    """The calendar at the start holds the first event of each kind and the seasons of a year."""
    from reliabilityassessment.monte_carlo.initfl import initfl
    from reliabilityassessment.monte_carlo.initl import initl
    from reliabilityassessment.monte_carlo.remove import remove

    for literal in (True, False):
        wk = c["wk"] if literal else [13, 26, 39]
        if literal:
            env = state.environment(1, QTR=np.array(wk) * 168 + 0.5, JSTEP=c["step"])
            state.start(env)
            clock, num, ip, ev = env["CLOCK"], env["NUMINQ"], env["IPOINT"], env["EVNTS"]
        else:
            _, _, ev = initfl()
            _, clock, ip, _, num = initl(c["step"], ev)
        require(clock == 0, "clock starts at %r", clock)
        out = []
        while ip != -1:
            a = np.zeros(2)
            _, num, ip = remove(num, a, ev, ip)
            require(not out or out[-1][0] <= a[0], "events out of order")
            out.append((float(a[0]), int(a[1])))
            require(len(out) < 20, "endless calendar")
        want = [(0.5, 3), (0.5, 2), (float(c["step"]), 1), (8760.0, 4)] + [(w * 168 + 0.5, 3) for w in wk]
        require(sorted(out) == sorted(want), "first events %s, expected %s", sorted(out), sorted(want))
    return {"nontrivial": c["wk"] != [13, 26, 39]}


@st.composite
def walks(draw):
    c = draw(starts())
    hourly = draw(st.integers(0, 11)) == 0
    c["step"] = 1 if hourly else 24
    c["years"] = draw(st.integers(1, 2) if hourly else st.sampled_from([1, 2, 3, 1, 2, 3, 1, 2, 6, 12]))
    nu = draw(st.integers(1, 4))
    c["n"] = draw(st.integers(1, 3))
    c["rates"] = [[draw(st.integers(0, 500)) for _ in range(4)] for _ in range(nu)]
    c["out"] = [draw(st.lists(st.sampled_from([0, 1, 25, 50, 51]) | st.integers(0, 51), max_size=6, unique=True)) for _ in range(nu)]
    return c


def expected(c):
    out = []
    Y = 8760.0
    for y in range(c["years"]):
        o = Y * y
        out += [(o + k, 1) for k in range(c["step"], 8761, c["step"])]
        out += [(o + w * 168 + 0.5, 2) for w in range(53)]
        out += [(o + 0.5, 3)] + [(o + w * 168 + 0.5, 3) for w in c["wk"]]
        out += [(o + Y, 4)]
    return sorted(out)


def table(out, nu):
    """JPLOUT: for each week the number of units on planned outage, then the units."""
    J = np.zeros((52, nu + 1), int)
    for w in range(52):
        us = [u for u in range(nu) if w in out[u]]
        J[w, 0] = len(us)
        J[w, 1 : 1 + len(us)] = us
    return J


def walk(c):
    nu, n = len(c["rates"]), c["n"]
    env = state.environment(
        n, nu, QTR=np.array(c["wk"]) * 168 + 0.5, JSTEP=c["step"], JFREQ=c["step"], RATES=np.array(c["rates"], float),
        JPLOUT=table(c["out"], nu), CAPOWN=np.eye(n, nu), CAPCON=np.zeros(nu, int), MXPLHR=24 * np.arange(365) + 5,
        INDX=int(c["step"] == 24), FINISH=8760 * 50,
    )
    state.start(env)
    want = expected(c)
    got = []
    for k in range(len(want)):
        require(env["IPOINT"] != -1, "no event left after %d", k)
        t, kind = state.step(env)
        got.append((t, kind))
        require(t == want[k][0], "event %d at %r (type %d), expected at %r (type %d)", k + 1, t, kind, *want[k])
        last = k + 1 == len(want) or want[k + 1][0] > t
        if last:
            a = k
            while a and want[a - 1][0] == t:
                a -= 1
            require(sorted(got[a:]) == want[a : k + 1], "events at %r: %s, expected %s", t, sorted(got[a:]), want[a : k + 1])
        if kind == 4:
            require(not any(g == (t, 4) for g in got[:-1]), "year ends twice")
            require((t, 1) in got[-3:], "year ends before its last hour is simulated")
        if last and t % 8760 % 168 == 0.5:
            effect(c, env, t)
    return {"nontrivial": c["years"] > 1, "classes": ["step %d" % c["step"], "years %d" % c["years"]]}


def effect(c, env, t):
    h = t % 8760
    season = sum(h > w * 168 for w in c["wk"])
    same(env["RATING"], np.array(c["rates"], float)[:, season], "ratings after the events at %r" % t)
    week = int(h // 168)
    up = [float(not (week < 52 and week in o)) for o in c["out"]]
    same(env["PLNDST"], up, "units in service after the events at %r" % t)


def run(spec):
    info = e2e.differential(spec)
    info["nontrivial"] = info["nontrivial"] and "several years" in info["classes"]
    return info


SUBS = [
    Sub("history", histories(), history, 3000, 150000),
    Sub("start", starts(), first_events, 300, 5000),
    Sub("walk", walks(), walk, 100, 4000, cpu=100),
    Sub("whole", system.systems(areas=(1, 3), fin=(2, 3), random_units=False, lfu=False), run, 32, 1500, cpu=300, chunk=4),
]
