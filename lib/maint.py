"""The printed maintenance schedule, and what holds for the maintenance left to the program."""
import os
import re

import numpy as np

from core import fail, require

FLOAT = re.compile(r"-?\d+\.\d+(?:[eE][-+]?\d+)?|nan|inf")
ROW = re.compile(r"^[ \t]*\|[ \t]*(\S[^|\n]*?)[ \t]*\|[ \t]*(\d+)[ \t]*\|\s*((?:\s*(?:PP|AA|\.\.)[ \t]*\|?){52})(?!\s*(?:PP|AA|\.\.))", re.M)
NOT = re.compile(r"SCHEDULE FOR\s+GENERATOR\s+\*\*[ \t]*(\S[^*\n]*?)[ \t]*\*\*\s+IS NOT FEASIBLE")
HEAD = "WEEKLY PEAK LOAD BEFORE MAINTENANCE SCHEDULING"
EFFECTIVE = "WEEKLY PEAK LOAD + EFFECTIVE CAPACITY"
LOADS = "WEEKLY PEAK LOAD + CAPACITY ON MAINTENANCE"
TITLE = re.compile(r"PLANNED MAINTENANCE SCHEDULE FOR AREA\s+(\d+)")


def take():
    """What the program has written to output.txt since the last call."""
    try:
        with open("output.txt") as f:
            text = f.read()
        os.remove("output.txt")
    except FileNotFoundError:
        text = ""
    return text


def squeeze(name):
    return "".join(name.split())


def infeasible(text):
    """Names of the units reported as impossible to schedule."""
    return [squeeze(x) for x in NOT.findall(text)]


def numbers(part, what):
    v = [float(x) for x in FLOAT.findall(part)]
    require(len(v) == 52, "%s: %d weeks printed", what, len(v))
    return np.array(v)


def sections(text):
    """The schedules of the areas as printed."""
    out = []
    for s in text.split(HEAD)[1:]:
        t = TITLE.search(s)
        require(t is not None, "%s", "schedule without the name of the area")
        a = int(t.group(1)) - 1
        what = "schedule of area %d" % (a + 1)
        require(len(TITLE.findall(s)) == 1, "%s: second title", what)
        k, l = s.find(EFFECTIVE), s.find(LOADS)
        require(0 <= k < l, "%s: weekly tables missing", what)
        end = l + len(LOADS)
        tail = FLOAT.findall(s[end:])[:52]
        rows = [(squeeze(n), int(c), re.findall(r"PP|AA|\.\.", m)) for n, c, m in ROW.findall(s[:k])]
        require(s[:k].count("PP ") + s[:k].count("AA ") + s[:k].count(".. ") == 52 * len(rows), "%s: rows not readable", what)
        out.append({
            "area": a, "tables": [int(x) for x in re.findall(r"TABLE\s+(\d+)", s[:k])],
            "before": numbers(s[: t.start()], what + ": peaks before"), "rows": rows,
            "effective": numbers(s[k:l], what + ": effective"),
            "loads": numbers(" ".join(tail), what + ": loads"), "infeasible": infeasible(s),
        })
    require(len(TITLE.findall(text)) == len(out), "%s", "schedules without the weekly peaks")
    return out


def given(p):
    b1, d1, b2, d2 = p
    out = set()
    for b, d in ((b1, d1), (b2, d2)):
        if b > 0:
            out |= set(range(b - 1, min(52, b - 1 + d)))
    return out


def runs(w):
    """[first week, number of weeks] of the uninterrupted periods."""
    out = []
    for k in sorted(w):
        if out and out[-1][0] + out[-1][1] == k:
            out[-1][1] += 1
        else:
            out.append([k, 1])
    return out


def weeks_of(J, nu):
    """Weeks of the schedule, by unit."""
    J = np.asarray(J)
    require(J.shape[0] == 52, "%d weeks", J.shape[0])
    out = [set() for _ in range(nu)]
    for w in range(52):
        for u in J[w, 1 : 1 + int(J[w, 0])].tolist():
            require(0 <= u < nu and w not in out[u], "week %d: unit %d out twice or unknown", w + 1, u)
            out[u].add(w)
    return out


def automatic(units, area, win, weekly, peak, out, names, reported, near=1e-9):
    """The maintenance of an area that is left to the program.

    units: dicts with area, plant, cap (the largest), pa, out (periods given);  win: first and last week of the
    outage window and of the forbidden period (from 1);  weekly, peak: weekly peaks and annual peak of the area;
    out: the weeks of every unit in the schedule;  reported: names of units that could not be scheduled.
    """
    mine = [u for u, x in enumerate(units) if x["area"] == area]
    auto = [u for u in mine if not units[u]["pa"] and units[u]["out"][1] + units[u]["out"][3] > 0]
    bad = {u for u in mine if names[u] in reported}
    require(bad <= set(auto), "units %s are not left to the program, but reported", sorted(bad - set(auto)))
    for u in mine:
        x = units[u]
        if x["pa"] or u in bad:
            want = given(x["out"])
            require(out[u] == want, "unit %d: out in weeks %s, given %s", u, runs(out[u]), runs(want))
        elif u not in auto:
            require(not out[u], "unit %d without maintenance is out in weeks %s", u, runs(out[u]))
    b, e, f1, f2 = win
    lo, hi = max(b, 1) - 1, min(e, 52) - 1
    forb = set(range(f1 - 1, f2)) if f1 > 0 else set()
    place = {}
    for u in auto:
        if u in bad:
            continue
        d1, d2 = units[u]["out"][1], units[u]["out"][3]
        r = runs(out[u])
        require([k for _, k in r] == [d for d in (d1, d2) if d > 0], "unit %d: out in weeks %s, durations %d and %d", u, r, d1, d2)
        require(lo <= r[0][0] and r[-1][0] + r[-1][1] - 1 <= hi, "unit %d: weeks %s outside the outage window %d-%d", u, r, b, e)
        require(not out[u] & forb, "unit %d: weeks %s in the forbidden period %d-%d", u, r, f1, f2)
        if d1 and d2:
            require(r[0][0] + d1 <= f1 - 1 and r[1][0] > f2 - 1, "unit %d: weeks %s not on both sides of the forbidden period", u, r)
        place[u] = r
    # the schedule as a whole
    total = np.array(weekly, float)
    for u in mine:
        for w in out[u]:
            total[w] += units[u]["cap"]
    for u in place:
        for v in mine:
            if v != u and v not in bad and units[v]["plant"] == units[u]["plant"] and out[u] & out[v]:
                fail("units %d and %d of one plant are out together in weeks %s", u, v, runs(out[u] & out[v]))
        if not bad:
            for w in out[u]:
                require(total[w] < peak * (1 + near), "week %d: peak and maintenance %.6g, annual peak %.6g", w + 1, total[w], peak)
    # step by step: largest plant first, in it largest unit first
    size = lambda u: units[u]["cap"] * (units[u]["out"][1] + units[u]["out"][3])
    key = lambda u: units[u]["cap"] * max(units[u]["out"][1], units[u]["out"][3])
    plants = {}
    for u in auto:
        plants.setdefault(units[u]["plant"], []).append(u)
    order = sorted(plants.values(), key=lambda us: -sum(map(size, us)))
    ties = False
    for a, c in zip(order, order[1:]):
        x, y = sum(map(size, a)), sum(map(size, c))
        ties |= abs(x - y) <= 1e-9 * x
    load = np.array(weekly, float)
    busy = {}
    for u in mine:
        if units[u]["pa"]:
            for w in out[u]:
                load[w] += units[u]["cap"]
                busy.setdefault(units[u]["plant"], set()).add(w)
    for us in order:
        us.sort(key=lambda u: -key(u))
        ties |= any(abs(key(x) - key(y)) <= 1e-9 * key(x) for x, y in zip(us, us[1:]))
    classes = ["reported"] * bool(bad) + ["two periods"] * any(len(r) > 1 for r in place.values())
    if ties:
        return place, classes + ["order of units not determined"]
    tight = 0
    for us in order:
        for u in us:
            x = units[u]
            d1, d2 = x["out"][1], x["out"][3]
            taken = busy.setdefault(x["plant"], set())
            sides = [(d1, None), (d2, None)]
            if d1 and d2:
                sides = [(d1, "before"), (d2, "after")]
                if d2 >= d1:
                    sides.reverse()
            doubt, possible = False, True
            for d, side in sides:
                if not d:
                    continue
                ok = {}
                for s in range(lo, min(hi, 51) - d + 2):
                    span = range(s, s + d)
                    if forb & set(span) or taken & set(span):
                        continue
                    if side == "before" and not s + d <= f1 - 1 or side == "after" and not s > f2 - 1:
                        continue
                    top = max(load[w] for w in span) + x["cap"]
                    if abs(top - peak) <= near * peak:
                        doubt = True
                    elif top < peak:
                        ok[s] = sum(load[w] for w in span)
                    else:
                        tight += 1
                if doubt:
                    break
                if not ok:
                    possible = False
                    break
                if u not in bad:
                    at = place[u][0][0] if side != "after" else place[u][-1][0]
                    require(at in ok, "unit %d: week %d is not possible for %d weeks", u, at + 1, d)
                    best = min(ok.values())
                    require(ok[at] <= best + 1e-9 * (abs(best) + abs(peak)), "unit %d: peaks and maintenance sum up to %.6g in weeks %d-%d, %.6g would be possible (in weeks %s)",
                            u, ok[at], at + 1, at + d, best, [s + 1 for s in ok if ok[s] == best])
            if doubt:
                return place, classes + ["limit reached exactly"]
            require(possible == (u not in bad), "unit %d: %s", u, "not scheduled although possible" if possible else "scheduled although impossible")
            for w in out[u]:
                load[w] += x["cap"]
                taken.add(w)
    return place, classes + ["some weeks too high"] * bool(tight) + ["several in a plant"] * any(len(us) > 1 for us in order)


def printed(text, units, names, out, weekly, wanted, first=None):
    """The printed schedule against the schedule."""
    if not wanted:
        require(TITLE.search(text) is None and HEAD not in text, "%s", "schedule printed without request")
        return []
    secs = sections(text)
    areas = sorted({x["area"] for x in units})
    require([s["area"] for s in secs] == areas, "schedules of areas %s printed, units in %s", [s["area"] + 1 for s in secs], [a + 1 for a in areas])
    last = first
    for s in secs:
        a = s["area"]
        what = "schedule of area %d" % (a + 1)
        require(len(s["tables"]) > 0 and len(set(s["tables"])) == 1, "%s: tables %s", what, s["tables"])
        require(last is None or s["tables"][0] > last, "%s: table %s after %s", what, s["tables"][0], last)
        last = s["tables"][0]
        same(s["before"], weekly[a], what + ": weekly peaks before")
        total = np.array(weekly[a], float)
        seen = set()
        for name, cap, marks in s["rows"]:
            require(name in names, "%s: unit %s", what, name)
            u = names.index(name)
            require(units[u]["area"] == a and u not in seen, "%s: unit %s again or of another area", what, name)
            seen.add(u)
            require(abs(cap - units[u]["cap"]) < 1.000001, "%s: capacity of unit %s is %d", what, name, cap)
            w = {k for k in range(52) if marks[k] != ".."}
            require(w == out[u], "%s: unit %s printed in weeks %s, scheduled in %s", what, name, runs(w), runs(out[u]))
            if name not in s["infeasible"]:
                require({marks[k] for k in w} <= {"PP" if units[u]["pa"] else "AA"}, "%s: marks of unit %s", what, name)
        for u, x in enumerate(units):
            if x["area"] == a:
                require(u in seen or not out[u], "%s: unit %s is not listed, out in weeks %s", what, names[u], runs(out[u]))
                for w in out[u]:
                    total[w] += x["cap"]
        same(s["loads"], total, what + ": peaks with maintenance")
        e = s["effective"]
        require(np.all(e >= weekly[a] - 1e-3) and np.all(e <= total + 1e-3), "%s: peaks with effective capacity", what)
    return secs


def same(got, want, what):
    d = np.abs(np.array(got) - np.array(want))
    k = int(d.argmax())
    require(d[k] <= 1e-3 + 1e-9 * abs(want[k]), "%s: week %d is %r, expected %.6f", what, k + 1, got[k], want[k])
