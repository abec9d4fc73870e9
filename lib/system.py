"""Descriptions of power systems (JSON-able), their input files and their generators."""
import os

import numpy as np
from hypothesis import strategies as st


# ------------------------------------------------------------------ expansion
def profile(area):
    """The 8760 tokens of the load profile of an area."""
    p = area["profile"]
    rng = np.random.default_rng(p["seed"])
    top, lo, k = p["top"], p["lo"], p["k"]
    v = lo + (top - lo) * rng.random(8760) ** k
    if p["daily"]:
        h = np.arange(8760) % 24
        v = v * (0.8 + 0.2 * np.sin((h + p["phase"]) * np.pi / 12))
    if p["season"]:
        d = np.arange(8760) / 8760.0
        v = v * (0.85 + 0.15 * np.cos(2 * np.pi * (d - p["phase"] / 24.0)))
    v = np.floor(v)
    if p.get("neg"):  # every few half-days the load is less than its own generation
        v = v - int(0.6 * top) * ((np.arange(8760) // 12) % p["neg"] == 0)
    v[p["at"]] = top  # the peak occurs in this hour
    return np.minimum(v, top)


def loads(spec):
    """Hourly loads [area, hour]: the profile scaled to the annual peak."""
    out = []
    for a in spec["areas"]:
        v = profile(a)
        out.append(v / max(v.max(), 0.001) * a["peak"])
    return np.array(out)


# ------------------------------------------------------------------ files
ZZUD = "SN,NAME,LOC,CAP1,CAP2,CAP3,CAP4,DFOR,FOR,DER,P/A,B1,D1,B2,D2"
ZZLD = (
    "SN,AREA NAME,PEAK (MW),LFU,OUTAGE BEG WK,OUTAGE END WK,FORBIDDEN BEG WK,"
    "FORBIDDEN END WK,SUM OF FLOWS CONSTRAINT"
)
MC_KEYS = [
    ("SEED", 345237), ("LS", 1), ("END WK1", 13), ("END WK2", 26), ("END WK3", 39), ("WHERE", 2),
    ("WHEN", 1), ("KVS", 1), ("KVT", 1), ("KVL", 1), ("CVT", 0.025), ("FIN", 1), ("STEP", 1),
    ("FREQ", 1), ("MAXE", 1000), ("II", 0), ("IJ", 0), ("IR", 1), ("IN", 5), ("D", 1), ("M", 0),
]


def num(x):
    return repr(float(x)) if isinstance(x, float) and not float(x).is_integer() else str(int(x))


def area_name(i, spec=None):
    return "'%s'" % spec["names"][i] if spec and "names" in spec else "'A%d'" % (i + 1)


def unit_names(spec):
    """One name per unit: plant (4 characters) and number, as in the example data."""
    if "unames" in spec:
        return ["'%s'" % x for x in spec["unames"]]
    cnt = {}
    out = []
    for u in spec["units"]:
        a = u["area"]
        k = cnt.get(a, 0)
        cnt[a] = k + 1
        out.append("'A%d%02d%02d'" % (a + 1, k // 3 + 1, k % 3 + 1))
    return out


def write(spec, d, with_leei=True):
    """Optional entries of spec for other forms of the same data: names (of the areas), unames (of the units),
    linenos, sn (serial numbers with gaps, by this seed), shuffle (rows in the order of this seed), loose (numbers with points and blanks), blocks and dates
    (of the load file), omit (cards without entries to leave out)."""
    os.makedirs(d, exist_ok=True)
    rng = np.random.default_rng(spec["shuffle"]) if "shuffle" in spec else None
    name = lambda i: area_name(i, spec)
    if spec.get("loose"):
        joined = lambda v: ", ".join(" %s. " % num(x) if float(x).is_integer() else repr(float(x)) for x in v)
    else:
        joined = lambda v: ",".join(num(x) for x in v)

    def put(name, lines):
        if len(lines) == 1 and name[:4] in spec.get("omit", ()):
            return
        if "sn" in spec and lines[0].startswith("SN"):
            # serial numbers with decimals and gaps, in the same sequence
            sn = np.random.default_rng(spec["sn"]).choice(9999, len(lines) - 1, replace=False) + 1
            lines = lines[:1] + ["%g" % (k / 10.0) + l[l.index(",") :] for k, l in zip(sorted(sn), lines[1:])]
        if rng is not None and lines[0].startswith("SN"):
            lines = lines[:1] + [lines[1 + k] for k in rng.permutation(len(lines) - 1)]
        with open(os.path.join(d, name), "w") as f:
            f.write("\n".join(lines) + "\n")

    put("ZZTC.csv", ["GENERATED SYSTEM", "AREAS: %d" % len(spec["areas"]), "NONE"])
    mc = dict(MC_KEYS)
    mc.update(spec["mc"])
    put("ZZMC.csv", [",".join(k for k, _ in MC_KEYS), ",".join(num(mc[k]) for k, _ in MC_KEYS)])
    rows = [ZZLD]
    for i, a in enumerate(spec["areas"]):
        rows.append(
            "%d,%s,%s,%s,%d,%d,%d,%d,%s"
            % (i + 1, name(i), num(a["peak"]), num(a["lfu"]), *a.get("win", (1, 52, 31, 32)), num(a["lim"]))
        )
    put("ZZLD.csv", rows)
    names = unit_names(spec)
    rows = [ZZUD]
    for i, u in enumerate(spec["units"]):
        rows.append(
            ",".join(
                [str(i + 1), names[i], name(u["area"])]
                + [num(c) for c in u["cap"]]
                + [num(u["dfor"]), num(u["for"]), num(u["der"]), str(u.get("pa", 1))]
                + [str(x) for x in u["out"]]
            )
        )
    put("ZZUD.csv", rows)
    numbers = spec.get("linenos") or list(range(1, len(spec["lines"]) + 1))
    rows = ["SN,LINE NUMBER,FROM AREA,TO AREA,META DATA"]
    for i, l in enumerate(spec["lines"]):
        meta = joined([x for s in l["states"] for x in s])
        rows.append('%d,%d,%s,%s,"%s"' % (i + 1, numbers[i], name(l["from"]), name(l["to"]), meta))
    put("ZZTD.csv", rows)
    rows = ["SN,FROM AREA,TO AREA,BEG DAY,END DAY,MW"]
    for i, c in enumerate(spec["contracts"]):
        rows.append(
            "%d,%s,%s,%d,%d,%s"
            % (i + 1, name(c["from"]), name(c["to"]), c["beg"], c["end"], num(c["mw"]))
        )
    put("ZZFC.csv", rows)
    rows = ["SN,UNIT NAME,PERCENT OWNED BY AREA"]
    for i, o in enumerate(spec["own"]):
        rows.append('%d,%s,"%s"' % (i + 1, names[o["unit"]], joined(o["pct"])))
    put("ZZOD.csv", rows)
    put("ZZDD.csv", ["SN,LINE NUMBER,UNIT1,UNIT2,UNIT3,UNIT4,FORWARD,BACKWARD"])
    if with_leei:
        with open(os.path.join(d, "LEEI"), "w") as f:
            for i in spec.get("blocks") or range(len(spec["areas"])):
                v = profile(spec["areas"][i])
                f.write("AREA:A%d\n" % (i + 1))
                for k in range(730):
                    first = "%04d   " % (k + 1) if spec.get("dates", 1) == 1 else "      " if k % 2 or spec["dates"] == 0 else "%02d%02d 1 " % (k // 62 + 1, k // 2 % 31 + 1)
                    f.write(first + " ".join("%d" % x for x in v[12 * k : 12 * k + 12]) + "\n")


# ------------------------------------------------------------------ generators
FRAC = [0.11, 0.23, 0.37, 0.07, 0.29]


@st.composite
def profiles(draw, integer=False):
    if integer:
        top = draw(st.sampled_from([512, 1024]))
    else:
        top = draw(st.integers(200, 3000))
    lo = draw(st.sampled_from([0.0, 0.2, 0.4, 0.6])) * top
    return {
        "seed": draw(st.integers(0, 10**6)),
        "top": top,
        "lo": int(lo),
        "k": draw(st.sampled_from([6, 12, 25, 60])),
        "daily": draw(st.booleans()),
        "season": draw(st.booleans()),
        "phase": draw(st.integers(0, 23)),
        "at": draw(st.sampled_from([0, 23, 24, 167, 168, 4367, 4368, 8735, 8736, 8758, 8759]) | st.integers(0, 8759)),
    }


@st.composite
def outages(draw, some=True):
    """B1, D1, B2, D2: two planned outages, which do not overlap."""
    if not some or draw(st.integers(0, 2)) == 0:
        return [0, 0, 0, 0]
    b1 = draw(st.sampled_from([1, 2, 13, 14, 26, 27, 51, 52]) | st.integers(1, 52))
    d1 = draw(st.integers(1, min(8, 53 - b1)))
    if b1 + d1 <= 52 and draw(st.booleans()):
        b2 = draw(st.integers(b1 + d1, 52))
        d2 = draw(st.integers(1, min(8, 53 - b2)))
    else:
        b2 = d2 = 0
    return [b1, d1, b2, d2]


def share_split(draw, n):
    cuts = sorted(draw(st.integers(0, 4)) * 25 for _ in range(n - 1))
    cuts = [0] + cuts + [100]
    return [b - a for a, b in zip(cuts, cuts[1:])]


@st.composite
def systems(
    draw,
    areas=(1, 4),
    integer=False,
    random_units=True,
    lfu=True,
    contracts=True,
    ownership=True,
    planned=True,
    seasons=True,
    fin=(1, 2),
    step=None,
    convergence=False,
    tight_lines=True,
    sharing=True,
    margin=(85, 120),
    daily=True,
):
    lo, hi = areas
    # mostly several areas
    n = draw(st.sampled_from([k for k in (2, 3, 2, 1, 4, 3) if lo <= k <= hi] or list(range(lo, hi + 1))))
    spec = {"areas": [], "units": [], "lines": [], "contracts": [], "own": [], "mc": {}}
    use_lfu = lfu and draw(st.sampled_from([0, 0, 0, 0, 1, 1, 2]))
    for i in range(n):
        p = draw(profiles(integer))
        peak = p["top"] if integer else p["top"] + FRAC[i]
        if not integer and draw(st.integers(0, 3)) == 0:
            # the profile is in other units than the peak
            peak = draw(st.integers(100, 4000)) + FRAC[i]
        a = {"peak": peak, "profile": p, "lfu": 0, "lim": 30000}
        if use_lfu:
            a["lfu"] = draw(st.sampled_from([0, 2, 4, 5.5, 12.5] if use_lfu == 1 else [0, 0.5, 0.8]))
        if tight_lines and n > 1 and draw(st.integers(0, 5)) == 0:
            a["lim"] = draw(st.integers(1, 300) | st.integers(1, 1200).map(lambda k: k / 4))
        spec["areas"].append(a)
    scarce = draw(st.integers(0, 2 * n - 1))
    for i in range(n):
        k = draw(st.integers(1, 4))
        if n > 1 and step == 24 and draw(st.integers(0, 6)) == 0:
            k = 0
        lo, hi = margin
        if scarce < n:
            # one area short of capacity, the others with a surplus
            lo, hi = (lo, (lo + hi) // 2) if i == scarce else ((lo + hi) // 2, hi + 10)
        total = spec["areas"][i]["peak"] * draw(st.integers(lo, hi)) / 100.0
        for j in range(k):
            c = max(1, int(total / k) + draw(st.integers(-5, 5)))
            cap = [c] * 4
            if seasons and draw(st.booleans()):
                cap = [max(0, c + draw(st.integers(-c // 6 - 1, c // 6))) for _ in range(4)]
            u = {"area": i, "cap": cap, "dfor": 0, "for": 0, "der": 0, "out": draw(outages(planned))}
            if random_units and draw(st.integers(0, 3)) != 0:
                u["for"] = draw(st.sampled_from([0.005, 0.02, 0.05]))
                if draw(st.booleans()):
                    u["dfor"] = draw(st.sampled_from([0.01, 0.05]))
                    u["der"] = draw(st.sampled_from([10, 25, 50, 100, 12.5, 33.3]))
            spec["units"].append(u)
    if not spec["units"]:
        spec["units"].append({"area": 0, "cap": [10] * 4, "dfor": 0, "for": 0, "der": 0, "out": [0, 0, 0, 0]})
    if len(spec["units"]) > 1 and draw(st.booleans()):
        spec["units"] = draw(st.permutations(spec["units"]))
    pairs = [(i, draw(st.integers(0, i - 1))) for i in range(1, n)]
    if n > 2:
        for _ in range(draw(st.integers(0, 2))):
            f = draw(st.integers(0, n - 1))
            t = draw(st.integers(0, n - 2))
            pairs.append((f, t if t < f else t + 1))
    for f, t in pairs:
        if draw(st.booleans()):
            f, t = t, f
        states = []
        probs = draw(st.sampled_from([[1, 0, 0, 0, 0, 0], [0.9, 0.1, 0, 0, 0, 0], [0.8, 0.1, 0.05, 0.05, 0, 0],
                                      [0.5, 0.1, 0.1, 0.1, 0.1, 0.1], [0, 0, 1, 0, 0, 0]]))
        if not random_units:
            probs = [1, 0, 0, 0, 0, 0]
        big = draw(st.integers(0, 2)) == 0 or not tight_lines
        adm0 = -draw(st.sampled_from([1, 10, 60, 120]))
        for s in range(6):
            adm = adm0 if draw(st.booleans()) else -draw(st.sampled_from([1, 20, 100]))
            c1 = 20000 if big else draw(st.integers(1, 400))
            c2 = 20000 if big else draw(st.integers(1, 400))
            if s and draw(st.integers(0, 9)) == 0:
                adm = c1 = c2 = 0
            states.append([adm, c1, c2, probs[s]])
        spec["lines"].append({"from": f, "to": t, "states": states})
    if len(pairs) > 1 and draw(st.integers(0, 3)) == 0:
        m = len(pairs)
        spec["linenos"] = draw(st.sampled_from([list(range(m + 5, 5, -1)), list(range(m, 0, -1)), [k % m + 1 for k in range(1, m + 1)]]))
    if not integer and draw(st.integers(0, 3)) == 0:  # not whole megawatts
        part = draw(st.sampled_from([0.5, 0.25, 0.75]))
        for u in spec["units"]:
            u["cap"] = [c + part if c else c for c in u["cap"]]
        for l in spec["lines"]:
            if draw(st.booleans()):
                for s in l["states"]:
                    s[1:3] = [s[1] + part if s[1] else 0, s[2] + 0.125 if s[2] else 0]
    if contracts and n > 1 and (contracts == 2 or draw(st.integers(0, 1)) == 0):
        for _ in range(draw(st.integers(1, 3))):
            f = draw(st.integers(0, n - 1))
            t = draw(st.integers(0, n - 2))
            b = draw(st.sampled_from([1, 2, 365]) | st.integers(1, 365))
            e = draw(st.sampled_from([365]) | st.integers(b, 365)) if b < 365 else 365
            spec["contracts"].append({"from": f, "to": t if t < f else t + 1, "beg": b, "end": e,
                                      "mw": draw(st.integers(1, 120) if integer else st.integers(1, 120) | st.integers(4, 480).map(lambda k: k / 4))})
    if ownership and n > 1 and (ownership == 2 or draw(st.integers(0, 1)) == 0):
        us = draw(st.lists(st.integers(0, len(spec["units"]) - 1), min_size=1, max_size=3, unique=True))
        for u in us:
            spec["own"].append({"unit": u, "pct": share_split(draw, n)})
    wk = sorted(draw(st.integers(1, 51)) for _ in range(3)) if seasons and draw(st.booleans()) else [13, 26, 39]
    mc = {"END WK1": wk[0], "END WK2": wk[1], "END WK3": wk[2]}
    mc["LS"] = 0 if sharing == 2 else draw(st.sampled_from([1, 1, 0])) if sharing else 1
    if mc["LS"] == 1 and not integer and draw(st.integers(0, 5)) == 0:
        spec["areas"][draw(st.integers(0, n - 1))]["profile"]["neg"] = draw(st.sampled_from([2, 3, 7]))
    mc["WHERE"] = draw(st.integers(1, 2))
    mc["WHEN"] = draw(st.integers(1, 2))
    mc["KVS"] = draw(st.integers(1, 2))
    mc["KVT"] = draw(st.integers(1, 2))
    mc["KVL"] = draw(st.integers(1, n))
    mc["FIN"] = draw(st.integers(*fin))
    mc["CVT"] = draw(st.sampled_from([0, 0.05, 0.2, 0.5])) if convergence else 0.0001
    mc["STEP"] = step if step else draw(st.sampled_from([1, 1, 24])) if daily else 1
    mc["FREQ"] = draw(st.sampled_from([1, 24]))
    mc["MAXE"] = draw(st.sampled_from([20, 100, 1000, 5000, 1010, 10]))
    mc["II"] = draw(st.integers(0, 1))
    mc["IJ"] = draw(st.integers(0, 1))
    mc["IN"] = draw(st.integers(1, 5))
    mc["M"] = draw(st.integers(0, 1))
    spec["mc"] = mc
    return spec
