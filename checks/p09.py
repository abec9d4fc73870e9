"""P09: the input files mean what they say."""
import numpy as np
from hypothesis import strategies as st

import e2e
import inputs
import system
from core import Sub, require
from nums import arr, equal, same

RULE = (
    "Sets of input files are generated: 1-8 areas and up to 20 units and 14 lines with arbitrary names and line "
    "numbers, rows in any order, serial numbers with gaps and decimals, values left out as zero, numbers written "
    "with or without decimals, optional files left out, all options. The arrays the program makes of them are compared, value by value, with "
    "those built from the description the files were written from; small systems are also simulated and compared "
    "with the reference simulator. Non-trivial: rows out of order or serial numbers with gaps, and several areas."
)

ALNUM = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"


def distinct(draw, n, strategy):
    return draw(st.lists(strategy, min_size=n, max_size=n, unique=True))


@st.composite
def forms(draw, spec, names=True):
    if names:
        n = len(spec["areas"])
        if draw(st.booleans()):
            spec["names"] = distinct(draw, n, st.text(ALNUM, min_size=1, max_size=4))
        if draw(st.booleans()):
            spec["unames"] = distinct(
                draw, len(spec["units"]), st.builds(lambda a, k: a + "%02d" % k, st.text(ALNUM, min_size=4, max_size=4), st.integers(1, 9))
            )
    m = len(spec["lines"])
    if draw(st.booleans()):
        if draw(st.booleans()):
            spec["linenos"] = list(draw(st.permutations(range(1, m + 1))))
        else:
            spec["linenos"] = draw(st.lists(st.integers(1, 999), min_size=m, max_size=m, unique=True))
    if draw(st.booleans()):
        spec["shuffle"] = draw(st.integers(0, 10**6))
    if draw(st.booleans()):
        spec["sn"] = draw(st.integers(0, 10**6))
    if draw(st.booleans()):
        spec["loose"] = 1
    if draw(st.booleans()):
        spec["blocks"] = list(draw(st.permutations(range(len(spec["areas"])))))
    spec["dates"] = draw(st.integers(0, 2))
    spec["omit"] = draw(st.lists(st.sampled_from(["ZZFC", "ZZOD", "ZZDD"]), unique=True))
    return spec


@st.composite
def described(draw):
    """Any description, not meant to be simulated."""
    n = draw(st.integers(1, 8))
    spec = {"areas": [], "units": [], "lines": [], "contracts": [], "own": [], "mc": {}}
    lfu = draw(st.sampled_from([0, 1, 2]))
    for i in range(n):
        b = draw(st.integers(1, 26))
        spec["areas"].append(
            {
                "peak": draw(st.sampled_from([1, 1000]) | st.integers(1, 5000) | st.floats(0.5, 5000)),
                "profile": draw(system.profiles()),
                "lfu": 0 if not lfu else draw(st.sampled_from([0, 3, 4.25, 40]) | st.floats(0, 40)) if lfu == 1 else draw(st.sampled_from([0, 0.25, 0.9])),
                "lim": draw(st.sampled_from([30000, 0]) | st.integers(0, 999) | st.floats(0, 99999)),
                "win": [b, draw(st.integers(b + 1, 52)), draw(st.integers(1, 26)), draw(st.integers(27, 52))],
            }
        )
    for _ in range(draw(st.integers(1, 20))):
        c = draw(st.integers(0, 900))
        cap = [c] * 4 if draw(st.booleans()) else [draw(st.integers(0, 900) | st.floats(0, 900)) for _ in range(4)]
        f = draw(st.sampled_from([0, 0.02]) | st.floats(0, 0.5))
        d = draw(st.sampled_from([0, 0.05]) | st.floats(0, 0.5))
        spec["units"].append(
            {
                "area": draw(st.integers(0, n - 1)), "cap": cap, "dfor": d, "for": f,
                "der": draw(st.sampled_from([0, 100, 25]) | st.floats(0, 100)), "out": draw(system.outages()),
            }
        )
    val = st.sampled_from([0, 1]) | st.integers(1, 900) | st.floats(0, 99999)
    if n > 1:
        for _ in range(draw(st.integers(1, 14))):
            f = draw(st.integers(0, n - 1))
            t = draw(st.integers(0, n - 2))
            w = [draw(st.integers(0, 9)) for _ in range(6)]
            w[0] += 1
            spec["lines"].append(
                {
                    "from": f, "to": t if t < f else t + 1,
                    "states": [[-draw(val), draw(val), draw(val), round(x / sum(w), 6)] for x in w],
                }
            )
        for _ in range(draw(st.integers(0, 8))):
            f = draw(st.integers(0, n - 1))
            t = draw(st.integers(0, n - 2))
            b = draw(st.sampled_from([1, 365]) | st.integers(1, 365))
            spec["contracts"].append(
                {"from": f, "to": t if t < f else t + 1, "beg": b, "end": draw(st.integers(b, 365)), "mw": draw(st.integers(0, 300) | st.floats(0, 300))}
            )
        for u in draw(st.lists(st.integers(0, len(spec["units"]) - 1), max_size=5, unique=True)):
            spec["own"].append({"unit": u, "pct": draw(st.one_of(st.builds(lambda: None), st.lists(st.floats(0, 100), min_size=n, max_size=n))) or system.share_split(draw, n)})
    wk = sorted(draw(st.lists(st.integers(1, 51), min_size=3, max_size=3)))
    spec["mc"] = {
        "END WK1": wk[0], "END WK2": wk[1], "END WK3": wk[2], "LS": draw(st.integers(0, 1)), "WHERE": draw(st.integers(1, 2)),
        "WHEN": draw(st.integers(1, 2)), "KVS": draw(st.integers(1, 2)), "KVT": draw(st.integers(1, 2)), "KVL": draw(st.integers(1, n)),
        "CVT": draw(st.sampled_from([0, 0.025, 0.5])), "FIN": draw(st.integers(1, 9999)), "STEP": draw(st.sampled_from([1, 24])),
        "FREQ": draw(st.sampled_from([1, 24])), "MAXE": draw(st.integers(1, 9000)), "II": draw(st.integers(0, 1)), "IJ": draw(st.integers(0, 1)),
        "IN": draw(st.integers(1, 99)), "IR": draw(st.integers(0, 1)), "D": draw(st.integers(0, 1)), "M": draw(st.integers(0, 1)),
    }
    return draw(forms(spec))


def written(x):
    """A number as it is in the file."""
    return float(system.num(x)) if not isinstance(x, list) else [written(y) for y in x]


def contracts_table(spec):
    """Exchanged power [from, to, day]."""
    n = len(spec["areas"])
    out = np.zeros((n, n, 365))
    for c in spec["contracts"]:
        out[c["from"], c["to"], c["beg"] - 1 : c["end"]] += written(c["mw"])
    return out


def compare(spec, R):
    n, nu, nl = len(spec["areas"]), len(spec["units"]), len(spec["lines"])
    mc = spec["mc"]
    A, U, L = spec["areas"], spec["units"], spec["lines"]
    same(R["QTR"], [mc["END WK%d" % k] * 168 + 0.5 for k in (1, 2, 3)], "season ends")
    lfu = arr([a["lfu"] for a in A])
    require(R["NFCST"] == (5 if lfu.any() else 1) and R["NORR"] == (2 if lfu.any() else 0), "forecast levels %r, base level %r", R["NFCST"], R["NORR"])
    require(R["NOAREA"] == n, "number of areas %r, expected %d", R["NOAREA"], n)
    peak = arr([written(a["peak"]) for a in A])
    same(R["PKLOAD"], peak, "annual peak")
    same(R["SUSTAT"][:n, 0], peak, "annual peak in the statistics")
    same(R["FU"], lfu, "forecast uncertainty")
    for name, k in (("MINRAN", 0), ("MAXRAN", 1), ("INHBT1", 2), ("INHBT2", 3)):
        equal(R[name], [a.get("win", (1, 52, 31, 32))[k] - 1 for a in A], name)
    BN = np.zeros((n, 5))
    BN[:, 0] = range(n)
    BN[:, 3] = BN[:, 4] = [a["lim"] for a in A]
    same(R["BN"], BN, "area table")
    same(R["FCTERR"], 1 + np.outer(lfu / 100, [2.5, 1, 0, -1, -2.5]), "forecast errors")
    # units
    loc = [u["area"] for u in U]
    equal(R["CAPCON"], loc, "area of unit")
    own = np.zeros((n, nu))
    own[loc, range(nu)] = 1
    for o in spec["own"]:
        own[:, o["unit"]] = arr(written(o["pct"])) / 100
    same(R["CAPOWN"], own, "ownership")
    equal(R["NOGEN"], [loc.count(i) for i in range(n)], "number of units")
    f, d = arr([u["for"] for u in U]), arr([u["dfor"] for u in U])
    same(R["PROBG"], np.array([1 - d - f, 1 - f]).T, "state probabilities of units", 1e-12)
    same(R["DERATE"], 1 - arr([u["der"] for u in U]) / 100, "derating")
    same(R["RATES"], [written(u["cap"]) for u in U], "seasonal capacity")
    names = [x[1:5] for x in system.unit_names(spec)]
    numbers = [int(x) for x in np.asarray(R["ID"])[:, 1]]
    for j in range(len(U)):
        for k in range(j):
            require((numbers[j] == numbers[k]) == (names[j] == names[k]), "plant numbers of units %d and %d: %d and %d", k, j, numbers[k], numbers[j])
    ID = [[k, numbers[k], u["area"], u["out"][0] - 1, u["out"][1], u["out"][2] - 1, u["out"][3], u.get("pa", 1)] for k, u in enumerate(U)]
    equal(R["ID"], ID, "unit table")
    # contracts
    T = contracts_table(spec)
    got = np.zeros((n, n, 365))
    for i in range(n):
        for j in range(n):
            p = int(R["JENT"][i, j])
            require(-1 <= p < len(R["INTCH"]), "contract pointer %d", p)
            if p >= 0:
                got[i, j] = R["INTCH"][p]
                equal(R["INTCHR"][p], [i, j], "areas of a contract")
    same(got, T, "contracts between areas by day")
    used = [int(p) for p in R["JENT"].ravel() if p >= 0]
    require(len(set(used)) == len(used), "several pairs of areas share a contract entry")
    require(len(used) == len({(c["from"], c["to"]) for c in spec["contracts"]}), "%d contract entries", len(used))
    same(np.delete(R["INTCH"], used, axis=0), np.zeros((len(R["INTCH"]) - len(used), 365)), "unused contract entries")
    # lines
    no = spec.get("linenos") or list(range(1, nl + 1))
    equal(np.reshape(R["LP"], (-1, 3)), arr([[no[k] - 1, l["from"], l["to"]] for k, l in enumerate(L)], int).reshape(-1, 3), "lines")
    for i in range(n):
        for j in range(n):
            p = [k for k, l in enumerate(L) if (l["from"], l["to"]) == (i, j)] or [-1]
            require(R["LINENO"][i, j] in p, "line from area %d to %d is %d, expected one of %s", i + 1, j + 1, R["LINENO"][i, j], p)
    S = arr([l["states"] for l in L]).reshape(-1, 6, 4)
    same(R["PROBL"], np.cumsum(S[:, :, 3], axis=1).T, "cumulative probabilities of line states")
    B = np.zeros((nl, 18))
    for c, default in ((0, -0.5), (1, 1), (2, 1)):
        v = S[:, :, c].copy()
        v[v == 0] = default
        B[:, c::3] = v
    same(R["BLPA"], B, "admittances and capacities of line states")
    require(R["MXCRIT"] == 0 and len(R["JCRIT"]) == 0, "critical units %r", R["MXCRIT"])
    # loads
    load = system.loads(spec) * (peak / arr([a["peak"] for a in A]))[:, None]
    same(R["HRLOAD"], load, "hourly load")
    # options
    opts = {
        "NLS": mc["LS"], "IOI": mc["II"], "IOJ": mc["IJ"], "KVLOC": mc["KVL"] - 1, "KVSTAT": mc["KVS"], "KVTYPE": mc["KVT"],
        "KVWHEN": mc["WHEN"], "KWHERE": mc["WHERE"], "CVTEST": mc["CVT"], "MAXEUE": mc["MAXE"], "JSTEP": mc["STEP"],
        "JFREQ": mc["FREQ"], "FINISH": mc["FIN"] * 8760, "INTV": mc["IN"], "INTVT": mc["IN"], "NR": 0,
    }
    for k, v in opts.items():
        require(R[k] == v, "option %s is %r, expected %r", k, R[k], v)
    names = spec.get("names") or ["A%d" % (i + 1) for i in range(n)]
    require(list(R["NAMA"]) == [x + "  " for x in names], "area names %s, expected %s", R["NAMA"], names)


def cards(c):
    """What the readers of the single files return: title, options, critical units of lines."""
    import os
    import shutil

    from reliabilityassessment.data_processing.readInputB import readInputB

    spec, dd = c["spec"], c["derate"]
    d = os.path.abspath("cards")
    names = system.unit_names(spec)
    rng = np.random.default_rng(c["order"])
    try:
        system.write(spec, d, with_leei=False)
        with open(os.path.join(d, "ZZTC.csv"), "w") as f:
            f.write("\n".join(c["title"]) + "\n")
        rows = [
            "%g,%d,%s,%g,%g" % (k + 0.5, r["line"], ",".join(names[u % len(names)] for u in r["units"]), r["fwd"], r["bwd"])
            for k, r in enumerate(dd)
        ]
        with open(os.path.join(d, "ZZDD.csv"), "w") as f:
            f.write("SN,LINE NUMBER,UNIT1,UNIT2,UNIT3,UNIT4,FORWARD,BACKWARD\n")
            f.writelines(rows[k] + "\n" for k in rng.permutation(len(rows)))
        R = readInputB(d)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    require(R["ZZTC"] == ". ".join(c["title"]), "title %r", R["ZZTC"])
    mc = dict(system.MC_KEYS)
    mc.update(spec["mc"])
    got = R["ZZMC"]
    keys = {
        "JSEED": "SEED", "NLS": "LS", "IW1": "END WK1", "IW2": "END WK2", "IW3": "END WK3", "KWHERE": "WHERE", "KVWHEN": "WHEN",
        "KVSTAT": "KVS", "KVTYPE": "KVT", "KVLOC": "KVL", "CVTEST": "CVT", "FINISH": "FIN", "JSTEP": "STEP", "JFREQ": "FREQ",
        "MAXEUE": "MAXE", "IOI": "II", "IOJ": "IJ", "IREM": "IR", "INTV": "IN", "IREPD": "D", "IREPM": "M",
    }
    require(set(got) == set(keys), "options %s", sorted(got))
    for k, v in keys.items():
        require(got[k] == mc[v], "option %s is %r, %s is %r", k, got[k], v, mc[v])
    D = R["ZZDD"]
    require(list(D["LineID"]) == [r["line"] for r in dd], "lines of ZZDD %s", list(D["LineID"]))
    columns = {"LineID", "forward_derate", "backward_derate"} | {"unit%d_name" % (j + 1) for j in range(4)}
    require(columns <= set(D), "columns of ZZDD %s", sorted(D))
    for j in range(4):
        want = [names[r["units"][j] % len(names)] for r in dd]
        require(list(D["unit%d_name" % (j + 1)]) == want, "unit %d of ZZDD: %s, expected %s", j + 1, list(D["unit%d_name" % (j + 1)]), want)
    same(D["forward_derate"], [r["fwd"] for r in dd], "forward factors")
    same(D["backward_derate"], [r["bwd"] for r in dd], "backward factors")
    return {"nontrivial": len(dd) > 1}


def classes(spec):
    out = ["areas %d" % len(spec["areas"])]
    out += [k for k in ("names", "unames", "linenos", "sn", "shuffle", "loose", "blocks") if k in spec]
    out += ["contracts"] * bool(spec["contracts"]) + ["joint ownership"] * bool(spec["own"])
    return out


def read(spec):
    compare(spec, inputs.load(spec))
    return {"nontrivial": len(spec["areas"]) > 1 and ("shuffle" in spec or "sn" in spec), "classes": classes(spec)}


@st.composite
def card_files(draw):
    row = st.fixed_dictionaries(
        {
            "line": st.integers(1, 20), "units": st.lists(st.integers(0, 19), min_size=4, max_size=4),
            "fwd": st.integers(0, 100).map(lambda k: k / 100), "bwd": st.integers(0, 100).map(lambda k: k / 100),
        }
    )
    return {
        "spec": draw(described()), "derate": draw(st.lists(row, max_size=6)), "order": draw(st.integers(0, 10**6)),
        "title": draw(st.lists(st.sampled_from(["TRUE", "2030", "NA", "1.50"]) | st.text(ALNUM + " :0123456789.", min_size=1, max_size=20).filter(lambda x: x.strip()), min_size=1, max_size=4)),
    }


def as_plain(spec):
    """Order of rows, spelling of numbers and names change nothing of what is read."""
    import copy

    plain = copy.deepcopy(spec)
    for k in ("shuffle", "loose", "blocks", "dates", "omit", "sn", "unames", "names"):
        plain.pop(k, None)
    a, b = inputs.load(spec), inputs.load(plain)
    for k in a:
        if k == "NAMA":
            continue
        if k == "ID":  # the plants go by the names of the units
            a[k], b[k] = np.delete(a[k], 1, axis=1), np.delete(b[k], 1, axis=1)
        same(a[k], b[k], k + " of the rearranged files", 1e-12)
    return {"nontrivial": "shuffle" in spec, "classes": classes(spec)}


@st.composite
def rearranged(draw):
    spec = draw(system.systems(areas=(1, 3), fin=(1, 2)))
    spec = draw(forms(spec, names=False))
    if draw(st.booleans()):
        spec["unames"] = ["U%03d%02d" % (999 - k, 1) for k in range(len(spec["units"]))]
    return spec


def run(spec):
    r = e2e.differential(spec)
    r["nontrivial"] = r["nontrivial"] and ("shuffle" in spec or "sn" in spec) and len(spec["areas"]) > 1
    r["classes"] += [k for k in ("linenos", "sn", "shuffle", "loose", "blocks") if k in spec]
    return r


SUBS = [
    Sub("read", described(), read, 160, 6000, cpu=120),
    Sub("same", described(), as_plain, 80, 3000, cpu=120),
    Sub("cards", card_files(), cards, 80, 3000),
    Sub("whole", rearranged(), run, 32, 1500, cpu=250, chunk=4),
]
