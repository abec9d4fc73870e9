"""Writes MANIFEST.json."""
import json
import os

T = {
    "P01": "generated systems and run sequences; completion, repeatability and report invariants",
    "P02": "generated systems against a reference simulator",
    "P03": "stateful generation of calendar histories against a sorted-list model",
    "P04": "generated systems without random outages against hour-by-hour formulas",
    "P05": "generated probability tables and seeds against the reference generator and frequency bounds",
    "P06": "generated ownership tables against sums per unit",
    "P07": "generated contracts against day-by-day sums, round trips",
    "P08": "generated hourly loads against plain scanning",
    "P09": "generated input files against the description they were written from; metamorphic rearrangement",
    "P10": "generated load files against direct scaling",
    "P11": "generated networks and changes against Laplacian and inverse",
    "P12": "generated networks and injections against Kirchhoff's laws",
    "P13": "generated margins against balance and share equations",
    "P14": "generated linear programs against an independent solver",
    "P15": "generated networks against a feasibility predicate and an independent optimum; relabelling",
    "P16": "generated networks against a feasibility predicate and an independent optimum; relabelling",
    "P17": "generated histories of evaluations against fresh evaluations",
    "P18": "generated histories of margins against direct counting",
    "P19": "generated sequences of hours against a reference hour",
    "P20": "generated yearly counts against direct accumulation",
    "P21": "generated yearly results against a direct convergence test",
    "P22": "generated statistics against a reader of the printed tables",
    "P23": "generated snapshots: round trip and comparison with the run",
    "P24": "generated unit sets against the enumerated distribution",
    "P25": "generated outage periods against week-by-week lists",
    "P26": "generated unit sets and loads against the rules of placement, unit after unit",
    "P27": "generated systems against a reader of the printed schedule; comparison with the simulation",
    "P28": "generated histories of evaluations against a reader of the printed records",
}
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
done = [p for p in T if os.path.exists(os.path.join(here, "checks", p.lower() + ".py"))]
m = {
    "version": 1,
    "setup_cmd": "./check.sh P13 quick --scale 0.01",
    "checks": [
        {
            "property": p,
            "quick_cmd": "./check.sh %s quick" % p,
            "thorough_cmd": "./check.sh %s thorough" % p,
            "technique": "property-based testing: " + T[p],
            "level": "exploration",
            "level_note": "Holds on the cases generated; see the evidence file for their number and kinds. No proof beyond them.",
        }
        for p in done
    ],
    "not_applicable": [],
}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
