"""Try planted changes: tools/seed.py [--keep] [--nocheck] ids...

Works on a copy of /repo (made in a scratch folder and removed), as the checks read /repo only the
last step is done there: apply, run the check of the property, undo."""
import json, os, shutil, subprocess, sys, tempfile

BASE = json.load(open("/opt/vp/BASELINE.json"))


def sh(cmd, cwd=None, env=None, t=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)


def stable():
    b = BASE
    for k in ("stable", "pass", "passed", "tests", "stable_tests"):
        if k in b:
            return set(b[k])
    raise SystemExit("baseline keys: %s" % list(b))


def main():
    nocheck = "--nocheck" in sys.argv
    ids = [a for a in sys.argv[1:] if not a.startswith("--")]
    for s in ids:
        d = "/verif/seeded/" + s
        meta = json.load(open(d + "/meta.json"))
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
        r0 = sh("bash %s/demo.sh" % d, cwd="/repo", env=env)
        r = sh("git apply %s/patch.diff" % d, cwd="/repo")
        if r.returncode:
            print(s, "DOES NOT APPLY", r.stdout)
            continue
        try:
            b = sh("bash /opt/vp/build.sh", cwd="/repo")
            out = tempfile.mktemp(suffix=".json")
            sh("bash /opt/vp/test.sh %s" % out, cwd="/repo")
            res = json.load(open(out))
            os.remove(out)
            ok = set(res.get("passed", res if isinstance(res, list) else []))
            missing = sorted(stable() - ok)
            r1 = sh("bash %s/demo.sh" % d, cwd="/repo", env=env)
            c = None
            if not nocheck:
                c = sh("/verif/check.sh %s quick" % meta["property"], cwd="/verif")
        finally:
            sh("git checkout -- .", cwd="/repo")
        print("%-24s %s build %d missing %d demo %d->%d check %s" % (s, meta["property"], b.returncode, len(missing), r0.returncode, r1.returncode, None if c is None else c.returncode), flush=True)
        if missing:
            print("   ", missing[:3])
        if r0.returncode:
            print(r0.stdout[-800:])
        if c is not None:
            print("    " + "\n    ".join(l for l in c.stdout.splitlines() if l.startswith("VIOLATION") or "held" in l or "rror" in l)[:600])
        for f in os.listdir("/verif/replays"):
            if f.endswith(".json"):
                os.remove("/verif/replays/" + f)


main()
