"""Tries a list of planted changes in copies: plants.py LIST.py OUT.jsonl [--workers 4] [--scale 1]

LIST.py defines P = [(id, property, file, old, new), ...] (file below reliabilityassessment/)."""
import argparse
import json
import multiprocessing
import os
import runpy
import shutil
import tempfile

from mutate import prepare, sh


def worker(top, k, verif, jobs, scale, lock, out):
    d = prepare(top, k, verif)
    env = dict(os.environ, VERIF_JOBS="2", VERIF_SEED="1", PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1")
    while True:
        j = jobs.get()
        if j is None:
            return
        name, prop, f, old, new = j
        p = os.path.join(d, "repo/reliabilityassessment", f)
        raw = open(p, "rb").read()
        crlf = b"\r\n" in raw
        s = raw.decode().replace("\r\n", "\n")
        rec = {"id": name, "prop": prop}
        try:
            if s.count(old) != 1:
                rec["result"] = "found %d times" % s.count(old)
                continue
            m = s.replace(old, new)
            compile(m, f, "exec")
            open(p, "wb").write((m.replace("\n", "\r\n") if crlf else m).encode())
            t = sh("/opt/venv/bin/python -m pytest -q -x --no-header -p no:cacheprovider", 60, cwd=d + "/repo", env=env)
            if t is None or t.returncode:
                rec["result"] = "tests fail"
                continue
            for c in prop.split():
                r = sh("%s/verif/check.sh %s quick --scale %s" % (d, c, scale), 2500, env=env)
                rec[c] = "timeout" if r is None else "%d %s" % (r.returncode, (r.stdout.strip().splitlines() or [r.stderr[-300:]])[0][:160])
            rec["result"] = "caught" if rec[prop.split()[0]].startswith("1 ") else "MISSED"
        except Exception as e:
            rec["result"] = repr(e)
        finally:
            open(p, "wb").write(raw)
            sh("rm -rf %s/verif/replays/*" % d)
            with lock:
                with open(out, "a") as g:
                    g.write(json.dumps(rec) + "\n")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("list")
    ap.add_argument("out")
    ap.add_argument("--workers", type=int, default=4)
    ap.add_argument("--scale", default="1")
    a = ap.parse_args()
    verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    top = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
    jobs, lock = multiprocessing.Queue(), multiprocessing.Lock()
    done = {json.loads(l)["id"] for l in open(a.out)} if os.path.exists(a.out) else set()
    for p in runpy.run_path(a.list)["P"]:
        if p[0] not in done:
            jobs.put(p)
    for _ in range(a.workers):
        jobs.put(None)
    ps = [multiprocessing.Process(target=worker, args=(top, k, verif, jobs, a.scale, lock, a.out)) for k in range(a.workers)]
    for p in ps:
        p.start()
    for p in ps:
        p.join()
    shutil.rmtree(top)


if __name__ == "__main__":
    main()
