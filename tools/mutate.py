"""Systematic small changes of the code under test, to find what the checks miss.

mutate.py OUTDIR [--files a.py,b.py] [--workers 7] [--limit N] [--scale 0.25] [--kinds ...] [--seed 1]

Works on copies of /repo and /verif below a scratch folder. A change counts if the tests of the
repository pass with it; then the checks of its file are run until one reports it. OUTDIR/result.jsonl
gets one line per change.
"""
import argparse
import ast
import json
import multiprocessing
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile

ORDER = {
    "filem remove initfl initl": "P03 P04", "contrl events": "P03 P20 P23 P04 P21 P02", "week quartr": "P04 P03",
    "gstate lstate seeder": "P05", "sumcap": "P06", "findtn": "P07", "findld": "P19", "hour": "P19 P18 P04 P17 P02",
    "transm tm2": "P15 P16 P12 P13 P17 P11", "connls": "P15 P14", "conls": "P16 P14", "linp": "P14 P15 P16",
    "mc rc rm net": "P14 P15 P16", "dgeco dgefa dgedi": "P11 P14", "admitb admitm admitr admref tm1 ximpa ximpar": "P11 P12 P17",
    "theta thetac flo": "P12 P11", "assign": "P13", "hrstat pkstat": "P18", "year": "P20 P21 P22 P23", "cvchk": "P21",
    "report": "P22", "intm rstart": "P23", "narpMain": "P02 P23 P09 P21 P04", "datax": "P09 P06 P07 P02",
    "readInputB pind dataf1 input_processing": "P09 P25 P26 P02", "xldnew": "P10 P09", "xporta xports": "P07", "dpeak wpeakf plhr": "P08",
    "resca": "P06 P22 P09 P02", "gsm pmlolp": "P24", "smaint pmsc": "P25 P26 P27 P24", "line_prob_sampling": "P05",
}
CHECKS = {f: v.split() for k, v in ORDER.items() for f in k.split()}
PAIRS = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "=="}
TEXT = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!="}
BIN = {ast.Add: ("+", "-"), ast.Sub: ("-", "+"), ast.Mult: ("*", "/"), ast.Div: ("/", "*"), ast.Mod: ("%", "//"), ast.FloorDiv: ("//", "%")}


def similar(a, b):
    return len(a) == len(b) > 2 and sum(x != y for x, y in zip(a, b)) == 1


def changes(src, rng):
    """(kind, start, end, new text) in characters of the source."""
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l))
    pos = lambda ln, col: offs[ln - 1] + len(lines[ln - 1].encode()[:col].decode())
    span = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))
    out = []

    def between(left, right, old, new, kind):
        a, b = span(left)[1], span(right)[0]
        k = src.find(old, a, b)
        if k >= 0:
            out.append((kind, k, k + len(old), new))

    def visit(n, names):
        if isinstance(n, (ast.FunctionDef,)):
            if n.name.startswith("_") and n.name != "_initl":
                return
            names = sorted({x.id for x in ast.walk(n) if isinstance(x, ast.Name)} | {a.arg for a in n.args.args})
            body = n.body
            if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
                body = body[1:]
            for s in body:
                visit(s, names)
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            f = n.value.func
            if isinstance(f, ast.Name) and f.id == "print":
                return
        if isinstance(n, (ast.Import, ast.ImportFrom, ast.Raise)):
            return
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and names is not None:
            if not (isinstance(n, ast.Expr) and "write" in (ast.get_source_segment(src, n) or "")):
                out.append(("drop", *span(n), "pass"))
        if isinstance(n, ast.AugAssign):
            op = BIN.get(type(n.op))
            if op:
                between(n.target, n.value, op[0] + "=", op[1] + "=", "aug")
                between(n.target, n.value, op[0] + "=", "=", "set")
        if isinstance(n, ast.Compare):
            left = n.left
            for o, r in zip(n.ops, n.comparators):
                if type(o) in PAIRS:
                    between(left, r, TEXT[type(o)], PAIRS[type(o)], "cmp")
                left = r
        if isinstance(n, ast.If) or isinstance(n, ast.IfExp):
            s = ast.get_source_segment(src, n.test)
            out.append(("neg", *span(n.test), "not (%s)" % " ".join(s.split())))
            if isinstance(n, ast.If):
                out.append(("always", *span(n.test), "True"))
                out.append(("never", *span(n.test), "False"))
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.Constant) or isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left.value if isinstance(n.left, ast.Constant) else None, str):
            o = BIN[type(n.op)]
            between(n.left, n.right, o[0], o[1], "arith")
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            visit(n.right, names)
            return
        if isinstance(n, ast.BoolOp):
            a, b = n.values[0], n.values[1]
            between(a, b, " and " if isinstance(n.op, ast.And) else " or ", " or " if isinstance(n.op, ast.And) else " and ", "bool")
        if isinstance(n, ast.Constant) and type(n.value) in (int, float):
            a, b = span(n)
            v = n.value
            if isinstance(v, int):
                out.append(("const", a, b, str(v + 1)))
                if v > 0:
                    out.append(("const", a, b, str(v - 1)))
            else:
                out.append(("const", a, b, repr(v * 1.5 if v else 1.0)))
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and names:
            c = [x for x in names if similar(x, n.id) and not x.islower()]
            if c:
                out.append(("name", *span(n), rng.choice(c)))
        if isinstance(n, ast.Name) and n.id in ("min", "max"):
            out.append(("minmax", *span(n), "max" if n.id == "min" else "min"))
        if isinstance(n, ast.Attribute) and n.attr in ("min", "max", "argmin", "argmax", "any", "all"):
            a, b = span(n)
            swap = {"min": "max", "max": "min", "argmin": "argmax", "argmax": "argmin", "any": "all", "all": "any"}[n.attr]
            out.append(("minmax", b - len(n.attr), b, swap))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "copy" and not n.args:
            out.append(("nocopy", span(n.func.value)[1], span(n)[1], ""))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "deepcopy":
            out.append(("nocopy", *span(n.func), ""))
        if isinstance(n, ast.Return):
            pass
        for c in ast.iter_child_nodes(n):
            visit(c, names)

    visit_all = [c for c in tree.body]
    for c in visit_all:
        visit(c, None)
    return sorted(set(out), key=lambda t: (t[1], t[2], t[3]))


def sh(cmd, timeout=None, **kw):
    try:
        return subprocess.run(cmd, shell=True, capture_output=True, text=True, timeout=timeout, **kw)
    except subprocess.TimeoutExpired:
        return None


def prepare(top, k, verif):
    d = os.path.join(top, str(k))
    os.makedirs(d)
    sh("cp -a /repo %s/repo; cp -a %s %s/verif; rm -rf %s/verif/seeded %s/verif/.git" % (d, verif, d, d, d))
    p = d + "/verif/lib/core.py"
    s = open(p).read()
    assert s.count('REPO = "/repo"') == 1
    open(p, "w").write(s.replace('REPO = "/repo"', 'REPO = "%s/repo"' % d))
    return d


def worker(top, k, verif, jobs, scale, lock, out):
    d = prepare(top, k, verif)
    env = dict(os.environ, VERIF_JOBS="1", VERIF_SEED="1", PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1")
    while True:
        j = jobs.get()
        if j is None:
            return
        f, kind, a, b, new = j
        p = os.path.join(d, "repo", f)
        raw = open(p, "rb").read()
        src = raw.decode()
        crlf = "\r\n" in src
        s = src.replace("\r\n", "\n")
        m = s[:a] + new + s[b:]
        ln = s[:a].count("\n") + 1
        rec = {"file": f, "line": ln, "kind": kind, "old": s[a:b], "new": new, "text": s.splitlines()[ln - 1].strip()}
        try:
            compile(m, f, "exec")
            open(p, "wb").write((m.replace("\n", "\r\n") if crlf else m).encode())
            t = sh("/opt/venv/bin/python -m pytest -q -x --no-header -p no:cacheprovider", 60, cwd=d + "/repo", env=env)
            if t is None or t.returncode:
                rec["by"] = "tests"
            else:
                rec["by"] = None
                rec["ran"] = []
                for c in CHECKS.get(os.path.basename(f)[:-3], ["P02"]):
                    r = sh("%s/verif/check.sh %s quick --scale %s" % (d, c, scale), 1500, env=env)
                    rec["ran"].append(c)
                    if r is None or r.returncode == 1:
                        rec["by"] = c
                        rec["how"] = "timeout" if r is None else (r.stdout.strip().splitlines() or [""])[0][:200]
                        break
                    if r.returncode != 0:
                        rec["error"] = (r.stdout + r.stderr)[-500:]
        except SyntaxError:
            rec["by"] = "syntax"
        finally:
            open(p, "wb").write(raw)
            sh("rm -rf %s/verif/replays/*" % d)
        with lock:
            with open(out, "a") as g:
                g.write(json.dumps(rec) + "\n")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--files", default="")
    ap.add_argument("--kinds", default="")
    ap.add_argument("--workers", type=int, default=7)
    ap.add_argument("--limit", type=int, default=0)
    ap.add_argument("--scale", default="0.25")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--again", help="only the changes nobody reported in this result file")
    a = ap.parse_args()
    rng = random.Random(a.seed)
    verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    work = []
    base = "reliabilityassessment"
    for sub in ("data_processing", "monte_carlo"):
        for f in sorted(os.listdir(os.path.join("/repo", base, sub))):
            if not f.endswith(".py") or f == "__init__.py":
                continue
            if a.files and f[:-3] not in a.files.split(","):
                continue
            p = os.path.join(base, sub, f)
            src = open(os.path.join("/repo", p), newline="").read().replace("\r\n", "\n")
            for c in changes(src, rng):
                if not a.kinds or c[0] in a.kinds.split(","):
                    work.append((p, *c))
    if a.again:
        left = {}
        for r in map(json.loads, open(a.again)):
            if r["by"] is None:
                left.setdefault((r["file"], r["line"], r["kind"], r["old"]), set()).add(r["new"])
        picked = set()
        for w in work:
            src = open(os.path.join("/repo", w[0]), newline="").read().replace("\r\n", "\n")
            key = (w[0], src[: w[2]].count("\n") + 1, w[1], src[w[2] : w[3]])
            picked |= {w[:4] + (new,) for new in left.get(key, ()) if w[1] == "name" or new == w[4]}
        work = sorted(picked)
    per = {}
    for w in work:
        per[w[0]] = per.get(w[0], 0) + 1
    print(len(work), per, flush=True)
    if a.limit:
        work = rng.sample(work, min(a.limit, len(work)))
    else:
        rng.shuffle(work)
    if a.list:
        return
    os.makedirs(a.out, exist_ok=True)
    out = os.path.join(a.out, "result.jsonl")
    done = set()
    if os.path.exists(out):
        done = {(r["file"], r["line"], r["kind"], r["old"], r["new"]) for r in map(json.loads, open(out))}
    top = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
    jobs = multiprocessing.Queue()
    lock = multiprocessing.Lock()
    for w in work:
        src = open(os.path.join("/repo", w[0]), newline="").read().replace("\r\n", "\n")
        key = (w[0], src[: w[2]].count("\n") + 1, w[1], src[w[2] : w[3]], w[4])
        if key not in done:
            jobs.put(w)
    for _ in range(a.workers):
        jobs.put(None)
    ps = [multiprocessing.Process(target=worker, args=(top, k, verif, jobs, a.scale, lock, out)) for k in range(a.workers)]
    for p in ps:
        p.start()
    for p in ps:
        p.join()
    shutil.rmtree(top)


if __name__ == "__main__":
    main()
