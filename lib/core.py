"""Runner of the property checks: generation, shrinking, replay, evidence."""
import contextlib
import hashlib
import importlib
import io
import json
import math
import multiprocessing
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"


class Violation(Exception):
    """The property does not hold for this case."""


class CaseTimeout(Violation):
    pass


class Sub:
    """One sub-check of a property.

    strategy: Hypothesis strategy of JSON-able cases
    fn(case): raises Violation, or returns None | dict(nontrivial=bool, classes=[..])
    quick/thorough: number of cases
    chunk: cases per process
    cpu: CPU seconds after which a case counts as endless
    """

    def __init__(self, name, strategy, fn, quick, thorough, chunk=None, cpu=40, rule="", examples=()):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.n = {"quick": quick, "thorough": thorough}
        self.chunk, self.cpu, self.rule = chunk, cpu, rule
        self.examples = list(examples)


def fail(msg, *args):
    raise Violation(msg % args if args else msg)


def require(cond, msg, *args):
    if not cond:
        fail(msg, *args)


def canonical(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def versions(module, name):
    """The routine of this name and, if there is one, its literal version (with an underscore)."""
    mod = importlib.import_module("reliabilityassessment." + module)
    return [(n, getattr(mod, n)) for n in (name, "_" + name) if n == name or hasattr(mod, n)]


def _where(exc):
    """The last frame of the traceback which is in the repository or in the harness."""
    last = None
    for fr in traceback.extract_tb(exc.__traceback__):
        fn = os.path.abspath(fr.filename)
        if fn.startswith(REPO + os.sep):
            last = ("repo", fr)
        elif fn.startswith(VERIF + os.sep):
            last = ("verif", fr)
    return last or ("verif", None)


@contextlib.contextmanager
def cpu_limit(seconds):
    def handler(signum, frame):
        raise CaseTimeout("still running after %d CPU seconds" % seconds)

    old = signal.signal(signal.SIGPROF, handler)
    signal.setitimer(signal.ITIMER_PROF, seconds, 5)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)


def evaluate(sub, case):
    """Runs one case. Returns (kind, message, info), kind in ok/violation."""
    try:
        with cpu_limit(sub.cpu), contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            info = sub.fn(json.loads(canonical(case)))
        return "ok", "", info or {}
    except Violation as e:
        return "violation", str(e), {}
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:  # noqa: the code under test may also call sys.exit
        side, fr = _where(e)
        if side == "repo":
            return (
                "violation",
                "%s: %s (raised at %s:%s)" % (type(e).__name__, e, os.path.relpath(fr.filename, REPO), fr.lineno),
                {},
            )
        if isinstance(e, (KeyError, IndexError, ValueError)):
            # something is missing in what the program returned, or has another shape
            at = " (noticed at %s:%s)" % (os.path.basename(fr.filename), fr.lineno) if fr else ""
            return "violation", "the result does not have the expected form, %s: %s%s" % (type(e).__name__, e, at), {}
        raise


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.nontrivial = set()
        self.classes = {}
        self.samples = []
        self.skipped = 0

    def add(self, sub, case, info):
        self.evaluations += 1
        for c in info.get("classes", ()):
            k = sub + ":" + c
            self.classes[k] = self.classes.get(k, 0) + 1
        if info.get("nontrivial", True):
            text = canonical(case)
            h = hashlib.blake2b((sub + text).encode(), digest_size=8).digest()
            if h not in self.nontrivial:
                self.nontrivial.add(h)
                if len(self.samples) < 2 and len(text) < 3000:
                    self.samples.append({"sub": sub, "case": case})


def run_chunk(job):
    pid, subname, tier, n, seed, first, scratch, wall_end = job
    out = {"sub": subname, "failure": None, "error": None}
    st = Stats()
    try:
        os.makedirs(scratch, exist_ok=True)
        os.chdir(scratch)
        sub = {s.name: s for s in load(pid).SUBS}[subname]
        _chunk(sub, n, seed, first, st, out, wall_end)
    except BaseException:
        out["error"] = traceback.format_exc()
    out["stats"] = st
    try:
        import lpclient

        lpclient.close()
    except ImportError:
        pass
    os.chdir("/")
    shutil.rmtree(scratch, ignore_errors=True)
    return out


class _Stop(Exception):
    pass


def _chunk(sub, n, seed, first, st, out, wall_end):
    import hypothesis
    from hypothesis import HealthCheck, Phase

    state = {"t_fail": None, "failed": {}, "last": None, "error": None, "calls": 0}
    shrink_s = 60

    def body(case):
        text = canonical(case)
        state["calls"] += 1
        if state["error"]:
            return
        if state["calls"] == 1 and not first:
            return  # every chunk begins with the same, smallest case
        if state["t_fail"] is not None:
            if text in state["failed"]:
                state["last"] = (case, state["failed"][text])
                raise _Stop(state["failed"][text])
            if time.time() - state["t_fail"] > shrink_s:
                return
        elif time.time() > wall_end:
            st.skipped += 1
            return
        try:
            kind, msg, info = evaluate(sub, case)
        except BaseException:
            state["error"] = "harness error in %s on case %s\n%s" % (sub.name, text[:4000], traceback.format_exc())
            return
        if kind == "ok":
            st.add(sub.name, case, info)
            return
        st.evaluations += 1
        if state["t_fail"] is None:
            state["t_fail"] = time.time()
        state["failed"][text] = msg
        state["last"] = (case, msg)
        raise _Stop(msg)

    if first:
        for case in sub.examples:
            try:
                body(case)
            except _Stop:
                out["failure"] = {"case": case, "message": state["last"][1]}
                return
    test = hypothesis.given(sub.strategy)(body)
    test = hypothesis.settings(
        max_examples=max(1, n) + (not first),
        database=None,
        deadline=None,
        report_multiple_bugs=False,
        print_blob=False,
        phases=[Phase.generate, Phase.shrink],
        suppress_health_check=list(HealthCheck),
    )(test)
    test = hypothesis.seed(seed)(test)
    try:
        with open(os.devnull, "w") as dn, contextlib.redirect_stderr(dn), contextlib.redirect_stdout(dn):
            test()
    except _Stop:
        pass
    except BaseException:
        if state["last"] is None and state["error"] is None:
            raise
    if state["error"]:
        out["error"] = state["error"]
    elif state["last"] is not None:
        case, msg = state["last"]
        out["failure"] = {"case": case, "message": msg}


def load(pid):
    return importlib.import_module(pid.lower())


def _prepare_path():
    for p in (os.path.join(VERIF, "checks"), os.path.join(VERIF, "lib"), REPO):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)
    tools = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
    if tools not in sys.path:
        sys.path.append(tools)


def known_findings(pid):
    path = os.path.join(VERIF, "known_findings.txt")
    res = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                res.append(line[len("known: ") :])
    return res


def main(pid, tier, seed, replay=None, only=None, scale=1.0):
    t0 = time.time()
    _prepare_path()
    mod = load(pid)
    base = tempfile.mkdtemp(prefix="verif_%s_" % pid.lower())
    try:
        if replay:
            return _replay(pid, mod, replay, base)
        return _run(pid, mod, tier, seed, base, t0, only, scale)
    finally:
        os.chdir("/")
        shutil.rmtree(base, ignore_errors=True)


def _replay(pid, mod, path, base):
    d = json.load(open(path))
    os.chdir(base)
    sub = {s.name: s for s in mod.SUBS}[d["sub"]]
    kind, msg, info = evaluate(sub, d["case"])
    print("replay %s %s: %s %s" % (pid, d["sub"], kind, msg))
    if kind == "violation":
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    return 0


def _corpus(pid, mod, base, st, failures, errors):
    d = os.path.join(VERIF, "corpus", pid)
    if not os.path.isdir(d):
        return 0
    subs = {s.name: s for s in mod.SUBS}
    n = 0
    for name in sorted(os.listdir(d)):
        if not name.endswith(".json"):
            continue
        c = json.load(open(os.path.join(d, name)))
        if c["sub"] not in subs:
            continue
        n += 1
        w = os.path.join(base, "c%d" % n)
        os.makedirs(w)
        os.chdir(w)
        try:
            kind, msg, info = evaluate(subs[c["sub"]], c["case"])
        except BaseException:
            errors.append("corpus %s\n%s" % (name, traceback.format_exc()))
            continue
        if kind == "violation":
            failures.append({"sub": c["sub"], "case": c["case"], "message": msg + " [corpus %s]" % name})
        else:
            st.add(c["sub"], c["case"], info)
        os.chdir(base)
    return n


def _corpus_job(job):
    """The regression cases run in a process of their own, so that nothing leaks into the others."""
    pid, base = job
    st, failures, errors = Stats(), [], []
    n = _corpus(pid, load(pid), base, st, failures, errors)
    try:
        import lpclient

        lpclient.close()
    except ImportError:
        pass
    os.chdir("/")
    return n, st, failures, errors


def _run(pid, mod, tier, seed, base, t0, only, scale):
    workers = int(os.environ.get("VERIF_JOBS", "8"))
    wall_end = t0 + (600 if tier == "quick" else 3 * 3600)
    jobs = []
    for sub in mod.SUBS:
        if only and sub.name not in only:
            continue
        n = int(math.ceil(sub.n[tier] * scale))
        per = sub.chunk or max(1, int(math.ceil(n / float(workers))))
        if tier == "thorough" and sub.chunk is None:
            per = min(per, max(sub.n["quick"], 200))
        k = 0
        while n > 0:
            m = min(per, n)
            cs = zlib.crc32(("%d:%s:%s:%d" % (seed, pid, sub.name, k)).encode())
            scratch = os.path.join(base, "%s_%d" % (sub.name, k))
            jobs.append((pid, sub.name, tier, m, cs, k == 0, scratch, wall_end))
            n -= m
            k += 1
    # chunks of the expensive sub-checks first
    cost = {s.name: getattr(s, "cpu", 1) for s in mod.SUBS}
    jobs.sort(key=lambda j: -cost[j[1]])
    failures, errors = [], []
    st = Stats()
    per_sub = {}
    ctx = multiprocessing.get_context("fork")
    n_corpus = 0
    with ctx.Pool(workers, maxtasksperchild=1) as pool:
        cr = pool.map_async(_corpus_job, [(pid, base)]) if not only else None
        for res in pool.imap_unordered(run_chunk, jobs, chunksize=1):
            _merge(st, per_sub, res, failures, errors)
            if failures and tier == "quick":
                # the remaining chunks cannot change the verdict
                pool.terminate()
                break
        else:
            if cr is not None:
                for n, s2, f2, e2 in cr.get():
                    n_corpus = n
                    _merge(st, per_sub, {"sub": "corpus", "stats": s2, "failure": None, "error": None}, failures, errors)
                    failures.extend(f2)
                    errors.extend(e2)
    for line in known_findings(pid):
        print("KNOWN-FINDING: " + line)
    classes = dict(sorted(st.classes.items()))
    evidence = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": st.evaluations,
            "distinct_nontrivial": len(st.nontrivial),
            "rule": mod.RULE,
            "samples": st.samples[:6],
            "classes": classes,
            "evaluations_per_subcheck": dict(sorted(per_sub.items())),
            "regression_cases": n_corpus,
            "skipped_for_time": st.skipped,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(failures),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    if failures:
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        for i, fl in enumerate(failures):
            path = os.path.join(rd, "%s-%s-%d.json" % (pid, fl["sub"], i))
            with open(path, "w") as f:
                json.dump({"property": pid, "sub": fl["sub"], "message": fl["message"], "case": fl["case"]}, f, indent=1)
            print("%s [%s]: %s" % (pid, fl["sub"], fl["message"][:1500]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors:
        for e in errors[:3]:
            sys.stderr.write(e + "\n")
        print("%s: harness error (%d chunks)" % (pid, len(errors)))
        return 2
    print(
        "%s %s: held on %d cases (%d distinct non-trivial), %.1f s"
        % (pid, tier, st.evaluations, len(st.nontrivial), time.time() - t0)
    )
    return 0


def _merge(st, per_sub, res, failures, errors):
    s2 = res["stats"]
    st.evaluations += s2.evaluations
    st.skipped += s2.skipped
    st.nontrivial |= s2.nontrivial
    for k, v in s2.classes.items():
        st.classes[k] = st.classes.get(k, 0) + v
    have = {s["sub"] for s in st.samples}
    for s in s2.samples:
        if s["sub"] not in have:
            have.add(s["sub"])
            st.samples.append(s)
    per_sub[res["sub"]] = per_sub.get(res["sub"], 0) + s2.evaluations
    if res["failure"]:
        failures.append({"sub": res["sub"], "case": res["failure"]["case"], "message": res["failure"]["message"]})
    if res["error"]:
        errors.append(res["error"])
