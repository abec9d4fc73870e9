"""Client of lp_server.py; one server per process, started on first use."""
import json
import os
import subprocess

_proc = None


def _server():
    global _proc
    if _proc is None or _proc.poll() is not None:
        here = os.path.dirname(os.path.abspath(__file__))
        env = dict(os.environ)
        env.pop("PYTHONPATH", None)
        _proc = subprocess.Popen(
            ["/opt/veriftools/pyvenv/bin/python", os.path.join(here, "lp_server.py")],
            stdin=subprocess.PIPE,
            stdout=subprocess.PIPE,
            text=True,
            env=env,
        )
    return _proc


def solve(c, A_ub=None, b_ub=None, A_eq=None, b_eq=None, bounds=None):
    """Returns (status, fun, x): status 0 optimal, 2 infeasible, 3 unbounded."""
    p = _server()
    tolist = lambda a: None if a is None or len(a) == 0 else [list(map(float, r)) for r in a]
    vec = lambda a: None if a is None or len(a) == 0 else [float(v) for v in a]
    bd = [[None if lo is None else float(lo), None if hi is None else float(hi)] for lo, hi in bounds]
    q = dict(c=vec(c), A_ub=tolist(A_ub), b_ub=vec(b_ub), A_eq=tolist(A_eq), b_eq=vec(b_eq), bounds=bd)
    p.stdin.write(json.dumps(q) + "\n")
    p.stdin.flush()
    line = p.stdout.readline()
    if not line:
        raise RuntimeError("LP service ended")
    r = json.loads(line)
    return r["status"], r.get("fun"), r.get("x")


def close():
    global _proc
    if _proc is not None:
        try:
            _proc.stdin.close()
            _proc.wait(timeout=10)
        except Exception:
            _proc.kill()
        _proc = None
