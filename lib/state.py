"""The arrays of a simulation by name, and calls of the program's routines with them."""
import inspect

import numpy as np

ACC = "GTS"


def statistics(n):
    """All counters and accumulators of a simulation of n areas, as a fresh run starts with them."""
    e = {}
    for c in "GT":
        for p in "HP":
            for k in ("LOL", "MGN"):
                e[k + c + p + "A"] = np.zeros((n, 5))
                e[k + c + p + "P"] = np.zeros(5)
    for c in "GTS":
        for p in "HP":
            for k in ("SGN", "SOL"):
                e[k + c + p + "A"] = np.zeros((n, 5))
                e[k + c + p + "P"] = np.zeros(5)
            for k in ("SWL", "SWN"):
                e[k + c + p + "A"] = np.zeros(n)
                e[k + c + p + "P"] = np.zeros(())
    e["XNEWA"], e["XNEWP"] = np.zeros((n, 3)), np.zeros(3)
    for k in ("HLOLE", "DPLOLE", "EUES"):
        e[k] = np.zeros((n, 22))
    e["LSFLG"] = np.zeros(n)
    return e


def environment(n, nu=1, nl=0, **kw):
    """Everything the event routines take, for a system without load unless given."""
    from reliabilityassessment.monte_carlo.initfl import initfl

    e = statistics(n)
    e["MFA"], e["IPOINT"], e["EVNTS"] = initfl()
    e.update(
        NUMINQ=0, RFLAG=0, CLOCK=0.0, IQ=-1, JHOUR=0, SSQ=0.0, XLAST=0.0, NHRSYR=8760, INDX=0, ITAB=0,
        ATRIB=np.zeros(2), PLNDST=np.zeros(nu), LT=np.zeros(n, int), BB=np.zeros((n, n)), ZB=np.zeros((n, n)),
        BLP0=np.zeros(nl), RATING=np.zeros(nu), QTR=np.array([13, 26, 39]) * 168 + 0.5, JSTEP=1, JFREQ=1,
        NORR=0, NFCST=1, BN=np.array([[i, 0, 0, 30000, 30000] for i in range(n)], float),
        SUSTAT=np.ones((n + 1, 6)) * 10.0, FCTERR=np.ones((n, 5)), CAPCON=np.zeros(nu, int), CAPOWN=np.eye(n, nu),
        PROBG=np.ones((nu, 2)), DERATE=np.ones(nu), JENT=-np.ones((n, n), int), INTCH=np.zeros((100, 365)),
        LP=np.zeros((nl, 3), int), LINENO=-np.ones((n, n), int), PROBL=np.ones((6, nl)), BLPA=np.ones((nl, 18)),
        MXCRIT=0, JCRIT=np.zeros(500, int), RATES=np.ones((nu, 4)), HRLOAD=np.zeros((n, 8760)),
        MXPLHR=24 * np.arange(365), JPLOUT=np.zeros((52, nu + 1), int), NLS=1, IOI=0, IOJ=0, KVLOC=0, KVSTAT=1,
        KVTYPE=1, KVWHEN=1, KWHERE=2, CVTEST=0.0001, LSTEP=50, FINISH=8760 * 100, INTV=100, INTVT=100, NR=0,
        NAMA=np.array(["A%d  " % (i + 1) for i in range(n)]),
        IGSEED=(np.arange(nu) * 2 + 12345).astype(np.int32), ILSEED=(np.arange(nl) * 2 + 54321).astype(np.int32),
    )
    e.update(kw)
    return e


def call(fn, env, names=None):
    """Calls fn with the entries of env its parameters name; stores the results under names."""
    res = fn(*[env[p] for p in inspect.signature(fn).parameters])
    if names:
        env.update(zip(names, res))
    return res


EVENTS = "RFLAG IPOINT MFA NUMINQ SSQ XLAST INTVT ITAB IQ JHOUR".split()
START = "ATRIB CLOCK IPOINT MFA NUMINQ".split()
REMOVE = "MFA NUMINQ IPOINT".split()


def start(env):
    from reliabilityassessment.monte_carlo.initl import _initl

    call(_initl, env, START)


def step(env):
    """The next event, as the control loop does it; returns (time, type)."""
    from reliabilityassessment.monte_carlo.events import events
    from reliabilityassessment.monte_carlo.remove import remove

    call(remove, env, REMOVE)
    env["CLOCK"] = env["ATRIB"][0]
    env["NUMBER"] = int(env["ATRIB"][1])
    call(events, env, EVENTS)
    return float(env["CLOCK"]), env["NUMBER"]
