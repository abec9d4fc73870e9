"""Reference simulator: the yearly statistics of a system, written from the documented procedure.

It shares no code with the repository. Random numbers: each unit and line has its own
multiplicative sequence (multiplier 65539 modulo 2**31) whose seed is the program seed times
9649599 once per preceding unit and line.
"""
import numpy as np

import lpclient
from system import loads

PROGRAM_SEED = 123456
MOD = 2**31
LEVELS = [2.5, 1.0, 0.0, -1.0, -2.5]
WEIGHTS = np.array([0.0668, 0.2417, 0.383, 0.2417, 0.0668])
EPS = 1e-6
GENERIC = 1.0 + np.sqrt(np.arange(2, 60)) % 1.0


class Undetermined(Exception):
    """The documented procedure does not determine the result (ties, several optima)."""


class TooMany(Exception):
    """Too many hours with shortages for a cheap run."""


def seeds(program_seed, nunits, nlines):
    s, out = program_seed, []
    for _ in range(nunits + nlines):
        s = (s * 9649599) % MOD
        out.append(s)
    return out[:nunits], out[nunits:]


def sequence(seed, n):
    """The first n random numbers of a sequence."""
    out = np.empty(n, dtype=np.uint64)
    # blockwise powers
    block = np.empty(min(n, 4096), dtype=np.uint64)
    x = 1
    for i in range(len(block)):
        x = (x * 65539) % MOD
        block[i] = x
    base = seed
    k = 0
    while k < n:
        m = min(len(block), n - k)
        out[k : k + m] = (block[:m] * np.uint64(base)) % np.uint64(MOD)
        base = int(out[k + m - 1])
        k += m
    return out.astype(np.int64) * 0.4656613e-9


# ------------------------------------------------------------------ network
class Net:
    def __init__(self, spec):
        self.n = len(spec["areas"])
        self.lines = [(l["from"], l["to"]) for l in spec["lines"]]
        self.states = np.array([l["states"] for l in spec["lines"]], float).reshape(-1, 6, 4)[:, :, :3].copy()
        self.states[:, :, 0][self.states[:, :, 0] == 0] = -0.5
        self.states[:, :, 1][self.states[:, :, 1] == 0] = 1
        self.states[:, :, 2][self.states[:, :, 2] == 0] = 1
        self.lim = np.array([a["lim"] for a in spec["areas"]], float)
        self.cache = {}

    def incidence(self):
        A = np.zeros((len(self.lines), self.n))
        for k, (f, t) in enumerate(self.lines):
            A[k, f] += 1
            A[k, t] -= 1
        return A

    def model(self, state):
        """(flow matrix from injections, forward, backward capacities) for line states 0..5."""
        key = tuple(state)
        if key not in self.cache:
            nl = len(self.lines)
            s = self.states[np.arange(nl), list(state)]
            b = -s[:, 0]
            A = self.incidence()
            L = A.T @ (b[:, None] * A)
            inv = np.zeros((self.n, self.n))
            inv[1:, 1:] = np.linalg.inv(L[1:, 1:])
            self.cache[key] = (b[:, None] * (A @ inv), s[:, 1], s[:, 2], b)
        return self.cache[key]


def proportional(inj, load, sharing):
    """Balanced injections before network limits, and the curtailments."""
    neg, pos = -inj[inj <= 0].sum(), inj[inj > 0].sum()
    p = inj.copy()
    if neg <= pos:
        if pos > 0:
            p[inj > 0] *= neg / pos
        return p
    if not sharing:
        p[inj <= 0] *= pos / neg
        return p
    return p + load * (neg - pos) / load.sum()


def _lp_parts(net, model, fwd, bwd, lim_in, lim_out):
    """Constraint rows over the angles of areas 1..n-1: flows and net injections."""
    b = model[3]
    A = net.incidence()
    F = b[:, None] * A[:, 1:]
    P = A.T @ F
    A_ub = np.vstack([F, -F, P, -P])
    b_ub = np.concatenate([fwd, bwd, lim_out, lim_in])
    return F, P, A_ub, b_ub


def optimum(net, model, fwd, bwd, lim_in, lim_out, inj, cap=None, load=None, unique=True, want_p=False):
    """Smallest total curtailment; with the curtailment of each area if it is determined.

    Without cap and load the areas do not share losses: surpluses up to inj, deficits up to
    inj. With them every area generates up to cap and loses up to load.
    """
    n = net.n
    F, P, A_ub, b_ub = _lp_parts(net, model, fwd, bwd, lim_in, lim_out)
    k = n - 1
    if cap is None:
        # p = P theta;  short: p = inj + C (0<=C<=-inj);  surplus: 0<=p<=inj
        nv = k + n
        A_eq, b_eq, bounds = [], [], [(None, None)] * k
        rows, rhs = [], []
        for i in range(n):
            e = np.zeros(nv)
            e[:k] = P[i]
            if inj[i] < 0:
                e[k + i] = -1
                A_eq.append(e)
                b_eq.append(inj[i])
                bounds.append((0, -inj[i]))
            else:
                rows += [e, -e]
                rhs += [inj[i], 0.0]
                bounds.append((0, 0))
    else:
        nv = k + 2 * n
        A_eq, b_eq, bounds = [], [], [(None, None)] * k
        rows, rhs = [], []
        for i in range(n):
            e = np.zeros(nv)
            e[:k] = P[i]
            e[k + i] = -1
            e[k + n + i] = -1
            A_eq.append(e)
            b_eq.append(-load[i])
        bounds += [(0, load[i]) for i in range(n)] + [(0, cap[i]) for i in range(n)]
    full = np.zeros((len(A_ub), nv))
    full[:, :k] = A_ub
    A_ub = np.vstack([full] + [r[None, :] for r in rows]) if rows else full
    b_ub = np.concatenate([b_ub, rhs]) if rows else b_ub
    c = np.zeros(nv)
    c[k : k + n] = 1
    status, fun, x = lpclient.solve(c, A_ub, b_ub, A_eq, b_eq, bounds)
    if status != 0:
        raise RuntimeError("reference LP status %s" % status)
    x = np.array(x)
    C = x[k : k + n].copy()
    p = P @ x[:k]
    flow = F @ x[:k]
    if unique:
        # a generic combination of what has to be unique is the same over all optima
        e = np.zeros(nv)
        act = [i for i in range(n) if bounds[k + i][1] > 0]
        if len(act) > 1 and fun > 1e-9:
            for i in act:
                e[k + i] += GENERIC[i]
        if want_p:
            for i in range(n):
                e[:k] += GENERIC[n + i] * P[i]
        if e.any():
            A2 = np.vstack([A_ub, c[None, :]])
            b2 = np.concatenate([b_ub, [fun + 1e-7]])
            v = float(e @ x)
            for sgn in (1, -1):
                s2, f2, _ = lpclient.solve(sgn * e, A2, b2, A_eq, b_eq, bounds)
                if s2 != 0 or abs(sgn * f2 - v) > 1e-4:
                    raise Undetermined("several optimal curtailments")
    return fun, C, p, flow


class Result:
    pass


class Sim:
    def __init__(self, spec, max_lp=300, max_short=1000, guide=None):
        self.spec = spec
        self.mc = spec["mc"]
        self.n = len(spec["areas"])
        self.nu = len(spec["units"])
        self.nl = len(spec["lines"])
        self.load = loads(spec)
        self.net = Net(spec)
        self.max_lp, self.max_short = max_lp, max_short
        self.lps = 0
        self.guided = 0
        # chooses among several optimal curtailments: called with (capacity, load, transfer, state)
        self.guide = guide(self) if guide else None
        fu = np.array([a["lfu"] for a in spec["areas"]], float)
        self.nf = 5 if fu.any() else 1
        f = np.array([1.0 + k * fu / 100.0 for k in LEVELS]).T
        self.factor = f
        # without uncertainty the single level has factor 1 for every area
        self.base_level = 2 if self.nf == 5 else 0
        self.daily = int(self.mc.get("STEP", 1)) == 24
        self.draw_daily = int(self.mc.get("FREQ", 1)) == 24
        self.sharing = self.mc.get("LS", 1) == 0
        own = np.zeros((self.n, self.nu))
        for u, x in enumerate(spec["units"]):
            own[x["area"], u] = 1
        for o in spec["own"]:
            own[:, o["unit"]] = np.array(o["pct"]) / 100.0
        self.own = own
        self.contract = np.zeros((365, self.n))
        for c in spec["contracts"]:
            self.contract[c["beg"] - 1 : c["end"], c["from"]] += c["mw"]
            self.contract[c["beg"] - 1 : c["end"], c["to"]] -= c["mw"]
        pool = self.load.sum(axis=0).reshape(365, 24)
        self.peak_hour = pool.argmax(axis=1) + 24 * np.arange(365)
        # hours as high as the peak hour are earlier in no order of summation only if equal throughout
        near = pool >= pool.max(axis=1, keepdims=True) - EPS
        at = self.load[:, self.peak_hour]
        same = np.all(self.load.reshape(self.n, 365, 24) == at[:, :, None], axis=0)
        self.peak_tie = (near & ~same).any(axis=1)
        self.short_hours = 0
        self.partial = 0
        self.trans_calls = 0
        self.levels_seen = set()

    # -------------------------------------------------------------- one year
    def _time(self):
        """hour of load, day, hour of the draw for every evaluation of a year"""
        if self.daily:
            d = np.arange(365)
            return self.peak_hour, d, 24 * d
        h = np.arange(8760)
        return h, h // 24, (h // 24 * 24 if self.draw_daily else h)

    def _states(self, year, draws):
        """PCT [draw, unit], line state [draw, line] of this year."""
        if not hasattr(self, "gseq"):
            fin = int(self.mc.get("FIN", 1))
            gs, ls = seeds(PROGRAM_SEED, self.nu, self.nl)
            self.gseq = [sequence(s, draws * fin) for s in gs]
            self.lseq = [sequence(s, draws * fin) for s in ls]
        a, b = year * draws, (year + 1) * draws
        pct = np.zeros((draws, self.nu))
        for u, x in enumerate(self.spec["units"]):
            r = self.gseq[u][a:b]
            up = 1 - (x["dfor"] + x["for"])
            part = 1 - x["for"]
            pct[:, u] = np.where(r < up, 1.0, np.where(r < part, 1 - x["der"] / 100.0, 0.0))
        st = np.zeros((draws, self.nl), dtype=int)
        for k, l in enumerate(self.spec["lines"]):
            cum = np.cumsum([s[3] for s in l["states"]])
            r = self.lseq[k][a:b]
            st[:, k] = np.minimum((r[:, None] > cum[None, :]).sum(axis=1), 5)
        return pct, st

    def _ratings(self):
        """Rating of each unit in each hour, including planned outages."""
        h = np.arange(8760)
        ends = [self.mc[k] * 168 for k in ("END WK1", "END WK2", "END WK3")]
        season = sum((h >= e).astype(int) for e in ends)
        out = np.zeros((8760, self.nu))
        week = h // 168
        for u, x in enumerate(self.spec["units"]):
            out[:, u] = np.array(x["cap"], float)[season]
            b1, d1, b2, d2 = x["out"]
            for b, d in ((b1, d1), (b2, d2)):
                if d > 0:
                    out[(week >= b - 1) & (week < b - 1 + d) & (week < 52), u] = 0
        return out

    def year(self, y):
        hour, day, dh = self._time()
        if self.daily or self.draw_daily:
            draws = 365
            di = day
        else:
            draws = 8760
            di = np.arange(8760)
        pct, lst = self._states(y, draws)
        self.pct = pct
        if not hasattr(self, "rat"):
            self.rat = self._ratings()
        first = {}
        avail_h = self.rat[dh] * pct[di]
        loc = np.zeros((self.n, self.nu))
        for u, x in enumerate(self.spec["units"]):
            loc[x["area"], u] = 1
        located = avail_h @ loc.T
        owned = avail_h @ self.own.T
        transfer = located - owned + self.contract[day]
        top = self.load[:, hour].T * self.factor[:, 0 if self.nf == 5 else 2]
        m0 = located - top
        sus = np.where((m0 <= -1 + EPS).any(axis=1))[0]
        self.short_hours += len(sus)
        if self.short_hours > self.max_short:
            raise TooMany("hours")
        R = Result()
        z = lambda: {"G": np.zeros((self.n, 5)), "T": np.zeros((self.n, 5))}
        zp = lambda: {"G": np.zeros(5), "T": np.zeros(5)}
        R.lol = {"H": z(), "P": z()}
        R.mgn = {"H": z(), "P": z()}
        R.plol = {"H": zp(), "P": zp()}
        R.pmgn = {"H": zp(), "P": zp()}
        for e in sus:
            h = hour[e]
            pk = h == self.peak_hour[day[e]]
            for lev in range(self.nf):
                f = self.factor[:, lev if self.nf == 5 else 2]
                ld = self.load[:, h] * f
                self.at = (y, e, h, dh[e], di[e])  # where in the year
                X = self.evaluate(located[e], ld, transfer[e], lst[di[e]])
                if X is None:
                    break
                self.levels_seen.add(lev)
                total = X.sum()
                short = X < 0
                if short.sum() < self.n and short.sum() > 0:
                    self.partial += 1
                kinds = ["H"]
                if self.peak_tie[day[e]]:
                    raise Undetermined("tie of the pool peak")
                if pk:
                    kinds.append("P")
                for kd in kinds:
                    R.plol[kd]["T" if total >= 0 else "G"][lev] += 1
                    c = "T" if total > 0 else "G"
                    R.lol[kd][c][short, lev] += 1
                    R.mgn[kd][c][short, lev] -= X[short]
                    R.pmgn[kd][c][lev] -= X[short].sum()
        return R

    # -------------------------------------------------------------- one hour
    def _trunc(self, x, exact):
        """Whole megawatts; refuses values which rounding may push either way."""
        x = np.asarray(x, float)
        r = np.round(x)
        near = (np.abs(x - r) < EPS) & (np.abs(r) >= 1)
        if exact:
            near &= x != r
        if near.any():
            raise Undetermined("margin at a whole number")
        return np.trunc(x)

    def evaluate(self, cap, load, transfer, state):
        if self.guide is None or self.guided < 12:
            try:
                return self._evaluate(cap, load, transfer, state)
            except Undetermined as e:
                if self.guide is None or "several optimal" not in str(e) and "pool margin" not in str(e):
                    raise
        M = cap - load
        X = self._trunc(M, True)
        if not (X < 0).any():
            return None
        if (X < 0).all():
            return X
        self.guided += 1
        rest = self.guide(cap, load, transfer, state)
        if rest is None:
            return None
        X = np.trunc(rest)
        near = (np.abs(rest - np.round(rest)) < EPS) & (np.round(rest) != 0)
        if near[rest < 0].any():
            raise Undetermined("margin at a whole number")
        keep = rest >= 0
        lo, hi = np.floor(np.maximum(rest[keep] - EPS, 0)).sum(), np.floor(rest[keep] + EPS).sum()
        base = X[~keep].sum()
        if np.sign(base + lo) != np.sign(base + hi):
            raise Undetermined("pool margin near zero")
        return X if (X < 0).any() else None

    def _evaluate(self, cap, load, transfer, state):
        M = cap - load
        X = self._trunc(M, True)
        if not (X < 0).any():
            return None
        if (X < 0).all():
            return X
        self.trans_calls += 1
        model = self.net.model(state)
        fwd, bwd = model[1], model[2]
        lim = self.net.lim
        inj = np.maximum(transfer, np.minimum(M, 0))
        p1, f1, _, _ = self.allocate(inj, load, False, model, fwd, bwd, lim, lim, True)
        left = M - p1
        if (left >= -1e-9).all():
            return None
        if self.sharing:
            p, C, lp, _ = self.allocate2(M, cap, load, True, model, fwd, bwd, lim, lim)
            rest = M - p
        else:
            out1 = self.net.incidence().T @ f1
            M2 = M - p1
            p, C, lp, _ = self.allocate2(
                M2, cap, load, False, model,
                np.maximum(fwd - f1, 0), np.maximum(bwd + f1, 0),
                np.maximum(lim + out1, 0), np.maximum(lim - out1, 0),
            )
            rest = M2 - p
        X = np.trunc(rest)
        r = np.round(rest)
        near = (np.abs(rest - r) < EPS) & (r != 0)
        if near[rest < 0].any():
            raise Undetermined("margin at a whole number")
        if not (X < 0).any():
            return None
        # the pool's margin decides the cause: its sign has to be certain
        base, keep = X[X < 0].sum(), X >= 0
        s = rest[keep].sum()
        if lp and keep.sum() > 1:
            lo, hi = base + np.ceil(max(0.0, s - keep.sum() - EPS)), base + np.floor(s + EPS)
        else:
            lo = base + np.floor(np.maximum(rest[keep] - EPS, 0)).sum()
            hi = base + np.floor(rest[keep] + EPS).sum()
        if np.sign(lo) != np.sign(hi):
            raise Undetermined("pool margin near zero")
        return X

    def _flows(self, model, p):
        return model[0] @ p

    def _limits(self, flow, fwd, bwd, lim_in, lim_out):
        out = self.net.incidence().T @ flow
        g = np.concatenate([flow - fwd, -flow - bwd, out - lim_out, -out - lim_in])
        return g

    def allocate(self, inj, load, sharing, model, fwd, bwd, lim_in, lim_out, want_p, cap=None):
        p = proportional(inj, load, sharing)
        flow = self._flows(model, p)
        g = self._limits(flow, fwd, bwd, lim_in, lim_out)
        if not (g > EPS).any():
            close = (g > -EPS).any() and np.abs(p).max() > EPS
            if not close or self.n == 2 and not sharing:
                return p, flow, None, False
        self.lps += 1
        if self.lps > self.max_lp:
            raise TooMany("evaluations")
        if self.n == 2 and not sharing:
            # one line of action: the import of the short area is as large as possible
            return self._two(inj, p, flow, g, model, fwd, bwd, lim_in, lim_out)
        fun, C, p, flow = optimum(
            self.net, model, fwd, bwd, lim_in, lim_out, inj,
            cap if sharing else None, load if sharing else None, True, want_p,
        )
        return p, flow, C, True

    def _two(self, inj, p, flow, g, model, fwd, bwd, lim_in, lim_out):
        # scale the feasible direction down until no limit is exceeded
        s = 1.0
        out = self.net.incidence().T @ flow
        for v, l in list(zip(flow, fwd)) + list(zip(-flow, bwd)) + list(zip(out, lim_out)) + list(zip(-out, lim_in)):
            if v > 1e-12 and v > l:
                s = min(s, l / v)
        return p * s, flow * s, None, True

    def allocate2(self, M, cap, load, sharing, model, fwd, bwd, lim_in, lim_out):
        p, flow, C, lp = self.allocate(M, load, sharing, model, fwd, bwd, lim_in, lim_out, False, cap)
        if sharing and C is not None:
            # generation is used before load is lost: the curtailment is p - M where positive
            p = np.where(C > 1e-9, M + C, p)
        return p, C, lp, flow

    # -------------------------------------------------------------- all years
    def run(self):
        fin = int(self.mc.get("FIN", 1))
        self.years = []
        for y in range(fin):
            self.years.append(self.year(y))
            if self.converged(y + 1):
                break
        return self.years

    def weights(self):
        return WEIGHTS if self.nf == 5 else np.array([1.0, 0, 0, 0, 0])

    def statistic(self, R):
        """The yearly value of the statistic tested for convergence."""
        mc = self.mc
        kind = "H" if mc["WHEN"] == 1 else "P"
        if mc["WHERE"] == 1:
            src = (R.lol if mc["KVS"] == 1 else R.mgn)[kind]
            v = (src["G"] + src["T"])[mc["KVL"] - 1]
        else:
            src = (R.plol if mc["KVS"] == 1 else R.pmgn)[kind]
            v = src["G"] + src["T"]
        if mc["KVT"] == 1:
            return float(v @ self.weights())
        return float(v[self.base_level])

    def converged(self, n):
        if n >= int(self.mc.get("FIN", 1)):
            return True
        if n < 5:
            return False
        v = np.array([self.statistic(R) for R in self.years])
        mean = v.mean()
        var = max(0.0, (v**2).mean() - mean**2)
        sd = (var / n) ** 0.5
        tol = self.mc.get("CVT", 0.025) or 0.025
        if mean == 0:
            return False
        # a rounded variance of identical years may be slightly positive
        if abs(sd - tol * mean) < 1e-6 * mean:
            raise Undetermined("convergence at the tolerance")
        return sd < tol * mean
