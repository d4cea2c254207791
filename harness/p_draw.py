"""C35: the random choices are the prescribed lotteries.

Experiments on the real code in which every choice can be read off the evaluated points; the counts
of the outcomes are compared with the weights of spec/Draws.tla by DrawTrace."""
import collections
import itertools
import math

import numpy as np

import record
import vlib
from p_pop import brief, replay  # noqa: F401

NEED = {"best1bin": 2, "rand1bin": 3, "best2bin": 4, "rand2bin": 5}
BINS = 16


class Frozen:
    """Nothing is better than the first population, whose member `best` is the best."""

    def __init__(self, pop, best):
        self.n, self.pop, self.best = 0, pop, best

    def __call__(self, x, *a):
        self.n += 1
        k = self.n - 1
        return (0.0 if k == self.best else 1.0 + k) if k < self.pop else 1e3 + (self.n * 7 % 13)


class Tables:
    def __init__(self):
        self.t, self.wrong, self.repeats = {}, set(), {}

    def add(self, name, q, cell, tag=None):
        self.addmany(name, q, [cell], tag)

    def addmany(self, name, q, cells, tag=None):
        c = self.t.setdefault((name, tuple(sorted(q.items())), repr(tag)), collections.Counter())
        c.update(np.asarray(cells, dtype=int).tolist())

    def uniform(self, name, u):
        """Values that should be uniform on [0, 1]: tables of their bins."""
        u = np.asarray(u, dtype=float)
        if u.size and (u.min() < -1e-6 or u.max() > 1 + 1e-6 or not np.all(np.isfinite(u))):
            self.wrong.add(name + "Range")
        self.addmany(name, dict(k="fair", n=BINS), 1 + np.clip((np.nan_to_num(u) * BINS).astype(int), 0, BINS - 1))

    def joint(self, name, u, v, tag=None):
        """Pairs that should be independent."""
        b = lambda w: np.clip((np.nan_to_num(np.asarray(w)) * 4).astype(int), 0, 3)
        self.addmany(name, dict(k="fair", n=16), 1 + 4 * b(u) + b(v), tag)

    def apart(self, name, U):
        """An array sample x slot: the slots of a sample do not depend on each other, however far apart, nor do they repeat."""
        m = U.shape[1]
        near = [(j, k) for j in range(m) for k in range(j)]
        if len(near) > 45:
            near = vlib.rng("C35", "apart", name, m).sample(near, 45)
        for j, k in near:
            self.joint(name, U[:, j], U[:, k], (j, k))
        for lag in range(1, m):
            self.joint(name, U[:, lag:].ravel(), U[:, :-lag].ravel(), lag)
        s = np.sort(U, axis=1)
        if m > 1:
            self.repeats[name] = self.repeats.get(name, 0) + int((np.diff(s, axis=1) < 1e-10).sum())
            if self.repeats[name] > 4:
                self.wrong.add(name + "Repeats")

    def fields(self, name, U):
        """An array iteration x member x coordinate of uniform values: each, and neighbours in all directions."""
        U = np.asarray(U)
        self.uniform(name, U.ravel())
        if U.shape[1] > 1:
            self.apart(name + "Members", U.transpose(0, 2, 1).reshape(-1, U.shape[1]))
        if U.shape[2] > 1:
            self.apart(name + "Coordinates", U.reshape(-1, U.shape[2]))
        if U.shape[1] > 1 and U.shape[2] > 1:
            # another member's other coordinate
            for a in sorted({1, U.shape[1] // 2}):
                for b in sorted({1, U.shape[2] - 1}):
                    self.joint(name + "Others", U[:, a:, b:].ravel(), U[:, :-a, :-b].ravel(), (a, b))
                    self.joint(name + "Others", U[:, a:, :-b].ravel(), U[:, :-a, b:].ravel(), (a, -b))
        for lag in (1, 2, 3, 5, 10):
            if U.shape[0] > lag:
                self.joint(name + "Iterations", U[:-lag].ravel(), U[lag:].ravel(), lag)
        for j in (0, U.shape[2] - 1):
            self.uniform(name + ("First" if j == 0 else "Last"), U[:, :, j].ravel())
        self.uniform(name + "LastMember", U[:, -1].ravel())
        self.uniform(name + "FirstMember", U[:, 0].ravel())

    def out(self, tid):
        tabs = []
        for (name, q, tag), c in sorted(self.t.items()):
            q = dict(q)
            cells = dict(fair=q["n"], cross=2 ** q["n"] - 1, one=2, two=4, apart=4)[q["k"]]
            if any(k < 1 or k > cells for k in c):
                self.wrong.add(name + "Cell")
            tabs.append(dict(name=name, q=q, c=[c.get(k, 0) for k in range(1, cells + 1)]))
        return dict(tid=tid, tables=tabs, wrong=sorted(self.wrong))


def call(alg, fun, bounds, x0, entry, **o):
    """The evaluated points of a run."""
    ev = []

    def f(x, *a):
        ev.append(np.array(x, dtype=float, copy=True))
        return fun(x, *a)
    if entry == "direct":
        record.DIRECT[alg](f, bounds, x0=x0, **o)
    else:
        g = record.SS.sample if alg in record.SAMPLERS else record.SO.minimize
        g(f, bounds, x0=x0, method=alg, options=o)
    return np.array(ev)


# --------------------------------------------------------------------------- experiments

def exp_de(spec):
    """Which members, which coordinates."""
    S, P, n, a, b, F = spec["strategy"], spec["pop"], spec["ndim"], spec["a"], spec["b"], spec["F"]
    T = Tables()
    two, rnd = "2" in S, "rand" in S
    k = NEED[S]
    r = vlib.rng("C35", "de", repr(spec))
    for run in range(spec["runs"]):
        best = r.randrange(P)
        x0 = np.array([[8.0 ** ((m + 3 * j) % P) + 8.0 ** P * j for j in range(n)] for m in range(P)])
        con = spec["con"]
        o = dict(popsize=P, maxiter=spec["maxiter"], mutation=F, recombination=a / b, strategy=S, seed=r.randrange(2 ** 31), ftol=-np.inf, xtol=0.0,
                 updating=spec["updating"])
        bounds = [[-1e9, 1e9]] * n
        if con:
            o["constraints"] = "Random"
            # mutants leave the box of the last coordinate often
            bounds = [[-1e9, 1e9]] * (n - 1) + [[float(x0[:, n - 1].min()) - 0.25, float(x0[:, n - 1].max()) + 0.25]]
        ev = call("de", Frozen(P, best), bounds, x0, spec["entry"], **o)
        if len(ev) != P * spec["maxiter"]:
            T.wrong.add("deLength")
            return T
        for i in range(P):
            oth = [m for m in range(P) if m != i]
            codes = []
            for j in range(n):
                d = {}
                for t in itertools.permutations(range(P - 1), k):
                    if two:
                        q = t[1:] if rnd else t
                        if q[0] > q[1] or q[2] > q[3]:
                            continue
                    X = [x0[oth[m], j] for m in t]
                    base, X = (X[0], X[1:]) if rnd else (x0[best, j], X)
                    v = base + F * ((X[0] + X[1] - X[2] - X[3]) if two else (X[0] - X[1]))
                    d[float(v)] = t
                codes.append(d)
            ts = sorted(set(codes[0].values()))
            num = {t: q + 1 for q, t in enumerate(ts)}
            lo, hi = bounds[n - 1]
            for g in range(1, spec["maxiter"]):
                y = ev[g * P + i]
                mask, donors, hid = 0, None, False
                for j in range(n):
                    v = float(y[j])
                    if v == x0[i, j]:
                        continue
                    t = codes[j].get(v)
                    if con and j == n - 1:
                        # a resampled value gives nothing away, except that it is one
                        if t is None or not (lo <= v <= hi):
                            hid = True
                            T.uniform("resampled", [(v - lo) / (hi - lo)])
                            mask |= 1 << j
                            continue
                    if t is None:
                        T.wrong.add("deTrial")
                        return T
                    mask |= 1 << j
                    if donors is not None and donors != t:
                        T.wrong.add("deMixed")
                    donors = t
                T.add("cross", dict(k="cross", n=n, a=a, b=b), mask)
                if con and donors is not None:
                    # resampled exactly when the mutant was out
                    if mask >> (n - 1):
                        v = [v for v, t in codes[n - 1].items() if t == donors][0]
                        if hid != (not lo <= v <= hi):
                            T.wrong.add("resampledWhen")
                if donors is not None and not con:
                    T.add("donors", dict(k="fair", n=len(ts)), num[donors])
                    if rnd:
                        o_ = oth[donors[0]]
                        T.add("donorOfMember", dict(k="fair", n=P * (P - 1)), i * (P - 1) + donors[0] + 1)
                    if n == 2 and a * 2 == b and len(ts) <= 24:
                        # which coordinates come from the mutant does not depend on the donors
                        T.add("crossDonors%d" % num[donors], dict(k="cross", n=n, a=a, b=b), mask)
    return T


def exp_wide(spec):
    """DE in more dimensions than members, and with many members."""
    S, P, n, a, b, F = spec["strategy"], spec["pop"], spec["ndim"], spec["a"], spec["b"], spec["F"]
    T = Tables()
    two, rnd = "2" in S, "rand" in S
    k = NEED[S]
    r = vlib.rng("C35", "wide", repr(spec))
    g = np.random.RandomState(r.randrange(2 ** 31))
    mi = spec["maxiter"]
    ps = np.array(list(itertools.permutations(range(P), k))) if P ** k < 6e5 else None
    for run in range(spec["runs"]):
        best = r.randrange(P)
        x0 = g.uniform(-1, 1, (P, n))
        o = dict(popsize=P, maxiter=mi, mutation=F, recombination=a / b, strategy=S, seed=r.randrange(2 ** 31), ftol=-np.inf, xtol=0.0,
                 updating=spec["updating"])
        ev = call("de", Frozen(P, best), [[-1e3, 1e3]] * n, x0, spec["entry"], **o)
        if len(ev) != P * mi:
            T.wrong.add("deLength")
            return T
        Y = ev.reshape(mi, P, n)[1:]
        M = (Y != x0[None]).astype(int)
        if (M.sum(axis=2) == 0).any():
            T.wrong.add("deNever")
            return T
        q = dict(n=n, a=a, b=b)
        for j in range(n):
            T.addmany("coordinate", dict(q, k="one"), 1 + M[:, :, j].ravel(), j)
            for i in range(P):
                T.addmany("coordinateMember", dict(q, k="one"), 1 + M[:, i, j], (i, j))
        for j in range(n):
            for l in (range(j) if n <= 10 else {0, j // 2, j - 1} & set(range(j))):
                T.addmany("coordinates", dict(q, k="two"), 1 + 2 * M[:, :, l].ravel() + M[:, :, j].ravel(), (l, j))
        if a == 0:
            J = M.argmax(axis=2)
            T.addmany("chosen", dict(k="fair", n=n), 1 + J.ravel())
            for lag in range(1, P):
                T.addmany("chosenMembers", dict(k="fair", n=n), 1 + (J[:, lag:] - J[:, :-lag]).ravel() % n, lag)
            for lag in (1, 2, 3):
                if mi - 1 > lag:
                    T.addmany("chosenIterations", dict(k="fair", n=n), 1 + (J[lag:] - J[:-lag]).ravel() % n, lag)
        else:
            for lag in range(1, P):
                T.addmany("acrossMembers", dict(q, k="apart"), 1 + 2 * M[:, lag:].ravel() + M[:, :-lag].ravel(), lag)
            for lag in (1, 2, 3):
                if mi - 1 > lag:
                    T.addmany("acrossIterations", dict(q, k="apart"), 1 + 2 * M[lag:].ravel() + M[:-lag].ravel(), lag)
        if ps is None or a != b:
            continue
        # everything comes from the mutant: who are the donors?
        Z = x0[ps]
        base, Z = (Z[:, 0], Z[:, 1:].transpose(1, 0, 2)) if rnd else (x0[best][None], Z.transpose(1, 0, 2))
        V = base + F * ((Z[0] + Z[1] - Z[2] - Z[3]) if two else (Z[0] - Z[1]))
        order = np.argsort(V[:, 0])
        D = np.empty((mi - 1, P, k), dtype=int)
        for t in range(mi - 1):
            for i in range(P):
                y = Y[t, i]
                lo, hi = np.searchsorted(V[order, 0], [y[0] - 1e-12, y[0] + 1e-12])
                cand = [c for c in order[lo:hi] if np.abs(V[c] - y).max() < 1e-12]
                if not cand:
                    T.wrong.add("deTrial")
                    return T
                D[t, i] = ps[cand[0]]
                if two:
                    # the order within a sum cannot be seen: draw it
                    for u in (1, 3) if rnd else (0, 2):
                        if g.rand() < 0.5:
                            D[t, i, [u, u + 1]] = D[t, i, [u + 1, u]]
        I = np.arange(P)[None, :, None]
        if (D == I).any():
            T.wrong.add("deSelf")
            return T
        off = (D - I) % P  # 1 .. P-1
        for u in range(k):
            T.addmany("donor", dict(k="fair", n=P - 1), off[:, :, u].ravel(), u)
            if P > 20:
                continue
            T.addmany("donorSlot", dict(k="fair", n=P * (P - 1)), (np.arange(P) * (P - 1) + off[:, :, u]).ravel(), u)
            for v in range(u):
                d = (off[:, :, u] - off[:, :, v]) % P
                pair = (off[:, :, u] - 1) * (P - 2) + off[:, :, v] - (off[:, :, v] > off[:, :, u])
                if (d == 0).any():
                    T.wrong.add("deTwice")
                    return T
                T.addmany("donorPair", dict(k="fair", n=(P - 1) * (P - 2)), pair.ravel(), (u, v))
            # of different members, of different iterations
            B = (off - 1) * 4 // (P - 1) if (P - 1) % 4 == 0 else (off - 1) % 1
            if (P - 1) % 4 == 0:
                for lag in range(1, P):
                    T.addmany("donorMembers", dict(k="fair", n=16), 1 + (4 * B[:, lag:, u] + B[:, :-lag, u]).ravel(), (u, lag))
                for lag in (1, 2, 3):
                    if mi - 1 > lag:
                        T.addmany("donorIterations", dict(k="fair", n=16), 1 + (4 * B[lag:, :, u] + B[:-lag, :, u]).ravel(), (u, lag))
    return T


def exp_random(spec):
    """'Random': every coordinate of every member that leaves the box is drawn anew, each on its own."""
    P, n = spec["pop"], spec["ndim"]
    T = Tables()
    r = vlib.rng("C35", "random", repr(spec))
    mi = spec["maxiter"]
    bounds = [[-3.0 + j, 5.0 * (j + 1)] for j in range(n)]
    lo, hi = np.transpose(bounds)
    rows, runs = [], []
    for run in range(spec["runs"]):
        best = r.randrange(P)
        # corners and the centre, where the best is: mutants are at the centre or outside in all coordinates
        corner = [m % 2 for m in range(P)]
        r.shuffle(corner)
        u = np.array([[0.5 if m == best else abs(corner[m] - 1e-9 * m)] * n for m in range(P)])
        x0 = lo + u * (hi - lo)
        o = dict(popsize=P, maxiter=mi, mutation=2.0, recombination=1.0, strategy=spec["strategy"], seed=r.randrange(2 ** 31), ftol=-np.inf, xtol=0.0,
                 updating=spec["updating"], constraints="Random")
        ev = call("de", Frozen(P, best), bounds, x0, spec["entry"], **o)
        if len(ev) != P * mi:
            T.wrong.add("deLength")
            return T
        R = (ev[P:] - lo) / (hi - lo)
        new = ~(np.abs(R - 0.5) < 1e-6).all(axis=1)
        if new.sum() < 0.2 * len(R) or (np.abs(R[new] - 0.5) < 1e-8).any():
            T.wrong.add("resampledWhen")
            return T
        rows.append(R[new])
        runs.append(len(rows[-1]))
    m = min(runs)
    T.fields("resampledAll", np.array([R[:m] for R in rows]))
    return T


def pit(s, A, B):
    """Distribution function of r1*A + r2*B at s, r1, r2 uniform."""
    s = s + np.where(A < 0, -A, 0) + np.where(B < 0, -B, 0)
    A, B = np.abs(A), np.abs(B)
    A, B = np.maximum(A, B), np.minimum(A, B)
    with np.errstate(all="ignore"):
        lowpart = s * s / (2 * A * B)
        mid = (s - B / 2) / A
        top = 1 - (A + B - s) ** 2 / (2 * A * B)
    tiny = B < 1e-9 * A
    return np.where(tiny, s / A, np.where(s <= B, lowpart, np.where(s <= A, mid, top)))


def exp_pso(spec):
    """The weights of the attractions."""
    P, n, w, c1, c2 = spec["pop"], spec["ndim"], spec["w"], spec["c1"], spec["c2"]
    T = Tables()
    r = vlib.rng("C35", "pso", repr(spec))
    mi = spec["maxiter"]
    for run in range(spec["runs"]):
        best = r.randrange(P)
        x0 = np.array([[r.uniform(-1, 1) for _ in range(n)] for _ in range(P)])
        o = dict(popsize=P, maxiter=mi, inertia=w, cognitivity=c1, sociability=c2, seed=r.randrange(2 ** 31), ftol=-np.inf, xtol=0.0,
                 updating=spec["updating"])
        if spec["alg"] == "cpso":
            o["competitivity"] = None
        ev = call(spec["alg"], Frozen(P, best), [[-1e3, 1e3]] * n, x0, spec["entry"], **o)
        if len(ev) != P * mi:
            T.wrong.add("psoLength")
            return T
        X = ev.reshape(mi, P, n)
        if np.abs(X[0] - x0).max() > 0:
            T.wrong.add("psoStart")
            return T
        V = np.diff(X, axis=0)
        prev = np.concatenate([np.zeros((1, P, n)), V[:-1]])
        s = V - w * prev
        A, B = c1 * (x0[None] - X[:-1]), c2 * (x0[best][None, None] - X[:-1])
        keep = np.ones(P, dtype=bool)
        keep[best] = False  # its two attractions coincide
        first = s[0][keep], B[0][keep]
        if c2:
            T.fields("sociability", (first[0] / first[1])[None])
        size = np.maximum(np.abs(A), np.abs(B))
        good = (size > 1e-6).all(axis=(1, 2)) if not (c1 and c2) else np.ones(mi - 1, dtype=bool)
        if c1 and c2:
            U = pit(s[1:][:, keep], A[1:][:, keep], B[1:][:, keep])
            if np.isfinite(U).all():
                T.fields("attraction", U)
        elif c2:
            sel = np.array([g for g in range(1, mi - 1)])
            U = (s[sel][:, keep] / B[sel][:, keep])
            U = U[(np.abs(B[sel][:, keep]) > 1e-7).all(axis=(1, 2))]
            if len(U):
                T.fields("sociabilityLater", U)
        else:
            # without pull nothing moves: all particles stay at their own best
            if np.abs(V).max() > 0:
                T.wrong.add("psoMoves")
    return T


def exp_lhs(spec):
    """Latin hypercubes of all optimizers that start with one."""
    P, n = spec["pop"], spec["ndim"]
    T = Tables()
    r = vlib.rng("C35", "lhs", repr(spec))
    U, R = [], []
    bounds = [[-3.0 + j, 5.0 * (j + 1)] for j in range(n)]
    lo, hi = np.transpose(bounds)
    for run in range(spec["runs"]):
        o = dict(popsize=P, maxiter=1, seed=r.randrange(2 ** 31))
        if spec["alg"] == "de":
            o["strategy"] = "best1bin"
        ev = call(spec["alg"], Frozen(P, 0), bounds, None, spec["entry"], **o)
        if len(ev) != P:
            T.wrong.add("lhsLength")
            return T
        u = (ev - lo) / (hi - lo) * P
        k = np.floor(u)
        U.append(u - k)
        R.append(k)
    U = np.array(U)
    if U.max() <= 0.5 + 1e-9:
        # a finding of its own: only the lower half of every interval is ever drawn
        T.wrong.add("lhsLowerHalf")
        U = 2 * U
    T.fields("lhsPlace", U)
    R = np.array(R).astype(int)
    perms = {p: q + 1 for q, p in enumerate(itertools.permutations(range(P)))} if P <= 4 else None
    for j in range(n):
        for m in (0, P - 1):
            T.addmany("lhsCell", dict(k="fair", n=P), R[:, m, j] + 1)
        if perms:
            if any(tuple(p) not in perms for p in R[:, :, j]):
                T.wrong.add("lhsPermutation")
                return T
            T.addmany("lhsOrder", dict(k="fair", n=len(perms)), [perms[tuple(p)] for p in R[:, :, j]])
    if P <= 12:
        for m in sorted({0, P // 2, P - 1}):
            for j in range(n):
                for k in range(j):
                    T.addmany("lhsPair", dict(k="fair", n=P * P), R[:, m, j] * P + R[:, m, k] + 1, (j, k, m))
    same = [(j, k) for j in range(n) for k in range(j) if P > 4 and (R[:, :, j] == R[:, :, k]).all(axis=1).sum() > 9]
    if same:
        T.wrong.add("lhsShared")
    if len(R) > 1 and P <= 12:
        T.addmany("lhsRuns", dict(k="fair", n=P * P), R[:-1, 0, 0] * P + R[1:, 0, 0] + 1)
    return T


def exp_restart(spec):
    """Where restarted particles go: without weights they stay where they were put."""
    P, n = spec["pop"], spec["ndim"]
    T = Tables()
    r = vlib.rng("C35", "restart", repr(spec))
    bounds = [[-3.0 + j, 5.0 * (j + 1)] for j in range(n)]
    lo, hi = np.transpose(bounds)
    where = []
    for run in range(spec["runs"]):
        c = np.array([r.uniform(a + 1, b - 1) for a, b in bounds])
        o = dict(popsize=P, maxiter=6, inertia=0.0, cognitivity=0.0, sociability=0.0, competitivity=2.0, seed=r.randrange(2 ** 31), ftol=-np.inf, xtol=0.0,
                 updating=spec["updating"])
        ev = call("cpso", Frozen(P, 0), bounds, np.tile(c, (P, 1)), spec["entry"], **o)
        if len(ev) != 6 * P:
            T.wrong.add("restartLength")
            return T
        y = ev[2 * P:3 * P]
        moved = np.abs(y - c).max(axis=1) > 1e-12
        if moved.sum() < P - 2:
            T.wrong.add("restartSome")
        where.append((y[moved] - lo) / (hi - lo))
        if len({tuple(v) for v in y[moved]}) != moved.sum():
            T.wrong.add("restartCopies")
    m = min(len(w) for w in where)
    if m:
        T.fields("restarted", np.array([w[:m] for w in where]))
    return T


def exp_start(spec):
    """Starting points that were not given."""
    alg, n = spec["alg"], spec["ndim"]
    T = Tables()
    r = vlib.rng("C35", "start", repr(spec))
    bounds = [[-3.0 + j, 5.0 * (j + 1)] for j in range(n)]
    lo, hi = np.transpose(bounds)
    U = []
    for run in range(spec["runs"]):
        o = dict(seed=r.randrange(2 ** 31), maxiter=1)
        if alg in ("cmaes", "vdcma"):
            o.update(popsize=4, sigma=1e-9)
        ev = call(alg, lambda x: float(np.sum(x)), bounds, None, spec["entry"], **o)
        U.append(((ev[0] - lo) / (hi - lo))[None])
    T.fields("start", np.array(U))
    return T


def specs():
    k = 4 if vlib.THOROUGH else 1
    out = []
    e = lambda: ("direct", "generic")[len(out) % 2]
    i = 0
    for upd in ("immediate", "deferred"):
        for S, Ps in (("best1bin", (3, 4, 6)), ("rand1bin", (4, 5, 6)), ("best2bin", (5, 6)), ("rand2bin", (6,))):
            for P in Ps:
                n = (2, 3, 1, 4)[i % 4]
                a, b = ((1, 2), (1, 4), (3, 4), (1, 2), (1, 1), (0, 1), (9, 10))[i % 7]
                if n == 4 and b == 10:
                    a, b = 3, 4
                i += 1
                out.append(dict(kind="de", strategy=S, pop=P, ndim=n, a=a, b=b, F=0.5, updating=upd, runs=(14 if P < 6 else 8) * k, maxiter=90, con=False, entry=e()))
            out.append(dict(kind="de", strategy=S, pop=Ps[-1], ndim=2, a=1, b=2, F=0.5, updating=upd, runs=10 * k, maxiter=90, con=False, entry=e()))
            out.append(dict(kind="de", strategy=S, pop=Ps[-1], ndim=3, a=3, b=4, F=1.5, updating=upd, runs=8 * k, maxiter=60, con=True, entry=e()))
            out.append(dict(kind="wide", strategy=S, pop=Ps[-1], ndim=11, a=0, b=1, F=0.5, updating=upd, runs=2 * k, maxiter=400, entry=e()))
            out.append(dict(kind="wide", strategy=S, pop=16, ndim=6, a=0, b=1, F=0.5, updating=upd, runs=2 * k, maxiter=200, entry=e()))
            # many coordinates, many members
            out.append(dict(kind="wide", strategy=S, pop=Ps[-1], ndim=48, a=0, b=1, F=0.5, updating=upd, runs=2 * k, maxiter=400, entry=e()))
            if "1" in S:
                out.append(dict(kind="wide", strategy=S, pop=131 if "best" in S else 70, ndim=2, a=1, b=1, F=0.5, updating=upd, runs=2 * k,
                                maxiter=40, entry=e()))
            # populations that are a multiple of the number of coordinates, and equal to it
            out.append(dict(kind="wide", strategy=S, pop=12, ndim=4, a=0, b=1, F=0.5, updating=upd, runs=2 * k, maxiter=200, entry=e()))
            out.append(dict(kind="wide", strategy=S, pop=7, ndim=7, a=1, b=5, F=0.5, updating=upd, runs=2 * k, maxiter=250, entry=e()))
            out.append(dict(kind="wide", strategy=S, pop=Ps[-1] + 1, ndim=9, a=1, b=2, F=0.5, updating=upd, runs=2 * k, maxiter=500, entry=e()))
            out.append(dict(kind="wide", strategy=S, pop=13, ndim=25, a=1, b=8, F=0.5, updating=upd, runs=2 * k, maxiter=200, entry=e()))
            out.append(dict(kind="wide", strategy=S, pop=9 if "2" in S else 17, ndim=2, a=1, b=1, F=0.5, updating=upd, runs=3 * k, maxiter=120, entry=e()))
        for P, n in ((12, 3), (8, 8), (30, 1)):
            out.append(dict(kind="random", strategy="best1bin" if P != 12 else "best2bin", pop=P, ndim=n, updating=upd, runs=100 * k, maxiter=12, entry=e()))
        for alg in ("pso", "cpso"):
            for P, n, w, c1, c2 in ((24, 3, 0.5, 1.0, 1.5), (6, 12, 0.6, 0.0, 1.5), (10, 20, 0.7298, 1.49618, 1.49618)):
                out.append(dict(kind="pso", alg=alg, pop=P, ndim=n, w=w, c1=c1, c2=c2, updating=upd, runs=40 * k, maxiter=14, entry=e()))
            out.append(dict(kind="pso", alg=alg, pop=6, ndim=2, w=0.5, c1=1.0, c2=1.5, updating=upd, runs=4 * k, maxiter=600, entry=e()))
            for w, c1, c2 in ((0.5, 1.0, 1.5), (0.0, 2.0, 2.0), (0.7298, 1.49618, 1.49618), (0.3, 0.0, 1.0), (0.0, 0.0, 4.0), (0.4, 4.0, 0.5)):
                out.append(dict(kind="pso", alg=alg, pop=(3, 8, 5)[len(out) % 3], ndim=(1, 2, 4)[(len(out) // 3) % 3], w=w, c1=c1, c2=c2, updating=upd, runs=60 * k,
                                maxiter=14, entry=e()))
        out.append(dict(kind="restart", pop=14, ndim=2, updating=upd, runs=150 * k, entry=e()))
        out.append(dict(kind="restart", pop=7, ndim=3, updating=upd, runs=150 * k, entry=e()))
        out.append(dict(kind="restart", pop=40, ndim=2, updating=upd, runs=150 * k, entry=e()))
        out.append(dict(kind="restart", pop=25, ndim=12, updating=upd, runs=100 * k, entry=e()))
    for alg in ("de", "pso", "cpso", "na"):
        for P, n in ((2 if alg != 'de' else 3, 2), (3, 3), (4, 2), (7, 2), (11, 1), (4, 6), (6, 10), (30, 4), (5, 24), (3, 40)):
            out.append(dict(kind="lhs", alg=alg, pop=P, ndim=n, runs=(500 if n < 20 else 150) * k, entry=e()))
    for alg in ("cmaes", "vdcma", "mcmc", "hmc"):
        for n in (1, 3, 8, 20):
            out.append(dict(kind="start", alg=alg, ndim=n, runs=600 * k, entry=e()))
    return out


KIND = dict(de=exp_de, wide=exp_wide, random=exp_random, pso=exp_pso, lhs=exp_lhs, restart=exp_restart, start=exp_start)


def job(a):
    tid, spec = a
    try:
        T = KIND[spec["kind"]](spec)
    except Exception as ex:  # the experiments are valid calls
        return tid, None, type(ex).__name__ + ": " + str(ex)[:200]
    return tid, T.out(tid), None


def run(check):
    base = dict(Machine="cross", P=4, K=2, N=2, A=1, B=2)
    jobs = []
    for P, K in ((3, 2), (4, 3), (5, 4), (6, 2), (6, 5)):
        jobs.append(dict(module="DrawModel", consts=dict(base, Machine="donors", P=P, K=K), invariants=("Distinct", "Fair"), deadlock=False))
    for N, A, B in ((1, 1, 2), (2, 1, 2), (3, 3, 4), (2, 0, 1), (3, 1, 1), (4, 1, 3)) + (((4, 3, 4), (5, 1, 2)) if vlib.THOROUGH else ()):
        jobs.append(dict(module="DrawModel", consts=dict(base, N=N, A=A, B=B), invariants=("Never", "Whole", "WeightsCount", "TotalIs", "Marginals"), deadlock=False))
    jobs.append(dict(module="DrawModel", consts=dict(base, Machine="lhs", P=3, N=2), invariants=("Latin",), deadlock=False))
    for j, r in zip(jobs, vlib.tlc_many(jobs, par=6)):
        if not r.ok:
            raise vlib.MachineryError("design model DrawModel %s\n%s" % (j["consts"], r.out[-2500:]))
        check.add_tlc("DrawModel", r)
    todo = specs()
    traces = []
    for tid, t, err in vlib.pmap(job, list(enumerate(todo))):
        check.count("experiments_" + todo[tid]["kind"])
        check.replayed += todo[tid]["runs"]
        if t is None:
            check.violate("C35.completes", todo[tid], err)
            continue
        check.count("draws", sum(sum(x["c"]) for x in t["tables"]))
        check.count("tables", len(t["tables"]))
        traces.append(t)
    for tid, clauses in vlib.validate(check, "DrawTrace", traces, invariants=("Sane",)).items():
        for cl in clauses:
            check.violate(cl, todo[tid], clauses)
    check.sample(todo[0])
    check.sample(todo[-1])
