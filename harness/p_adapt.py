"""C31-C33: how cmaes and vdcma adapt the distribution they sample from, and the boundary penalty."""
import math

import numpy as np

import cases
import vlib
from p_move import ByOrder, rank_script
from p_pop import brief, replay  # noqa: F401
from record import execute


class Tape:
    """Every standard normal deviate drawn from numpy's global generator, in order."""

    def __init__(self):
        self.z, self.marks = [], []

    def __enter__(self):
        R = np.random
        self.saved = {k: getattr(R, k) for k in ("randn", "standard_normal", "normal")}

        def keep(v):
            self.z.extend(np.ravel(v).tolist())

        def randn(*a):
            v = self.saved["randn"](*a)
            keep(v)
            return v

        def standard_normal(size=None):
            v = self.saved["standard_normal"](size)
            keep(v)
            return v

        def normal(loc=0.0, scale=1.0, size=None):
            v = self.saved["normal"](loc, scale, size)
            with np.errstate(all="ignore"):
                keep((v - np.asarray(loc)) / np.asarray(scale))
            return v
        R.randn, R.standard_normal, R.normal = randn, standard_normal, normal
        return self

    def __exit__(self, *a):
        for k, v in self.saved.items():
            setattr(np.random, k, v)


def fit(Z, X, ok):
    """Rows of the affine map z -> x, every coordinate from the points where it is known (ok)."""
    n = Z.shape[1]
    d = X.shape[1]
    m, A, res = np.full(d, np.nan), np.full((d, n), np.nan), np.zeros(d)
    for j in range(d):
        k = ok[:, j]
        if k.sum() < n + 2:
            return None
        M = np.column_stack([np.ones(k.sum()), Z[k]])
        if np.linalg.cond(M) > 300:
            return None
        sol = np.linalg.lstsq(M, X[k, j], rcond=None)[0]
        m[j], A[j] = sol[0], sol[1:]
        res[j] = np.abs(M @ sol - X[k, j]).max()
    return m, A, res


class Extreme:
    """Values by the size of one deviate: only outliers (or only the middle) of one coordinate are selected."""

    def __init__(self, case, tape):
        self.n, self.pop, self.tape, self.vd = len(case["bounds"]), case["opts"]["popsize"], tape, case["alg"] == "vdcma"
        self.j, self.sign = case["extreme"]
        self.k = 0

    def __call__(self, x, *a):
        g, i = divmod(self.k, self.pop)
        self.k += 1
        if i == 0:
            z = np.array(self.tape.z[-(self.pop * self.n + (self.n if self.vd and g else 0)):])
            if len(z) < self.pop * self.n:  # drawn in some other way
                z = np.random.RandomState(g).standard_normal(self.pop * self.n)
            self.z = z[:self.pop * self.n].reshape(self.pop, self.n)
        return float(-self.sign * abs(self.z[i, self.j]))


def run_case(case):
    """Record, deviates per generation, standardised evaluated points."""
    o = case["opts"]
    n, pop = len(case["bounds"]), o["popsize"]
    tape = Tape()

    def tick(rec, x):
        tape.marks.append(len(tape.z))
    fun = ByOrder(case["script"]) if "script" in case else Extreme(case, tape) if "extreme" in case else None
    with tape:
        rec = execute(case, fun=fun, on_eval=tick)
    return rec, tape


def deviates(case, rec, tape, gens):
    """z[g] (pop, n), extra[g] (n,) for vdcma, v0."""
    o = case["opts"]
    n, pop, vd = len(case["bounds"]), o["popsize"], case["alg"] == "vdcma"
    need = n * vd + gens * pop * n + max(0, gens - 1) * n * vd
    z = np.array(tape.z)
    if len(z) < need:
        # drawn in some other way: the same generator, seeded the same way
        rs = np.random.RandomState(o["seed"])
        if case.get("x0") is None:
            rs.uniform(-1, 1, n)
        z = rs.standard_normal(need)
    out, extra, pos = [], [], 0
    v0 = None
    if vd:
        v0 = z[:n] / math.sqrt(n)
        pos = n
    for g in range(gens):
        out.append(z[pos:pos + pop * n].reshape(pop, n))
        pos += pop * n
        if vd and g > 0:
            extra.append(z[pos:pos + n])
            pos += n
        else:
            extra.append(None)
    return out, extra, v0


def constants(n, pop, muperc):
    mu = max(1, int(muperc * pop))
    w = np.array([math.log(mu + 0.5) - math.log(k) for k in range(1, mu + 1)])
    w = w / w.sum()
    me = 1.0 / float((w * w).sum())
    return mu, w, me


def th(v, cap=10 ** 8):
    """Thousandths, clipped to the integers of the model checker."""
    v = float(v)
    if not math.isfinite(v):
        return cap
    return int(max(-cap, min(cap, round(1000 * v))))


def relres(a, b, tol):
    """Distance in tolerances, in thousandths."""
    s = max(np.abs(b).max(), 1e-300)
    return th(np.abs(np.asarray(a) - b).max() / s / tol)


def observe(case, rec, gens, z, inside=None, skip=()):
    """Per generation: mean, linear map, unclipped standardised points, residual of the fit."""
    o = case["opts"]
    pop = o["popsize"]
    lo = np.array([b[0] for b in case["bounds"]])
    hi = np.array([b[1] for b in case["bounds"]])
    xs = (np.array([e[0] for e in rec.ev]) - 0.5 * (hi + lo)) / (0.5 * (hi - lo))
    out = []
    for g in range(gens):
        X = xs[g * pop:(g + 1) * pop]
        ok = np.ones_like(X, dtype=bool)
        if inside is not None:
            ok = np.abs(X) < inside
        use = np.arange(pop) >= (2 if g in skip else 0)
        f = fit(z[g][use], X[use], ok[use])
        if f is None:
            out.append(None)
            break
        m, A, res = f
        U = np.where(ok, X, m + z[g] @ A.T)
        if g in skip:  # the two injected points are not drawn from z
            U[:2] = X[:2]
        out.append(dict(m=m, A=A, X=X, U=U, ok=ok, S=A @ A.T, res=res))
    return out


class CmaRef:
    """Covariance matrix adaptation as published (Hansen's tutorial), in floating point."""

    def __init__(self, n, pop, muperc, sigma, **k):
        self.n, self.pop = n, pop
        self.mu, self.w, self.me = mu, w, me = constants(n, pop, muperc)
        self.cc = (4 + me / n) / (n + 4 + 2 * me / n)
        self.cs = (me + 2) / (n + me + 5)
        self.c1 = 2 / ((n + 1.3) ** 2 + me)
        self.cmu = min(1 - self.c1, 2 * (me - 2 + 1 / me) / ((n + 2) ** 2 + me))
        self.damps = 1 + 2 * max(0.0, math.sqrt((me - 1) / (n + 1)) - 1) + self.cs
        self.chi = math.sqrt(n) * (1 - 1 / (4 * n) + 1 / (21 * n * n))
        self.C, self.ps, self.pc, self.s = np.eye(n), np.zeros(n), np.zeros(n), float(sigma)
        self.hist, self.ver, self.g = [self.C.copy()], 0, 0
        self.cut = ""
        self.limit = 1e8

    def A(self):
        d, B = np.linalg.eigh(self.hist[self.ver])
        return self.s * B * np.sqrt(d)

    def step(self, m, U, vals):
        """One published update; False when it cannot be told what it is."""
        n, me, cs, cc, c1, cmu = self.n, self.me, self.cs, self.cc, self.c1, self.cmu
        order = np.argsort(vals)[:self.mu]
        self.m1 = self.w @ U[order]
        d, B = np.linalg.eigh(self.hist[self.ver])
        if not np.all(np.isfinite(d)) or d.min() <= 0 or d.max() > self.limit * d.min():
            self.cut = "condition"
            return False
        self.root = (B / np.sqrt(d)) @ B.T
        self.cond = d
        stepv = (self.m1 - m) / self.s
        ps = (1 - cs) * self.ps + math.sqrt(cs * (2 - cs) * me) * (self.root @ stepv)
        lhs = np.linalg.norm(ps) / math.sqrt(1 - (1 - cs) ** (2 * (self.g + 1))) / self.chi
        rhs = 1.4 + 2 / (n + 1)
        if abs(lhs - rhs) < 1e-6:
            self.cut = "borderline"
            return False
        self.hs = hs = bool(lhs < rhs)
        pc = (1 - cc) * self.pc + (math.sqrt(cc * (2 - cc) * me) * stepv if hs else 0)
        self.Y = (U[order] - m) / self.s
        self.was = (self.C, self.ps, self.pc, self.s)
        self.C = (1 - c1 - cmu + (0 if hs else c1 * cc * (2 - cc))) * self.C + c1 * np.outer(pc, pc) + cmu * (self.Y.T * self.w) @ self.Y
        self.s *= math.exp((cs / self.damps) * (np.linalg.norm(ps) / self.chi - 1))
        self.ps, self.pc = ps, pc
        self.g += 1
        self.hist.append(self.C.copy())
        if (self.g - self.ver) * 10 * n * (c1 + cmu) > 1:
            self.ver = self.g
        return True


class VdRef:
    """VD-CMA (Akimoto, Auger, Hansen 2014), in floating point.  While the Fisher matrix needs no
    modification the natural gradient is computed from its definition."""

    def __init__(self, n, pop, muperc, sigma, v0=None, **k):
        self.n, self.pop = n, pop
        self.mu, self.w, self.me = mu, w, me = constants(n, pop, muperc)
        self.cc = (4 + me / n) / (n + 4 + 2 * me / n)
        f = (n - 5) / 6
        self.c1 = f * 2 / ((n + 1.3) ** 2 + me)
        self.cmu = min(1 - self.c1, f * 2 * (me - 2 + 1 / me) / ((n + 2) ** 2 + me))
        self.v, self.d, self.pc = np.array(v0), np.ones(n), np.zeros(n)
        self.ps, self.s, self.g, self.cut = 0.0, float(sigma), 0, ""
        self.fisher = 0

    def shape(self):
        return np.diag(self.d) @ (np.eye(self.n) + np.outer(self.v, self.v)) @ np.diag(self.d)

    def A(self):
        nv2 = self.v @ self.v
        u = self.v / math.sqrt(nv2)
        return self.s * self.d[:, None] * (np.eye(self.n) + (math.sqrt(1 + nv2) - 1) * np.outer(u, u))

    def gradient(self, Y, pc):
        """Natural gradient of the weighted log-likelihood (rank-mu and rank-one together)."""
        n, v, d = self.n, self.v, self.d
        nv2 = v @ v
        nv = math.sqrt(nv2)
        u = v / nv
        uu = u * u
        top = uu.max()
        gam = 1 / math.sqrt(1 + nv2)
        al = math.sqrt(nv2 ** 2 + (1 + nv2) / top * (2 - gam)) / (2 + nv2)
        M = self.cmu * (Y.T * self.w) @ Y
        k = self.cmu
        if pc is not None:
            M = M + self.c1 * np.outer(pc, pc)
            k += self.c1
        if al >= 1 and n <= 12:
            S = self.shape()
            Si = np.linalg.inv(S)
            D = np.diag(d)
            V = np.eye(n) + np.outer(v, v)
            dS = []
            for i in range(n):
                e = np.zeros(n)
                e[i] = 1
                dS.append(D @ (np.outer(e, v) + np.outer(v, e)) @ D)
            for i in range(n):
                E = np.zeros((n, n))
                E[i, i] = 1
                dS.append(E @ V @ D + D @ V @ E)
            P = [Si @ x for x in dS]
            F = np.array([[0.5 * (a * b.T).sum() for b in P] for a in P])
            if np.linalg.cond(F) < 1e6:
                G = np.array([0.5 * np.trace(a @ Si @ (M - k * S)) for a in P])
                N = np.linalg.solve(F, G)
                self.fisher += 1
                return N[:n], N[n:]
        if al < 1:
            be = (4 - (2 - gam) / top) / (1 + 2 / nv2) ** 2
        else:
            al, be = 1.0, 0.0
        b = 2 * al * al - be
        av = 2 - (b + 2 * al * al) * uu
        R = M / np.outer(d, d)
        yu = R @ u                         # E[y <y,u>]
        q = yu - 0.5 * (u @ R @ u + k * (1 + nv2)) * u
        p = np.diag(R) - nv2 / (1 + nv2) * yu * u - k
        r = p - al / (1 + nv2) * ((2 + nv2) * q * u - nv2 * (u @ q) * uu)
        ia = uu / av
        s = r / av - b * (r @ ia) / (1 + b * (uu @ ia)) * ia
        return q / nv - al / nv * ((2 + nv2) * u * s - (s @ uu) * u), d * s

    def step(self, m, U, vals):
        n, pop = self.n, self.pop
        order = np.argsort(vals)
        par = order[:self.mu]
        self.m1 = self.w @ U[par]
        Y = (U[par] - m) / self.s
        self.was = (self.ps, self.s, self.pc, self.v, self.d)
        on = True
        if self.g:
            pos = np.argsort(order)
            self.ps += 0.3 * ((pos[1] - pos[0]) / (pop - 1) - self.ps)
            self.s *= math.exp(self.ps / math.sqrt(n))
            if abs(self.ps - 0.5) < 1e-9:
                self.cut = "borderline"
                return False
            on = self.ps < 0.5
        self.on = on
        self.pc = (1 - self.cc) * self.pc + (math.sqrt(self.cc * (2 - self.cc) * self.me) * (self.w @ Y) if on else 0)
        if self.cmu + self.c1 > 0:
            gv, gd = self.gradient(Y, self.pc if on else None)
            f = min(1.0, 0.7 * np.linalg.norm(self.v) / np.linalg.norm(gv), 0.7 * float((self.d / np.abs(gd)).min()))
            self.f = f
            self.v = self.v + f * gv
            self.d = self.d + f * gd
        self.g += 1
        return True


# --------------------------------------------------------------------------- C31

def gen_cma(i):
    r = vlib.rng("C31", i)
    kind = ("small", "small", "mid", "few", "lag", "mid", "wide", "small", "few", "huge", "mid", "small", "lag", "few", "wide", "mid")[i % 16]
    if i % 100 == 77:
        kind = "old"
    if kind == "huge":
        # so many parents that the rank-mu rate is capped
        n = r.choice([1, 1, 2, 2, 3])
        pop = r.choice([70, 100, 140]) * n
        muperc = r.choice([0.5, 1.0, 0.7])
        mi = r.choice([3, 4])
    elif kind == "few":
        # fewer points than would show the distribution without knowing it: the usual choice in many dimensions
        n = r.choice([1, 2, 3, 5, 8, 12, 20, 26])
        pop = min(r.choice([1, 2, 2, 3, 4, 5, 6, 8, 10, 12]), n + 2)
        muperc = r.choice([0.5, 0.5, 0.25, 1.0, 0.7])
        mi = r.choice([3, 4, 6, 10, 14])
    elif kind == "lag":
        n = r.randint(19, 24)
        pop = n + r.randint(6, 12)
        muperc = r.choice([1.0, 1.5, 2.2]) / pop
        mi = r.choice([5, 6, 7])
    else:
        n = r.choice([1, 2, 2, 3, 3]) if kind in ("small", "old") else r.choice([4, 5, 6, 8])
        pop = n + r.randint(3, 8) if kind != "wide" else r.choice([24, 40])
        if kind in ("small", "old"):
            pop = max(pop, 5)
        muperc = r.choice([0.5, 0.5, 0.25, 1.0, 0.34, round(r.uniform(0.1, 1.0), 2)])
        mi = r.choice([3, 4, 6, 8, 10]) if kind != "old" else r.choice([60, 120, 180, 240])
    bounds = [[a, a + 10 ** r.uniform(-1, 2)] for a in (r.uniform(-10, 10) for _ in range(n))]
    o = dict(popsize=pop, maxiter=mi, sigma=r.choice([0.1, 0.3, 0.05, 1.0, round(r.uniform(0.02, 0.6), 3)]),
             muperc=muperc, seed=r.randrange(2 ** 31), ftol=-math.inf, xtol=-1.0, constraints=None)
    if r.random() < 0.15:
        o["backend"] = "mpi"
    case = dict(alg="cmaes", kind=kind, bounds=bounds, opts=o, entry=r.choice(["direct", "minimize"]),
                x0form=r.choice(["array", "list"]), obj=dict(kind="pos"))
    if r.random() < 0.8 or kind == "few":
        far = r.random() < 0.2   # nothing confines the mean
        case["x0"] = [lo + (hi - lo) * (r.uniform(-1.0, 2.0) if far else r.uniform(0.1, 0.9)) for lo, hi in bounds]
    style = r.random()
    if kind == "wide" and style < 0.6:
        case["extreme"] = [r.randrange(n), r.choice([1, 1, -1])]
    elif style < 0.5 or kind == "old":
        case["script"] = rank_script(r, pop * mi, *(["random"] if kind == "old" else []))
    else:
        # the best are where a linear or a quadratic function says: long paths, elongated shapes
        case["obj"] = dict(kind="linear", s=r.choice([1.0, -1.0])) if style < 0.75 else dict(kind="quad", c=r.uniform(-5, 5))
    return case


def few_points(case, rec, gens):
    lo = np.array([b[0] for b in case["bounds"]])
    hi = np.array([b[1] for b in case["bounds"]])
    xs = (np.array([e[0] for e in rec.ev]) - 0.5 * (hi + lo)) / (0.5 * (hi - lo))
    floor = 1e-12 * (1 + np.abs(xs).max() + max(abs(b[0] + b[1]) / (b[1] - b[0]) for b in case["bounds"]))
    return xs.reshape(gens, case["opts"]["popsize"], -1), (np.array(case["x0"]) - 0.5 * (hi + lo)) / (0.5 * (hi - lo)), floor


def gram(X, m, s, S, z, floor):
    """How far the points are from having the scalar products, in the metric of the published distribution, of the
    deviates they were made from (whatever root of the matrix made them)."""
    if not len(X):
        return 0
    try:
        d, B = np.linalg.eigh(S)
    except np.linalg.LinAlgError:
        return 10 ** 8
    if d.min() <= 0:
        return 10 ** 8
    y = ((X - m) / s) @ (B / np.sqrt(d))
    tol = 1e-6 * max(1.0, math.sqrt(d.max() / d.min()) / 100) + 100 * floor / (s * math.sqrt(d.min()))
    return relres(y @ y.T, z @ z.T, tol)


def few_cma(case, tid, rec, gens, z, ref):
    """The published update followed from x0 on, compared with populations too small to show the distribution."""
    n, pop, o = ref.n, ref.pop, case["opts"]
    X, m, floor = few_points(case, rec, gens)
    ref.limit = 1e6
    G, cut = [], ""
    lag = 1 / (10 * n * (ref.c1 + ref.cmu))
    if abs(lag - round(lag)) < 1e-3 and lag > 0.5:
        return dict(tid=tid, skip=True), None
    for g in range(gens):
        vals = [e[1] for e in rec.ev[g * pop:(g + 1) * pop]]
        if len(set(vals)) < pop:
            cut = "ties"
            break
        rk = np.argsort(np.argsort(vals)) + 1
        G.append(dict(rank=[int(v) for v in rk], affine=0, mean=0, start=0, hs=False, law=False, y=[], C=[], N=[], W=[], dm=[],
                      res=[gram(X[g], m, ref.s, H, z[g], floor) for H in ref.hist], ps=[], pc=[]))
        if not ref.step(m, X[g], vals) or np.linalg.cond(ref.C) > 1e6 or ref.s > 1e6 or ref.s < 1e-6:
            cut = ref.cut or "condition"
            break
        m = ref.m1
    if not G:
        return dict(tid=tid, skip=True, loud=cut), None
    return dict(tid=tid, alg="cmaes", kind="few", n=n, pop=pop, mu=ref.mu, me=int(round(100 * ref.me)),
                w=[int(round(1e4 * v)) for v in ref.w], chi=th(ref.chi), rate=int(round(1e6 * (ref.c1 + ref.cmu))), g=G, cut=cut), None


def trace_cma(job):
    case, tid = job
    o = case["opts"]
    n, pop = len(case["bounds"]), o["popsize"]
    rec, tape = run_case(case)
    if rec.exc:
        return None, rec.exc
    gens = len(rec.ev) // pop
    if gens * pop != len(rec.ev) or (gens < o["maxiter"] and rec.res.status > -2):
        return None, "evaluations: %d" % len(rec.ev)
    if not all(np.all(np.isfinite(e[0])) and math.isfinite(e[1]) for e in rec.ev):
        return None, "not finite"
    z, _, _ = deviates(case, rec, tape, gens)
    ref = CmaRef(n, pop, o["muperc"], o["sigma"])
    if case["kind"] == "few":
        return few_cma(case, tid, rec, gens, z, ref)
    obs = observe(case, rec, gens, z)
    mu, w, me = ref.mu, ref.w, ref.me
    coarse = n <= 3 and pop <= 16
    G = []
    cut = None
    for g in range(gens):
        q = obs[g] if g < len(obs) else None
        if q is None:
            cut = "fit"
            break
        vals = [e[1] for e in rec.ev[g * pop:(g + 1) * pop]]
        rk = np.argsort(np.argsort(vals, kind="stable"), kind="stable") + 1
        if len(set(vals)) < pop:
            cut = "ties"
            break
        rec_g = dict(rank=[int(v) for v in rk])
        sd = math.sqrt(max(np.diag(q["S"]).max(), 1e-300))
        floor = 1e-12 * (1 + np.abs(q["X"]).max() + max(abs(b[0] + b[1]) / (b[1] - b[0]) for b in case["bounds"]))
        rec_g["affine"] = th(q["res"].max() / (1e-7 * sd + floor))
        rec_g["res"] = [relres(q["S"] / ref.s ** 2, H, 1e-6 + 100 * floor / sd) for H in ref.hist]
        order = np.argsort(vals)[:mu]
        m1 = w @ q["X"][order]
        nxt = obs[g + 1] if g + 1 < len(obs) else None
        rec_g["mean"] = th(np.abs(nxt["m"] - m1).max() / (1e-6 * sd + 100 * floor)) if nxt is not None else 0
        if g == 0 and case.get("x0") is not None:
            lo = np.array([b[0] for b in case["bounds"]])
            hi = np.array([b[1] for b in case["bounds"]])
            x0 = (np.array(case["x0"]) - 0.5 * (hi + lo)) / (0.5 * (hi - lo))
            rec_g["start"] = th(np.abs(q["m"] - x0).max() / (1e-6 * sd + 100 * floor))
        else:
            rec_g["start"] = 0
        lawful = ref.ver == g
        C, ps, pc, s = ref.C, ref.ps, ref.pc, ref.s
        if not ref.step(q["m"], q["X"], vals):
            cut = ref.cut
            G.append(rec_g)
            break
        rec_g["hs"] = ref.hs
        big = max(np.abs(C).max(), np.abs(ref.C).max(), np.abs(ref.Y).max() ** 2, (ref.s / s) ** 2 * np.abs(ref.C).max())
        rec_g["law"] = bool(coarse and nxt is not None and big < 40 and lawful and ref.cond.min() > 0.05 and abs(math.log(ref.s / s)) < 0.9)
        if rec_g["law"]:
            f = lambda M: [[th(v) for v in row] for row in M]
            rec_g.update(y=f((q["X"] - q["m"]) / s), C=f(q["S"] / s ** 2), N=f(nxt["S"] / s ** 2), W=f(ref.root),
                         dm=[th(v) for v in (nxt["m"] - q["m"]) / s])
        else:
            rec_g.update(y=[], C=[], N=[], W=[], dm=[])
        rec_g.update(ps=[th(v) for v in ps], pc=[th(v) for v in pc])
        G.append(rec_g)
    lag = 1 / (10 * n * (ref.c1 + ref.cmu))
    if abs(lag - round(lag)) < 1e-3 and lag > 0.5:
        return dict(tid=tid, skip=True), None
    if not G:
        return dict(tid=tid, skip=True, loud=cut), None
    return dict(tid=tid, alg="cmaes", kind=case["kind"], n=n, pop=pop, mu=mu, me=int(round(100 * me)),
                w=[int(round(1e4 * v)) for v in w], chi=th(ref.chi), rate=int(round(1e6 * (ref.c1 + ref.cmu))), g=G, cut=cut or ""), None


# --------------------------------------------------------------------------- C32

def gen_bnd(i):
    r = vlib.rng("C32", i)
    alg = r.choice(["cmaes", "cmaes", "vdcma"])
    n = r.choice([1, 2, 2, 3, 4]) if alg == "cmaes" else r.choice([1, 2, 3, 6])
    pop = r.choice([12, 16, 24, 40]) + (2 * n if alg == "vdcma" else 0)
    mi = r.choice([4, 6, 10, 16, 30]) if i % 100 != 77 else r.choice([60, 90, 130])
    bounds = [[a, a + 10 ** r.uniform(-1, 2)] for a in (r.uniform(-10, 10) for _ in range(n))]
    o = dict(popsize=pop, maxiter=mi, sigma=r.choice([0.3, 0.1, 0.05, 0.02, 0.5]), muperc=r.choice([0.5, 0.5, 1.0, 0.25]),
             seed=r.randrange(2 ** 31), ftol=-math.inf, xtol=-1.0, constraints="Penalize", return_all=True, verbosity=1.0)
    case = dict(alg=alg, bounds=bounds, opts=o, entry=r.choice(["direct", "minimize"]), x0form="array")
    lo = [b[0] for b in bounds]
    w = [b[1] - b[0] for b in bounds]
    where = r.choice(["face", "near", "inside", "outside", "none"])
    # positions as fractions of the box; outside is allowed: the mean is free, the evaluated points are repaired
    if where == "face":
        case["bounds"] = bounds = [[float(round(a)), round(a) + float(r.choice([1, 2, 4, 10, 64]))] for a in lo]
        lo = [b[0] for b in bounds]
        w = [b[1] - b[0] for b in bounds]
    q = {"face": lambda: r.choice([0.0, 1.0, 0.5]), "near": lambda: r.choice([0.02, 0.98, 0.05]), "inside": lambda: r.uniform(0.2, 0.8),
         "outside": lambda: r.choice([-0.03, 1.02, 0.9]), "none": None}[where]
    if q:
        case["x0"] = [a + s * q() for a, s in zip(lo, w)]
    case["where"] = where
    k = r.choice(["linear", "linear", "aniso", "random", "flat", "first", "outward", "outward"])
    if k == "outward":
        n = r.choice([1, 2, 3])
        bounds, w = bounds[:n], w[:n]
        case["bounds"] = bounds
        o["muperc"] = r.choice([0.1, 0.15, 0.2])
        o["sigma"] = r.choice([0.05, 0.02, 0.3])
        if "x0" in case:
            case["x0"] = case["x0"][:n]
        if r.random() < 0.35:
            # inside for longer than the history is long, then out
            case["start"] = r.randint(20, 32)
            o.update(maxiter=case["start"] + r.choice([4, 8]), sigma=0.05)
            case["x0"] = [a + s * r.uniform(0.4, 0.6) for a, s in zip(lo, w)]
            o["popsize"] = max(pop, 24)
            if n == 3 and alg == "cmaes" and r.random() < 0.6:
                # the history is longer for small populations
                o.update(popsize=8, sigma=r.choice([0.1, 0.15, 0.2]), maxiter=case["start"] + 14)
        elif r.random() < 0.7:
            k0 = r.randrange(n)
            case["x0"] = [a + s * (r.choice([1 + 4 * o["sigma"], -4 * o["sigma"]]) if j == k0 else r.uniform(0.3, 0.7))
                          for j, (a, s) in enumerate(zip(lo, w))]
    case["push"] = k
    case["dir"] = [r.choice([-1.0, 1.0, 1.0, 0.0]) * 10 ** r.uniform(-1, 1) / s for s in w]
    case["obj"] = dict(kind="pos")
    # raw values by number of the evaluation where they do not depend on the point
    if k in ("random", "flat", "first"):
        m = pop * mi
        if k == "random":
            case["script"] = [r.uniform(0, 10) for _ in range(m)]
        elif k == "flat":   # several generations without any spread
            case["script"] = [float(j // pop % 3 == 1) * r.random() + 1.0 for j in range(m)]
        else:
            case["script"] = [0.0 if j < 2 * pop else r.random() for j in range(m)]
    return case


class Pushed:
    """Linear objective that drives the search against the bounds, with a small smooth perturbation."""

    def __init__(self, case):
        self.d = np.array(case["dir"])
        self.k = case["push"]
        b = np.array(case["bounds"])
        self.c, self.h = b.mean(axis=1), 0.5 * (b[:, 1] - b[:, 0])

    def __call__(self, x, *a):
        u = (x - self.c) / self.h
        v = float(np.dot(self.d, x - self.c))
        if self.k == "aniso":
            v += float(np.dot(np.arange(1, len(u) + 1) * 0.3, u * u))
        return v + 1e-3 * float(np.sin(37.0 * u).sum())


class Outward:
    """Values that depend on the deviates behind the point: the few farthest along a direction are far better
    than the others, whatever the penalty (the interquartile range is that of the others)."""

    def __init__(self, case, tape, r):
        self.n, self.pop, self.tape, self.vd = len(case["bounds"]), case["opts"]["popsize"], tape, case["alg"] == "vdcma"
        self.dir = np.array([r.choice([-1.0, 1.0]) for _ in range(self.n)])
        if case.get("x0") is not None:
            x = np.array(case["x0"])
            b = np.array(case["bounds"])
            self.dir = np.where(x > b[:, 1], 1.0, np.where(x < b[:, 0], -1.0, self.dir * 0.1))
        self.r, self.k, self.stay = r, 0, r.randint(1, 40)
        self.start = case.get("start", 0)

    def __call__(self, x, *a):
        g, i = divmod(self.k, self.pop)
        self.k += 1
        if i == 0:
            z = np.array(self.tape.z[-(self.pop * self.n + (self.n if self.vd and g else 0)):])[:self.pop * self.n].reshape(self.pop, self.n)
            s = z @ self.dir * (1 if g < self.stay else -1)
            if self.vd and g:
                s[:2] = -1e9
            self.rank = np.argsort(np.argsort(-s))
        v = self.r.random()
        if g < self.start:  # at first the values say nothing, and their spread changes all the time
            return v * self.r.choice([1, 2, 5]) * 1.15 ** (g % 17)
        m = max(1, int(0.2 * self.pop))
        return v - 1e7 * (m - self.rank[i]) * (1 + 0.01 * v) if self.rank[i] < m else v


def iqr(v):
    s = sorted(float(a) for a in v)

    def at(q):
        p = q * (len(s) - 1)
        k = min(int(math.floor(p)), len(s) - 2)
        return s[k] + (s[k + 1] - s[k]) * (p - k)
    return at(0.75) - at(0.25)


def trace_bnd(job):
    case, tid = job
    o = case["opts"]
    n, pop, vd = len(case["bounds"]), o["popsize"], case["alg"] == "vdcma"
    tape = Tape()

    def tick(rec, x):
        tape.marks.append(len(tape.z))
    fun = ByOrder(case["script"]) if "script" in case else Outward(case, tape, vlib.rng("outward", o["seed"])) \
        if case["push"] == "outward" else Pushed(case)
    with tape:
        rec = execute(case, fun=fun, on_eval=tick)
    if rec.exc:
        return None, rec.exc
    gens = len(rec.ev) // pop
    if gens * pop != len(rec.ev) or (gens < o["maxiter"] and rec.res.status > -2):
        return None, "evaluations: %d" % len(rec.ev)
    fa = np.asarray(rec.res.get("funall"))
    if fa.shape != (gens, pop):
        return None, "funall has shape %s" % (fa.shape,)
    z, extra, v0 = deviates(case, rec, tape, gens)
    # the published adaptation, for the generations that are out of the box too far to be fitted
    ref = (VdRef if vd else CmaRef)(n, pop, o["muperc"], o["sigma"], v0=v0)
    mu, w, me = ref.mu, ref.w, ref.me
    lo = np.array([b[0] for b in case["bounds"]])
    hi = np.array([b[1] for b in case["bounds"]])
    xs = (np.array([e[0] for e in rec.ev]) - 0.5 * (hi + lo)) / (0.5 * (hi - lo))

    def view(g):
        """Mean, map and unclipped points of a generation: fitted, or predicted where everything is clipped."""
        X = xs[g * pop:(g + 1) * pop]
        ok = np.abs(X) < 1 - 1e-9
        use = np.arange(pop) >= (2 if vd and g else 0)
        f = fit(z[g][use], X[use], ok[use])
        if f is not None:
            m, A, res = f
            how = "fit"
        elif trust:
            m, A = (ref.m1 if g else m0), ref.A()
            if m is None:
                return None
            P = m + z[g] @ A.T
            k = ok & use[:, None]
            res = np.array([np.abs(P - X)[k].max() if k.any() else 0.0])
            how = "predicted"
            if res.max() > 1e-7 * math.sqrt(np.diag(A @ A.T).max()) + 1e-10:
                return None
        else:
            return None
        U = np.where(ok, X, m + z[g] @ A.T)
        if vd and g:
            U[:2] = X[:2]
        return dict(m=m, A=A, X=X, U=U, ok=ok, S=A @ A.T, res=res, how=how)

    m0 = None if case.get("x0") is None else (np.array(case["x0"]) - 0.5 * (hi + lo)) / (0.5 * (hi - lo))
    trust = True
    G, cut, prev, late = [], "", None, None
    whole = np.all(np.abs(lo) < 1e6) and np.all(lo == np.floor(lo)) and np.all(hi == np.floor(hi))
    for g in range(gens):
        q = view(g)
        if q is None:
            cut = "fit"
            break
        if late is not None:
            G[-1]["mean"] = th(np.abs(q["m"] - late[0]).max() / late[1])
        late = None
        if q["how"] == "fit" and trust:
            trust = relres(q["S"], ref.A() @ ref.A().T, 1e-5) <= 1000
        d = np.diag(q["S"])
        sd = math.sqrt(d.max())
        if not sd > 1e-7 or d.min() < 1e-10 * d.max() or not np.all(np.isfinite(q["S"])):
            cut = "size"
            break
        if q["res"].max() > 1e-8 * sd + 1e-11:
            cut = "affine"  # judged by C31 and C33
            break
        m = q["m"]
        if g == 0:
            if m0 is not None:
                m = m0
            shift = np.zeros(n)
        else:
            shift = m - prev["m"]
        if vd and g > 0:
            try:
                c = np.linalg.norm(extra[g]) / math.sqrt(shift @ np.linalg.solve(q["S"], shift))
            except np.linalg.LinAlgError:
                cut = "inject"
                break
            q["U"][0], q["U"][1] = m + c * shift, m - c * shift
        raw = np.array([float(e[1]) for e in rec.ev[g * pop:(g + 1) * pop]])
        pen = fa[g] - raw
        V = np.clip(q["U"], -1, 1)
        Q = (V - q["U"]) ** 2
        scale = np.exp(0.9 * (np.log(d) - np.log(d).mean()))
        # repaired: every evaluated point is the candidate moved onto the box
        repaired = np.abs(V - q["X"]).max() / (1e-6 * sd + 1e-9)
        delta = iqr(raw) / n / d.mean()
        far = 3 * max(1.0, math.sqrt(n / me)) * np.sqrt(d)
        over = np.where(m < -1, m + 1, np.where(m > 1, m - 1, 0.0))
        out = np.sign(over).astype(int)
        grow = (out != 0) & (np.abs(over) > far) & (np.sign(over) == np.sign(shift))
        edge = np.any((np.abs(np.abs(m) - 1) < 1e-9) & (g > 0)) or np.any((out != 0) & (np.abs(np.abs(over) - far) < 1e-6 * far)) \
            or np.any((out != 0) & (np.abs(shift) < 1e-9 * sd) & (g > 0))
        # which side of a face a mean that starts on it is on is rounding, unless the box is one of small integers
        if not g and not whole and np.any(np.abs(np.abs(m) - 1) < 1e-9):
            edge = True
        if edge:
            cut = "borderline"
            break
        # the weights behind the penalties, where they show
        wt, resid = [-1.0] * n, 0.0
        cols = [j for j in range(n) if Q[:, j].max() > 1e-12 * max(Q.max(), 1e-300)]
        big = max(np.abs(raw).max(), np.abs(fa[g]).max())
        if cols:
            nq = np.sqrt((Q[:, cols] ** 2).sum(axis=0))
            M = Q[:, cols] / nq
            if len(cols) <= pop - 2 and np.linalg.cond(M) < 1e3:
                sol = np.linalg.lstsq(M, pen, rcond=None)[0]
                noise = 1e-13 * big + 1e-9 * np.abs(pen).max()
                resid = np.abs(M @ sol - pen).max() / (1e-5 * np.abs(pen).max() + 1e-12 * big + 1e-300)
                for c, j in enumerate(cols):
                    known = noise / nq[c] < 1e-5 * abs(sol[c] / nq[c]) or np.abs(pen).max() == 0
                    if known and nq[c] > 1e-8 * nq.max():
                        wt[j] = sol[c] / nq[c] * scale[j]
        else:
            resid = np.abs(pen).max() / (1e-12 * big + 1e-300)
        vals = fa[g]
        G.append(dict(delta=delta, out=[int(v) for v in out], grow=[bool(v) for v in grow], wt=wt,
                      linear=th(resid), repaired=th(repaired), mean=0, how=q["how"]))
        prev = q
        prev["m"] = m
        gap = np.diff(np.sort(vals)).min() if pop > 1 else 1.0
        if gap > 1e-9 * (np.abs(vals).max() if case["push"] != "outward" else 1.0) and np.all(np.isfinite(q["U"])) and trust:
            if not ref.step(m, q["U"], vals):
                trust = False
            else:
                late = (ref.m1, 1e-6 * sd + 1e-9)
        else:
            trust = False
    late = None
    if not G:
        return dict(tid=tid, skip=True, loud=cut), None
    # the unit is that of the deltas the weights are made from (the history no longer matters once they are set)
    last = next((k for k, g in enumerate(G) if k >= 2 and any(g["out"])), len(G) - 1)
    top = max([g["delta"] for g in G[:last + 1]] + [0])
    seen = next((k for k, g in enumerate(G) if g["delta"] > 0), None)
    if seen != 0:
        top = max(top, 1.0)  # until a generation shows some spread the history is the number one
    unit = top / 1e6
    one = 1.0 / unit
    cap = 10 ** 8
    grown = [False] * n
    for g in G:
        g["delta"] = 0 if g["delta"] == 0 else max(1, int(round(min(g["delta"] / unit, cap))))
        wt = g.pop("wt")
        # small numbers that have been multiplied are too coarse to be compared
        g["w"] = [-1 if v == -1.0 or v / unit > cap or 0 < v / unit < (10000 if grown[j] else 2000) else int(round(v / unit)) for j, v in enumerate(wt)]
        grown = [a or b for a, b in zip(grown, g["grow"])]
    return dict(tid=tid, alg=case["alg"], kind=case["push"], n=n, pop=pop, one=max(1, min(int(round(one)), 10 ** 8)), top=cap,
                f=int(round(1e4 * 1.2 ** min(1.0, me / 10 / n))), g=G, cut=cut), None


# --------------------------------------------------------------------------- C33

def gen_vd(i):
    r = vlib.rng("C33", i)
    kind = ("fixed", "shape", "shape", "wide", "extreme", "few")[i % 6]
    if i % 100 == 77:
        kind = "old"
    n = {"few": r.choice([1, 2, 4, 5, 6, 8, 10, 20]), "old": r.choice([1, 2, 3, 6]), "fixed": r.choice([1, 2, 3, 4, 5]), "shape": r.choice([6, 7, 8, 10]), "wide": r.choice([6, 9, 12, 16]), "extreme": r.choice([8, 10, 12])}[kind]
    pop = n + r.randint(6, 12) if kind in ("fixed", "shape", "old") else 2 * n + r.choice([10, 20, 40]) if kind == "wide" else r.choice([200, 300, 400])
    mi = r.choice([3, 4, 6, 8, 12]) if kind != "old" else r.choice([60, 120, 180, 240])
    if kind == "few":
        pop = min(r.choice([2, 2, 3, 4, 5, 6, 8, 10]), n + 3)
    bounds = [[a, a + 10 ** r.uniform(-1, 2)] for a in (r.uniform(-10, 10) for _ in range(n))]
    o = dict(popsize=pop, maxiter=mi, sigma=r.choice([0.1, 0.3, 0.05, 1.0, round(r.uniform(0.02, 0.6), 3)]),
             muperc=r.choice([0.5, 0.5, 0.25, 1.0, 0.34, 0.02, round(r.uniform(0.1, 1.0), 2)]),
             seed=r.randrange(2 ** 31), ftol=-math.inf, xtol=-1.0, constraints=None)
    if r.random() < 0.15:
        o["backend"] = "mpi"
    case = dict(alg="vdcma", kind=kind, bounds=bounds, opts=o, entry=r.choice(["direct", "minimize"]),
                x0form=r.choice(["array", "list"]), obj=dict(kind="pos"))
    if r.random() < 0.8 or kind == "few":
        far = r.random() < 0.2   # nothing confines the mean
        case["x0"] = [lo + (hi - lo) * (r.uniform(-1.0, 2.0) if far else r.uniform(0.1, 0.9)) for lo, hi in bounds]
    style = r.random()
    if kind == "extreme":
        o["maxiter"] = min(mi, 5)
        o["muperc"] = r.choice([0.2, 0.25, 0.3])
        case["extreme"] = [r.randrange(n), r.choice([1, 1, -1])]
    elif style < 0.4 or kind == "old":
        case["script"] = rank_script(r, pop * mi, *(["random"] if kind == "old" else []))
    elif style < 0.55:
        # the forward (or the backward) point always wins: the step size keeps growing (shrinking)
        case["script"] = rank_script(r, pop * mi, "random")
        hi = len(case["script"])
        f = r.choice([0, 1])
        for g in range(mi):
            case["script"][g * pop + f], case["script"][g * pop + 1 - f] = -1.0 - g, hi + 1.0 + g
    else:
        case["obj"] = dict(kind="linear", s=r.choice([1.0, -1.0])) if style < 0.75 else dict(kind="quad", c=r.uniform(-5, 5))
    return case


def few_vd(case, tid, rec, gens, z, extra, ref):
    n, pop = ref.n, ref.pop
    X, m, floor = few_points(case, rec, gens)
    G, cut, old = [], "", None
    for g in range(gens):
        vals = [e[1] for e in rec.ev[g * pop:(g + 1) * pop]]
        if len(set(vals)) < pop:
            cut = "ties"
            break
        S, k = ref.shape(), 2 if g else 0
        sd = ref.s * math.sqrt(np.diag(S).max())
        e = dict(rank=[int(v) for v in (np.argsort(np.argsort(vals)) + 1)[:2]], affine=0, mean=0, start=0, mirror=0, along=0, length=0,
                 size=0, same=0, shape=gram(X[g][k:], m, ref.s, S, z[g][k:], floor))
        if g:
            a, b = X[g][0] - m, X[g][1] - m
            e["mirror"] = th(np.abs(a + b).max() / (1e-6 * sd + 100 * floor))
            shift = m - old
            ns, na = np.linalg.norm(shift), np.linalg.norm(a)
            if ns < 1e4 * floor or na < 1e4 * floor:
                cut = "shift"
                break
            e["along"] = th(np.linalg.norm(a / na - shift / ns) / (1e-6 + 100 * floor / ns + 100 * floor / na))
            e["length"] = th(abs(math.sqrt(a @ np.linalg.solve(S, a)) / ref.s / np.linalg.norm(extra[g]) - 1) / (1e-5 + 1e4 * floor / na))
        G.append(e)
        if not ref.step(m, X[g], vals):
            cut = ref.cut
            break
        old, m = m, ref.m1
        if not (np.all(np.isfinite(ref.v)) and np.all(np.isfinite(ref.d)) and ref.d.min() > 1e-2 * ref.d.max() and np.linalg.norm(ref.v) < 1e2
                and 1e-6 < ref.s < 1e6):
            cut = "condition"
            break
    if not G:
        return dict(tid=tid, skip=True, loud=cut), None
    return dict(tid=tid, alg="vdcma", kind="few", n=n, pop=pop, root=int(round(1000 * math.sqrt(n))), g=G, cut=cut, fisher=ref.fisher), None


def trace_vd(job):
    case, tid = job
    o = case["opts"]
    n, pop = len(case["bounds"]), o["popsize"]
    rec, tape = run_case(case)
    if rec.exc:
        return None, rec.exc
    gens = len(rec.ev) // pop
    if gens * pop != len(rec.ev) or (gens < o["maxiter"] and rec.res.status > -2):
        return None, "evaluations: %d" % len(rec.ev)
    if not all(np.all(np.isfinite(e[0])) and math.isfinite(e[1]) for e in rec.ev):
        return None, "not finite"
    z, extra, v0 = deviates(case, rec, tape, gens)
    if case["kind"] == "few":
        return few_vd(case, tid, rec, gens, z, extra, VdRef(n, pop, o["muperc"], o["sigma"], v0=v0))
    obs = observe(case, rec, gens, z, skip=range(1, gens))
    ref = VdRef(n, pop, o["muperc"], o["sigma"], v0=v0)
    lo = np.array([b[0] for b in case["bounds"]])
    hi = np.array([b[1] for b in case["bounds"]])
    off = max(abs(b[0] + b[1]) / (b[1] - b[0]) for b in case["bounds"])
    G, cut = [], ""
    for g in range(gens):
        q = obs[g] if g < len(obs) else None
        if q is None:
            cut = "fit"
            break
        vals = [e[1] for e in rec.ev[g * pop:(g + 1) * pop]]
        if len(set(vals)) < pop:
            cut = "ties"
            break
        sd = math.sqrt(max(np.diag(q["S"]).max(), 1e-300))
        floor = 1e-12 * (1 + np.abs(q["X"]).max() + off)
        rk = np.argsort(np.argsort(vals)) + 1
        e = dict(rank=[int(v) for v in rk[:2]], affine=th(q["res"].max() / (1e-7 * sd + floor)),
                 shape=relres(q["S"] / ref.s ** 2, ref.shape(), 1e-6 + 100 * floor / sd), mean=0, start=0,
                 mirror=0, along=0, length=0, size=0, same=0)
        if g == 0 and case.get("x0") is not None:
            x0 = (np.array(case["x0"]) - 0.5 * (hi + lo)) / (0.5 * (hi - lo))
            e["start"] = th(np.abs(q["m"] - x0).max() / (1e-6 * sd + 100 * floor))
        if g:
            p = obs[g - 1]
            e["mean"] = th(np.abs(q["m"] - ref.m1).max() / (1e-6 * sd + 100 * floor))
            shift = q["m"] - p["m"]
            a, b = q["X"][0] - q["m"], q["X"][1] - q["m"]
            e["mirror"] = th(np.abs(a + b).max() / (1e-6 * sd + 100 * floor))
            ns, na = np.linalg.norm(shift), np.linalg.norm(a)
            if ns > 1e4 * floor and na > 1e4 * floor:
                e["along"] = th(np.linalg.norm(a / na - shift / ns) / (1e-6 + 100 * floor / ns + 100 * floor / na))
                if np.linalg.cond(q["S"]) < 1e8:
                    # length in the metric of the distribution: that of a standard normal vector
                    e["length"] = th(abs(math.sqrt(a @ np.linalg.solve(q["S"], a)) / np.linalg.norm(extra[g]) - 1) / (1e-5 + 1e4 * floor / na))
            else:
                cut = "shift"
                break
            r = math.sqrt(np.trace(q["S"]) / np.trace(p["S"]))
            e["size"] = int(max(-10 ** 6, min(10 ** 6, round(1e4 * math.log(r)))))
            e["same"] = relres(q["S"] / r ** 2, p["S"], 1e-6 + 100 * floor / sd)
        G.append(e)
        if not ref.step(q["m"], q["X"], vals):
            cut = ref.cut
            break
        if not (np.all(np.isfinite(ref.v)) and np.all(np.isfinite(ref.d)) and ref.d.min() > 1e-4 * ref.d.max() and np.linalg.norm(ref.v) < 1e3):
            cut = "condition"
            break
    if not G:
        return dict(tid=tid, skip=True, loud=cut), None
    return dict(tid=tid, alg="vdcma", kind=case["kind"], n=n, pop=pop, root=int(round(1000 * math.sqrt(n))), g=G, cut=cut, fisher=ref.fisher), None


# ---------------------------------------------------------------------------

def models(prop):
    base = dict(Machine="shape", Grid={-1000, 0, 1000}, Gens=2, Me=170, MaxAge=9, Rates={1}, Deltas={0}, Pop=4)
    T = vlib.THOROUGH
    shape = ("Symmetric", "Positive", "Mirrored", "Longer")
    if prop == "C31":
        out = [dict(module="AdaptModel", consts=dict(base, Me=me, Grid=g), invariants=shape, properties=("Decays",), deadlock=False)
               for me, g in ((170, {-1000, 0, 1000}), (300, {-2000, 500, 1500}))]
        out.append(dict(module="AdaptModel", consts=dict(base, Machine="lag", Gens=40, Rates={1000, 5000, 20000, 30000, 100000, 900000}),
                        invariants=("Young",), deadlock=False))
        if T:
            out.append(dict(module="AdaptModel", consts=dict(base, Me=200, Grid={-1500, 0, 500, 2000}), invariants=shape, properties=("Decays",), deadlock=False))
        return out
    if prop == "C32":
        return [dict(module="AdaptModel", consts=dict(base, Machine="bnd", Gens=4 if T else 3, Deltas={0, 10, 40}, Pop=p),
                     invariants=("Untouched", "Frozen", "Latch", "Bounded", "Sound"), deadlock=False) for p in (4, 12)]
    return [dict(module="AdaptModel", consts=dict(base, Machine="tpa", Gens=4, Pop=5), invariants=("InRange",), deadlock=False)]


TABLE = {"C31": (gen_cma, trace_cma, "CmaTrace", 700), "C32": (gen_bnd, trace_bnd, "BndTrace", 900), "C33": (gen_vd, trace_vd, "VdTrace", 700)}


def _gen(a):
    return TABLE[a[0]][0](a[1])


def _trace(a):
    return TABLE[a[0]][1](a[1:])


def slim(case):
    c = dict(case)
    if len(c.get("script", ())) > 60:
        c["script"] = c["script"][:60] + ["..."]
    return brief(c)


def run(check):
    prop = check.prop
    _, _, module, n = TABLE[prop]
    n *= 6 if vlib.THOROUGH else 1
    jobs = models(prop)
    for j, r in zip(jobs, vlib.tlc_many(jobs, par=4)):
        if not r.ok:
            raise vlib.MachineryError("design model %s %s\n%s" % (j["module"], j["consts"], r.out[-2500:]))
        check.add_tlc(j["module"], r)
    cs = vlib.pmap(_gen, [(prop, i) for i in range(n)])
    out = vlib.pmap(_trace, [(prop, c, i) for i, c in enumerate(cs)])
    traces = []
    for c, (t, err) in zip(cs, out):
        if t is None:
            check.violate(prop + ".completes", slim(c), err)
        elif t.get("skip"):
            check.count("skipped")
            check.count("skipped_" + str(t.get("loud") or "silent"))
        else:
            traces.append(t)
            check.count("generations", len(t["g"]))
            check.count("runs_" + t["kind"])
            if t["cut"]:
                check.count("cut_" + t["cut"])
            if prop == "C31":
                check.count("generations_by_integer_law", sum(g.get("law", False) for g in t["g"]))
            elif prop == "C32":
                check.count("weights_observed", sum(v > 0 for g in t["g"] for v in g["w"]))
                check.count("weights_grown", sum(sum(g["grow"]) for g in t["g"]))
                check.count("generations_entirely_clipped", sum(g["how"] == "predicted" for g in t["g"]))
            else:
                check.count("natural_gradients_from_definition", t["fisher"])
    for tid, clauses in vlib.validate(check, module, traces, invariants=("Sane",)).items():
        for cl in clauses:
            check.violate(cl, slim(cs[tid]))
    for i in (0, n // 2, n - 1):
        check.sample({"case": slim(cs[i])}, 3)
