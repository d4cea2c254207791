"""C36: the numerical stopping reasons of cmaes and vdcma."""
import math

import numpy as np

import vlib
from p_adapt import CmaRef, VdRef, deviates, Tape
from record import execute

REASONS = (-2, -3, -4, -6, -8)


class Steered:
    """Objective that selects by a schedule of commands, and follows the published adaptation while doing so.

    "in": the points nearest to the mean (for the current shape) win; "go": those farthest along a fixed
    direction; "flat": those nearest to the plane through the mean across the first coordinate."""

    def __init__(self, case):
        o = case["opts"]
        b = np.array(case["bounds"])
        self.c, self.h = 0.5 * (b[:, 0] + b[:, 1]), 0.5 * (b[:, 1] - b[:, 0])
        self.n, self.pop, self.case = len(b), o["popsize"], case
        self.m = (np.array(case["x0"]) - self.c) / self.h
        self.cmds, self.L = case["cmds"], case["block"]
        self.vd = case["alg"] == "vdcma"
        self.ref = None
        self.X, self.V, self.g, self.log, self.cut = [], [], 0, [], ""
        self.shift = np.zeros(self.n)
        self.s0 = o["sigma"]
        r = vlib.rng("steered", o["seed"])
        self.u = np.array([r.choice([-1.0, 1.0]) * r.uniform(0.3, 1) for _ in range(self.n)])
        self.u /= np.linalg.norm(self.u)

    def begin(self, v0):
        o = self.case["opts"]
        self.ref = (VdRef if self.vd else CmaRef)(self.n, self.pop, o["muperc"], o["sigma"], v0=v0)
        self.ref.limit = 1e15

    def root(self):
        """Inverse square root of the shape of this generation (any, for the choice of values)."""
        if self.ref is None:
            return np.eye(self.n)
        S = self.ref.shape() if self.vd else self.ref.C
        d, B = np.linalg.eigh(S)
        return (B / np.sqrt(np.maximum(d, 1e-30 * d.max()))).T

    def __call__(self, x, *a):
        X = (np.asarray(x, dtype=float) - self.c) / self.h
        if not self.X:
            self.R = self.root()
        s = self.ref.s if self.ref is not None else self.s0
        y = (X - self.m) / s
        cmd = self.cmds[min(self.g // self.L, len(self.cmds) - 1)]
        if cmd == "in" and self.vd and self.g:
            # the step size of vdcma follows the ranks of the two points ahead of and behind the mean
            v = float((self.R @ self.shift) @ (self.R @ y + 1e-3 * self.u)) / s
        elif cmd == "go" and self.vd and self.g:
            v = -float((self.R @ self.shift) @ (self.R @ y + 1e-3 * self.u)) / s
        elif cmd == "in":
            v = math.log(np.linalg.norm(self.R @ y + 1e-3 * self.u) + 1e-300)
        elif cmd == "go":
            v = -float(self.u @ (self.R @ y))
        else:
            v = math.log(abs(y[0] * (1.0 + 1e-3 * math.copysign(1.0, y[0]))) + 1e-300)
        self.X.append(X)
        self.V.append(v)
        if len(self.X) == self.pop:
            self.close()
        return v

    def close(self):
        X, V = np.array(self.X), np.array(self.V)
        self.X, self.V = [], []
        self.g += 1
        if self.cut or self.ref is None:
            return
        ref = self.ref
        if len(set(V.tolist())) < self.pop or not np.all(np.isfinite(X)):
            self.cut = "ties"
            return
        before = np.diag(ref.shape()) if self.vd else None
        ver = None if self.vd else ref.ver
        with np.errstate(all="ignore"):
            ok = ref.step(self.m, X, V)
        if not ok and not (ref.cut == "condition" and not self.vd):
            self.cut = ref.cut
            return
        if not ok:
            self.cut = "condition"
            return
        # what the evaluated points tell is only as precise as their coordinates
        if 1e-16 * (np.abs(X).max() + np.abs(self.c / self.h).max()) > 1e-4 * ref.s:
            self.cut = "digits"
            return
        self.shift, self.m = ref.m1 - self.m, ref.m1
        self.log.append(self.quantities(before, ver))

    def quantities(self, before, ver):
        ref, n, s = self.ref, self.n, self.ref.s
        ln = lambda v: math.log(max(float(v), 1e-300))
        diag = before if self.vd else np.diag(ref.C)
        sd = np.sqrt(diag)
        co = ln(0.2 * s * sd.min() / 1e-10)
        up = ln(s * sd.max() / (1e3 * self.s0))
        tx = ln(s * max(np.abs(ref.pc).max(), sd.max()) / (1e-11 * self.s0))
        lo, hi = {}, {}
        slack = 0.002
        if self.vd:
            ax = (0.0, 0.0)
            cd = (0.0, 0.0)
        else:
            d, B = np.linalg.eigh(ref.hist[ref.ver])
            d = np.sqrt(np.maximum(d, 0))
            if d.max() > 1e5 * d.min():
                slack = 0.15   # the small axes are rounding errors of the large ones
            k = (ref.g) % n
            per = [ln(0.1 * s * np.abs(B[:, j]).max() * d[j] / 1e-10) for j in range(n)]
            gap = all(abs(d[j] - d[k]) > 1e-4 * d[k] for j in range(n) if j != k)
            ax = (per[k], per[k]) if gap else (min(per), max(per))
            if n > 1 and not gap:
                ax = (min(per) - 0.5 * math.log(n), max(per) + 0.5 * math.log(n))
            cd = (ln(d.max() / max(d.min(), 1e-300) / 1e7),) * 2
        self.slack = max(getattr(self, "slack", 0.0), slack)
        for name, (a, b) in dict(ax=ax, co=(co, co), cd=cd, up=(up, up), tx=(tx, tx)).items():
            f = lambda v: int(max(-10 ** 6, min(10 ** 6, math.floor(1000 * v))))
            lo[name], hi[name] = f(a - self.slack), f(b + self.slack) + 1
        return dict(lo=lo, hi=hi)


def gen(i, m):
    r = vlib.rng("C36", i)
    alg = m["alg"]
    n = r.choice([1, 2, 2, 3, 4]) if alg == "cmaes" else r.choice([1, 2, 3, 5, 6, 8])
    if "flat" in m["cmds"] and n == 1:
        n = 2
    pop = r.choice([6, 8, 10, 14]) + n
    if alg == "cmaes" and m["start"] == "tiny" and r.random() < 0.5:
        n, pop = r.choice([3, 4, 5, 6]), r.choice([40, 60, 80])
    sigma = {"tiny": r.choice([1.2e-9, 2e-9, 5e-9, 1e-8]), "normal": r.choice([0.1, 0.3, 0.05, 1.0, 1e-3]),
             "huge": r.choice([1e3, 1e4, 1e5])}[m["start"]]
    w = [10 ** r.uniform(-1, 2) for _ in range(n)]
    centred = m["start"] != "normal" or r.random() < 0.5
    c = [0.0 if centred else r.uniform(-5, 5) for _ in range(n)]
    bounds = [[a - b, a + b] for a, b in zip(c, w)]
    x0 = [a if centred else a + b * r.uniform(-0.5, 0.5) for a, b in zip(c, w)]
    maxiter = r.choice([60, 150, 300, 300])
    return dict(alg=alg, bounds=bounds, x0=x0, x0form="array", entry=r.choice(["direct", "minimize"]), obj=dict(kind="pos"),
                start=m["start"], cmds=m["cmds"], block=r.choice([1, 3, 8, 20, 40]) if m["start"] != "tiny" else r.choice([1, 1, 2, 4]),
                opts=dict(popsize=pop, maxiter=maxiter, sigma=sigma, muperc=r.choice([0.5, 0.5, 0.3, 0.25]),
                          seed=r.randrange(2 ** 31), ftol=-math.inf, xtol=-1.0))


def trace(job):
    case, tid = job
    o = case["opts"]
    n = len(case["bounds"])
    fun = Steered(case)
    tape = Tape()
    if case["alg"] == "vdcma":
        def start(rec, x):
            if fun.ref is None:
                z = np.array(tape.z[:n])
                if len(z) < n:
                    z = np.random.RandomState(o["seed"]).standard_normal(n)
                fun.begin(z / math.sqrt(n))
    else:
        start = None
        fun.begin(None)
    with tape:
        rec = execute(case, fun=fun, on_eval=start)
    if rec.exc:
        return None, rec.exc
    gens = len(rec.ev) // o["popsize"]
    if gens * o["popsize"] != len(rec.ev) or gens < 1:
        return None, "evaluations: %d" % len(rec.ev)
    g = fun.log
    if not g:
        return dict(tid=tid, skip=True), None
    return dict(tid=tid, alg=case["alg"], n=n, maxiter=o["maxiter"], status=int(rec.res.status), full=len(g) == gens, g=g, cut=fun.cut), None


def run(check):
    consts = dict(Len0=3, Max=12, TinyE=0, UpE=4, TolE=8, CondE=6, Emit=True)
    r = vlib.run_tlc("StopModel", consts, invariants=("TrueReason", "NoneMissed", "FirstReason", "Out"), deadlock=False)
    if not r.ok:
        raise vlib.MachineryError("design model StopModel\n" + r.out[-2500:])
    check.add_tlc("StopModel", r)
    vlib.design(check, "StopModel", dict(consts, Emit=False, Len0=2), invariants=("TrueReason",), properties=("Ends",), deadlock=False)
    seen = {}
    for b in r.tagged("@@B "):
        seen.setdefault((b["alg"], b["start"], tuple(b["cmds"])), b["status"])
    models = [dict(alg=a, start=s, cmds=list(c), status=v) for (a, s, c), v in sorted(seen.items())]
    check.count("model_schedules", len(models))
    k = 12 if vlib.THOROUGH else 2
    todo = [gen((100 * i) + j, m) for i, m in enumerate(models) for j in range(k * (2 if m["status"] in (-3, -4, -8) else 1))]
    # one coordinate loses its effect in a generation that looks at another axis
    for j in range(24 * k):
        c = gen(10 ** 6 + j, dict(alg="cmaes", start="tiny", cmds=["flat"]))
        r = vlib.rng("C36", "coord", j)
        n = r.choice([4, 5, 6, 7])
        b = 10 ** r.uniform(-1, 2)
        c["bounds"], c["x0"], c["block"] = [[-b, b]] * n, [0.0] * n, 100
        c["opts"].update(popsize=r.choice([80, 150, 200]), sigma=r.uniform(1.05e-9, 2.2e-9), muperc=r.choice([0.2, 0.3, 0.1]), maxiter=60)
        todo.append(c)
    traces = []
    for tid, (t, err) in enumerate(vlib.pmap(trace, [(c, i) for i, c in enumerate(todo)])):
        check.replayed += 1
        if t is None:
            check.violate("C36.completes", todo[tid], err)
            continue
        if t.get("skip"):
            check.count("unfollowed")
            continue
        check.count("%s_%d" % (t["alg"], t["status"]))
        check.count("generations", len(t["g"]))
        if t["cut"]:
            check.count("cut_" + t["cut"])
        traces.append(t)
    for tid, clauses in vlib.validate(check, "StopTrace", traces, invariants=("Sane",)).items():
        for cl in clauses:
            check.violate(cl, todo[tid], dict(clauses=clauses, start=todo[tid]["start"], cmds=todo[tid]["cmds"]))
    check.sample(todo[0])
    check.sample(todo[-1])
