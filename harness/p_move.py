"""C10-C15: how new points are generated (differential evolution, particle swarm, restarts,
neighbourhood algorithm, initial populations, evolution strategies)."""
import math
from statistics import NormalDist

import numpy as np

import cases
import vlib
from p_pop import brief, replay  # noqa: F401
from record import execute

INF = 2000000000


def rank_script(r, n, style=None):
    """n distinct values (so that best members are unambiguous)."""
    style = style or r.choice(["random", "random", "improving", "worsening", "mixed"])
    v = list(range(1, n + 1))
    if style == "random":
        r.shuffle(v)
    elif style == "improving":
        v = v[::-1]
        for _ in range(n // 4):
            i, j = r.randrange(n), r.randrange(n)
            v[i], v[j] = v[j], v[i]
    elif style == "worsening":
        for _ in range(n // 6):
            i, j = r.randrange(n), r.randrange(n)
            v[i], v[j] = v[j], v[i]
    else:
        h = n // 3
        a, b = v[:h], v[h:]
        r.shuffle(a)
        r.shuffle(b)
        v = b + a
    return [float(x) for x in v]


def ranks(values):
    rk = cases.Ranks(values)
    return [rk(v) for v in values]


def result_error(rec, evals):
    if rec.exc:
        return rec.exc
    if len(rec.ev) != evals:
        return "evaluations: %d instead of %d" % (len(rec.ev), evals)
    return None


# --------------------------------------------------------------------------- C10

def gen_de(i):
    r = vlib.rng("C10", i)
    strategy = ("best1bin", "rand1bin", "best2bin", "rand2bin")[i % 4]
    lo = cases.NEED[strategy]
    pop = r.choice([lo, lo, lo + 1, lo + 1, lo + 2] + ([8] if strategy in ("best1bin", "rand1bin") else []))
    if strategy == "rand2bin":
        pop = r.choice([6, 6, 6, 7])
    ndim = r.choice([1, 2, 2, 3, 4])
    mi = r.choice([2, 3, 4])
    sync = r.random() < 0.5
    F = r.choice([0.5, 1.0, 2.0, 1.5, 0.5, 0.0])
    # halves: one binary digit per generation (deferred) or per trial (immediate: trials build on each other)
    if not sync and F in (0.5, 1.5):
        mi = 2 if pop > 5 else min(mi, 3)
    digits = 1 + (mi - 1) * (1 if sync else pop) if F in (0.5, 1.5) else 1
    x0 = [[2 ** digits * r.randint(-400, 400) for _ in range(ndim)] for _ in range(pop)]
    o = dict(popsize=pop, maxiter=mi, strategy=strategy, mutation=F,
             recombination=r.choice([1.0, 0.0, 0.5, 0.9]), updating="deferred" if sync else "immediate",
             seed=r.randrange(2 ** 31), ftol=-math.inf, constraints=None)
    if sync and r.random() < 0.3:
        o.update(r.choice([dict(backend="mpi"), dict(workers=0)]))
    elif r.random() < 0.15:
        o["workers"] = 0
    return dict(alg="de", bounds=[[-400.0 * 2 ** digits, 400.0 * 2 ** digits]] * ndim, x0=x0, x0form=r.choice(["array", "list"]),
                obj=dict(kind="pos", n=0), opts=o, entry=r.choice(["direct", "minimize"]), sync=sync,
                script=rank_script(r, pop * mi))


class ByOrder:
    """Values by number of the evaluation."""

    def __init__(self, script):
        self.script, self.n = script, 0

    def __call__(self, x, *a):
        self.n += 1
        return self.script[min(self.n, len(self.script)) - 1]


def trace_de(job):
    case, tid = job
    o = case["opts"]
    rec = execute(case, fun=ByOrder(case["script"]))
    err = result_error(rec, o["popsize"] * o["maxiter"])
    if err:
        return None, err
    ev, odd = [], False
    rk = ranks([e[1] for e in rec.ev])
    for (x, _, _), v in zip(rec.ev, rk):
        if not np.all(x == np.round(x)):
            odd = True  # not a lawful integer combination
            break
        if not np.all(np.abs(x) < 2 ** 25):
            break  # beyond the integers of the model checker
        ev.append(dict(v=v, x=[int(c) for c in x]))
    cr = {0.0: "zero", 1.0: "one"}.get(o["recombination"], "mid")
    return dict(tid=tid, pop=o["popsize"], sync=case["sync"], strategy=o["strategy"],
                f2=int(round(2 * o["mutation"])), cr=cr, ev=ev, odd=odd), None


def de_models():
    out = []
    for st, pop in (("best1bin", 3), ("rand1bin", 4)):
        for sync in (True, False):
            for f2 in (1, 2) if not vlib.THOROUGH else (1, 2, 4):
                out.append(dict(module="DEModel", consts=dict(Pop=pop, Span=2, Strategy=st, F2=f2, Sync=sync, Target=1,
                                                              MaxIter=3 if (f2 == 1 or pop == 3) else 2),
                                invariants=("BestIsBest", "BestAttained", "LawAgrees", "Collapsed"),
                                properties=("NoWorse", "Monotone"), deadlock=False))
    return out


# --------------------------------------------------------------------------- C11

def gen_pso(i):
    r = vlib.rng("C11", i)
    alg = r.choice(["pso", "cpso"])
    pop = r.choice([2, 3, 4, 6, 9])
    ndim = r.choice([1, 2, 2, 3, 4])
    mi = r.choice([2, 3, 4, 6])
    if i % 30 == 5:    # many members
        pop, ndim, mi = r.choice([55, 80, 130]), r.choice([1, 2]), r.choice([3, 4, 5])
    elif i % 30 == 6:  # many coordinates
        pop, ndim, mi = r.choice([2, 3, 5]), r.choice([8, 12, 20]), r.choice([5, 8, 12])
    shrink = r.random() < 0.5
    sync = r.random() < 0.5
    w = r.choice([0, 73, 100, 40, r.randint(0, 100)])
    c1 = r.choice([0, 0, 149, 400, r.randint(0, 400)])
    c2 = r.choice([0, 0, 149, 400, r.randint(0, 400)])
    if i % 30 in (5, 6):
        alg, shrink, w = "pso", i % 30 == 6, r.choice([73, 100, 100, 40])
        c1 = r.choice([0, 20, 149, 400])
        c2 = r.choice([149, 400]) if c1 < 149 else r.choice([0, 149])
    o = dict(popsize=pop, maxiter=mi, inertia=w / 100.0, cognitivity=c1 / 100.0, sociability=c2 / 100.0,
             constraints="Shrink" if shrink else None, updating="deferred" if sync else "immediate",
             seed=r.randrange(2 ** 31), ftol=-math.inf)
    if alg == "cpso":
        o["competitivity"] = r.choice([None, 0.0, 1.0, 2.0])
    if not sync and r.random() < 0.3:
        o["workers"] = 0
    if sync and r.random() < 0.2:
        o["backend"] = "mpi"
    bounds = [[lo, lo + 10 ** r.uniform(1.5, 3)] for lo in (r.uniform(-200, 200) for _ in range(ndim))]
    case = dict(alg=alg, bounds=bounds, obj=dict(kind="pos"), opts=o, entry=r.choice(["direct", "minimize"]), sync=sync,
                shrink=shrink, w=w, c1=c1, c2=c2, script=rank_script(r, pop * mi))
    if alg == "cpso" and o["competitivity"]:
        # restarts need a contracted swarm: pin two particles far apart (c1, c2 small keeps the swarm wide)
        case["script"] = sorted(case["script"])
        o["inertia"], case["w"] = 0.0, 0
        o["sociability"], case["c2"] = 0.05, 5
        o["cognitivity"], case["c1"] = c1 / 100.0, c1
        case["x0"] = [[lo + (hi - lo) * (0.02 if p % 2 else 0.98) for lo, hi in bounds] for p in range(pop)]
    elif r.random() < 0.5:
        def co(lo, hi):
            q = r.random()
            return lo if q < 0.1 else hi if q < 0.2 else lo + (hi - lo) * r.random()
        case["x0"] = [[co(lo, hi) for lo, hi in bounds] for _ in range(pop)]
    return case


def trace_pso(job):
    case, tid = job
    o = case["opts"]
    rec = execute(case, fun=ByOrder(case["script"]))
    err = result_error(rec, o["popsize"] * o["maxiter"])
    if err:
        return None, err
    xs = np.array([e[0] for e in rec.ev])
    if not np.all(np.isfinite(xs)):
        return None, "positions are not finite"
    lo = np.array([b[0] for b in case["bounds"]])
    hi = np.array([b[1] for b in case["bounds"]])
    if case["shrink"]:
        org, unit = lo, (hi - lo) / 8000.0
        if np.any((xs - lo) / (hi - lo) < -1) or np.any((xs - lo) / (hi - lo) > 2):
            return None, "far outside the box"
    else:
        org = 0.5 * (xs.max(axis=0) + xs.min(axis=0))
        unit = np.maximum(xs.max(axis=0) - xs.min(axis=0), 1e-9) / 1e6
    p = (xs - org) / unit
    near = 1e-9 * (hi - lo)
    face = ((np.abs(xs - lo) <= near) | (np.abs(xs - hi) <= near)).any(axis=1)
    rk = ranks([e[1] for e in rec.ev])
    # rounding: a step, its predecessor and both ways carry half a unit per end point
    e = 150 + case["w"] + case["c1"] + case["c2"]
    T = dict(tid=tid, pop=o["popsize"], sync=case["sync"], shrink=case["shrink"], w=case["w"], c1=case["c1"], c2=case["c2"], e=e,
             lower=[0] * len(lo), upper=[8000] * len(lo),
             ev=[dict(v=v, x=[int(round(c)) for c in q], face=bool(f)) for v, q, f in zip(rk, p, face)])
    return T, None


def pso_models():
    out = []
    for sync in (True, False):
        for wi, c1, c2 in ((100, 100, 100), (0, 100, 200), (100, 0, 100)):
            out.append(dict(module="PSOModel", consts=dict(Pop=2, W=3, WI=wi, C1=c1, C2=c2, Sync=sync, Target=2, MaxIter=4 if vlib.THOROUGH else 3),
                            invariants=("Inside", "BestIsBest", "StepRecorded", "Stay"), properties=("Monotone",), deadlock=False))
    return out


# --------------------------------------------------------------------------- C12

def gen_restart(i):
    r = vlib.rng("C12", i)
    mode = ("frozen", "never", "frozen", "free")[i % 4]
    pop = r.choice([2, 3, 4, 5, 8, 12, 20])
    ndim = r.choice([1, 2, 3])
    mi = r.choice([3, 4, 6, 10, 16]) if mode != "free" else r.choice([6, 8, 12])
    if i % 40 in (2, 4):
        pop, ndim, mi = r.choice([64, 90, 150]), 1, r.choice([3, 4, 6])
    elif i % 40 == 6:
        ndim = r.choice([6, 10, 18])
    sync = r.random() < 0.5 or mode == "free"
    g = r.choice([2.0, 1.5, 1.0, 1.0, 0.5, 0.75, 0.25, round(r.uniform(0.01, 2), 2)])
    o = dict(popsize=pop, maxiter=mi, inertia=r.choice([0.0, 0.73, 1.0]), cognitivity=r.choice([0.0, 1.49, 4.0]), sociability=0.0,
             competitivity=g, updating="deferred" if sync else "immediate", seed=r.randrange(2 ** 31), ftol=-math.inf,
             constraints=r.choice([None, "Shrink"]))
    size = 10 ** r.uniform(-7, -3)
    c = [r.uniform(-5, 5) for _ in range(ndim)]
    bounds = [[x - size * r.uniform(0.5, 1), x + size * r.uniform(0.5, 1)] for x in c]
    case = dict(alg="cpso", bounds=bounds, obj=dict(kind="pos"), opts=o, entry=r.choice(["direct", "minimize"]), sync=sync, mode=mode)
    n = pop * mi
    st = r.choice(["random", "random", "ties", "improving", "worsening", "mixed", "const"])
    if st == "ties":
        case["script"] = [float(r.randrange(4)) for _ in range(n)]
    elif st == "const":
        case["script"] = [1.0] * n
    else:
        case["script"] = rank_script(r, n, st)
    if mode == "never":
        kind = r.choice(["pso", "none", "zero", "wide", "outlier", "line"])
        if kind == "pso":
            case["alg"] = "pso"
            o.pop("competitivity")
        elif kind == "none":
            o["competitivity"] = None
        elif kind == "zero":
            o["competitivity"] = r.choice([0.0, 0])
        else:
            case["bounds"] = [[-1000.0, 1000.0]] * ndim
            rnd = lambda: [r.uniform(-1e-4, 1e-4) for _ in range(ndim)]
            if kind == "wide":
                x0 = [[r.choice([-1, 1]) * r.uniform(300, 900) for _ in range(ndim)] for _ in range(pop)]
                x0[0] = [-v for v in x0[1]]
            elif kind == "outlier":
                x0 = [rnd() for _ in range(pop)]
                x0[r.randrange(pop)] = [800.0 + v for v in rnd()]
            else:
                j = r.randrange(ndim)
                x0 = [rnd() for _ in range(pop)]
                for k in range(pop):
                    x0[k][j] = 900.0 * (-1) ** k + 80.0 * k / pop
            case["x0"] = x0
        case["kind"] = kind
        if kind in ("zero", "none", "pso") and r.random() < 0.4:
            # a large swarm, collapsed for many iterations
            pop = o["popsize"] = r.choice([700, 1100, 1500])
            mi = o["maxiter"] = r.choice([20, 30])
            ndim = 1
            case["bounds"] = case["bounds"][:1]
            n = pop * mi
            case["script"] = rank_script(r, n, r.choice(["random", "worsening"]))
    if mode == "free":
        o.update(cognitivity=0.0, sociability=r.choice([1.0, 0.8]), inertia=r.choice([1.0, 0.95]), constraints=None,
                 competitivity=r.choice([1.0, 1.5, 2.0]))
        # the first evaluation is the best of the whole run: the swarm's best stays in the box
        case["script"] = [0.0] + rank_script(r, n - 1)
    return case


def restart_run(case):
    o = case["opts"]
    rec = execute(case, fun=ByOrder(case["script"]))
    err = result_error(rec, o["popsize"] * o["maxiter"])
    if err:
        return None, err
    pop, mi = o["popsize"], o["maxiter"]
    xs = np.array([e[0] for e in rec.ev]).reshape(mi, pop, -1)
    return (rec, xs), None


def trace_restart(job):
    case, tid = job
    o = case["opts"]
    out, err = restart_run(case)
    if err:
        return None, err
    rec, xs = out
    pop, mi = o["popsize"], o["maxiter"]
    lo = np.array([b[0] for b in case["bounds"]])
    hi = np.array([b[1] for b in case["bounds"]])
    tol = 1e-9 * (hi - lo) + 1e-14 * np.maximum(np.abs(lo), np.abs(hi))
    v = np.array([float(e[1]) for e in rec.ev])
    rk = np.array(ranks(v)).reshape(mi, pop)
    org = xs[0, 0]
    unit = max(float(np.abs(xs - org).max()), 1e-12) / 4e5
    its = []
    for k in range(mi):
        moved = [] if k == 0 else [int(s) + 1 for s in np.nonzero((xs[k] != xs[k - 1]).any(axis=1))[0]]
        inside = [bool(np.all(p >= lo - tol) and np.all(p <= hi + tol)) for p in xs[k]]
        d = dict(v=[int(q) for q in rk[k]], moved=moved, inside=inside)
        d["x"] = [[int(round(c)) for c in (p - org) / unit] for p in xs[k]] if case["mode"] == "free" else []
        its.append(d)
    more = []
    g = o.get("competitivity")
    if case["mode"] == "frozen" and case.get("g2"):
        out2, err = restart_run(dict(case, opts=dict(o, competitivity=case["g2"])))
        if err:
            return None, err
        x2 = out2[1]
        more = [0] + [int((x2[k] != x2[k - 1]).any(axis=1).sum()) for k in range(1, mi)]
    return dict(tid=tid, pop=pop, sync=case["sync"], mode=case["mode"], w=int(round(100 * o["inertia"])),
                c2=int(round(100 * o["sociability"])), it=its, more=more,
                some=bool(g is not None and g >= 2.0 and pop >= 4)), None


def restart_models():
    base = dict(Pop=3, MaxIter=3, Levels={0, 1, 2}, Sync=True, Emit=True)
    out = [dict(base), dict(base, Sync=False, Emit=False), dict(base, Pop=4, MaxIter=3, Levels={0, 1}, Emit=True)]
    if vlib.THOROUGH:
        out.append(dict(base, Pop=3, MaxIter=4, Levels={0, 1}, Emit=True))
    return [dict(module="RestartModel", consts=c, invariants=("Kept", "NeverAll", "NonIncreasing", "Emitted"),
                 properties=("Monotone", "BestStays"), deadlock=False) for c in out]


def replay_scripts(models_results, cs):
    """Value scripts enumerated by TLC, run on a frozen swarm of the real code."""
    seen = set()
    for r in models_results:
        for b in r.tagged("@@B "):
            key = json_key(b["script"])
            if key in seen:
                continue
            seen.add(key)
            pop, mi = len(b["script"][0]), len(b["script"])
            k = len(seen)
            o = dict(popsize=pop, maxiter=mi, inertia=0.5, cognitivity=1.0, sociability=0.0, competitivity=(1.0, 2.0, 0.7)[k % 3],
                     updating="deferred" if k % 2 else "immediate", seed=k, ftol=-math.inf)
            cs.append(dict(alg="cpso", bounds=[[1.0, 1.0001]], obj=dict(kind="pos"), opts=o, entry="direct", sync=bool(k % 2),
                           mode="frozen", script=[float(v) for it in b["script"] for v in it]))


def json_key(s):
    return tuple(tuple(x) for x in s)


# --------------------------------------------------------------------------- C13

def gen_na(i):
    r = vlib.rng("C13", i)
    pop = r.choice([2, 3, 4, 6, 8, 12])
    ndim = r.choice([1, 2, 2, 3, 5])
    mi = r.choice([2, 3, 4, 6])
    if i % 120 == 7:   # long memory
        pop, mi, ndim = r.choice([(2, 300), (3, 170), (20, 60), (13, 85), (45, 50)]) + (r.choice([1, 2]),)
    elif i % 40 == 27:  # many members, many coordinates
        pop, mi, ndim = r.choice([(70, 3, 1), (120, 3, 2), (3, 4, 18), (2, 5, 33)])
    bounds = cases.gen_bounds(r, ndim)
    fixed = r.random() < 0.25 and ndim > 1
    if fixed:
        for j in r.sample(range(ndim), r.randint(1, ndim - 1)):
            v = r.choice([0.0, bounds[j][0], 1e3, -7.25])
            bounds[j] = [v, v]
    o = dict(popsize=pop, maxiter=mi, nrperc=r.choice([0.5, 1.0, 0.01, 0.3, 0.75, round(r.uniform(0.05, 1), 2)]),
             seed=r.randrange(2 ** 31), ftol=-math.inf)
    if r.random() < 0.2:
        o["backend"] = "mpi"
    if pop > 60:
        o["nrperc"] = r.choice([0.5, 0.75, 1.0])
    n = pop * mi
    style = r.choice(["rank", "rank", "ties", "const", "fun"])
    case = dict(alg="na", bounds=bounds, opts=o, entry=r.choice(["direct", "minimize"]), obj=dict(kind="pos"))
    if style == "rank":
        case["script"] = rank_script(r, n)
    elif style == "ties":
        case["script"] = [float(r.randrange(3)) for _ in range(n)]
    elif style == "const":
        case["script"] = [2.0] * n
    else:
        case["obj"] = dict(kind=r.choice(["sphere", "rastrigin", "quad"]), c=round(r.uniform(-2, 2), 2))
    if r.random() < 0.3:
        case["x0"] = [[lo + (hi - lo) * r.random() for lo, hi in bounds] for _ in range(pop)]
    return case


def trace_na(job):
    case, tid = job
    o = case["opts"]
    pop, mi = o["popsize"], o["maxiter"]
    rec = execute(case, fun=ByOrder(case["script"]) if case.get("script") else None)
    err = result_error(rec, pop * mi)
    if err:
        return None, err
    lo = np.array([b[0] for b in case["bounds"]])
    hi = np.array([b[1] for b in case["bounds"]])
    w = hi - lo
    free = w > 0
    xs = np.array([e[0] for e in rec.ev])
    z = (xs[:, free] - lo[free]) / w[free]
    if not np.all(np.isfinite(z)):
        return None, "positions are not finite"
    new, fixed, us = [], [], []
    rk = ranks([e[1] for e in rec.ev])
    nr = max(1, int(o["nrperc"] * pop))
    for n in range(pop, len(xs)):
        m = (n // pop) * pop
        d = np.sqrt(((z[:m] - z[n]) ** 2).sum(axis=1))
        tol = 1e-9 + 1e-13 * np.max(np.maximum(np.abs(lo), np.abs(hi))[free] / w[free])
        new.append([int(k) + 1 for k in np.nonzero(d <= d.min() + tol)[0]])
        fx = xs[n][~free]
        if len(new[-1]) == 1:
            us.append(walk(z[:m], new[-1][0] - 1, z[n], n % pop))
        fixed.append(bool(np.all(np.abs(fx - lo[~free]) <= 1e-12 * np.maximum(1.0, np.abs(lo[~free])))))
    still = int(sum(np.all(xs[pop:, j] == xs[pop, j]) for j in np.flatnonzero(free))) if len(xs) > pop + 1 else 0
    return dict(tid=tid, kind="run", pop=pop, nr=nr, v=rk, new=new, fixed=fixed, still=still, us=[u for w_ in us for u in w_]), None


def walk(old, k, z, place):
    """Where each coordinate of z was drawn within the segment its Voronoi cell leaves: 0 at the low end, 1 at the high end.

    The walk starts at the model `k` of the cell and takes the coordinates in turn."""
    out = []
    x = old[k].copy()
    rest = np.delete(old, k, axis=0)
    prev = 0.5
    for j in range(len(x)):
        # |x' - k|^2 <= |x' - q|^2 for x' on the line through x along j
        a = rest[:, j] - old[k, j]
        oth = np.arange(len(x)) != j
        b = ((x[oth] - rest[:, oth]) ** 2).sum(axis=1) - ((x[oth] - old[k, oth]) ** 2).sum()
        use = np.abs(a) > 1e-5
        with np.errstate(all="ignore"):
            lim = old[k, j] + 0.5 * (a + b / a)
        low = max([0.0] + lim[use & (a < 0)].tolist())
        high = min([1.0] + lim[use & (a > 0)].tolist())
        if np.all(use) and high - low > 1e-4:
            u = (z[j] - low) / (high - low)
            out.append((u, j, len(x), place, prev))
            prev = u
        x[j] = z[j]
    return out


def na_statistics(traces):
    """All draws of all runs: inside their segments and uniform over them."""
    us = []
    for t in traces:
        us += t.pop("us")
    u = np.array([a[0] for a in us])
    j, d, place, prev = (np.array([a[k] for a in us]) for k in (1, 2, 3, 4))
    z = []

    def uniform(m):
        n = int(m.sum())
        if n < 300:
            return
        s = u[m]
        z.append(clip1((s.mean() - 0.5) * math.sqrt(12 * n)))
        z.append(clip1((((s - 0.5) ** 2).mean() - 1 / 12) * math.sqrt(180 * n)))
        for q in (0.1, 0.25, 0.5, 0.75, 0.9):
            z.append(clip1(((s < q).mean() - q) * math.sqrt(n / (q * (1 - q)))))
    uniform(u > -9)
    for a in range(5):
        uniform(j == a)
        uniform((j == a) & (j == d - 1))
    for a in range(6):
        uniform(place == a)
    m = j > 0
    if m.sum() > 300:
        z.append(clip1(12 * ((u[m] - 0.5) * (prev[m] - 0.5)).mean() * math.sqrt(m.sum())))
    return dict(tid=-1, kind="stat", outside=int(((u < -1e-4) | (u > 1 + 1e-4)).sum()), z=z, new=[]), len(us)


def clip1(t):
    return int(max(-10 ** 8, min(10 ** 8, round(1000 * t)))) if math.isfinite(t) else 10 ** 8


def na_models():
    return [dict(module="NAModel", consts=dict(W=4, Pop=2, Nr=nr, Levels={0, 1}, MaxIter=3 if vlib.THOROUGH else 2),
                 invariants=("Inside", "Possible", "Count"), deadlock=False) for nr in (1, 2)]


# --------------------------------------------------------------------------- C14

X0FORMS = ("array", "list", "tuple", "fortran", "int", "intlist", "f32", "view", "rows", "npint", "bool", "mixed")


def x0_object(x0, kind):
    a = np.array(x0, dtype=float)
    if kind == "f32":
        return np.array(x0, dtype=np.float32)
    if kind == "view":
        return np.repeat(a, 2, axis=-1)[..., ::2]
    if kind == "rows":
        return [np.array(r) for r in a] if a.ndim == 2 else [np.float64(v) for v in a]
    if kind == "npint":
        return a.round().astype(np.int32)
    if kind == "mixed":
        return [[int(v) if float(v) == int(v) else float(v) for v in r] for r in a] if a.ndim == 2 else [int(v) if float(v) == int(v) else float(v) for v in a]
    if kind == "readonly":
        a.setflags(write=False)
        return a
    return None


def gen_init(i):
    r = vlib.rng("C14", i)
    if i % 5 == 4:
        case = cases.gen_sam(r, opts=dict(maxiter=r.choice([1, 2, 5])))
        case["kind"] = "sample"
        if case.get("x0") is not None:
            case["xform"] = r.choice(["array", "list", "tuple", "rows", "f32", "mixed", "int", "readonly"])
            if r.random() < 0.25:  # the origin, and other guesses that a test for truth would drop
                case["x0"] = [r.choice([0.0, 0.0, -0.0]) for _ in case["bounds"]]
                case["bounds"] = [[-hi if hi > 0 else lo, abs(hi)] for lo, hi in case["bounds"]]
            elif case["xform"] in ("int", "mixed"):
                case["x0"] = [float(math.floor(lo + (hi - lo) * r.random())) for lo, hi in case["bounds"]]
        return case
    alg = ("de", "pso", "cpso", "na")[i % 4]
    case = cases.gen_opt(r, alg, opts=dict(maxiter=r.choice([1, 2, 3])))
    case["obj"] = dict(kind=r.choice(["sphere", "const", "rastrigin", "linear"]), c=0.3, v=1.0, s=1.0)
    pop = case["opts"]["popsize"]
    if case["opts"].get("backend") == "loky":
        case["opts"].pop("backend")
    if r.random() < 0.5:
        case["kind"] = "lhs"
        case.pop("x0", None)
        if r.random() < 0.3:
            pop = case["opts"]["popsize"] = r.choice([30, 64, 101])
    else:
        case["kind"] = "x0"
        form = r.choice(X0FORMS + ("readonly",))
        case["xform"] = form
        b = case["bounds"]
        if form in ("int", "intlist", "npint", "mixed", "bool"):
            b = [[-50.0, 60.0] if hi > lo else [2.0, 2.0] for lo, hi in b] if form != "bool" else [[0.0, 1.0]] * len(b)
            case["bounds"] = b
            x0 = [[float(r.randint(int(lo), int(hi))) for lo, hi in b] for _ in range(pop)]
            if form == "mixed":
                x0[0] = [lo + 0.25 * (hi - lo) for lo, hi in b]
        else:
            x0 = [[r.choice([lo, hi, lo + (hi - lo) * r.random(), lo + (hi - lo) * r.random()]) for lo, hi in b] for _ in range(pop)]
        if form in ("array", "list", "rows") and r.random() < 0.15:
            case["bounds"] = b = [[lo if lo < 0 else -1.0 - lo, abs(hi) + 1.0] for lo, hi in b]
            x0 = [[0.0] * len(b) for _ in range(pop)]
        if form == "f32":
            case["bounds"] = b = [[-8.0, 8.0]] * len(b)
            x0 = [[float(np.float32(r.uniform(-8, 8))) for _ in b] for _ in range(pop)]
        case["x0"] = x0
        if r.random() < 0.5 and form in ("array", "list", "fortran", "readonly", "tuple", "rows", "view") and all(hi > lo for lo, hi in b):
            # rows outside the bounds are evaluated as they are
            for row in r.sample(range(pop), r.randint(1, pop)):
                for j in r.sample(range(len(b)), r.randint(1, len(b))):
                    w = b[j][1] - b[j][0]
                    case["x0"][row][j] = r.choice([b[j][1] + 0.5 * w, b[j][0] - 0.25 * w, b[j][1] + 1e-3 * w])
    return case


def trace_init(job):
    case, tid = job
    b = case["bounds"]
    lo = np.array([x[0] for x in b])
    hi = np.array([x[1] for x in b])
    w = hi - lo
    c = dict(case)
    given = None
    if c.get("x0") is not None and c.get("xform"):
        f = c["xform"]
        given = x0_object(c["x0"], f)
        if f == "bool":
            given = np.array(c["x0"]).astype(bool)
        if given is None:
            c["x0form"] = f if f in ("array", "list", "tuple", "fortran", "int", "intlist") else "array"
    if given is not None:
        import record
        entry = c.get("entry", "direct")
        alg = c["alg"]

        def direct(f, bounds, x0, args, kw, cb):
            if entry == "direct":
                return record.DIRECT[alg](f, bounds, x0=given, args=args, callback=cb, **kw)
            g = record.SS.sample if alg in record.SAMPLERS else record.SO.minimize
            return g(f, bounds, x0=given, args=args, method=alg, options=kw, callback=cb)
        rec = execute(c, direct=direct)
    else:
        rec = execute(c)
    if rec.exc:
        return None, rec.exc
    if case["kind"] == "sample":
        first = rec.ev[0][0] if rec.ev else None
        if first is None:
            return None, "no evaluation"
        tol = 1e-12 * np.maximum(np.abs(lo), np.abs(hi))
        x0 = c.get("x0")
        ok = x0 is not None and bool(np.all(first == np.array(x0, dtype=np.float32 if case.get("xform") == "f32" else float).astype(float)))
        if rec.res.get("xall") is not None and ok:
            ok = bool(np.all(np.asarray(rec.res.xall)[0] == first))
        return dict(tid=tid, kind="sample", given=x0 is not None, equal=ok, inside=bool(np.all(first >= lo - tol) and np.all(first <= hi + tol))), None
    pop = c["opts"]["popsize"]
    if len(rec.ev) < pop:
        return None, "only %d evaluations" % len(rec.ev)
    xs = np.array([e[0] for e in rec.ev[:pop]])
    if case["kind"] == "x0":
        x0 = np.array(case["x0"], dtype=float)
        if case["alg"] == "na":
            tol = 1e-12 * np.maximum(np.abs(lo), np.abs(hi)) + 1e-14 * w
            # equal rows are the same row
            rows = [[int(k) + 1 for k in np.nonzero(np.all(np.abs(x0 - x) <= tol, axis=1))[0]] for x in xs]
        else:
            rows = [[int(k) + 1 for k in np.nonzero(np.all(x0 == x, axis=1))[0]] for x in xs]
        return dict(tid=tid, kind="x0", pop=pop, rows=rows), None
    strata = []
    for x in xs:
        row = []
        for j in range(len(b)):
            if w[j] <= 0:
                continue
            q = (x[j] - lo[j]) / w[j] * pop
            e = 1e-9 * pop + 1e-13 * pop * max(abs(lo[j]), abs(hi[j])) / w[j]
            row.append(sorted({int(math.floor(q - e)), int(math.floor(q + e))} & set(range(pop))) if math.isfinite(q) else [])
        strata.append(row)
    return dict(tid=tid, kind="lhs", pop=pop, strata=strata), None


def init_models():
    return [dict(module="InitModel", consts=dict(Pop=p, Dim=d), invariants=("Holds", "Sensitive"), deadlock=False)
            for p, d in ((2, 3), (3, 3), (4, 2))]


# --------------------------------------------------------------------------- C15

def gen_gauss(i):
    r = vlib.rng("C15", i)
    alg = ("cmaes", "vdcma")[i % 2]
    kind = ("later", "later", "first", "later", "big")[(i // 2) % 5]
    if kind == "first" and i // 10 % 2:
        kind = "faces"
    ndim = r.choice([1, 2, 3, 5]) if alg == "cmaes" else r.choice([1, 2, 4, 6, 8])
    if kind in ("first", "big", "faces"):
        ndim = min(ndim, 4)
    if r.random() < 0.3:   # very narrow and very wide boxes
        bounds = [[w * q, w * (q + 1.0)] for w, q in ((10 ** r.uniform(-7, 6), r.uniform(-1.5, 0.5)) for _ in range(ndim))]
    else:
        bounds = [[lo, lo + 10 ** r.uniform(-1, 2)] for lo in (r.uniform(-10, 10) for _ in range(ndim))]
    x0 = [lo + (hi - lo) * r.uniform(0.1, 0.9) for lo, hi in bounds]
    if r.random() < 0.2:   # nothing confines the mean
        x0 = [lo + (hi - lo) * r.choice([-1.5, -0.25, 0.5, 1.25, 2.0]) for lo, hi in bounds]
    if kind == "later":
        pop = r.choice([4, 5, 6, 7, 8, 10, 13, 16])
        num = r.choice([32, 64, 16, 8, 1, 21, 43, r.randint(1, 64)])
        if max(1, num * pop // 64) > 12:
            num = 32
        if r.random() < 0.3:  # many parents
            pop = r.choice([20, 31, 32, 40, 50, 64, 100, 200])
            num = r.choice([64, 48, 32, 24, 16, 12, 8, r.randint(1, 64)])
            if num * pop // 64 > 40:
                num = 40 * 64 // pop
        gen_no = r.choice([2, 2, 3])
        mi = gen_no
    elif kind == "big":
        pop = 3000
        num = None
        mi = gen_no = 2
    else:
        pop, num, mi, gen_no = 3000, 32, 1, 1
    o = dict(popsize=pop, maxiter=mi, sigma=r.choice([0.1, 0.3, 0.05, 1.0, round(r.uniform(0.01, 0.5), 3)]), seed=r.randrange(2 ** 31),
             ftol=-math.inf, xtol=-1.0, constraints=None)
    den = 64
    if kind == "big":
        den = 4096
        num = r.choice([1, 2, 3, 4, 5, 6, 8])  # 3000 * num / 4096
    o["muperc"] = num / den
    if r.random() < 0.2:
        o["backend"] = "mpi"
    if kind == "faces":
        # repaired points say on which side of the face they were drawn
        o["constraints"] = "Penalize"
        x0 = []
        for lo, hi in bounds:
            sd = o["sigma"] * 0.5 * (hi - lo)
            x0.append(r.choice([lo, hi]) + sd * r.uniform(-1.2, 1.2))
    return dict(alg=alg, bounds=bounds, x0=x0, x0form=r.choice(["array", "list"]), obj=dict(kind="pos"), opts=o,
                entry=r.choice(["direct", "minimize"]), kind=kind, gen=gen_no, num=num, den=den, script=rank_script(r, pop * mi, "random"))


class Quiet:
    """While the generation `g` is drawn, numpy's normal deviates are their mean."""

    def __init__(self, pop, g):
        self.pop, self.g, self.n = pop, g, 0
        self.saved = {}

    def on(self):
        return self.n // self.pop + 1 == self.g

    def __enter__(self):
        R = np.random

        def zero(name, loc):
            old = getattr(R, name)
            self.saved[name] = old

            def f(*a, **k):
                v = old(*a, **k)
                if not self.on():
                    return v
                m = 0.0
                if loc:
                    m = a[0] if a else k.get("loc", 0.0)
                return v * 0.0 + m
            setattr(R, name, f)
        zero("randn", False)
        zero("standard_normal", False)
        zero("normal", True)
        return self

    def __exit__(self, *a):
        for k, v in self.saved.items():
            setattr(np.random, k, v)


def trace_gauss(job):
    case, tid = job
    o = case["opts"]
    pop, mi, g = o["popsize"], o["maxiter"], case["gen"]
    fun = ByOrder(case["script"])
    if case["kind"] == "later":
        with Quiet(pop, g) as q:
            def tick(rec, x):
                q.n += 1
            rec = execute(case, fun=fun, on_eval=tick)
    else:
        rec = execute(case, fun=fun)
    if rec.exc:
        return None, rec.exc
    if len(rec.ev) != pop * mi:
        if rec.res.status in (-2, -3, -4, -6, -8):
            return dict(tid=tid, skip=True), None
        return None, "evaluations: %d instead of %d" % (len(rec.ev), pop * mi)
    xs = np.array([e[0] for e in rec.ev])
    if not np.all(np.isfinite(xs)):
        if case["kind"] == "later":
            return dict(tid=tid, skip=True), None
        return None, "positions are not finite"
    half = np.array([0.5 * (b[1] - b[0]) for b in case["bounds"]])
    clip = lambda t: int(max(-10 ** 8, min(10 ** 8, round(1000 * t)))) if math.isfinite(t) else 10 ** 8
    if case["kind"] == "first":
        z = (xs - np.array(case["x0"])) / (o["sigma"] * half)
        n, d = z.shape
        sd = z.std(axis=0)
        y = (z - z.mean(axis=0)) / sd
        T = dict(tid=tid, kind="first", alg=case["alg"],
                 mean=[clip(z[:, j].mean() * math.sqrt(n) / (1.0 if case["alg"] == "cmaes" else max(1.0, sd[j]))) for j in range(d)],
                 var=[clip(((z[:, j] ** 2).mean() - 1) * math.sqrt(n / 2)) for j in range(d)],
                 kurt=[clip(((y[:, j] ** 4).mean() - 3) * math.sqrt(n / 24)) for j in range(d)],
                 core=[clip(((np.abs(y[:, j]) < 1).mean() - 0.6826895) / math.sqrt(0.2166 / n)) for j in range(d)],
                 cross=[clip((z[:, j] * z[:, k]).mean() * math.sqrt(n)) for j in range(d) for k in range(j)],
                 eig=[clip((v - 1) * math.sqrt(n / 2)) for v in sorted(np.linalg.eigvalsh(np.atleast_2d(np.cov(z.T))))])
        return T, None
    if case["kind"] == "faces":
        lo, hi = np.array(case["bounds"]).T
        out = bool(np.any((xs < lo - 1e-9 * half) | (xs > hi + 1e-9 * half)))
        side, more = [], []
        for j in range(xs.shape[1]):
            u = []   # standard normal quantile of the share below t, its standard error, and t itself
            for t in (lo[j] + 1e-9 * half[j], hi[j] - 1e-9 * half[j], lo[j] + 0.4 * half[j], hi[j] - 0.4 * half[j], lo[j] + half[j]):
                q = (t - case["x0"][j]) / (o["sigma"] * half[j])
                share = float((xs[:, j] < t).mean())
                if case["alg"] == "cmaes":
                    e = NormalDist().cdf(q)
                    side.append(clip((share - e) / math.sqrt((e * (1 - e) + 2.0 / pop) / pop)))
                elif 0.02 < share < 0.98:
                    v = NormalDist().inv_cdf(share)
                    u.append((v, math.sqrt(share * (1 - share) / pop) / NormalDist().pdf(v), q))
            for a, b in zip(u, u[1:]):
                # all quantiles belong to one normal distribution around x0 that is not narrower than sigma
                side.append(clip((a[0] * b[2] - b[0] * a[2]) / math.hypot(a[1] * b[2], b[1] * a[2])))
            more += [clip((abs(a[2]) - abs(a[0])) / a[1]) for a in u]
        return dict(tid=tid, kind="faces", alg=case["alg"], out=out, side=side, more=more), None
    prev, cur = xs[(g - 2) * pop:(g - 1) * pop], xs[(g - 1) * pop:g * pop]
    vals = [e[1] for e in rec.ev[(g - 2) * pop:(g - 1) * pop]]
    org, sd = prev.mean(axis=0), prev.std(axis=0)
    if np.any(sd <= 1e-9 * half):
        return dict(tid=tid, skip=True), None
    unit = sd / 1000.0
    center = (cur.mean(axis=0) - org) / unit
    if case["kind"] == "later":
        if np.abs(cur - cur[0]).max() > 1e-6 * sd.min():
            return dict(tid=tid, skip=True, loud=True), None  # the deviates are drawn some other way
        e = [4] * len(sd)
    else:
        if pop < 1000:
            return dict(tid=tid, skip=True), None
        e = [int(5 + 7 * s) for s in cur.std(axis=0) / math.sqrt(pop) / unit]
    if not np.all(np.isfinite(center)):
        return None, "not finite"
    keep = np.argsort(vals, kind="stable")[:42]
    return dict(tid=tid, kind="later", alg=case["alg"], pop=pop, num=case["num"], den=case["den"],
                rank=[int(v) for v in np.argsort(np.argsort(np.array(vals)[keep])) + 1],
                x=[[int(round(c)) for c in (prev[k] - org) / unit] for k in keep],
                center=[int(max(-10 ** 8, min(10 ** 8, round(c)))) for c in center], e=e), None


def gauss_models():
    return [dict(module="GaussModel", consts=dict(Span=2), invariants=("Positive", "Decreasing", "Between", "Equal", "One"), deadlock=False)]


# ---------------------------------------------------------------------------

TABLE = {
    # property: generator, tracer, trace specification, design models, number of cases
    "C10": (gen_de, trace_de, "DETrace", de_models, 320),
    "C11": (gen_pso, trace_pso, "PSOTrace", pso_models, 600),
    "C12": (gen_restart, trace_restart, "RestartTrace", restart_models, 700),
    "C13": (gen_na, trace_na, "NATrace", na_models, 500),
    "C14": (gen_init, trace_init, "InitTrace", init_models, 900),
    "C15": (gen_gauss, trace_gauss, "GaussTrace", gauss_models, 500),
}


def _gen(a):
    return TABLE[a[0]][0](a[1])


def _trace(a):
    return TABLE[a[0]][1](a[1:])


def slim(case):
    c = dict(case)
    if len(c.get("script", ())) > 60:
        c["script"] = c["script"][:60] + ["..."]
    return brief(c)


def run(check):
    prop = check.prop
    _, _, module, models, n = TABLE[prop]
    n *= 6 if vlib.THOROUGH else 1
    jobs = models()
    rs = vlib.tlc_many(jobs, par=4)
    for j, r in zip(jobs, rs):
        if not r.ok:
            raise vlib.MachineryError("design model %s %s\n%s" % (j["module"], j["consts"], r.out[-2500:]))
        check.add_tlc(j["module"], r)
    cs = vlib.pmap(_gen, [(prop, i) for i in range(n)])
    # the same rankings, with values far apart or only just apart
    tables = cases.TABLES if prop != "C15" else ("cliff", "float32", "huge", "mixed")
    for i, c in enumerate(cs):
        if c.get("script") and i // 3 % 2 and len(set(c["script"])) < 100000:
            c["map"] = tables[i // 6 % len(tables)]
            c["script"] = cases.remap(c["script"], c["map"])
    if prop == "C12":
        for i, c in enumerate(cs):
            g = c["opts"].get("competitivity")
            if c["mode"] == "frozen" and i % 3 == 0 and g:
                c["g2"] = min(2.0, g + (0.3, 0.1, 0.5)[i % 9 // 3])
        k = len(cs)
        replay_scripts(rs, cs)
        check.replayed += len(cs) - k
    out = vlib.pmap(_trace, [(prop, c, i) for i, c in enumerate(cs)])
    traces, skipped = [], 0
    for c, (t, err) in zip(cs, out):
        if t is None:
            check.violate(prop + ".completes", slim(c), err)
        elif t.get("skip"):
            skipped += 1
            check.count("skipped_loud", int(bool(t.get("loud"))))
        else:
            if t.get("odd"):
                check.violate("C10.trial", slim(c), "a trial is not an integer combination of the members")
            traces.append(t)
    if prop == "C13":
        t, k = na_statistics(traces)
        t["tid"] = len(cs)
        cs.append(dict(alg="na", kind="all draws of all runs", opts={}, z=t["z"]))
        traces.append(t)
        check.extra["draws"] = k
    for tid, clauses in vlib.validate(check, module, traces, invariants=("Sane",)).items():
        for cl in clauses:
            check.violate(cl, slim(cs[tid]))
    check.extra["skipped"] = skipped
    kinds = {}
    for t, c in zip(traces, cs):
        k = t.get("kind") or t.get("strategy") or t.get("mode") or ("shrink" if t.get("shrink") else "all")
        kinds[k] = kinds.get(k, 0) + 1
    check.extra["kinds"] = kinds
    if prop == "C12":
        check.extra["restarts_seen"] = sum(len(it["moved"]) for t in traces for it in t["it"])
    if prop == "C11":
        check.extra["steps_ending_on_a_face"] = sum(e["face"] for t in traces for e in t["ev"])
    for i in (0, n // 2, n - 1):
        check.sample({"case": slim(cs[i])}, 3)
