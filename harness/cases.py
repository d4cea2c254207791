"""Random configurations of the optimizers and samplers, and the projection of recorded runs to traces."""
import math

import numpy as np

import vlib

SLOT = ("de", "pso", "cpso", "na")
EVO = ("cmaes", "vdcma")
NEED = {"best1bin": 3, "rand1bin": 4, "best2bin": 5, "rand2bin": 6}
NAN = 2000000001
UNKNOWN = 0


def pick(r, *xs):
    return xs[r.randrange(len(xs))]


def gen_bounds(r, ndim, degenerate=False, kind=None):
    kind = kind or pick(r, "unit", "sym", "asym", "mixed", "mixed", "neg", "unit", "sym", "asym", "mixed", "mixed", "neg", "narrow", "wide", "scales")
    b = []
    for _ in range(ndim):
        if kind == "unit":
            lo, hi = -1.0, 1.0
        elif kind == "sym":
            lo, hi = -5.12, 5.12
        elif kind == "asym":
            lo, hi = -2.0, 7.5
        elif kind == "neg":
            lo, hi = -9.0, -3.0
        elif kind in ("narrow", "wide", "scales"):   # very small, very large, both
            w = 10 ** dict(narrow=r.uniform(-8, -4), wide=r.uniform(3, 6), scales=r.uniform(-6, 5))[kind]
            lo = w * r.uniform(-1.5, 0.5)
            hi = lo + w
        else:
            lo = r.uniform(-10, 10)
            hi = lo + 10 ** r.uniform(-2, 2)
        b.append([lo, hi])
    if degenerate and ndim > 1:
        j = r.randrange(ndim)
        b[j] = [b[j][0], b[j][0]]
    return b


def gen_obj(r, ncalls, alg=None, kinds=None):
    k = pick(r, *(kinds or ("sphere", "sphere", "rastrigin", "rosen", "quad", "plateau", "intplateau", "mixed", "const",
                            "linear", "infwall", "huge", "neg", "step", "script", "script", "npint")))
    c = round(r.uniform(-2, 2), 3)
    if k in ("sphere", "rastrigin", "rosen", "quad"):
        return dict(kind=k, c=c)
    if k in ("plateau", "intplateau", "mixed", "npint"):
        return dict(kind=k, c=c, s=pick(r, 0.2, 1.0, 5.0))
    if k == "const":
        return dict(kind=k, v=pick(r, 0.0, 1.0, -3.0, 7))
    if k == "linear":
        return dict(kind=k, c=c, s=pick(r, 1.0, -1.0))
    if k == "infwall":
        return dict(kind=k, c=c, w=pick(r, 0.0, 1.0, -1.0, 3.0))
    if k == "huge":
        return dict(kind=k, c=c, s=pick(r, 1e28, 1e31, 1e100))
    if k == "neg":
        return dict(kind=k, c=c, s=pick(r, 1.0, 100.0))
    if k == "step":
        return dict(kind=k, c=c)
    style = pick(r, "levels", "levels", "decreasing", "increasing", "few", "late")
    n = ncalls + 5
    if style == "levels":
        m = r.randint(2, 4)
        v = [float(r.randrange(m)) - 0.5 * (m > 3) for _ in range(n)]
    elif style == "decreasing":
        v = [float(n - i) + 0.25 for i in range(n)]
    elif style == "increasing":
        v = [float(i) * 0.5 for i in range(n)]
    elif style == "few":
        v = [5.0 if r.random() < 0.95 else r.uniform(-1, 5) for _ in range(n)]
    else:
        j = r.randrange(n)
        v = [3.0 + (i % 7) * 0.125 if i != j else -1.0 for i in range(n)]
    return dict(kind="script", values=v)


def other_form(r, case, bounds):
    """A start in single precision, or in an array that cannot be written to."""
    u = r.random()
    if u < 0.15:
        y = np.array(case["x0"], dtype=np.float32).astype(float)
        lo, hi = np.transpose(bounds)
        if np.isfinite(y).all() and (y >= lo).all() and (y <= hi).all():
            case["x0"], case["x0form"] = y.tolist(), "narrow"
    elif u < 0.3:
        case["x0form"] = "frozen"


def gen_opt(r, alg=None, focus=None, maxeval=900, big=None, **force):
    """A random valid configuration of an optimizer."""
    alg = alg or pick(r, "de", "pso", "cpso", "na", "cmaes", "vdcma")
    ndim = pick(r, 1, 2, 2, 3, 4, 6) if not alg == "vdcma" else pick(r, 1, 2, 3, 5, 7, 9)
    o = {}
    strategy = pick(r, *NEED) if alg == "de" else None
    lo = NEED[strategy] if alg == "de" else 2
    pop = pick(r, lo, lo, lo + 1, lo + 2, 8, 10, r.randint(lo, 25))
    pop = max(pop, lo)
    mi = pick(r, 1, 2, 3, 4, 5, 8, 13, r.randint(1, 60))
    q = r.random()
    if q < 0.04:      # many coordinates
        ndim = pick(r, 8, 12, 17, 24)
    elif q < 0.08:    # many members
        pop = pick(r, 33, 48, 70, 101)
    elif q < 0.12:    # many iterations
        pop, mi = pick(r, lo, lo + 1), pick(r, 100, 130, 200)
    elif maxeval >= 500 and q < 0.14:   # larger still
        big = big or pick(r, "wide", "pop", "long")
    if big:
        maxeval = max(maxeval, 1500)
        if big == "wide":
            ndim, mi = pick(r, 33, 48, 70), min(mi, 8)
        elif big == "pop":
            pop, mi = pick(r, 140, 270, 330), pick(r, 2, 3, 5)
        else:
            pop, mi = lo, pick(r, 520, 1100, 1100)
            maxeval = max(maxeval, pop * mi if lo <= 3 else 2600)
    mi = max(1, min(mi, maxeval // pop))
    o["popsize"], o["maxiter"] = pop, mi
    if alg == "de":
        o["strategy"] = strategy
        o["mutation"] = pick(r, 0.5, 0.5, 0.0, 2.0, round(r.uniform(0, 2), 3))
        o["recombination"] = pick(r, 0.9, 0.5, 0.0, 1.0, round(r.uniform(0, 1), 3))
        o["constraints"] = pick(r, None, "Random")
    elif alg in ("pso", "cpso"):
        o["inertia"] = pick(r, 0.73, 0.73, 0.0, 1.0, round(r.uniform(0, 1), 3))
        o["cognitivity"] = pick(r, 1.49, 1.49, 0.0, 4.0, round(r.uniform(0, 4), 3))
        o["sociability"] = pick(r, 1.49, 1.49, 0.0, 4.0, round(r.uniform(0, 4), 3))
        o["constraints"] = pick(r, None, "Shrink")
        if alg == "cpso":
            o["competitivity"] = pick(r, None, 0.0, 0.5, 1.0, 1.0, 1.5, 2.0, round(r.uniform(0, 2), 3))
    elif alg == "na":
        o["nrperc"] = pick(r, 0.5, 1.0, 0.05, round(r.uniform(0.01, 1), 3))
    else:
        o["sigma"] = pick(r, 0.1, 0.3, 1.0, 0.01)
        o["muperc"] = pick(r, 0.5, 1.0, 0.05, 0.25, round(r.uniform(0.01, 1), 3))
        o["constraints"] = pick(r, None, None, "Penalize")
    if alg in ("de", "pso", "cpso"):
        o["updating"] = pick(r, "immediate", "deferred")
    o["ftol"] = pick(r, -math.inf, -math.inf, 0.0, 1e-8, 10 ** r.uniform(-4, 3), r.uniform(-2, 5), 1.0, 2.0)
    o["xtol"] = pick(r, 1e-8, 0.0, 1e6, -1.0, 10 ** r.uniform(-3, 1))
    o["seed"] = pick(r, 0, 1, 42, r.randrange(2 ** 32), 2 ** 32 - 1, None)
    o["return_all"] = pick(r, True, True, False)
    o["verbosity"] = pick(r, 1.0, 1.0, 0.5, 0.0, 0.25, 0.75, round(r.random(), 3), (r.randrange(pop) + r.choice([0.004, 0.03, 0.0])) / pop)
    o["workers"] = pick(r, 1, 1, 0)
    o["backend"] = pick(r, None, None, None, "mpi", "threading", "loky")
    forced = force.pop("opts", {})
    o.update(forced)
    if "popsize" in forced or "maxiter" in forced:
        forced = dict(forced, competitivity=None)
    pop, mi = o["popsize"], o["maxiter"]
    pen = o.get("constraints") == "Penalize"
    degenerate = alg in SLOT and r.random() < 0.08
    bounds = gen_bounds(r, ndim, degenerate=degenerate)
    kinds = None
    if pen:
        kinds = ("sphere", "rastrigin", "quad", "plateau", "mixed", "linear", "neg", "script", "step")
    obj = gen_obj(r, pop * mi, alg, kinds)
    case = dict(alg=alg, bounds=bounds, obj=obj, opts=o)
    if alg in SLOT:
        if r.random() < 0.35:
            case["x0"] = [[lo_ + (hi_ - lo_) * r.random() for lo_, hi_ in bounds] for _ in range(pop)]
            case["x0form"] = pick(r, "array", "list", "tuple", "fortran")
            if r.random() < 0.25 and not degenerate and all(h - l_ >= 2 for l_, h in bounds):
                case["x0form"] = pick(r, "int", "intlist")
                case["x0"] = [[r.randint(math.ceil(l_), math.floor(h)) for l_, h in bounds] for _ in range(pop)]
            else:
                other_form(r, case, bounds)
        if alg == "cpso" and r.random() < 0.3 and "competitivity" not in forced:
            # a swarm that has collapsed already: members are restarted from the second iteration on
            o["competitivity"] = pick(r, 1.0, 1.5, 2.0, 2.0)
            o["maxiter"] = max(1, min(r.choice([3, 5, 8, 13, 30]), max(o["maxiter"], maxeval // pop)))
            at = [r.uniform(0.2, 0.8) for _ in bounds]
            case["x0"] = [[lo_ + (hi_ - lo_) * (a + 1e-4 * r.random()) for a, (lo_, hi_) in zip(at, bounds)] for _ in range(pop)]
            case["x0form"] = pick(r, "array", "list")
    elif r.random() < 0.5:
        case["x0"] = [lo_ + (hi_ - lo_) * r.random() for lo_, hi_ in bounds]
        case["x0form"] = pick(r, "array", "list", "tuple")
        if r.random() < 0.2 and all(h - l_ >= 2 for l_, h in bounds):
            case["x0form"] = pick(r, "int", "intlist")
            case["x0"] = [r.randint(math.ceil(l_), math.floor(h)) for l_, h in bounds]
        else:
            other_form(r, case, bounds)
    if r.random() < 0.3:
        case["args"] = pick(r, [0.1], [0.5, "tag"], [0.0, [1, 2]], [0.2, None, {"k": 1}, ()])
    case["cb"] = r.random() < 0.8
    case["entry"] = pick(r, "minimize", "direct")
    case["bform"] = pick(r, "list", "array")
    if o["seed"] is None:
        case["npseed"] = r.randrange(2 ** 31)
    case.update(force)
    return case


# ---------------------------------------------------------------------------
# projection

class Points:
    """Positions as numbers of evaluations: exact equality, else the nearest within 1e-9 of the box."""

    def __init__(self, xs, bounds, strict=False):
        self.d = {}
        self.ids = []
        for i, x in enumerate(xs):
            self.ids.append(self.d.setdefault((x + 0.0).tobytes(), i + 1))
        self.xs = np.array(xs) if len(xs) else np.zeros((0, 1))
        w = np.array([b[1] - b[0] for b in bounds], dtype=float)
        mag = np.array([max(abs(b[0]), abs(b[1])) for b in bounds], dtype=float)
        self.scale = np.maximum(w, 1e-3 * mag) + 1e-300
        self.strict = strict

    def id(self, x):
        x = np.asarray(x, dtype=float)
        k = self.d.get((x + 0.0).tobytes())
        if k:
            return k
        if self.strict or not len(self.xs) or x.shape != self.xs[0].shape:
            return UNKNOWN
        d = np.abs((self.xs - x) / self.scale).max(axis=1)
        j = int(np.argmin(np.where(np.isnan(d), np.inf, d)))
        return self.ids[j] if d[j] <= 1e-9 else UNKNOWN


class Ranks:
    """Values as ranks (1-based) among all values of the run."""

    def __init__(self, values):
        vs = sorted({float(v) for v in values if not math.isnan(float(v))})
        self.r = {v: i + 1 for i, v in enumerate(vs)}

    def __call__(self, v):
        v = float(v)
        return NAN if math.isnan(v) else self.r[v]


def width(case):
    return np.array([b[1] - b[0] for b in case["bounds"]], dtype=float)


def scalar(v):
    try:
        return float(v)
    except Exception:
        return math.nan


def isint(v, w):
    try:
        return int(v) == v and w
    except Exception:
        return False


def near_flag(d, xtol):
    if math.isnan(d) or math.isnan(xtol):
        return "m"
    if d == 0:
        return "y" if xtol >= 0 else "n"
    if d <= xtol * (1 - 1e-6):
        return "y"
    if d > xtol * (1 + 1e-6):
        return "n"
    return "m"


def spread_flag(vals, thr):
    if any(math.isnan(v) or math.isinf(v) for v in vals):
        return "n" if not all(math.isinf(v) for v in vals) else "m"
    d = max(vals) - min(vals)
    return "y" if d < thr * (1 - 1e-6) else ("n" if d >= thr * (1 + 1e-6) else "m")


def project_opt(rec, tid):
    """Trace of a finished optimizer run for OptTrace."""
    case, o = rec.case, rec.case["opts"]
    alg = case["alg"]
    pop, mi = o.get("popsize", 10), o.get("maxiter", 100)
    ndim = len(case["bounds"])
    slot = alg in SLOT
    sync = not (alg in ("de", "pso", "cpso") and o.get("updating", "immediate") == "immediate"
                and o.get("workers", 1) in (0, 1) and o.get("backend") != "mpi")
    pen = o.get("constraints") == "Penalize"
    ret = bool(o.get("return_all", False))
    verb = o.get("verbosity", 1.0)
    nout = int(np.ceil(verb * pop))
    verb0 = nout == 0
    nout = max(1, nout)
    res = rec.res
    ftol, xtol = o.get("ftol", 1e-8), o.get("xtol", 1e-8)
    xs = [e[0] for e in rec.ev]
    pts = Points(xs, case["bounds"])
    vals = [scalar(e[1]) for e in rec.ev]
    allv = list(vals) + [ftol, scalar(res.get("fun"))]
    states = [c["state"] for c in rec.cb] + [res]
    for s in states:
        allv.append(scalar(s.get("fun")))
        if isinstance(s.get("funall"), np.ndarray):
            allv += list(np.ravel(s["funall"]))
    rk = Ranks(allv)
    evs = [[rk(v), pts.ids[i]] for i, v in enumerate(vals)]
    cbk = case.get("cb", True)

    rowids = {}

    def rows(s):
        xa, fa = s.get("xall"), s.get("funall")
        if not isinstance(xa, np.ndarray) or not isinstance(fa, np.ndarray) or xa.ndim != 3 or fa.ndim != 2 or len(xa) != len(fa):
            return [0]
        return [rowids.setdefault((np.ascontiguousarray(xa[t]).tobytes(), np.ascontiguousarray(fa[t]).tobytes()), len(rowids) + 1)
                for t in range(len(xa))]

    lower = np.array([b[0] for b in case["bounds"]], dtype=float)
    upper = np.array([b[1] for b in case["bounds"]], dtype=float)

    def inside(x):
        m = 1e-9 * (upper - lower)
        return bool(np.all(x > lower + m) and np.all(x < upper - m))

    # segments
    segs, at = [], 0
    if cbk:
        cuts = [c["nev"] for c in rec.cb]
    else:
        cuts = list(range(pop, len(evs) + 1, pop))
    finalfa = res.get("funall") if ret else None
    fullfa = isinstance(finalfa, np.ndarray) and finalfa.ndim == 2 and finalfa.shape[1] == pop
    W = int(10.0 + 30.0 * ndim / pop)
    bests = []
    prevfun_fit = []
    for g, cut in enumerate(cuts):
        e = evs[at:cut]
        s = dict(e=e, ok=all(bool(v[2]) for v in rec.ev[at:cut]), inside=[inside(x) for x in xs[at:cut]] if pen else [])
        raw = vals[at:cut]
        fit = [rk(v) for v in finalfa[g]] if pen and fullfa and g < len(finalfa) else []
        s["fit"] = fit
        if cbk:
            c = rec.cb[g]
            st = c["state"]
            s["cb"] = dict(nit=int(st["nit"]) if isint(st.get("nit"), True) else -1,
                           nfev=int(st["nfev"]) if isint(st.get("nfev"), True) else -1,
                           f=rk(scalar(st.get("fun"))), x=pts.id(st.get("x")),
                           X=[pts.id(x) for x in c["X"]] if np.ndim(c["X"]) == 2 else [],
                           rows=rows(st) if ret else [])
            b = scalar(st.get("fun"))
        else:
            s["cb"] = 0
            b = math.nan if pen else (min(raw) if raw else math.nan)
        bests.append(b)
        if slot:
            s["eq5"] = s["eq7"] = "n"
        else:
            w = bests[-W:]
            s["eq5"] = "n" if len(bests) < W else ("m" if any(math.isnan(v) for v in w) else spread_flag(w, 1e-10))
            genv = raw if not pen else (list(map(float, finalfa[g])) if fit else [math.nan])
            z = genv + bests
            s["eq7"] = "m" if any(math.isnan(v) for v in z) else spread_flag(z, 1e-12)
        segs.append(s)
        at = cut
    # near flag of the last iteration
    near = "m"
    if slot and cbk and len(rec.cb) >= 2:
        a, b = rec.cb[-2]["state"].get("x"), rec.cb[-1]["state"].get("x")
        w = np.where(upper > lower, upper - lower, 1.0) if alg == "na" else 1.0
        near = near_flag(float(np.linalg.norm((np.asarray(a) - np.asarray(b)) / w)), xtol)
    elif not slot and xtol < 0:
        near = "n"
    elif not slot and xtol >= 1e5:
        near = "y"
    elif not slot and not pen and len(segs) >= 2 and all(len(s["e"]) == pop for s in segs):
        mu = max(1, int(o.get("muperc", 0.5) * pop))
        wts = np.log(mu + 0.5) - np.log(np.arange(1, mu + 1))
        wts /= wts.sum()
        means, amb = [], False
        for g in (len(segs) - 2, len(segs) - 1):
            v = vals[g * pop:(g + 1) * pop]
            order = np.argsort(v, kind="stable")
            sv = np.array(v)[order][:mu + 1]
            amb = amb or len(set(sv.tolist())) < len(sv)
            means.append(wts @ np.array(xs[g * pop:(g + 1) * pop])[order[:mu]])
        if not amb:
            near = near_flag(float(np.linalg.norm((means[0] - means[1]) / (0.5 * (upper - lower)))), xtol)
    xa, fa = res.get("xall"), res.get("funall")
    good = ret and isinstance(xa, np.ndarray) and isinstance(fa, np.ndarray) and xa.ndim == 3 and fa.ndim == 2
    st = res.get("status")
    t = dict(tid=tid, alg=alg, slot=slot, sync=sync, pop=pop, maxiter=mi, ndim=ndim, pen=pen, ret=ret, nout=nout,
             verb0=verb0, cbk=cbk, ftol=rk(ftol), near=near, segs=segs, tail=len(evs) - at,
             res=dict(st=int(st) if isint(st, True) else -99,
                      succ=bool(res.get("success")) if res.get("success") in (True, False) else False,
                      msg=KNOWN_MSG.get(st) == res.get("message"),
                      nit=int(res["nit"]) if isint(res.get("nit"), True) else -1,
                      nfev=int(res["nfev"]) if isint(res.get("nfev"), True) else -1,
                      f=rk(scalar(res.get("fun"))), x=pts.id(res.get("x")),
                      xshape=list(xa.shape) if isinstance(xa, np.ndarray) else [],
                      fshape=list(fa.shape) if isinstance(fa, np.ndarray) else [],
                      rows=rows(res) if ret else [],
                      xa=[[pts.id(x) for x in row] for row in xa] if good else [],
                      fa=[[rk(v) for v in row] for row in fa] if good else []))
    return t


KNOWN_MSG = {
    -8: "TolX", -7: "TolFun", -6: "TolXUp", -5: "EqualFunValues", -4: "ConditionCov", -3: "NoEffectCoord", -2: "NoEffectAxis",
    -1: "maximum number of iterations is reached",
    0: "best solution changes less than xtol",
    1: "best solution value is lower than ftol",
}


def gen_sam(r, alg=None, **force):
    """A random valid configuration of a sampler."""
    alg = alg or pick(r, "mcmc", "hmc")
    ndim = pick(r, 1, 2, 2, 3, 5)
    q = r.random()
    if q < 0.04:
        ndim = pick(r, 8, 11, 16, 24, 40)
    o = {}
    o["maxiter"] = pick(r, 1, 2, 3, 10, r.randint(1, 60)) if alg == "hmc" else pick(r, 1, 2, 3, 10, 50, r.randint(1, 150))
    if alg == "mcmc":
        o["stepsize"] = pick(r, 0.1, 0.5, 1.0, 0.01, [round(r.uniform(0.01, 1), 3) for _ in range(ndim)])
        o["perc"] = pick(r, 1.0, 1.0, 0.0, 0.5, 0.34, round(r.random(), 3))
    else:
        o["stepsize"] = pick(r, 0.01, 0.05, 0.1, [round(r.uniform(0.01, 0.1), 3) for _ in range(ndim)])
        o["nleap"] = pick(r, 1, 2, 5, 10)
        o["finite_diff_abs_step"] = pick(r, 1e-4, 1e-3, 1e-6)
    if 0.04 < q < 0.1:   # long chains
        o["maxiter"] = pick(r, 101, 130, 257)
    o["constraints"] = pick(r, None, "Reject")
    o["seed"] = pick(r, 0, 1, 42, r.randrange(2 ** 32), 2 ** 32 - 1, None)
    o["return_all"] = pick(r, True, True, False)
    o.update(force.pop("opts", {}))
    bounds = gen_bounds(r, ndim)
    kinds = ("sphere", "sphere", "quad", "linear", "rastrigin", "const") if alg == "hmc" else (
        "sphere", "sphere", "quad", "rastrigin", "plateau", "const", "linear", "step", "intplateau", "neg")
    obj = gen_obj(r, 10, alg, kinds)
    if obj["kind"] == "neg":
        obj["s"] = 1.0
    case = dict(alg=alg, bounds=bounds, obj=obj, opts=o)
    if r.random() < 0.5:
        case["x0"] = [lo_ + (hi_ - lo_) * r.random() for lo_, hi_ in bounds]
        case["x0form"] = pick(r, "array", "list", "tuple")
        if r.random() < 0.2 and all(h - l_ >= 2 for l_, h in bounds):
            case["x0form"] = pick(r, "int", "intlist")
            case["x0"] = [r.randint(math.ceil(l_), math.floor(h)) for l_, h in bounds]
        else:
            other_form(r, case, bounds)
    if r.random() < 0.3:
        case["args"] = pick(r, [0.1], [0.5, "tag"], [0.0, [1, 2]], [0.2, None, {"k": 1}, ()])
    if alg == "hmc":
        case["jac"] = r.random() < 0.6
    case["cb"] = r.random() < 0.8
    case["entry"] = pick(r, "minimize", "direct")
    case["bform"] = pick(r, "list", "array")
    if o["seed"] is None:
        case["npseed"] = r.randrange(2 ** 31)
    case.update(force)
    return case


TABLES = ("neighbours", "below", "doublings", "huge", "cliff", "float32", "subnormal", "mixed")


def value_table(how, n):
    """n increasing floats, spaced in a way that only an exact comparison tells them apart."""
    if how == "neighbours":
        t = [1.0 + k * 2.0 ** -52 for k in range(n)]
    elif how == "below":
        t = [-1e300 * (1.0 + (n - k) * 2.0 ** -50) for k in range(n)]
    elif how == "doublings":
        t = [math.ldexp(1.0, -1000 + (2000 * k) // max(1, n)) * (1.0 + k * 2.0 ** -30) for k in range(n)]
    elif how == "huge":
        t = [1e308 + k * (5e307 / n) for k in range(n)]
    elif how == "cliff":    # the worst half is far away: statistics of the values cannot see the best ones
        t = [float(k) if 2 * k < n else 1e20 * (1.0 + k * 2.0 ** -20) for k in range(n)]
    elif how == "float32":
        t = [2.0 ** 40 + k for k in range(n)]
    elif how == "subnormal":
        t = [(k - n // 2) * 5e-324 for k in range(n)]
    else:
        t = [float(k) - n // 3 if k % 3 else float(k) - n // 3 + 0.9999999999 for k in range(n)]
    assert all(a < b for a, b in zip(t, t[1:]))
    return t


def remap(script, how):
    ks = sorted(set(script))
    d = dict(zip(ks, value_table(how, len(ks))))
    return [d[v] for v in script]
