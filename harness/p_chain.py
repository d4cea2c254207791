"""C22 (mcmc chain), C23 (hmc trajectories), C24 (what the samplers report)."""
import copy
import math

import numpy as np

import cases
import vlib
from p_pop import brief, replay  # noqa: F401
from p_twin import Mapped
from record import Objective, execute

FARD = 60.0   # exp(-60): never happens


def clip(t):
    return int(max(-10 ** 8, min(10 ** 8, round(1000 * t)))) if math.isfinite(t) else 10 ** 8


# ---------------------------------------------------------------------------
# recorded runs

def points(rec, pre=()):
    """Interning of points."""
    d = {}

    def num(x):
        k = (np.asarray(x, dtype=float) + 0.0).tobytes()
        if k not in d:
            d[k] = len(d) + 1
        return d[k]
    return num


def ranker(values):
    vs = sorted(set(float(v) for v in values))
    idx = {v: i + 1 for i, v in enumerate(vs)}
    return lambda v: idx.get(float(v), 0)


def gen(prop, i):
    r = vlib.rng(prop, i)
    alg = {"C22": "mcmc", "C23": "hmc"}.get(prop) or ("mcmc", "hmc")[i % 2]
    case = cases.gen_sam(r, alg)
    n = len(case["bounds"])
    o = case["opts"]
    case["cb"] = True
    o["maxiter"] = max(o["maxiter"], r.choice([1, 2, 5]))
    if r.random() < 0.25:
        n = r.choice([4, 6, 7])
        case["bounds"] = cases.gen_bounds(r, n)
        case.pop("x0", None)
        if isinstance(o["stepsize"], list):
            o["stepsize"] = [round(r.uniform(0.01, 0.3 if alg == "mcmc" else 0.08), 3) for _ in range(n)]
    if alg == "mcmc":
        q = r.random()
        if q < 0.5 and n > 1:
            o["perc"] = r.choice([k / n for k in range(n + 1)] + [0.5, 0.34, 0.66, 0.75, 0.99])
        if r.random() < 0.3:  # gentle slopes, so that the lottery matters
            case["obj"] = dict(kind="linear", c=0.0, s=r.choice([0.1, -0.1, 0.5]))
        if r.random() < 0.1:
            case["obj"] = dict(kind="infwall", c=0.0, w=case["bounds"][0][0] + r.random() * (case["bounds"][0][1] - case["bounds"][0][0]))
        if o["constraints"] == "Reject" and r.random() < 0.5:
            o["stepsize"] = r.choice([0.5, 1.0, 0.3])
    else:
        o["maxiter"] = min(o["maxiter"], 25)
        if r.random() < 0.5:
            o["stepsize"] = r.choice([0.05, 0.1, 0.2, 0.3])
        q = r.random()
        if q < 0.3:
            o["nleap"] = r.choice([1, 2, 3, 7])
        elif q < 0.4:
            o.update(nleap=r.choice([24, 31, 33, 50, 65, 101]), maxiter=min(o["maxiter"], 6))
            if prop == "C23":
                case["obj"] = dict(kind="sphere", c=0.3)
                o["stepsize"] = r.choice([0.01, 0.003])
        if o["constraints"] == "Reject" and o["nleap"] < 24 and r.random() < 0.5:
            o["stepsize"] = r.choice([0.3, 0.2])
        if r.random() < 0.25 and prop == "C23":
            # curved trajectories that leave the box and come back
            case["bounds"] = [[-1.0 + 0.1 * r.random(), 1.0] for _ in case["bounds"]]
            case["obj"] = dict(kind=r.choice(["sphere", "quad"]), c=0.0)
            case.pop("args", None)
            o.update(constraints="Reject", nleap=r.choice([3, 5, 8, 12]), stepsize=r.choice([0.2, 0.3, 0.4]) / (1 if case["obj"]["kind"] == "sphere" else n),
                     maxiter=r.choice([15, 25, 40]))
            if case.get("x0") is not None:
                case["x0"] = [r.uniform(-0.8, 0.8) for _ in case["bounds"]]
                case["x0form"] = "array"
    if prop == "C24":
        case["cb"] = r.random() < 0.8 or not o["return_all"]
        if r.random() < 0.25:  # the first sample is the best, or values tie
            mid = [0.5 * (a + b) for a, b in case["bounds"]]
            case["x0"], case["x0form"] = mid, "array"
            case["obj"] = r.choice([dict(kind="sphere", c=mid[0]), dict(kind="const", v=2.0), dict(kind="step", c=mid[0])]) if alg == "mcmc" \
                else r.choice([dict(kind="sphere", c=mid[0]), dict(kind="const", v=2.0)])
        elif r.random() < 0.3:
            case["map"] = r.choice(["micro", "tiny", "shift", "atan", "pico"])
    if alg == "hmc" and prop == "C23" and any(not 1e-2 <= hi - lo <= 150 for lo, hi in case["bounds"]):
        # differences of nearby values say little in very small and very large boxes
        if case["obj"]["kind"] in ("sphere", "quad", "linear", "rastrigin"):
            case["jac"] = True
            if case["obj"]["kind"] == "linear" or r.random() < 0.3:
                # gentle slopes: the energy is kept exactly, every step is accepted
                case["obj"] = dict(kind="linear", c=0.0, s=r.choice([1.0, -1.0]) * r.choice([1.0, 1.0 / max(hi - lo for lo, hi in case["bounds"])]))
            if case["obj"]["kind"] != "linear":   # trajectories that stay finite
                k = 1.0 if case["obj"]["kind"] != "rastrigin" else 10.0
                o["stepsize"] = [r.choice([0.05, 0.2, 0.4, 0.6]) / (k * (j + 1)) / (0.5 * (hi - lo)) for j, (lo, hi) in enumerate(case["bounds"])]
        else:
            case["bounds"] = [[-2.0, 7.5] for _ in case["bounds"]]
            if case.get("x0") is not None:
                case["x0"] = [r.uniform(-2.0, 7.5) for _ in case["bounds"]]
    case.pop("xform", None)
    return case


def whole(ratio, n):
    q = float(ratio) * n
    return int(round(q)) if abs(q - round(q)) < 1e-6 else -1


def split(rec, nsamples):
    """Indices of evaluations and of gradients of every step, from the callbacks."""
    out = []
    e0 = j0 = 0
    for c in rec.cb:
        out.append((list(range(e0, c["nev"])), list(range(j0, c["njac"]))))
        e0, j0 = c["nev"], c["njac"]
    return out


def trace(job):
    prop, case, tid = job
    fun = None
    if case.get("map"):   # values that differ very little
        fun = Mapped(Objective(**case["obj"]), case["map"])
    rec = execute(case, fun=fun)
    o = case["opts"]
    mi, nd = o["maxiter"], len(case["bounds"])
    if rec.exc:
        return None, rec.exc
    allx = rec.res.get("xall")
    if "xall" in rec.res:
        xs = [np.array(x) for x in rec.res["xall"]]
    else:
        xs = [c["X"] for c in rec.cb]
    vals = {}
    for x, v, _ in rec.ev:
        vals.setdefault((x + 0.0).tobytes(), float(v))
    if any(math.isnan(v) for v in vals.values()) or not np.all(np.isfinite(np.array([e[0] for e in rec.ev]))):
        return dict(tid=tid, skip=True), None
    num, rank = points(rec), ranker(vals.values())
    fs = [float(f) for f in rec.res["funall"]] if "funall" in rec.res else [vals.get((x + 0.0).tobytes(), math.nan) for x in xs]
    if len(fs) != len(xs):
        return None, "xall and funall differ in length"
    T = dict(tid=tid, prop=prop, kind="run", maxiter=mi, reject=o["constraints"] == "Reject", hascb=bool(case.get("cb", True)),
             all=bool(o["return_all"]),
             s=[dict(x=num(x), f=rank(f), ok=vals.get((x + 0.0).tobytes()) == f) for x, f in zip(xs, fs)])
    if prop == "C24":
        T["cb"] = []
        for k, c in enumerate(rec.cb):
            st = c["state"]
            xa, fa = st.get("xall"), st.get("funall")
            lead = rows = 0
            if xa is not None and fa is not None and np.ndim(xa) == 2 and len(xa) == len(fa):
                rows = len(xa)
                while lead < min(rows, len(xs)) and np.array_equal(xa[lead], xs[lead]) and float(fa[lead]) == fs[lead]:
                    lead += 1
            elif xa is not None or fa is not None:
                rows = -1
            T["cb"].append(dict(nit=int(st.get("nit", -1)), x=num(st["x"]), f=rank(st["fun"]), X=num(c["X"]), rows=rows, lead=lead,
                                acc=whole(st.get("accept_ratio", -1), k + 1)))
        T["res"] = dict(x=num(rec.res["x"]), f=rank(rec.res["fun"]), rows=len(xs) if "xall" in rec.res else 0,
                        acc=whole(rec.res["accept_ratio"], mi), nit=int(rec.res["nit"]))
        return T, None
    if len(rec.cb) != len(xs):
        return dict(tid=tid, skip=True, loud=True), None   # C24's business
    steps = split(rec, len(xs))[1:]
    step = np.array(o["stepsize"], dtype=float) * np.array([0.5 * (b - a) for a, b in case["bounds"]])
    if prop == "C22":
        T["dim"], T["size"] = nd, max(1, int(o["perc"] * nd))
        T["fixed"] = []
        T["p"] = []
        for k, (es, _) in enumerate(steps):
            new = [e for e in es if not np.array_equal(rec.ev[e][0], xs[k])] or es
            if not new:
                T["p"].append(dict(x=0, v=0, ch=[], never=False))
                continue
            x, v = rec.ev[new[-1]][0], float(rec.ev[new[-1]][1])
            T["p"].append(dict(x=num(x), v=rank(v), ch=[int(j) + 1 for j in np.flatnonzero(x != xs[k])],
                               never=bool(v - fs[k] > FARD)))
        return T, None
    # C23
    h = o["finite_diff_abs_step"]
    obj = Objective(**case["obj"])
    args = tuple(case.get("args", ()))
    T["nleap"], T["p"] = o["nleap"], []
    for k, (es, js) in enumerate(steps):
        q0 = xs[k]
        pos, jacok = [], True
        es = [e for e in es if not np.array_equal(rec.ev[e][0], q0)]
        if case.get("jac"):
            for j in js:
                x, g = rec.jac[j]
                if not pos or not np.array_equal(pos[-1][0], x):
                    pos.append((x, g))
                if not np.allclose(g, obj.grad(x, *args), rtol=1e-9, atol=1e-12):
                    jacok = False
            if len(es) > 1:
                jacok = False
            last = es[-1] if es else None
            if not pos or not np.array_equal(pos[0][0], q0):
                pos.insert(0, (q0, np.asarray(obj.grad(q0, *args), dtype=float)))
        else:
            m = 2 * nd
            last = es[-1] if len(es) % m else None
            groups = [es[a:a + m] for a in range(0, len(es) - len(es) % m, m)]
            if len(es) % m > 1:
                jacok = False
            for g_ in groups:
                X = np.array([rec.ev[e][0] for e in g_])
                V = [float(rec.ev[e][1]) for e in g_]
                c = np.median(X, axis=0) if nd > 1 else X.mean(axis=0)
                g = np.full(nd, np.nan)
                D = X - c
                for j in range(nd):
                    big = np.argsort(-np.abs(D[:, j]), kind="stable")[:2]
                    a, b = sorted(big, key=lambda q: D[q, j])
                    tol = 1e-6 * h + 1e-13 * np.abs(c).max()
                    dev = D.copy()
                    if abs(D[b, j] - h) > tol or abs(D[a, j] + h) > tol:
                        jacok = False
                    rest = np.delete(D[[a, b]], j, axis=1)
                    if rest.size and np.abs(rest).max() > tol:
                        jacok = False
                    g[j] = (V[b] - V[a]) / (2 * h)
                pos.append((c, g))
            if not pos or np.abs(pos[0][0] - q0).max() > 1e-6 * h + 1e-13 * max(1.0, np.abs(q0).max()):
                g0 = np.array([(obj.value(q0 + h * u, args) - obj.value(q0 - h * u, args)) / (2 * h) for u in np.eye(nd)])
                pos.insert(0, (q0, g0))
            else:
                pos[0] = (q0, pos[0][1])
        prop_x = rec.ev[last][0] if last is not None else None
        if prop_x is not None:
            if np.abs(pos[-1][0] - prop_x).max() > 1e-9 * max(1.0, np.abs(prop_x).max()):
                # the gradient at the end of the trajectory was not asked for
                gl = obj.grad(prop_x, *args) if case.get("jac") else np.array(
                    [(obj.value(prop_x + h * u, args) - obj.value(prop_x - h * u, args)) / (2 * h) for u in np.eye(nd)])
                pos.append((prop_x, np.asarray(gl, dtype=float)))
            else:
                pos[-1] = (prop_x, pos[-1][1])
        Q = np.array([a for a, _ in pos])
        G = np.array([b for _, b in pos])
        res = []
        for a in range(1, len(pos) - 1):
            e = np.abs(Q[a + 1] - 2 * Q[a] + Q[a - 1] + step ** 2 * G[a])
            if not case.get("jac") and 1e-8 * np.abs(Q[a]).max() > h:
                res.append(0)   # so far out that the points of the differences cannot be told apart
                continue
            s = 1e-9 * np.maximum(np.abs(Q[a - 1:a + 2]).max(axis=0), step ** 2 * np.abs(G[a])) + 1e-12 * step
            res.append(min(10 ** 6, int(1000 * (e / s).max())) if np.all(np.isfinite(e)) else 10 ** 6)
        p = dict(x=0, v=0, res=res, steps=len(pos) - 1, jac=bool(jacok), de=0, **{"in": False})
        if prop_x is None and len(pos) > 1:
            # where the trajectory ends, whether or not the code followed it to its end
            qa, qb, gb = Q[-2], Q[-1], G[-1]
            for _ in range(o["nleap"] + 2 - len(pos)):
                qa, qb = qb, 2 * qb - qa - step ** 2 * gb
                gb = np.asarray(obj.grad(qb, *args), dtype=float) if case.get("jac") else np.array(
                    [(obj.value(qb + h * u, args) - obj.value(qb - h * u, args)) / (2 * h) for u in np.eye(nd)])
            lo, hi = np.array(case["bounds"], dtype=float).T
            w = 1e-6 * (hi - lo)
            p["in"] = bool(np.all(qb > lo + w) and np.all(qb < hi - w))
        if prop_x is not None and len(pos) > 1:
            v = float(rec.ev[last][1])
            p0 = (Q[1] - Q[0]) / step + 0.5 * step * G[0]
            p1 = (Q[-1] - Q[-2]) / step - 0.5 * step * G[-1]
            k0, k1 = 0.5 * (p0 ** 2).sum(), 0.5 * (p1 ** 2).sum()
            de = v - fs[k] + k1 - k0
            slack = 1e-8 + 1e-12 * max(abs(v), abs(fs[k]), k0, k1) + 1e-14 * (np.abs(Q).max() / step).max() * (1 + math.sqrt(max(k0, k1)))
            p.update(x=num(prop_x), v=rank(v), de=-1 if de <= max(-slack, 1e-6 - slack) else 1 if de > FARD else 0, dE=float(de), p0=p0.tolist())
        T["p"].append(p)
    return T, None


# ---------------------------------------------------------------------------
# statistics of the random choices

class Slope:
    """Every proposal is worse than the current sample by the next of `deltas`."""

    def __init__(self, deltas):
        self.deltas, self.k, self.cur, self.seen, self.x = deltas, 0, 0.0, {}, None

    def __call__(self, x, *a):
        k = x.tobytes()
        if k in self.seen:
            return self.seen[k]
        v = 5.0 if not self.seen else self.cur + self.deltas[self.k % len(self.deltas)]
        self.k += 1
        self.seen = {k: v, self.x: self.cur} if self.x is not None else {k: v}
        return v

    def callback(self, X, state):
        self.x = np.asarray(X).tobytes()
        self.cur = self.seen[self.x]

    def grad(self, x, *a):
        return np.zeros(len(x))


def z_prob(a, p):
    """Deviation of the number of acceptances from its expectation, in thousandths of a standard error."""
    a, p = np.asarray(a, dtype=float), np.asarray(p, dtype=float)
    s = math.sqrt((p * (1 - p)).sum())
    return clip((a.sum() - p.sum()) / max(s, 1.5))


def moments(z):
    """z: independent standard normal deviates of one coordinate."""
    n = len(z)
    return [clip(z.mean() * math.sqrt(n)), clip(((z ** 2).mean() - 1) * math.sqrt(n / 2)),
            clip(((z ** 4).mean() - 3) / math.sqrt(96 / n)), clip(((np.abs(z) < 1).mean() - 0.6826895) / math.sqrt(0.2166 / n)),
            clip((z > 0).mean() * 2 * math.sqrt(n) - math.sqrt(n))]


def cross(x, y):
    return clip((x * y).mean() * math.sqrt(len(x)))


def gen_stat(prop, i):
    r = vlib.rng(prop, "stat", i)
    alg = "mcmc" if prop == "C22" else "hmc"
    nd = (1, 2, 3, 4, 5, 7)[i % 6]
    b = cases.gen_bounds(r, nd, kind=r.choice(["mixed", "unit", "asym", "neg"]))
    o = dict(maxiter=4000 if alg == "mcmc" else 1500, seed=r.randrange(2 ** 31), constraints=None, return_all=r.random() < 0.3)
    o["stepsize"] = r.choice([0.1, 0.5, 1.0, 0.02]) if i % 2 else [round(10 ** r.uniform(-2, 0), 4) for _ in range(nd)]
    if alg == "mcmc":
        o["perc"] = r.choice([1.0, 1.0, 0.0, 0.5, 0.34, 0.8])
    else:
        o["nleap"] = r.choice([1, 2, 3])
        o["return_all"] = True
    case = dict(alg=alg, bounds=b, opts=o, cb=True, entry=r.choice(["direct", "minimize"]), kind=("deltas", "run")[i // 2 % 2] if True else "")
    case["x0"] = [0.5 * (lo + hi) for lo, hi in b]
    if case["kind"] == "deltas":
        case["deltas"] = [round(x, 3) for x in r.choice([[0.2], [0.7], [1.5], [3.0], [0.05], [-1.0, 0.5], [0.1, 1.0, 2.5, 0.0], [1.0]])]
        if alg == "hmc":
            case["jac"] = True
        case["obj"] = dict(kind="const", v=0.0)
    else:
        case["obj"] = dict(kind=r.choice(["sphere", "quad", "rastrigin"]), c=b[0][0])
        if alg == "hmc":
            case["obj"] = dict(kind=r.choice(["sphere", "quad"]), c=b[0][0])
            case["jac"] = True
            o["maxiter"] = 1200
            # a step size that makes the energy error matter
            w = [0.5 * (hi - lo) for lo, hi in b]
            curv = 2.0 if case["obj"]["kind"] == "sphere" else 2.0 * nd ** 2
            o["stepsize"] = [round(r.choice([0.8, 1.2, 1.5]) / (x * math.sqrt(curv)), 5) for x in w]
    return case


def stat(job):
    prop, case, tid = job
    o = case["opts"]
    slope = Slope(case["deltas"]) if case["kind"] == "deltas" else None
    rec = execute(case, fun=slope, jac=slope.grad if slope else None, callback=slope.callback if slope else None)
    if rec.exc:
        return None, rec.exc
    xs = np.array([c["X"] for c in rec.cb])
    nd = len(case["bounds"])
    step = np.array(o["stepsize"], dtype=float) * np.array([0.5 * (b - a) for a, b in case["bounds"]])
    T = dict(tid=tid, prop=prop, kind="stat", s=[], moments=[], cross=[], prob=[])
    if not np.all(np.isfinite(xs)) or len(rec.cb) != o["maxiter"]:
        return dict(tid=tid, skip=True, loud=True), None
    acc = np.any(xs[1:] != xs[:-1], axis=1)
    if prop == "C22":
        ev = [e for e in rec.ev]
        if len(ev) != o["maxiter"]:
            return dict(tid=tid, skip=True, loud=True), None
        P = np.array([e[0] for e in ev])
        V = np.array([float(e[1]) for e in ev])
        d = P[1:] - xs[:-1]
        cols = [np.flatnonzero(d[:, j] != 0) for j in range(nd)]
        for j in range(nd):
            if len(cols[j]) > 100:
                T["moments"] += moments(d[cols[j], j] / step[j])
            for k in range(j):
                both = np.intersect1d(cols[j], cols[k])
                if len(both) > 100:
                    T["cross"].append(cross(d[both, j] / step[j], d[both, k] / step[k]))
            if len(cols[j]) > 100:
                z = d[cols[j], j] / step[j]
                T["cross"].append(cross(z[1:], z[:-1]))
        cur = np.empty(len(ev))
        cur[0] = V[0]
        for k in range(1, len(ev)):
            cur[k] = V[k] if acc[k - 1] else cur[k - 1]
        dE = V[1:] - cur[:-1]
        T["z"] = [(d[cols[j], j] / step[j]).tolist() for j in range(nd)]
        z = np.array([d[k, np.flatnonzero(d[k])[0]] / step[np.flatnonzero(d[k])[0]] if np.any(d[k]) else 0.0 for k in range(len(d))])
    else:
        sub = dict(case)
        T2 = rebuild(rec, case, step, xs)
        if T2 is None:
            return dict(tid=tid, skip=True, loud=True), None
        p0, dE = T2
        for j in range(nd):
            T["moments"] += moments(p0[:, j])
            T["cross"].append(cross(p0[1:, j], p0[:-1, j]))
            for k in range(j):
                T["cross"].append(cross(p0[:, j], p0[:, k]))
        z = p0[:, 0]
        T["z"] = p0.T.tolist()
    up = dE > 1e-9
    pr = np.exp(-np.clip(dE, 0, 700))
    if up.sum() > 50:
        T["prob"].append(z_prob(acc[up], pr[up]))
        for lo, hi in ((0, 0.2), (0.2, 0.5), (0.5, 0.8), (0.8, 1.0)):
            m = up & (pr > lo) & (pr <= hi)
            if m.sum() > 50:
                T["prob"].append(z_prob(acc[m], pr[m]))
        # the lottery does not look at the perturbation (where the objective does not either)
        if slope and prop == "C22":
            a = (acc[up] - pr[up]) / np.sqrt(np.maximum(pr[up] * (1 - pr[up]), 1e-12))
            if len(set(case["deltas"])) == 1 and (pr[up] * (1 - pr[up])).min() > 0.02:
                T["cross"] += [cross(a, z[up]), cross(a, (z[up] ** 2 - 1) / math.sqrt(2))]
        if slope and len(set(case["deltas"])) == 1:
            # nor at the earlier lotteries
            a = (acc[up] - pr[up]) / np.sqrt(np.maximum(pr[up] * (1 - pr[up]), 1e-12))
            if (pr[up] * (1 - pr[up])).min() > 0.02:
                T["cross"].append(cross(a[1:], a[:-1]))
    if (~up).any():
        T["prob"].append(0 if acc[~up].all() else 10 ** 8)
    return T, None


def rebuild(rec, case, step, xs):
    """Initial momenta and energy differences of every hmc step (gradients given by jac)."""
    e0 = j0 = None
    P, D = [], []
    val = {}
    for x, v, _ in rec.ev:
        val[x.tobytes()] = float(v)
    if case["kind"] == "deltas":
        val = None
    for k, (es, js) in enumerate(split(rec, len(xs))[1:]):
        q0 = xs[k]
        new = [e for e in es if not np.array_equal(rec.ev[e][0], q0)]
        if len(new) != 1:
            return None
        x, v = rec.ev[new[0]][0], float(rec.ev[new[0]][1])
        pos = [rec.jac[j] for j in js]
        if len(pos) < 3 or not np.array_equal(pos[0][0], q0) or not np.array_equal(pos[-1][0], x):
            return None
        p0 = (pos[1][0] - pos[0][0]) / step + 0.5 * step * pos[0][1]
        p1 = (pos[-1][0] - pos[-2][0]) / step - 0.5 * step * pos[-1][1]
        if val is None:
            dv = case["deltas"][(k + 1) % len(case["deltas"])]
        else:
            dv = v - val[q0.tobytes()]
        P.append(p0)
        D.append(dv + 0.5 * (p1 ** 2).sum() - 0.5 * (p0 ** 2).sum())
    return np.array(P), np.array(D)


# ---------------------------------------------------------------------------
# behaviours of the model, replayed

class Script:
    """New points get the next value of the script."""

    def __init__(self, values):
        self.values, self.seen, self.n = values, {}, 0

    def __call__(self, x, *a):
        k = x.tobytes()
        if k not in self.seen:
            self.seen[k] = self.values[min(self.n, len(self.values) - 1)]
            self.n += 1
        return self.seen[k]

    def grad(self, x, *a):
        return np.zeros(len(x))


def replay_model(job):
    prop, b, alg, n = job
    r = vlib.rng("chainreplay", n, alg)
    nd = r.choice([1, 2, 3])
    bounds = cases.gen_bounds(r, nd)
    o = dict(maxiter=len(b["props"]), seed=n, return_all=True)
    if alg == "mcmc":
        o.update(stepsize=r.choice([0.1, 0.5]), perc=r.choice([1.0, 0.0, 0.5]))
    else:
        o.update(stepsize=r.choice([0.01, 0.1]), nleap=r.choice([1, 3]))
    scale = r.choice([1e3, 1e5])
    vals = [scale * v for v in b["props"]]
    case = dict(alg=alg, bounds=bounds, opts=o, cb=True, entry="direct", jac=alg == "hmc", obj=dict(kind="script", values=vals))
    s = Script(vals)
    rec = execute(case, fun=s, jac=s.grad)
    bad = {}
    if rec.exc:
        return {"completes": rec.exc}, case
    moved = [True] + [bool(np.any(np.asarray(a) != np.asarray(c))) for a, c in zip(rec.res["xall"][1:], rec.res["xall"][:-1])]
    if moved != b["moved"] or [round(float(f) / scale) for f in rec.res["funall"]] != b["vals"]:
        k = next((k for k in range(min(len(moved), len(b["moved"]))) if moved[k] != b["moved"][k]), 0)
        bad["accept" if k and b["moved"][k] else "reject"] = (moved, b["moved"])
    if not np.array_equal(rec.res["x"], rec.res["xall"][b["imin"] - 1]) or float(rec.res["fun"]) != scale * b["vals"][b["imin"] - 1]:
        # another sample with the same value is as good
        v = float(rec.res["fun"])
        if v != scale * min(b["vals"]) or not any(np.array_equal(rec.res["x"], x) and float(f) == v
                                                  for x, f in zip(rec.res["xall"], rec.res["funall"])):
            bad["best"] = (v, b["imin"])
    if abs(rec.res["accept_ratio"] * o["maxiter"] - b["nacc"]) > 1e-6:
        bad["acceptRatio"] = (rec.res["accept_ratio"], b["nacc"])
    for k, c in enumerate(rec.cb):
        if float(c["state"]["fun"]) != scale * min(b["vals"][:k + 1]):
            bad["callbackBest"] = (k, float(c["state"]["fun"]))
    keep = ("best", "acceptRatio", "callbackBest") if prop == "C24" else ("accept", "reject")
    return {k: v for k, v in bad.items() if k in keep}, case


CH_INV = ("BestTracked", "Ratio", "Length", "RejectedRepeats", "Downhill", "Infeasible", "Cover", "BlockShape")


def models(prop):
    big = vlib.THOROUGH
    mk = lambda **k: dict(module="ChainModel", invariants=CH_INV, properties=() if k["Emit"] else ("Terminates",), deadlock=False,
                          consts=dict(dict(Maxiter=5, Values={0, 1, 2}, Dim=3, BlockSize=2, Far=False, Reject=True, Emit=False), **k))
    jobs = [mk(Values={1, 2, 3}, Emit=False, Maxiter=5 if not big else 7),
            mk(Values={1, 2, 3}, Far=True, Reject=False, Emit=True, Maxiter=5 if not big else 7),
            mk(Values={1, 2}, Dim=5, BlockSize=2, Maxiter=7, Emit=False),
            mk(Values={1, 2}, Dim=4, BlockSize=1, Maxiter=7 if not big else 9, Emit=False)]
    if prop in ("C22", "C23"):
        jobs.append(dict(module="Metropolis", consts=dict(States={1, 2, 3, 4}, F=4 if not big else 6, Rule="metropolis"), invariants=("Balance", "Alive")))
    if prop == "C23":
        jobs.append(dict(module="Leap", consts=dict(N=4, Steps=5), invariants=("Momentum", "Reversible", "Bijective"), deadlock=False))
        jobs.append(dict(module="Leap", consts=dict(N=5, Steps=4), invariants=("Momentum", "Reversible", "Bijective"), deadlock=False))
    return jobs


RUNS = dict(C22=700, C23=700, C24=900)
STATS = dict(C22=72, C23=48, C24=0)


def _gen(a):
    return gen(*a)


def _gen_stat(a):
    return gen_stat(*a)


def run(check):
    prop = check.prop
    jobs = models(prop)
    rs = vlib.tlc_many(jobs, par=4)
    todo = []
    for j, r in zip(jobs, rs):
        if not r.ok:
            raise vlib.MachineryError("design model %s %s\n%s" % (j["module"], j["consts"], r.out[-2500:]))
        check.add_tlc(j["module"], r)
        for n, b in enumerate(r.tagged("@@B ")):
            todo += [(prop, b, a, n) for a in {"C22": ("mcmc",), "C23": ("hmc",), "C24": ("mcmc", "hmc")}[prop]]
    for (bad, case), job in zip(vlib.pmap(replay_model, todo), todo):
        check.replayed += 1
        for k, d in bad.items():
            check.violate(prop + "." + k, brief(case), d)
    # the wrong acceptance rules are told apart by the model (not vacuous)
    if prop in ("C22", "C23"):
        for rule in ("greedy", "swapped", "half"):
            r = vlib.run_tlc("Metropolis", dict(States={1, 2}, F=2, Rule=rule), invariants=("Balance",))
            if r.ok:
                raise vlib.MachineryError("the broken rule %s satisfies Balance" % rule)
            check.count("broken_rules_refuted")
    f = 6 if vlib.THOROUGH else 1
    n, m = RUNS[prop] * f, STATS[prop] * (3 if vlib.THOROUGH else 1)
    cs = vlib.pmap(_gen, [(prop, i) for i in range(n)])
    ss = vlib.pmap(_gen_stat, [(prop, i) for i in range(m)]) if m else []
    out = vlib.pmap(trace, [(prop, c, i) for i, c in enumerate(cs)])
    out += vlib.pmap(stat, [(prop, c, n + i) for i, c in enumerate(ss)]) if m else []
    cs += ss
    traces = []
    dE, acc, Z = [], [], []
    for c, (t, err) in zip(cs, out):
        if t is None:
            check.violate(prop + ".completes", brief(c), err)
        elif t.get("skip"):
            check.count("skipped")
            check.count("skipped_loud", int(bool(t.get("loud"))))
        else:
            for k, p in enumerate(t.get("p", ())):
                if "dE" in p:
                    dE.append(p.pop("dE"))
                    p.pop("p0")
                    acc.append(t["s"][k]["x"] != t["s"][k + 1]["x"])
            for zs in t.pop("z", ()):
                Z.append(np.array(zs))
            traces.append(t)
    if Z:
        # the deviates of all runs together, and those of the later parts of the chains
        for name, part in (("all", Z), ("late", [q[len(q) // 2:] for q in Z]), ("early", [q[:60] for q in Z])):
            q = np.concatenate(part)
            traces.append(dict(tid=len(cs), prop=prop, kind="stat", s=[], moments=moments(q), cross=[], prob=[]))
            cs.append(dict(kind="pooled deviates of all recorded runs", part=name))
            check.extra["pooled_deviates_" + name] = len(q)
    if prop == "C23" and len(dE) > 200:
        # the lotteries of all recorded runs together
        dE, acc = np.array(dE), np.array(acc, dtype=float)
        up = (dE > 1e-6) & (dE < 30)
        traces.append(dict(tid=len(cs), prop=prop, kind="stat", s=[], moments=[], cross=[], prob=[z_prob(acc[up], np.exp(-dE[up]))]))
        cs.append(dict(alg="hmc", kind="pooled lotteries of all recorded runs"))
        check.extra["pooled_lotteries"] = int(up.sum())
    for tid, clauses in vlib.validate(check, "ChainTrace", traces, invariants=("Sane",)).items():
        for cl in clauses:
            check.violate(cl, brief(cs[tid]), traces and next((t for t in traces if t["tid"] == tid and t["kind"] == "stat"), None))
    check.extra["samples_seen"] = sum(len(t["s"]) for t in traces)
    check.extra["statistics"] = sum(len(t.get("moments", ())) + len(t.get("cross", ())) + len(t.get("prob", ())) for t in traces)
    for i in (0, n // 2, n - 1):
        check.sample({"case": brief(cs[i])}, 4)
