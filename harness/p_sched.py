"""C39: the radius and the number of competitive restarts."""
import math

import numpy as np

import vlib
import cases
from p_pop import brief, replay  # noqa: F401
from p_move import ByOrder, rank_script, result_error
from record import execute

SC = 10000


def radius(o):
    return math.log(1.0 + 0.003 * o["popsize"]) / max(0.2, math.log(0.01 * o["maxiter"]))


def options(r, pop, mi, g, sync):
    return dict(popsize=pop, maxiter=mi, inertia=r.choice([0.0, 0.73, 1.0]), cognitivity=r.choice([0.0, 1.49, 4.0]), sociability=0.0,
                competitivity=g, updating="deferred" if sync else "immediate", seed=r.randrange(2 ** 31), ftol=-math.inf,
                constraints=r.choice([None, "Shrink"]))


def start(r, pop, ndim, c, size):
    """A swarm whose first particle is its centre and whose radius is exactly the given one."""
    x0 = [list(c)]
    far = r.randrange(1, pop)
    for i in range(1, pop):
        d = np.array([r.uniform(-1, 1) for _ in range(ndim)])
        d *= (1.0 if i == far else r.uniform(0.05, 0.95)) * size * math.sqrt(4 * ndim) / max(np.linalg.norm(d), 1e-9)
        x0.append([float(a + b) for a, b in zip(c, d)])
    return x0


def gen(i):
    r = vlib.rng("C39", i)
    mode = ("tight", "edge", "mixed", "drift")[i % 4]
    pop = r.choice([2, 3, 4, 5, 8, 12, 20, 30])
    ndim = r.choice([1, 2, 3])
    mi = r.choice([3, 4, 6, 10, 20, 40]) if r.random() < 0.6 else r.choice([90, 110, 121, 123, 130, 160, 200, 280])
    if mi > 80:
        pop = min(pop, 12)
    g = r.choice([2.0, 1.5, 1.0, 1.0, 0.5, 0.75, 0.25, round(r.uniform(0.01, 2), 2)])
    sync = r.random() < 0.5 or mode == "drift"
    o = options(r, pop, mi, g, sync)
    n = pop * mi
    c = [r.uniform(-5, 5) for _ in range(ndim)]
    case = dict(alg="cpso", obj=dict(kind="pos"), opts=o, entry=r.choice(["direct", "minimize"]), sync=sync, mode=mode)
    d = radius(o)
    st = r.choice(["random", "random", "ties", "improving", "worsening"])
    case["script"] = [float(r.randrange(4)) for _ in range(n)] if st == "ties" else rank_script(r, n, st)
    if mode == "tight":
        size = d * 10 ** r.uniform(-5, -1)
        case["bounds"] = [[x - size * r.uniform(0.5, 1), x + size * r.uniform(0.5, 1)] for x in c]
    elif mode == "edge":
        # a swarm just inside or just outside of the radius; where particles go afterwards is far outside or inside
        q = r.choice([0.5, 0.8, 0.9, 0.97, 0.999, 1.001, 1.03, 1.1, 1.2, 1.5, 2.0, 4.0])
        case["x0"] = start(r, pop, ndim, c, q * d)
        big = r.choice([50.0, 50.0, 3.0])
        case["bounds"] = [[x - max(big, 4 * q * d), x + max(big, 4 * q * d)] for x in c]
        case["script"] = [0.0] + rank_script(r, n - 1, "random")
    elif mode == "mixed":
        # a box about as large as the radius: contracted or not from one iteration to the next
        w = d * r.choice([0.8, 1.0, 1.2, 1.5, 2.0])
        case["bounds"] = [[x - w * r.uniform(0.8, 1.2), x + w * r.uniform(0.8, 1.2)] for x in c]
    else:
        # moving particles: the present places count, not the best ones
        ndim = 6
        pop = o["popsize"] = min(pop, 12)
        mi = o["maxiter"] = r.choice([16, 24, 36])
        n = pop * mi
        d = radius(o)
        c = [r.uniform(-5, 5) for _ in range(ndim)]
        o.update(inertia=1.0, cognitivity=0.0, sociability=0.01, constraints=None)
        w = d * r.choice([1.2, 1.6, 2.5, 4.0])
        case["bounds"] = [[x - w, x + w] for x in c]
        # (the swarm's best may also be a place some particle has left again)
        q = r.random()
        case["script"] = [0.0] + [float(v) for v in range(1, n)] if q < 0.4 else rank_script(r, n, r.choice(["random", "mixed"]))
    case["nd"] = len(case["bounds"])
    return case


def trace(job):
    case, tid = job
    o = case["opts"]
    pop, mi, g = o["popsize"], o["maxiter"], o["competitivity"]
    rec = execute(case, fun=ByOrder(case["script"]))
    err = result_error(rec, pop * mi)
    if err:
        return None, err
    xs = np.array([e[0] for e in rec.ev]).reshape(mi, pop, -1)
    v = np.array([float(e[1]) for e in rec.ev]).reshape(mi, pop)
    nd = xs.shape[2]
    d = radius(o)
    drift = case["mode"] == "drift"
    span = np.array([b[1] - b[0] for b in case["bounds"]])
    unit = float(span.max()) / 2e5
    org = xs[0, 0]
    if drift and np.abs(xs - org).max() / unit > 8e5:
        return dict(skip=True), None
    its = []
    for k in range(mi):
        low = v[:k + 1].min()
        near = [xs[a, b] for a, b in zip(*np.nonzero(v[:k + 1] == low))]
        rs = [float(np.sqrt(((xs[k] - b) ** 2).sum(axis=1)).max()) / math.sqrt(4.0 * nd) for b in near]
        yes, no = [q < d * (1 - 1e-9) for q in rs], [q > d * (1 + 1e-9) for q in rs]
        z = ((k + 1) / mi - g + 0.5) / 0.09
        e = math.exp(min(z, 60.0))
        lo, hi = (min(int(math.floor(q)), SC * 10000) for q in (e * SC * (1 - 1e-9), e * SC * (1 + 1e-9) + 1))
        its.append(dict(coll="y" if all(yes) else "n" if all(no) else "m", lo=lo, hi=hi,
                        moved=[] if k == 0 else [int(s) + 1 for s in np.nonzero((xs[k] != xs[k - 1]).any(axis=1))[0]],
                        x=[[int(round(c)) for c in (p - org) / unit] for p in xs[k]] if drift else [],
                        best=[int(round(c)) for c in (near[0] - org) / unit] if drift else []))
    seen = dict(y=sum(t["coll"] == "y" for t in its[1:-1]), n=sum(t["coll"] == "n" for t in its[1:-1]))
    return dict(tid=tid, p=pop, m=mi, mode="drift" if drift else "frozen", c2=1, it=its, seen=seen), None


def models():
    base = dict(Ps={2, 3, 5}, M=4, Gs={25, 100, 200}, Es={0, 2 * SC, 9 * SC}, Emit=True)
    out = [base, dict(base, Ps={2, 12}, M=3, Gs={50, 150}, Es={0, SC, 4 * SC, 20 * SC}, Emit=False)]
    if vlib.THOROUGH:
        out.append(dict(base, Ps={2, 4, 7}, M=5, Gs={1, 100, 200}, Emit=False))
    return [dict(module="ScheduleModel", consts=c, invariants=("BestStays", "OnlyCollapsed", "Ends", "NonIncreasing", "Competitive", "Emitted"),
                 deadlock=False) for c in out]


def scenarios(rs):
    """Collapse scenarios of the model that a swarm which only moves by restarts can show: contracted for the first
    iterations and then not any more (one restart scatters it over a large box), never, or always (small box)."""
    seen, out = set(), []
    for res in rs:
        for b in res.tagged("@@B "):
            s = "".join(b["coll"])
            key = (b["p"], b["g"], b["m"], "never" if "y" not in s else "always" if "n" not in s else "once" if "ny" not in s else "")
            if key[3] and key not in seen:
                seen.add(key)
                out.append(key)
    cs = []
    for p, g, m, kind in sorted(out):
        r = vlib.rng("C39", "scenario", p, g, m, kind)
        for sync in (True, False):
            o = options(r, p, m, g / 100.0, sync)
            d = radius(o)
            size = dict(never=(3.0, 30.0), always=(0.05, 0.3), once=(0.5, 200.0))[kind]
            cs.append(dict(alg="cpso", obj=dict(kind="pos"), opts=o, entry="direct", sync=sync, mode="scenario " + kind, nd=2,
                           bounds=[[1.0 - size[1] * d, 1.0 + size[1] * d]] * 2,
                           x0=start(r, p, 2, [1.0, 1.0], min(size) * d), script=[0.0] + rank_script(r, p * m - 1)))
    return cs


def slim(case):
    c = dict(case)
    if len(c.get("script", ())) > 60:
        c["script"] = c["script"][:60] + ["..."]
    return brief(c)


def run(check):
    n = 560 * (6 if vlib.THOROUGH else 1)
    jobs = models()
    rs = vlib.tlc_many(jobs, par=4)
    for j, r in zip(jobs, rs):
        if not r.ok:
            raise vlib.MachineryError("design model %s %s\n%s" % (j["module"], j["consts"], r.out[-2500:]))
        check.add_tlc(j["module"], r)
    cs = vlib.pmap(gen, range(n))
    for i, c in enumerate(cs):
        if i // 4 % 3 == 1 and len(set(c["script"])) < 5000:
            c["script"] = cases.remap(c["script"], cases.TABLES[i // 12 % len(cases.TABLES)])
    more = scenarios(rs)
    check.replayed += len(more)
    cs += more
    out = vlib.pmap(trace, [(c, i) for i, c in enumerate(cs)])
    traces, skipped = [], 0
    for c, (t, err) in zip(cs, out):
        if t is None:
            check.violate("C39.completes", slim(c), err)
        elif t.get("skip"):
            skipped += 1
        else:
            traces.append(t)
    for tid, clauses in vlib.validate(check, "ScheduleTrace", traces, invariants=("Sane",)).items():
        for cl in clauses:
            check.violate(cl, slim(cs[tid]))
    check.extra["skipped"] = skipped
    kinds = {}
    for t in traces:
        k = kinds.setdefault(cs[t["tid"]]["mode"], dict(runs=0, collapsed=0, apart=0))
        k["runs"] += 1
        k["collapsed"] += t["seen"]["y"]
        k["apart"] += t["seen"]["n"]
    check.extra["kinds"] = kinds
    for i in (0, 1, 3):
        check.sample({"case": slim(cs[i])}, 3)
