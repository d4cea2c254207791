"""C08: evaluated points stay inside the bounds; rejection does not freeze a chain."""
import math

import numpy as np

import cases
import vlib
from p_pop import brief, replay  # noqa: F401
from record import execute

NAN = -2000000000


def lattice(x, bounds):
    """Position in millionths of the box; rounding at a face is snapped to the face."""
    out = []
    for v, (lo, hi) in zip(np.asarray(x, dtype=float), bounds):
        w = hi - lo
        tol = 1e-9 * w + 1e-13 * max(abs(lo), abs(hi))
        if not math.isfinite(v):
            out.append(NAN)
        elif v < lo - tol:
            out.append(-min(10 ** 9, max(1, int((lo - v) / w * 1e6) if w > 0 else 10 ** 9)))
        elif v > hi + tol:
            out.append(10 ** 6 + min(10 ** 9, max(1, int((v - hi) / w * 1e6) if w > 0 else 10 ** 9)))
        else:
            out.append(int(min(1e6, max(0.0, (v - lo) / w * 1e6))) if w > 0 else 0)
    return out


def stress(case, r):
    """Odd boxes and starting points: faces, corners, offsets, very different widths."""
    b = case["bounds"]
    k = r.random()
    if k < 0.25:
        off = r.choice([0.0, 1e3, -1e6, 1e6])
        b = [[off + min(x), off + min(x) + 10 ** r.uniform(-3, 3)] for x in b]
    elif k < 0.35:
        b = [[-10 ** r.uniform(-6, 6), 10 ** r.uniform(-6, 6)] for _ in b]
    elif k < 0.45:
        b = [[0.1, 0.3], [0.3, 0.7], [-0.7, 0.1], [1.1, 1.7], [0.0, 0.1], [-0.1, 0.0]][:len(b)]
        b += [[0.0, 1.0]] * (len(case["bounds"]) - len(b))
    case["bounds"] = b
    case["x0form"] = "array" if case.get("x0") is not None else None
    if case.get("x0") is not None:
        def pt():
            out = []
            for lo, hi in b:
                q = r.random()
                out.append(lo if q < 0.2 else hi if q < 0.4 else lo + (hi - lo) * r.random())
            return out
        case["x0"] = [pt() for _ in range(case["opts"]["popsize"])] if case["alg"] in cases.SLOT else pt()
    case["obj"] = dict(case["obj"])
    if "c" in case["obj"]:
        q = r.random()
        lo, hi = b[0]
        case["obj"]["c"] = lo if q < 0.2 else hi if q < 0.4 else hi + (hi - lo) if q < 0.7 else 0.5 * (lo + hi)
    return case


def gen(i):
    r = vlib.rng("C08", i)
    k = i % 9
    if k in (7, 8) or k == 6:
        alg = "mcmc" if k != 8 else "hmc"
        free = r.random() < 0.4
        case = cases.gen_sam(r, alg, opts=dict(constraints="Reject", return_all=True))
        n = len(case["bounds"])
        if free:
            case["opts"]["stepsize"] = 1e-5 if alg == "mcmc" else 1e-4
            case["opts"]["maxiter"] = min(60, case["opts"]["maxiter"] + 2)
            case["x0"] = [lo + (hi - lo) * r.uniform(0.3, 0.7) for lo, hi in case["bounds"]]
            case["obj"] = dict(kind="const", v=1.0)
            # coordinates exactly on a face, or fixed: the others may still move
            if n > 1 and r.random() < 0.6:
                for j in r.sample(range(n), r.randint(1, n - 1)):
                    lo, hi = case["bounds"][j]
                    if r.random() < 0.3:
                        case["bounds"][j] = [lo, lo]
                        case["x0"][j] = lo
                    elif alg == "mcmc":
                        case["x0"][j] = r.choice([lo, hi])
                        case["opts"]["perc"] = r.choice([0.0, 1 / n, 0.5])
        else:
            if r.random() < 0.5:
                case["opts"]["stepsize"] = r.choice([0.5, 1.0, [r.choice([1e-3, 1.0]) for _ in range(n)]]) if alg == "mcmc" else r.choice([0.2, 0.5])
            if r.random() < 0.5:
                case["obj"] = dict(kind=r.choice(["linear", "const"]), c=0.0, s=r.choice([-1.0, 1.0, 0.01]), v=0.0)
            if case.get("x0") is not None:
                case["x0"] = [r.choice([lo, hi, lo + (hi - lo) * r.random()]) for lo, hi in case["bounds"]]
        case["free"] = free
        return case
    alg = ("de", "cpso", "pso", "na", "cmaes", "vdcma")[k]
    cons = {"de": "Random", "cpso": "Shrink", "pso": "Shrink", "cmaes": "Penalize", "vdcma": "Penalize"}.get(alg)
    opts = {}
    if cons:
        opts["constraints"] = cons
    if r.random() < 0.5:
        if alg == "de":
            opts.update(mutation=2.0, recombination=r.choice([1.0, 0.9]))
        elif alg in ("pso", "cpso"):
            opts.update(inertia=r.choice([1.0, 0.9]), cognitivity=r.choice([4.0, 2.0, 0.0]), sociability=r.choice([4.0, 0.0, 2.5]))
        elif alg in ("cmaes", "vdcma"):
            opts.update(sigma=r.choice([1.0, 3.0, 0.5]))
    case = cases.gen_opt(r, alg, opts=opts)
    if r.random() < 0.6:
        case = stress(case, r)
    if alg in cases.EVO and case["obj"]["kind"] in ("infwall", "huge"):
        case["obj"] = dict(kind="sphere", c=0.3)
    if case["opts"]["seed"] is None:
        case["npseed"] = r.randrange(2 ** 31)
    return case


def must(case, k, x):
    """Is the proposal of step k of a free chain feasible for sure (and a move)?"""
    n = len(x)
    m = max(1, int(case["opts"].get("perc", 1.0) * n)) if case["alg"] == "mcmc" else n
    j = (k - 1) % -(-n // m) * m
    block = [i for i in range(j, min(n, j + m)) if case["bounds"][i][0] < case["bounds"][i][1]]
    return bool(block) and all(lo + 1e-3 * (hi - lo) < x[i] < hi - 1e-3 * (hi - lo)
                               for i in block for lo, hi in [case["bounds"][i]])


def project(job):
    case, tid = job
    rec = execute(case)
    if rec.exc:
        return None, rec.exc
    b = case["bounds"]
    t = dict(tid=tid, free=False, sampler=False, moved=[], seen=[])
    try:
        if case["alg"] in cases.SLOT + cases.EVO:
            t["ev"] = [lattice(e[0], b) for e in rec.ev]
            t["x"] = lattice(rec.res.x, b)
        else:
            xall, fall = np.asarray(rec.res.xall), np.asarray(rec.res.funall)
            t["sampler"] = True
            t["free"] = bool(case["free"])
            t["ev"] = [lattice(x, b) for x in xall]
            vals = {}
            for x, v, _ in rec.ev:
                vals.setdefault((x + 0.0).tobytes(), set()).add(float(v))
            t["seen"] = [float(f) in vals.get((np.asarray(x) + 0.0).tobytes(), ()) for x, f in zip(xall, fall)]
            first = {}
            for x, _, _ in rec.ev:
                first.setdefault((x + 0.0).tobytes(), len(first))
            t["moved"] = [k == 0 or bool((xall[k] != xall[k - 1]).any()) or not must(case, k, xall[k - 1]) for k in range(len(xall))]
            t["x"] = lattice(rec.res.x, b)
    except Exception:
        import traceback
        return None, "unreadable result: " + traceback.format_exc()[-500:]
    return t, None


def run(check):
    jobs = [dict(module="Feas", consts=dict(W=3, Raw=set(range(-4, 8)), Mode=m), invariants=("Inside", "Factor"),
                 properties=("NotFrozen",), deadlock=False) for m in ("Random", "Shrink", "Penalize", "Reject")]
    for j, r in zip(jobs, vlib.tlc_many(jobs, par=4)):
        if not r.ok:
            raise vlib.MachineryError("design model Feas %s\n%s" % (j["consts"], r.out[-2000:]))
        check.add_tlc("Feas", r)
    n = 1100 * (8 if vlib.THOROUGH else 1)
    cs = vlib.pmap(gen, range(n))
    out = vlib.pmap(project, list(zip(cs, range(n))))
    traces, faces, byalg = [], 0, {}
    for c, (t, exc) in zip(cs, out):
        if t is None:
            check.violate("C08.completes", brief(c), exc)
            continue
        traces.append(t)
        byalg[c["alg"]] = byalg.get(c["alg"], 0) + len(t["ev"])
        faces += sum(1 for p in t["ev"] if 0 in p or 10 ** 6 in p)
    bad = vlib.validate(check, "FeasTrace", traces, invariants=("Sane",))
    for tid, cl in bad.items():
        for c in cl:
            check.violate(c, brief(cs[tid]))
    check.extra.update(points_by_algorithm=byalg, points_on_a_face=faces, free_chains=sum(t["free"] for t in traces))
    for i in (0, 3, 8):
        check.sample({"case": brief(cs[i])}, 3)
