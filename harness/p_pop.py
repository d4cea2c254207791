"""C01 C03 C04 C05 C07 C09: population optimizers against PopOpt (design, replay) and OptTrace (traces).
C02 C06: evolution strategies against EvoOpt and OptTrace (see p_evo)."""
import json
import math

import numpy as np

import cases
import vlib
from record import execute

LEVELMAPS = (
    {0: -1.5, 1: 0.25, 2: 3.0},
    {0: 0, 1: 1, 2: 2},
    {0: 1e29, 1: 1e31, 2: 1e33},
    {0: 0, 1: 0.5, 2: 1},
)

POP_INV = ("BestIsMin", "Counted", "Bounded", "StopsRight", "Paired", "EmitBehaviour")


def pop_models():
    """Constants of the exhaustive PopOpt runs of this tier."""
    out = []
    for alg in ("de", "pso", "cpso", "na"):
        for sync in (True, False):
            if alg == "na" and not sync:
                continue
            for xh in (True, False):
                pop, mi, lv = (3, 2, {0, 1, 2}) if alg == "de" else (2, 3, {0, 1, 2})
                if vlib.THOROUGH:
                    for (p, m, l) in ((3, 3, {0, 1}), (pop, mi, lv), (2 if alg != "de" else 3, 1, lv), (4, 2, {0, 1})):
                        out.append(dict(Alg=alg, Sync=sync, Pop=p, MaxIter=m, Levels=l, Ftol=0, XtolHuge=xh, Emit=alg != "cpso"))
                else:
                    out.append(dict(Alg=alg, Sync=sync, Pop=pop, MaxIter=mi, Levels=lv, Ftol=0 if xh else (0 if sync else -1),
                                    XtolHuge=xh, Emit=alg != "cpso"))
        out.append(dict(Alg=alg, Sync=True, Pop=3, MaxIter=1, Levels={0, 1}, Ftol=0, XtolHuge=False, Emit=alg != "cpso"))
    return out


def replay_slot(job):
    """Drive the real optimizer with one model behaviour; returns {clause: detail}."""
    b, alg, mapi, variant = job
    lm = LEVELMAPS[mapi % len(LEVELMAPS)]
    log = b["log"]
    script = [lm[v] for e in log for v in e["raw"]]
    pop, mi = b["pop"], b["maxiter"]
    opts = dict(maxiter=mi, popsize=pop, seed=variant, return_all=True,
                ftol=float(lm[b["ftol"]]) if b["ftol"] in lm else -math.inf, xtol=1e9 if b["xhuge"] else 0.0)
    if alg == "de":
        opts.update(mutation=0.7, recombination=0.8, strategy="best1bin")
    if alg == "cpso":
        opts.update(competitivity=None)
    if alg != "na":
        opts["updating"] = "deferred" if b["sync"] else "immediate"
    case = dict(alg=alg, bounds=[[-3.0, 2.0], [0.5, 4.0]], obj=dict(kind="script", values=script), opts=opts,
                entry="minimize" if variant % 2 else "direct", cb=True)
    rec = execute(case)
    bad = {}

    def expect(clause, ok, msg=""):
        if not ok and clause not in bad:
            bad[clause] = msg

    if rec.exc:
        return {"completes": rec.exc}, case
    n = len(log)
    expect("C04.nit", [c["state"].get("nit") for c in rec.cb] == [e["nit"] for e in log] and rec.res.nit == n, "callbacks")
    stops_ok = len(rec.ev) == len(script)
    expect("C05.stop", stops_ok or len(rec.cb) == n, "evaluations %d, model %d" % (len(rec.ev), len(script)))
    expect("C03.count", [c["nev"] for c in rec.cb] == [e["nfev"] for e in log][:len(rec.cb)]
           and [c["state"].get("nfev") for c in rec.cb] == [c["nev"] for c in rec.cb] and rec.res.nfev == len(rec.ev), "nfev")
    pts = cases.Points([e[0] for e in rec.ev], case["bounds"])
    allv = [v for e in log for v in e["raw"]]
    seen = 0
    for k, (c, e) in enumerate(zip(rec.cb, log)):
        seen += pop
        st = c["state"]
        lo = min(allv[:seen])
        ok_ids = {pts.ids[i] for i in range(min(seen, len(pts.ids))) if allv[i] == lo}
        expect("C01.fun", float(st["fun"]) == lm[e["fun"]], "iteration %d: %r, model %r" % (k + 1, st["fun"], lm[e["fun"]]))
        expect("C01.x", pts.id(st["x"]) in ok_ids, "iteration %d" % (k + 1))
        ids = [pts.ids[i - 1] if i - 1 < len(pts.ids) else -1 for i in e["ids"]]
        X = [pts.id(x) for x in c["X"]]
        expect("C09.members" if alg == "de" else "C04.X", X == ids, "iteration %d: %s, model %s" % (k + 1, X, ids))
        if "xall" in rec.res and k < len(rec.res.xall):
            xa = [pts.id(x) for x in rec.res.xall[k]]
            fa = list(rec.res.funall[k])
            expect("C07.row", xa == ids and fa == [lm[v] for v in e["vals"]], "row %d: %s %s, model %s %s" % (k, xa, fa, ids, e["vals"]))
            if alg == "de":
                expect("C09.values", fa == [lm[v] for v in e["vals"]], "row %d" % k)
        else:
            expect("C07.row", False, "xall missing or short")
    e = log[-1]
    expect("C01.fun", float(rec.res.fun) == lm[e["fun"]], "result")
    st = e["status"]
    if st in (0, 1) and len(rec.cb) > 1:
        near = b["xhuge"] or pts.id(rec.cb[-1]["state"]["x"]) == pts.id(rec.cb[-2]["state"]["x"])
        st = 0 if near else 1
    expect("C05.status", rec.res.status == st and rec.res.success == (st >= 0), "status %r, model %r" % (rec.res.status, st))
    return bad, case


def replay_evo(job):
    b, alg, mapi, variant = job
    lm = LEVELMAPS[mapi % len(LEVELMAPS)]
    log = b["log"]
    script = [lm[v] for e in log for v in e["raw"]]
    pop = b["pop"]
    xt = 1e9 if b["xhuge"] else -1.0
    case = dict(alg=alg, bounds=[[-3.0, 2.0]], obj=dict(kind="script", values=script),
                opts=dict(maxiter=b["maxiter"], popsize=pop, seed=variant, return_all=True, xtol=xt,
                          ftol=float(lm[b["ftol"]]) if b["ftol"] in lm else -math.inf, sigma=0.3, muperc=0.5 if variant % 2 else 1.0),
                entry="minimize" if variant % 2 else "direct", cb=True)
    rec = execute(case)
    bad = {}

    def expect(clause, ok, msg=""):
        if not ok and clause not in bad:
            bad[clause] = msg

    if rec.exc:
        return {"completes": rec.exc}, case
    n = len(log)
    # an internal test (-2 -3 -4 -6 -8) may end the real run earlier than the model behaviour without such a stop
    internal = rec.res.status in (-2, -3, -4, -6, -8)
    m = len(rec.cb)
    expect("C04.nit", [c["state"].get("nit") for c in rec.cb] == list(range(1, m + 1)) and rec.res.nit == m, "callbacks")
    expect("C06.stop", m == n or (internal and m < n), "iterations %d, model %d" % (m, n))
    expect("C03.count", [c["nev"] for c in rec.cb] == [pop * (i + 1) for i in range(m)] and rec.res.nfev == len(rec.ev), "nfev")
    pts = cases.Points([e[0] for e in rec.ev], case["bounds"])
    for k, (c, e) in enumerate(zip(rec.cb, log)):
        st = c["state"]
        ids = [pts.ids[i - 1] if i - 1 < len(pts.ids) else -1 for i in e["ids"]]
        best = {ids[i] for i in range(pop) if e["raw"][i] == e["fun"]}
        expect("C02.best", float(st["fun"]) == lm[e["fun"]] and pts.id(st["x"]) in best, "iteration %d" % (k + 1))
        X = [pts.id(x) for x in c["X"]]
        expect("C04.X", X == ids, "iteration %d" % (k + 1))
        if "xall" in rec.res and k < len(rec.res.xall):
            expect("C07.row", [pts.id(x) for x in rec.res.xall[k]] == ids
                   and list(rec.res.funall[k]) == [lm[v] for v in e["vals"]], "row %d" % k)
        else:
            expect("C07.row", False, "xall missing or short")
    if m == n and not internal:
        e = log[-1]
        expect("C02.best", float(rec.res.fun) == lm[e["fun"]], "result")
        st = e["status"]
        ok = rec.res.status == st or (st in (0, 1) and rec.res.status in (0, 1) and e["fun"] == b["ftol"])
        expect("C06.status", ok and rec.res.success == (rec.res.status >= 0),
               "status %r, model %r" % (rec.res.status, st))
    return bad, case


def evo_models():
    out = []
    for xh in (True, False):
        for p, mi, lv in ((2, 4, {0, 1}), (2, 3, {0, 1, 2}), (3, 2, {0, 1, 2})) + (((3, 3, {0, 1}),) if vlib.THOROUGH else ()):
            # the window of EqualFunValues is 10 + 30*ndim/popsize: never reached in the small replays
            out.append(dict(Pop=p, MaxIter=mi, Levels=lv, Ftol=0 if p == 2 else -1, XtolHuge=xh, Window=99, Internals=set(), Emit=True))
    return out


def run_case(job):
    case, tid = job
    rec = execute(case)
    if rec.exc:
        return None, rec.exc
    try:
        return cases.project_opt(rec, tid), None
    except Exception as e:  # malformed result objects are verdicts about the code, not about the machinery
        import traceback
        return None, "unreadable result: %s" % traceback.format_exc()[-600:]


FOCUS = {
    "C01": dict(), "C03": dict(), "C04": dict(), "C05": dict(), "C07": dict(opts=dict(return_all=True)),
    "C09": dict(), "C02": dict(), "C06": dict(),
}


def gen(prop, i):
    r = vlib.rng(prop, i)
    force, opts = {}, {}
    if prop in ("C01", "C05"):
        alg = ("de", "pso", "cpso", "na")[i % 4]
    elif prop == "C09":
        alg = "de"
    elif prop in ("C02", "C06"):
        alg = ("cmaes", "vdcma")[i % 2]
    else:
        alg = ("de", "pso", "cpso", "na", "cmaes", "vdcma")[i % 6]
    if prop == "C07":
        opts["return_all"] = True
    if prop == "C09":
        opts["return_all"] = True
        opts["verbosity"] = r.choice([1.0, 1.0, 1.0, 0.5])
    if prop in ("C04", "C09", "C02") or r.random() < 0.5:
        force["cb"] = True
    maxeval = 900
    if i % 77 in (31, 37, 40):    # scarcely any bound on sizes
        return cases.gen_opt(r, alg, maxeval=1500, big=("wide", "pop", "long")[(31, 37, 40).index(i % 77)], opts=dict(opts, ftol=-math.inf), **force)
    if prop == "C05" and r.random() < 0.6:
        # tolerances that are met somewhere along the run
        case = cases.gen_opt(r, alg, cb=True)
        case["opts"]["maxiter"] = max(2, case["opts"]["maxiter"])
        return tolerance(case, r)
    if prop == "C06":
        if i % 3 == 0:
            return flat_evo(r, alg)
        if i % 3 == 1:
            return tolerance(cases.gen_opt(r, alg, cb=True), r)
    if prop == "C01" and alg == "cpso" and r.random() < 0.5:
        opts.update(competitivity=r.choice([0.5, 1.0, 1.5, 2.0]), cognitivity=0.5, sociability=3.0, inertia=0.1)
        force["x0"] = None
    return cases.gen_opt(r, alg, maxeval=maxeval, opts=opts, **force)


def tolerance(case, r):
    """Give the case an ftol (and xtol) that its own run meets at a chosen evaluation."""
    c = json.loads(json.dumps(case))
    c = dict(case, opts=dict(case["opts"], ftol=-math.inf))
    rec = execute(c)
    vals = [float(e[1]) for e in rec.ev]
    if not vals:
        return case
    pop = case["opts"]["popsize"]
    best, steps = math.inf, []
    for i, v in enumerate(vals):
        if v < best:
            best = v
            if i >= pop or case["alg"] in cases.EVO:
                steps.append(v)
    if steps and r.random() < 0.85:
        v = r.choice(steps)
        ft = v if r.random() < 0.6 or not math.isfinite(v) else v + abs(v) * 1e-3
    else:
        ft = best - 1.0 if math.isfinite(best) else 0.0
    xt = case["opts"]["xtol"]
    if rec.cb and len(rec.cb) > 1 and r.random() < 0.6:
        ds = [float(np.linalg.norm(np.asarray(a["state"]["x"]) - np.asarray(b["state"]["x"])))
              for a, b in zip(rec.cb, rec.cb[1:])]
        ds = [d for d in ds if d > 0]
        if ds:
            xt = r.choice(ds) * r.choice([0.5, 0.9, 1.1, 2.0])
    return dict(case, opts=dict(case["opts"], ftol=ft, xtol=xt), cb=True)


def flat_evo(r, alg):
    """Runs in which the tests on values (-5, -7) fire or just do not."""
    pop = r.choice([2, 3, 5, 10, 20, 30])
    ndim = r.choice([1, 2, 3])
    W = int(10 + 30 * ndim / pop)
    mi = W + r.choice([-1, 0, 1, 5, 20])
    n = mi * pop
    style = r.choice(["flat", "two", "bestflat", "late", "tiny", "alternate"])
    if style == "flat":
        v = [4.0] * n
    elif style == "two":
        v = [4.0] * (2 * pop) + [5.0] * (n - 2 * pop)
    elif style == "bestflat":  # best value constant, the others vary
        v = [4.0 if i % pop == 0 else 5.0 + (i * 7 % 11) for i in range(n)]
    elif style == "late":  # becomes flat after a while
        q = r.randrange(1, max(2, mi // 2)) * pop
        v = [10.0 - i * 1e-3 if i < q else (3.0 if i % pop == 0 else 3.0 + (i % 5)) for i in range(n)]
    elif style == "tiny":  # differences around the thresholds
        s = r.choice([1e-9, 2e-10, 5e-11, 2e-12, 5e-13])
        v = [1.0 + (s if (i // pop) % 2 else 0.0) for i in range(n)]
    else:
        v = [float((i // pop) % 2) + 1.0 for i in range(n)]
    bounds = cases.gen_bounds(r, ndim)
    o = dict(popsize=pop, maxiter=max(1, mi), ftol=r.choice([-math.inf, -math.inf, 0.0]), xtol=r.choice([1e-8, 1e6]), seed=r.randrange(1000),
             return_all=r.random() < 0.5, verbosity=1.0, sigma=r.choice([0.1, 0.5]), muperc=r.choice([0.5, 1.0, 0.25]),
             constraints=None)
    return dict(alg=alg, bounds=bounds, obj=dict(kind="script", values=v), opts=o, cb=r.random() < 0.8, entry="direct")


QUICK = dict(C01=700, C03=700, C04=700, C05=800, C07=700, C09=700, C02=600, C06=700)


def brief(case):
    c = json.loads(json.dumps(case, default=str))
    if c.get("obj", {}).get("kind") == "script" and len(c["obj"]["values"]) > 40:
        c["obj"]["values"] = c["obj"]["values"][:40] + ["..."]
    return c


def run(check):
    prop = check.prop
    evo = prop in ("C02", "C06")
    # 1. design models, exhaustively; their behaviours are replayed against the code
    jobs = []
    if not evo:
        jobs += [dict(module="PopOpt", consts=c, invariants=POP_INV,
                      properties=("Greedy", "MonotoneBest") + (() if c["Emit"] else ("Terminates",)))
                 for c in pop_models() if prop != "C09" or c["Alg"] == "de"]
    if evo or prop in ("C03", "C04", "C07"):
        jobs += [dict(module="EvoOpt", consts=c, invariants=EVO_INV) for c in evo_models()]
        jobs.append(dict(module="EvoOpt", consts=dict(Pop=2, MaxIter=4, Levels={0, 1}, Ftol=-1, XtolHuge=False, Window=2,
                                                      Internals={-2, -6, -8}, Emit=False), invariants=EVO_INV, properties=("Terminates",)))
    rs = vlib.tlc_many(jobs, par=4)
    todo = []
    for j, r in zip(jobs, rs):
        if not r.ok:
            raise vlib.MachineryError("design model %s %s: %s\n%s" % (j["module"], j["consts"], r.violated, r.out[-3000:]))
        check.add_tlc(j["module"], r)
        bs = r.tagged("@@B ")
        for n, b in enumerate(bs):
            if j["module"] == "PopOpt":
                algs = ("pso", "cpso") if b["alg"] == "pso" else (b["alg"],)
                todo += [(replay_slot, (b, a, n, n % 5)) for a in algs]
            else:
                todo += [(replay_evo, (b, a, n, n % 5)) for a in ("cmaes", "vdcma")]
    for (bad, case), (fn, job) in zip(vlib.pmap(_apply, todo), todo):
        check.replayed += 1
        for clause, detail in bad.items():
            if clause == "completes" or clause.startswith(prop):
                check.violate(prop + "." + clause if clause == "completes" else clause, brief(case), detail)
    if todo:
        check.sample({"model_behaviour_replayed": todo[len(todo) // 2][1][0], "on": todo[len(todo) // 2][1][1]}, 1)
    # 2. recorded runs of random configurations, validated by the trace specification
    n = QUICK[prop] * (8 if vlib.THOROUGH else 1)
    cs = vlib.pmap(_gen, [(prop, i) for i in range(n)])
    out = vlib.pmap(run_case, list(zip(cs, range(n))))
    traces = []
    for c, (t, exc) in zip(cs, out):
        if t is None:
            check.violate(prop + ".completes", brief(c), exc)
        else:
            traces.append(t)
    bad = vlib.validate(check, "OptTrace", traces, invariants=("Sane",))
    for tid, clauses in bad.items():
        for cl in clauses:
            if cl.startswith(prop):
                check.violate(cl, brief(cs[tid]), clauses)
    cover(check, cs, traces)
    for i in (0, n // 2, n - 1):
        check.sample({"case": brief(cs[i])}, 4)
    if prop == "C03":
        counts(check, 300 * (6 if vlib.THOROUGH else 1))


def gen_count(i):
    """Runs of the hmc sampler, with objectives that are not numbers somewhere among others."""
    r = vlib.rng("C03", "hmc", i)
    case = cases.gen_sam(r, "hmc")
    o = case["opts"]
    o["maxiter"] = min(o["maxiter"], 20)
    q = r.random()
    b = r.choice(case["bounds"][:1])
    if q < 0.3:
        case["obj"] = dict(kind=r.choice(["nanwall", "infwall"]), c=0.0, w=b[0] + r.random() * (b[1] - b[0]))
    if r.random() < 0.3:
        o["nleap"] = r.choice([1, 3, 7])
    if r.random() < 0.3:
        o["stepsize"] = r.choice([0.3, 0.7, 1.0])
    return case


def gen_threads(i):
    """Runs of the optimizers whose generations are evaluated by several threads."""
    r = vlib.rng("C03", "threads", i)
    case = cases.gen_opt(r, ("de", "pso", "cpso", "na", "cmaes", "vdcma")[i % 6], maxeval=250)
    o = case["opts"]
    if "updating" in o or case["alg"] in ("de", "pso", "cpso"):
        o["updating"] = "deferred"
    o["workers"] = r.choice([2, 2, 3, 5, -1])
    o["backend"] = r.choice(["threading", "threading", None])
    if case["obj"]["kind"] in ("script", "huge"):
        case["obj"] = dict(kind="rastrigin", c=0.3)
    if o["backend"] is None:
        o.pop("backend")
    case["args"] = r.choice([[], [0.1], [0.5, "tag"], [0.0, [1, 2]], [0.0, [1, 2], {"k": 1}], [0.2, None, {"k": 1}, ()], [0.2, 1, 2, 3, 4]])
    case["cb"] = True
    return case


def run_count(job):
    case, tid = job
    hmc = case["alg"] == "hmc"
    rec = execute(case, concurrent=not hmc)
    if rec.exc:
        return None, rec.exc
    ev, calls, ok = [], 0, True

    def count(v):
        return int(v) if cases.isint(v, True) else -1

    def report(st):
        return count(st.get("nfev"))
    for what, k in rec.order:
        if what == "e":
            calls, ok = calls + 1, ok and bool(rec.ev[k][2])
        elif what == "c":
            ev.append(dict(calls=calls, ok=ok, nfev=report(rec.cb[k]["state"]), nit=count(rec.cb[k]["state"].get("nit"))))
            calls, ok = 0, True
    ev.append(dict(calls=calls, ok=ok, nfev=report(rec.res), nit=count(rec.res.get("nit"))))
    return dict(tid=tid, full=0 if hmc else case["opts"].get("popsize", 10), ev=ev), None


def counts(check, n):
    cs = vlib.pmap(gen_count, list(range(n))) + vlib.pmap(gen_threads, list(range(n)))
    n = len(cs)
    traces = []
    for c, (t, exc) in zip(cs, vlib.pmap(run_count, list(zip(cs, range(n))))):
        if t is None:
            check.violate("C03.completes", brief(c), exc)
        else:
            traces.append(t)
    for tid, clauses in vlib.validate(check, "CountTrace", traces, invariants=("Sane",)).items():
        for cl in clauses:
            check.violate(cl, brief(cs[tid]), clauses)
    check.extra["hmc_calls_counted"] = sum(e["calls"] for t in traces for e in t["ev"] if not t["full"])
    check.extra["threaded_calls_counted"] = sum(e["calls"] for t in traces for e in t["ev"] if t["full"])


def _apply(t):
    return t[0](t[1])


def _gen(a):
    return gen(*a)


def cover(check, cs, traces):
    """Counts of what the traces exercised (vacuity evidence)."""
    cov = {}
    for t in traces:
        for key in ("alg=" + t["alg"], "status=%d" % t["res"]["st"], "near=" + t["near"], "pen=%s" % t["pen"],
                    "sync=%s" % t["sync"], "verb0=%s" % (t["ret"] and t["verb0"])):
            cov[key] = cov.get(key, 0) + 1
    check.extra["coverage_of_traces"] = cov
    check.extra["evaluations_observed"] = sum(len(s["e"]) for t in traces for s in t["segs"])


EVO_INV = ("BestOfGeneration", "Counted", "Bounded", "True01", "OnlyThen", "NoMiss", "Truthful", "EmitBehaviour")


def replay(prop, path):
    for v in json.load(open(path)):
        print(json.dumps(v, indent=1)[:3000])
    return 0
