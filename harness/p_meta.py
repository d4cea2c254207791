"""C37: several calls under way at the same time (spec/Session.tla, schedules replayed, SessionTrace).
C38: limits decide when a run ends and nothing else (spec/Horizon.tla, HorizonTrace)."""
import copy
import math
import threading

import numpy as np

import cases
import twin
import vlib
from p_pop import brief, replay  # noqa: F401
from record import SAMPLERS, execute

ALGS = ("de", "pso", "cpso", "na", "cmaes", "vdcma", "mcmc", "hmc")


def gen_any(r, alg, maxeval):
    if alg in SAMPLERS:
        return cases.gen_sam(r, alg)
    return cases.gen_opt(r, alg, maxeval=maxeval)


# --------------------------------------------------------------------------- C37

def events(rec, I):
    """One token per evaluation, gradient or callback, in the order of time."""
    out = []
    for kind, j in rec.order:
        if kind == "e":
            out.append(I(("e", twin.arr(rec.ev[j][0]), twin.arr(rec.ev[j][1]))))
        elif kind == "j":
            out.append(I(("j", twin.arr(rec.jac[j][0]), twin.arr(rec.jac[j][1]))))
        else:
            c = rec.cb[j]
            out.append(I(("c", content(c["state"]), twin.arr(c["X"]))))
    return out


def content(st):
    if st is None:
        return "none"
    return tuple((k, str(st[k]) if isinstance(st[k], (str, bool, type(None), np.bool_)) else twin.arr(st[k])) for k in sorted(st))


class Late(Exception):
    pass


class Stage:
    """Lets one call at a time go on, as the schedule says; every call finds the random stream where it left it."""

    def __init__(self, sched, quota):
        self.sched, self.quota = sched, quota
        self.at, self.left = 0, quota[sched[0]]
        self.cv = threading.Condition()
        self.rng = {}
        self.over = set()
        self.log = []
        self.owner = sched[0]

    def _next(self):
        """The next call that can go on."""
        while self.at + 1 < len(self.sched):
            self.at += 1
            k = self.sched[self.at]
            if k not in self.over:
                self.owner, self.left = k, self.quota[k]
                return
        rest = [k for k in sorted(self.quota) if k not in self.over]
        self.owner, self.left = (rest[0] if rest else None), 10 ** 9

    def _wait(self, k):
        while self.owner != k:
            if not self.cv.wait(30):
                raise Late()

    def enter(self, k, before):
        with self.cv:
            self._wait(k)
            if before is not None:
                np.random.seed(before)

    def point(self, k):
        """An evaluation or a callback of call k."""
        with self.cv:
            self.left -= 1
            if self.left < 0:
                self.rng[k] = np.random.get_state()
                self._next()
                self.cv.notify_all()
                self._wait(k)
                if self.rng.get(k) is not None:
                    np.random.set_state(self.rng[k])
                self.left -= 1
            self.log.append(k)

    def leave(self, k):
        with self.cv:
            self.over.add(k)
            if self.owner == k:
                self._next()
            self.cv.notify_all()


def gen_session(i, sched, nested):
    r = vlib.rng("C37", i)
    ks = sorted(set(sched))
    alg = ALGS[i % 8]
    cs = []
    q, pop = r.random() < 0.5, r.choice([6, 8, 12])
    for k in ks:
        like = cs and r.random() < 0.7
        a = alg if like or not cs else r.choice(ALGS)
        c = gen_any(vlib.rng("C37", i, 0 if like else k), a, 160)
        o = c["opts"]
        if like:
            # the same kind of call: same sizes, another stream, another objective
            c["obj"] = dict(kind=r.choice(["sphere", "rastrigin", "quad", "const", "plateau"]), c=round(r.uniform(-1, 1), 2))
            o["ftol" if a not in SAMPLERS else "seed"] = -math.inf
            if r.random() < 0.5 and c.get("x0") is None:
                c["bounds"] = [[lo - 0.5, lo - 0.5 + 2 * (hi - lo)] for lo, hi in c["bounds"]]
            if a in ("cmaes", "vdcma") and k > ks[0]:
                # the histories of the best values decide
                o["xtol"] = -1.0
        if a in ("cmaes", "vdcma") and q:
            o.update(maxiter=40, popsize=pop)
            if len(c["bounds"]) == 1:
                c["bounds"] = c["bounds"] * 2
                if c.get("x0") is not None:
                    c["x0"] = list(c["x0"]) * 2
            if k > ks[0]:
                c["obj"] = dict(kind=r.choice(["sphere", "const", "plateau"]), c=0.1)
            else:
                c["obj"] = dict(kind=r.choice(["const", "plateau", "sphere"]), c=0.1)
            o["ftol"] = -math.inf
        if a in SAMPLERS:
            o["maxiter"] = min(o["maxiter"], 40)
        o["seed"] = r.randrange(2 ** 31)
        c.pop("npseed", None)
        if o.get("backend") == "loky":
            o["backend"] = None
        c["cb"] = r.random() < 0.8
        c["args"] = r.choice([[], [0.1], [0.5, "tag"], [-0.25], [0.0, [1, 2]]])
        cs.append(c)
    return cs


def job37(job):
    i, sched, nested = job
    cs = gen_session(i, sched, nested)
    ks = sorted(set(sched))
    case = {k: c for k, c in zip(ks, cs)}
    alone = {k: execute(copy.deepcopy(case[k])) for k in ks}
    info = dict(sched=sched, nested=nested, calls=[brief(c) for c in cs])
    for k in ks:
        if alone[k].exc:
            return "exc", info, alone[k].exc
    I = twin.Intern()
    size = {k: sum(1 for e in alone[k].order if e[0] != "j") for k in ks}
    quota = {k: max(1, math.ceil(size[k] / sched.count(k))) for k in ks}
    recs, first = {}, {}
    log = []
    if nested:
        # inside[k]: number of events of call k before which another one runs
        inside = {k: {} for k in ks}
        seen = {k: 0 for k in ks}
        stack = []
        for k in sched:
            if k not in stack and seen[k] == 0:
                if stack:
                    p = stack[-1]
                    inside[p].setdefault(min(seen[p] * quota[p], size[p]), []).append(k)
                stack.append(k)
            seen[k] += 1
            if seen[k] == sched.count(k):
                stack.remove(k)

        def go(k):
            count = [0]

            def at(*_):
                count[0] += 1
                log.append(k)
                for j in inside[k].pop(count[0], []) if count[0] < size[k] else sum((inside[k].pop(q) for q in sorted(inside[k]) if q >= count[0]), []):
                    keep = np.random.get_state()
                    go(j)
                    np.random.set_state(keep)
            recs[k] = execute(copy.deepcopy(case[k]), on_eval=at, on_cb=at, timeout=60 if k == ks[0] else 0)
            first[k] = content(recs[k].res)
        go(ks[0])
        order = log
    else:
        st = Stage(sched, quota)

        def go(k):
            try:
                st.enter(k, None)
                recs[k] = execute(copy.deepcopy(case[k]), on_eval=lambda *_: st.point(k), on_cb=lambda *_: st.point(k), timeout=0)
                first[k] = content(recs[k].res)
            except Late:
                pass
            finally:
                st.leave(k)
        ts = [threading.Thread(target=go, args=(k,), daemon=True) for k in ks]
        for t in ts:
            t.start()
        for t in ts:
            t.join(60)
        order = st.log
    if any(k not in recs for k in ks):
        return "exc", info, "a call did not come back"
    toks = {k: events(recs[k], I) for k in ks}
    num = {k: q + 1 for q, k in enumerate(ks)}
    ptr = {k: 0 for k in ks}
    ev = []
    for k in order:
        if ptr[k] < len(toks[k]):
            ev.append([num[k], toks[k][ptr[k]]])
            ptr[k] += 1
    for k in ks:
        ev += [[num[k], t] for t in toks[k][ptr[k]:]]
    return "ok", info, dict(tid=i, alone=[events(alone[k], I) for k in ks], ev=ev, exc=[recs[k].exc or "" for k in ks],
                            res=[[I(content(alone[k].res)), I(first[k]), I(content(recs[k].res))] for k in ks])


def run37(check):
    base = dict(Steps=3, Nested=False, Shared=False)
    scheds = []
    for calls, steps, nested in (((1, 2), 4, False), ((1, 2, 3), 2, False), ((1, 2), 4, True), ((1, 2, 3), 3, True)):
        consts = dict(base, Calls=set(calls), Steps=steps, Nested=nested)
        r = vlib.run_tlc("Session", consts, invariants=("Alone", "Frozen", "Emit"), deadlock=False)
        if not r.ok:
            raise vlib.MachineryError("design model Session\n" + r.out[-2500:])
        check.add_tlc("Session", r)
        scheds += [(s, nested) for s in sorted(r.tagged("@@B "))]
        r = vlib.run_tlc("Session", dict(consts, Shared=True), invariants=("Alone", "Frozen"), deadlock=False)
        if r.ok:
            raise vlib.MachineryError("Session: shared memory goes unnoticed")
    check.count("schedules", len(scheds))
    reps = 60 if vlib.THOROUGH else 6
    jobs, i = [], 0
    for q in range(reps):
        for s, n in scheds * (1 + (q % 2)) + [x for x in scheds if x[1]] * 3:
            if len(set(s)) > 1:
                jobs.append((i, s, n))
            i += 1 if len(jobs) % 8 else 2  # all algorithms meet all schedules
    traces, infos = [], {}
    for kind, info, t in vlib.pmap(job37, jobs):
        check.count(kind)
        check.count("nested" if info["nested"] else "interleaved")
        check.replayed += len(info["calls"])
        if kind == "exc":
            check.violate("C37.completes", info, t)
            continue
        traces.append(t)
        infos[t["tid"]] = info
    for tid, cl in vlib.validate(check, "SessionTrace", traces, invariants=("Sane",)).items():
        for c in cl:
            check.violate(c, infos[tid], cl)
    check.sample(next(iter(infos.values())))


# --------------------------------------------------------------------------- C38

def job38(i):
    r = vlib.rng("C38", i)
    alg = ALGS[i % 8]
    c = gen_any(r, alg, 400)
    o = c["opts"]
    if o.get("seed") is None:
        o["seed"] = r.randrange(2 ** 31)
        c.pop("npseed", None)
    if o.get("backend") == "loky":
        o["backend"] = None
    if r.random() < 0.4:
        o["return_all"] = True
    kinds = ["horizon"] if alg in SAMPLERS else ["horizon", "ftol", "both", "xtol"]
    kind = kinds[(i // 8) % len(kinds)]
    if alg == "cpso" and kind in ("horizon", "both") and o.get("competitivity"):
        # the size at which a swarm counts as collapsed is made for maxiter
        o["competitivity"] = None
    long = r.random() < 0.3
    if long:
        o["return_all"] = False
        c["obj"] = dict(kind=r.choice(["sphere", "sphere", "rastrigin", "quad"]), c=round(r.uniform(-0.5, 0.5), 2))
        if alg in SAMPLERS:
            o["maxiter"] = r.randint(200, 1200) if alg == "mcmc" else r.randint(100, 300)
            if alg == "hmc":
                o["nleap"], c["jac"] = 1, True
                c["bounds"] = [[-5.0, 5.0]] * len(c["bounds"])
                c["x0"] = None
        elif alg != "na":
            o["popsize"] = r.choice([6, 6, 8])
            o["maxiter"] = r.randint(100, 400)
            c["x0"] = None
            c["bounds"] = r.choice([[[-2.0, 2.0]], [[-2.0, 2.0], [-1.0, 3.0]]])
            if alg == "de":
                o.update(mutation=0.6, recombination=0.9)
            if alg in ("pso", "cpso"):
                o.update(inertia=0.7, cognitivity=1.4, sociability=1.4)
            o["ftol"] = r.choice([-math.inf, 1e-12, 1e-8, 1e-4])
    flat = alg in ("cmaes", "vdcma") and kind in ("horizon", "both") and not long and r.random() < 0.8
    if flat:
        # the windows of the stagnation tests are about as long as the shorter run
        nd = r.choice([2, 4, 6])
        c["bounds"], c["x0"] = [[-3.0, 3.0]] * nd, None
        o.update(popsize=r.choice([6, 8, 12]), ftol=-math.inf, xtol=-1.0, sigma=r.choice([0.05, 0.2]), return_all=False)
        o["maxiter"] = r.randint(8, 2 * int(10 + 30 * nd / o["popsize"]))
        c["obj"] = dict(kind=r.choice(["plateau", "const", "step"]), c=0.3, s=r.choice([0.02, 0.1, 1.0]))
    d = copy.deepcopy(c)
    p = d["opts"]
    if kind in ("horizon", "both"):
        p["maxiter"] = o["maxiter"] + r.choice([1, 1, 2, 7, o["maxiter"], 100 + r.randrange(100)])
        if d["obj"]["kind"] == "script":
            c["obj"] = d["obj"] = dict(kind=r.choice(["plateau", "rastrigin", "sphere"]), c=0.3)
        if alg not in SAMPLERS:
            p["maxiter"] = max(o["maxiter"] + 1, min(p["maxiter"], 1500 // o["popsize"]))
            if flat:
                p["maxiter"] = o["maxiter"] + r.choice([10, 50, 200])
        elif long and alg == "mcmc":
            p["maxiter"] = r.randint(2000, 4000)
    if kind in ("ftol", "both"):
        o["ftol"] = r.choice([0.0, 1.0, 1e-8, 1e3, 10 ** r.uniform(-2, 3), r.uniform(-2, 5)] if not long else [1e-2, 1e-4, 1e-8, 1e-12])
        p["ftol"] = r.choice([-math.inf, o["ftol"] - 1.0, o["ftol"] - abs(o["ftol"]) * 1e-3])
    if kind == "xtol":
        o["xtol"], p["xtol"] = r.sample([0.0, 1e-8, 1e-2, 1.0, 1e6, -1.0], 2)
        if r.random() < 0.7:
            p["ftol"] = o["ftol"]
    skip = ("status", "message") if kind == "xtol" else ()
    a, b = execute(c), execute(d)
    info = dict(c, variant=kind, other={k: p[k] for k in ("maxiter", "ftol", "xtol") if k in p})
    if a.exc or b.exc:
        return "exc", brief(info), "%s / %s" % (a.exc, b.exc)
    I = twin.Intern()
    ch = 1 if alg in SAMPLERS else o["popsize"]
    drop = ("accept_ratio",) if alg in SAMPLERS else ()
    va, vb = (twin.observation(x, I, ch, skip=drop + skip + (("success",) if kind == "xtol" else ())) for x in (a, b))
    fs = sorted({float(a.res.fun), float(b.res.fun)})

    def side(v, x):
        return dict(ev=[I(("chunk", tuple(map(tuple, e)))) for e in v["ev"]], cb=[I(("cb", tuple(s))) for s in v["cb"]],
                    res=I(("res", tuple(v["res"]))), fun=fs.index(float(x.res.fun)) + 1, st=int(x.res.get("status", -1)))
    st = a.res.get("status")
    same = kind == "xtol" or (kind == "horizon" and alg not in SAMPLERS and st != -1) or (kind == "ftol" and st not in (0, 1)) or (kind == "both" and st < -1)
    t = dict(tid=i, a=side(va, a), b=side(vb, b), same=bool(same), greedy=alg not in ("cmaes", "vdcma"))
    return "ok", brief(info), t


def run38(check):
    r = vlib.run_tlc("Horizon", dict(Levels={1, 2, 3}, MaxIter=5 if vlib.THOROUGH else 4), invariants=("Prefix", "Longer", "NotWorse", "SameEnd"), deadlock=False)
    if not r.ok:
        raise vlib.MachineryError("design model Horizon\n" + r.out[-2500:])
    check.add_tlc("Horizon", r)
    traces, infos = [], {}
    for kind, info, t in vlib.pmap(job38, range(6400 if vlib.THOROUGH else 800)):
        check.count(kind)
        if kind == "exc":
            check.violate("C38.completes", info, t)
            continue
        check.count("variant=" + info["variant"])
        check.count("status=%d" % t["a"]["st"])
        check.count("cut_short", len(t["b"]["ev"]) > len(t["a"]["ev"]))
        traces.append(t)
        infos[t["tid"]] = info
    for tid, cl in vlib.validate(check, "HorizonTrace", traces, invariants=("Sane",)).items():
        for c in cl:
            check.violate(c, infos[tid], cl)
    check.sample(next(iter(infos.values())))


def run(check):
    (run37 if check.prop == "C37" else run38)(check)
