"""C18: parallel = serial deferred under every schedule (Pool, PoolTrace, TwinTrace).
C19: MPI ranks in step (Spmd, SpmdTrace)."""
import copy
import json
import math
import os
import shutil
import tempfile
import threading
import time

import numpy as np

import cases
import fakempi
import twin
import vlib
from p_pop import brief, replay  # noqa: F401
from record import DIRECT, Objective, execute

ALGS = ("de", "pso", "cpso", "na", "cmaes", "vdcma")
POSKINDS = ("sphere", "rastrigin", "quad", "plateau", "mixed", "linear", "neg", "step", "intplateau", "const")


class Gate:
    """Objective whose calls finish in the order a schedule of the Pool model asks for."""

    def __init__(self, base, n, order):
        self.base, self.n, self.order = base, n, list(order)
        self.cv = threading.Condition()
        self.arr = 0
        self.waiting = set()
        self.released = set()
        self.events = []
        self.gpos = 0
        self.followed = 0
        self.stop = False
        self.kind, self.p = base.kind, base.p
        self.th = threading.Thread(target=self.control, daemon=True)
        self.th.start()

    def __call__(self, x, *a):
        with self.cv:
            me = self.arr
            self.arr += 1
            self.events.append(("S", x.copy()))
            self.waiting.add(me)
            self.cv.notify_all()
            end = time.time() + 5
            while me not in self.released and time.time() < end:
                self.cv.wait(0.5)
            v = self.base(x, *a)
            self.events.append(("F", x.copy()))
            self.waiting.discard(me)
            self.cv.notify_all()
        return v

    def control(self):
        with self.cv:
            while not self.stop:
                if not self.waiting:
                    self.cv.wait(0.2)
                    continue
                g, j = divmod(len(self.released), self.n)
                want = g * self.n + self.order[j] - 1
                t = time.time() + 0.012
                while want not in self.waiting and time.time() < t and not self.stop:
                    self.cv.wait(0.004)
                free = [w for w in self.waiting if w not in self.released]
                if not free:
                    self.cv.wait(0.05)
                    continue
                if want in free:
                    self.followed += 1
                    pick = want
                else:
                    pick = min(free)
                self.released.add(pick)
                self.cv.notify_all()
                while pick in self.waiting and not self.stop:
                    self.cv.wait(0.2)

    def close(self):
        with self.cv:
            self.stop = True
            self.cv.notify_all()


def serial_of(case):
    c = copy.deepcopy(case)
    c["opts"]["workers"] = 1
    c["opts"]["backend"] = None
    if case["alg"] in ("de", "pso", "cpso"):
        c["opts"]["updating"] = "deferred"
    return c


def base_case(r, alg, pop=None, maxiter=None, maxeval=300):
    opts = {}
    if alg == "de" and pop is not None:
        opts["strategy"] = "best1bin" if pop < 4 else r.choice(["best1bin", "rand1bin"])
    c = cases.gen_opt(r, alg, maxeval=maxeval, opts=opts)
    o = c["opts"]
    if pop is not None:
        o["popsize"] = pop
        if c.get("x0") is not None and alg in cases.SLOT:
            c["x0"] = None
    if maxiter is not None:
        o["maxiter"] = maxiter
    if c["obj"]["kind"] in ("script", "huge", "infwall", "npint"):
        c["obj"] = dict(kind=r.choice(["rastrigin", "quad", "plateau"]), c=0.3, s=2.0)
    if r.random() < 0.1:
        # undefined in part of the box
        m = c["bounds"][0]
        c["obj"] = dict(kind="nanwall", c=0.0, w=m[0] + r.random() * (m[1] - m[0]))
        c.pop("args", None)
    if o["seed"] is None:
        o["seed"] = r.randrange(1000)
        c.pop("npseed", None)
    c["cb"] = True
    return c


def pool_trace(tid, w, pop, serial, gens):
    """gens: list of [(kind, x)]; positions interned together with those of the serial run."""
    I = twin.Intern()
    ser = [[I(twin.arr(e[0])) for e in serial.ev[k:k + pop]] for k in range(0, len(serial.ev), pop)]
    out = []
    for k, g in enumerate(gens):
        out.append(dict(ev=[[kind, I(twin.arr(x))] for kind, x in g], serial=ser[k] if k < len(ser) else []))
    return dict(tid=tid, w=w, ngen=len(ser), gens=out)


def job_gate(a):
    """Real threads forced through one completion order of the model."""
    i, b = a
    r = vlib.rng("C18g", i)
    alg = ALGS[i % 6]
    n, w = b["n"], b["w"]
    c = base_case(r, alg, pop=n, maxiter=r.choice([1, 2, 3]))
    c["opts"].update(workers=w, backend=r.choice([None, "threading"]))
    if alg in ("de", "pso", "cpso"):
        c["opts"]["updating"] = r.choice(["immediate", "deferred"])
    gate = Gate(Objective(**c["obj"]), n, b["order"])
    try:
        p = execute(c, fun=gate, concurrent=True)
    finally:
        gate.close()
    s = execute(serial_of(c))
    info = dict(c, schedule=b["order"])
    if p.exc or s.exc:
        return ("exc", brief(info), "%s / %s" % (p.exc, s.exc), None, 0)
    cuts = [2 * cb["nev"] for cb in p.cb]
    gens, at = [], 0
    for cut in cuts:
        gens.append(gate.events[at:cut])
        at = cut
    if at < len(gate.events):
        gens.append(gate.events[at:])
    t = twin.pair("C18", i, s, p, n, sortseg=n)
    return ("ok", brief(info), t, pool_trace(i, w, n, s, gens), gate.followed)


FREE = ((2, None), (-1, None), (3, "threading"), (-2, None), (1, "mpi"), (0, "mpi"), (-1, "threading"), (4, "mpi"), (5, None),
        (-1, "mpi"), (-8, "threading"), (2, "threading"))


def job_free(i):
    """Real threads / single-process mpi without forced schedule, rich configurations."""
    r = vlib.rng("C18f", i)
    alg = ALGS[i % 6]
    c = base_case(r, alg)
    c["opts"]["workers"], c["opts"]["backend"] = FREE[i // 6 % len(FREE)]
    if alg in ("de", "pso", "cpso"):
        c["opts"]["updating"] = "deferred" if i // 6 // len(FREE) % 3 == 2 else "immediate"
        if i // 6 // len(FREE) % 2 == 0:
            # trials that depend on the members replaced before them, bests that change within an iteration
            c["opts"].update(maxiter=r.choice([4, 6, 9]), popsize=r.choice([6, 8, 11]), ftol=-math.inf, xtol=-1.0)
            c.pop("x0", None)
            c["obj"] = dict(kind=r.choice(["rastrigin", "quad", "sphere"]), c=0.3)
            c["bounds"] = [[-5.0, 5.0]] * len(c["bounds"])
            if alg == "de":
                c["opts"].update(mutation=0.5, recombination=0.9)
            else:
                c["opts"].update(inertia=0.73, cognitivity=1.49, sociability=1.49)
    slow = r.random() < 0.3
    base = Objective(**c["obj"])
    seen = []

    class Noisy:
        kind, p = base.kind, base.p

        def __call__(self, x, *a):
            seen.append(("S", x.copy()))
            if slow:
                time.sleep(hash(x.tobytes()) % 5 * 1e-4)
            v = base(x, *a)
            seen.append(("F", x.copy()))
            return v

    p = execute(c, fun=Noisy(), concurrent=True)
    s = execute(serial_of(c))
    if p.exc or s.exc:
        return ("exc", brief(c), "%s / %s" % (p.exc, s.exc), None, 0)
    pop = c["opts"]["popsize"]
    cuts = [2 * cb["nev"] for cb in p.cb]
    gens, at = [], 0
    for cut in cuts:
        gens.append(seen[at:cut])
        at = cut
    if at < len(seen):
        gens.append(seen[at:])
    w = c["opts"]["workers"]
    return ("ok", brief(c), twin.pair("C18", 100000 + i, s, p, pop, sortseg=pop),
            pool_trace(100000 + i, 1 if c["opts"]["backend"] == "mpi" else max(0, w), pop, s, gens), 0)


class FileObjective:
    """Objective for worker processes: appends every evaluated point to a file."""

    def __init__(self, spec, path):
        self.spec, self.path = spec, path

    def __call__(self, x, *a):
        v = Objective(**self.spec)(np.array(x), *a)
        with open(self.path, "ab", buffering=0) as f:
            f.write(np.array(x, dtype=float).tobytes())
        return v


def loky_cases(check):
    """Worker processes: result, callbacks and the bag of evaluated points against the serial run."""
    from joblib import Parallel, delayed
    here = os.path.dirname(os.path.abspath(__file__))
    os.environ["PYTHONPATH"] = here + ":" + os.environ.get("STOCHOPY_REPO", "/repo")
    try:
        assert Parallel(n_jobs=2, prefer="processes")(delayed(abs)(-i) for i in range(4)) == [0, 1, 2, 3]
    except Exception as e:
        check.extra["loky"] = "worker processes are not available here: %r" % e
        return [], {}
    d = tempfile.mkdtemp(prefix="stochopy-loky-")
    out, infos = [], {}
    try:
        for i in range(24 if vlib.THOROUGH else 8):
            r = vlib.rng("C18l", i)
            alg = ALGS[i % 6]
            c = base_case(r, alg, maxeval=80)
            c["opts"]["workers"], c["opts"]["backend"] = r.choice([(2, "loky"), (3, "loky")])
            if alg in ("de", "pso", "cpso"):
                c["opts"]["updating"] = r.choice(["immediate", "deferred"])
            path = os.path.join(d, "ev%d" % i)
            open(path, "w").close()
            fo = FileObjective(c["obj"], path)

            def entry(fun, bounds, x0, args, kw, cb):
                return DIRECT[alg](fo, bounds, x0=x0, args=args, callback=cb, **kw)
            p = execute(c, direct=entry, timeout=120)
            s = execute(serial_of(c))
            if p.exc or s.exc:
                check.violate("C18.completes", brief(c), "%s / %s" % (p.exc, s.exc))
                continue
            raw = np.fromfile(path).reshape(-1, len(c["bounds"]))
            p.ev = [[x, 0.0, True] for x in raw]
            for e in s.ev:
                e[1] = 0.0
            # bag of points per generation
            pop = c["opts"]["popsize"]
            out.append(twin.pair("C18", 200000 + i, s, p, pop, sortseg=pop))
            infos[200000 + i] = brief(c)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return out, infos


def run_c18(check):
    jobs = []
    sizes = [(3, 2), (3, 3), (4, 2), (4, 3), (4, 4)] + ([(5, 2), (5, 3), (5, 5)] if vlib.THOROUGH else [])
    for n, w in sizes:
        jobs.append(dict(module="Pool", consts=dict(N=n, W=w, Emit=True), invariants=("Credited", "Once", "Bounded", "EmitBehaviour"),
                         properties=("Joins",)))
    bs = []
    for j, r in zip(jobs, vlib.tlc_many(jobs, 4)):
        if not r.ok:
            raise vlib.MachineryError("Pool: %s" % r.out[-2000:])
        check.add_tlc("Pool", r)
        bs += {(b["n"], b["w"], tuple(b["order"])): b for b in r.tagged("@@B ")}.values()
    check.extra["model_schedules"] = len(bs)
    gated = [(i * 6 + k, b) for i, b in enumerate(bs) for k in (range(6) if vlib.THOROUGH or len(bs) < 60 else (i % 6, (i + 3) % 6))]
    gated = [(i, b) for i, b in gated]
    res = vlib.pmap(job_gate, gated, chunksize=4)
    res += vlib.pmap(job_free, range(1440 if vlib.THOROUGH else 432), chunksize=4)
    tw, po, infos, followed = [], [], {}, 0
    for kind, info, t, p, f in res:
        check.count(kind)
        if kind == "exc":
            check.violate("C18.completes", info, t)
            continue
        tw.append(t)
        po.append(p)
        followed += f
        infos[t["tid"]] = info
        check.count("alg=" + info["alg"])
    check.replayed += len(gated)
    check.extra["completions_forced_as_scheduled"] = followed
    lt, li = loky_cases(check)
    tw += lt
    infos.update(li)
    check.extra["loky_runs"] = len(lt)
    for mod, ts in (("TwinTrace", tw), ("PoolTrace", po)):
        for tid, cl in vlib.validate(check, mod, ts, invariants=("Sane",)).items():
            for c in cl:
                check.violate(c, infos[tid], cl)
    for k in list(infos)[:2]:
        check.sample(infos[k])


# ---------------------------------------------------------------- C19

def run_ranks(case, size, schedule, states):
    world = fakempi.World(size, schedule)
    recs = [None] * size
    marks = [[] for _ in range(size)]

    def body(r):
        def go():
            def on_eval(rec, x):
                marks[r].append(len(world.calls[r]))
            recs[r] = execute(case, on_eval=on_eval, timeout=0)
            if recs[r].exc and recs[r].exc.startswith("Deadlock"):
                raise fakempi.Deadlock(recs[r].exc)
            return recs[r]
        return go

    out = world.run([body(r) for r in range(size)], states)
    return world, recs, out


def rank_state(seed):
    return np.random.RandomState(seed).get_state()


def job_mpi(a):
    i, size, schedule = a
    r = vlib.rng("C19", i)
    alg = ALGS[i % 6]
    c = base_case(r, alg, maxeval=150 if not vlib.THOROUGH else 400)
    o = c["opts"]
    o["maxiter"] = min(o["maxiter"], 8)
    o["backend"], o["workers"] = "mpi", r.choice([1, 0, 2])
    if alg in ("de", "pso", "cpso"):
        o["updating"] = r.choice(["immediate", "deferred"])
    if r.random() < 0.3:
        o["ftol"] = r.choice([1e-1, 1.0, 10.0])
    seeded = i % 3 != 0
    # without a seed the ranks are separate processes with separate random states
    states = [rank_state(1000 + 7 * k + i) for k in range(size)]
    if not seeded:
        o["seed"] = None
        c.pop("npseed", None)
    world, recs, out = run_ranks(c, size, (schedule * 40)[:400], states)
    info = dict(c, ranks=size, schedule=schedule[:12], seeded=seeded)
    dead = world.fault is not None or any(x is None or x[0] != "ok" for x in out)
    if any(x is None for x in recs):
        return ("exc", brief(info), "rank did not run: %s %s" % (world.fault, out))
    crash = [x.exc for x in recs if x.exc and not x.exc.startswith("Deadlock")]
    if crash:
        return ("exc", brief(info), crash[0])
    I = twin.Intern()
    pop = o["popsize"]
    ranks = []
    for k, rec in enumerate(recs):
        gens, at = [], 0
        for cb in rec.cb:
            gens.append([I(twin.arr(e[0])) for e in rec.ev[at:cb["nev"]]])
            at = cb["nev"]
        if at < len(rec.ev):
            gens.append([I(twin.arr(e[0])) for e in rec.ev[at:]])
        obj = Objective(**c["obj"])
        pen = o.get("constraints") == "Penalize"

        def belongs(st):
            if "x" not in st or "fun" not in st:
                return False
            v = float(obj(np.asarray(st["x"]), *c.get("args", ())))
            if st["fun"] != st["fun"]:   # penalties need not be defined where the objective is not
                return v != v or (pen and c["obj"]["kind"] == "nanwall")
            return float(st["fun"]) == v or (pen and float(st["fun"]) >= v)
        ob = twin.observation(rec, I, max(1, pop))
        ranks.append(dict(gens=gens, cb=ob["cb"], res=ob["res"], coll=[I(("coll", n)) for n in world.calls[k]],
                          belongs=[belongs(cb["state"]) for cb in rec.cb], resbelongs=rec.res is not None and belongs(rec.res)))
    serial, sres = [], []
    if seeded:
        s = execute(serial_of(c), timeout=0)
        if s.exc:
            return ("exc", brief(info), s.exc)
        serial = [[I(twin.arr(e[0])) for e in s.ev[k:k + pop]] for k in range(0, len(s.ev), pop)]
        sres = twin.observation(s, I, pop)["res"]
    t = dict(tid=i, ngen=max(len(x["gens"]) for x in ranks), pop=pop, deadlock=bool(dead), ranks=ranks, serial=serial, sres=sres)
    return ("ok", brief(info), t)


def run_c19(check):
    inv = ("InStep", "OnceEach", "Complete", "Agree", "Belongs", "EmitBehaviour")
    jobs = [dict(module="Spmd", consts=dict(R=2, N=3, Gens=2, Seeded=False, SyncRng=True, MaxLog=8, Emit=True), invariants=inv),
            dict(module="Spmd", consts=dict(R=3, N=4, Gens=1, Seeded=True, SyncRng=True, MaxLog=9, Emit=True), invariants=inv),
            dict(module="Spmd", consts=dict(R=3, N=2, Gens=2, Seeded=False, SyncRng=True, MaxLog=0, Emit=False), invariants=inv, properties=("Terminates",)),
            dict(module="Spmd", consts=dict(R=4, N=6, Gens=2, Seeded=True, SyncRng=True, MaxLog=0, Emit=False), invariants=inv),
            # the design without the broadcast of the random state is wrong when unseeded: the invariants must notice
            dict(module="Spmd", consts=dict(R=2, N=3, Gens=2, Seeded=False, SyncRng=False, MaxLog=0, Emit=False), invariants=inv)]
    rs = vlib.tlc_many(jobs, 4)
    bs = []
    for j, r in zip(jobs[:-1], rs):
        if not r.ok:
            raise vlib.MachineryError("Spmd: %s" % r.out[-2000:])
        check.add_tlc("Spmd", r)
        bs += r.tagged("@@B ")
    if not rs[-1].violated:
        raise vlib.MachineryError("Spmd: the invariants do not notice unsynchronised ranks")
    check.extra["model_schedules"] = len(bs)
    r = vlib.rng("C19s")
    r.shuffle(bs)
    todo, i = [], 0
    nb = len(bs) if vlib.THOROUGH else 220
    for b in bs[:nb]:
        todo.append((i, b["r"], b["schedule"]))
        i += 1
    check.replayed += len(todo)
    for k in range(800 if vlib.THOROUGH else 120):
        size = r.choice([1, 2, 3, 4, 5, 7])
        todo.append((i, size, [r.randrange(size) for _ in range(40)]))
        i += 1
    traces, infos = [], {}
    for kind, info, t in vlib.pmap(job_mpi, todo, chunksize=4):
        check.count(kind)
        if kind == "exc":
            check.violate("C19.completes", info, t)
            continue
        traces.append(t)
        infos[t["tid"]] = info
        check.count("ranks=%d" % info["ranks"])
        check.count("seeded=%s" % info["seeded"])
        check.count("alg=" + info["alg"])
    for tid, cl in vlib.validate(check, "SpmdTrace", traces, invariants=("Sane",)).items():
        for c in cl:
            check.violate(c, infos[tid], cl)
    for k in list(infos)[:2]:
        check.sample(infos[k])


def run(check):
    (run_c18 if check.prop == "C18" else run_c19)(check)
