"""C20 (errors of user code) and C21 (arguments and earlier states are never modified)."""
import copy
import math
import threading
import time

import numpy as np

import cases
import record
import twin
import vlib
from p_pop import brief, replay  # noqa: F401
from record import Objective, execute


class UserError(Exception):
    """A user's own exception with arguments of its own."""

    def __init__(self, a, b):
        super().__init__(a, b)
        self.a, self.b = a, b


class UserBase(BaseException):
    pass


def make_exc(name):
    if name == "UserError":
        return UserError("x", {"k": 1})
    if name == "UserBase":
        return UserBase()
    import builtins
    if name == "LinAlgError":
        return np.linalg.LinAlgError("boom")
    return getattr(builtins, name)("boom")


EXCS = ("ValueError", "KeyError", "StopIteration", "IndexError", "ImportError", "GeneratorExit", "KeyboardInterrupt", "SystemExit",
        "AttributeError", "TypeError", "AssertionError", "FloatingPointError", "ZeroDivisionError", "RuntimeError", "OSError",
        "TimeoutError", "MemoryError", "RecursionError", "NotImplementedError", "OverflowError", "ArithmeticError", "EOFError",
        "UserWarning", "LinAlgError", "UserError", "UserBase", "StopAsyncIteration", "UnicodeError", "LookupError", "NameError",
        "ModuleNotFoundError", "BlockingIOError", "InterruptedError", "Exception")


class Log:
    def __init__(self):
        self.calls, self.points, self.grads, self.lock = [], [], [], threading.Lock()
        self.count = {"f": 0, "j": 0, "c": 0}
        self.exc, self.raised, self.res = None, False, None


def drive(case, call=None, n=0, exc=None, slow=0.0):
    """Run the case; the n-th call of kind `call` raises exc."""
    log = Log()
    obj = Objective(**case["obj"])
    bounds, x0, args, opts = record.build(case)

    def hit(kind, x=None):
        with log.lock:
            log.calls.append(kind)
            log.count[kind] += 1
            k = log.count[kind]
            if kind == "f":
                log.points.append(np.array(x, dtype=float, copy=True))
        if kind == call and k == n:
            raise exc
        if len(log.calls) > 20000:
            raise record.Budget()

    def fun(x, *a):
        hit("f", x)
        if slow:
            time.sleep(slow)
        return obj.value(np.asarray(x), a)

    def jac(x, *a):
        hit("j")
        return obj.grad(x, *a)

    def cb(X, state):
        hit("c")

    kw = dict(opts)
    if case.get("jac"):
        kw["jac"] = jac
    alg = case["alg"]
    use = cb if case.get("cb", True) else None
    try:
        if case.get("entry") == "minimize":
            g = record.SS.sample if alg in record.SAMPLERS else record.SO.minimize
            log.res = g(fun, bounds, x0=x0, args=args, method=alg, options=kw, callback=use)
        else:
            log.res = record.DIRECT[alg](fun, bounds, x0=x0, args=args, callback=use, **kw)
    except BaseException as e:
        log.exc, log.raised = e, True
    return log


def is_par(case):
    o = case["opts"]
    return o.get("workers", 1) not in (0, 1) and o.get("backend") != "mpi"


def same_points(clean, bad, case):
    a = [x.tobytes() for x in clean.points]
    b = [x.tobytes() for x in bad.points]
    if not is_par(case):
        return b == a[:len(b)]
    pop = case["opts"]["popsize"]
    for s in range(0, len(b), pop):
        x, y = sorted(b[s:s + pop]), sorted(a[s:s + pop])
        rest = list(y)
        for v in x:
            if v not in rest:
                return False
            rest.remove(v)
    return True


def later_case(r):
    alg = r.choice(["de", "pso", "cpso", "na", "cmaes", "vdcma", "mcmc", "hmc"])
    c = cases.gen_sam(r, alg) if alg in record.SAMPLERS else cases.gen_opt(r, alg, maxeval=120)
    c["opts"]["seed"] = r.choice([0, 3, 12345])
    c["opts"]["maxiter"] = min(8, c["opts"]["maxiter"])
    c.pop("npseed", None)
    if c["opts"].get("backend") == "loky":
        c["opts"]["backend"] = None
    return c


def seen_by(case):
    rec = execute(case)
    if rec.res is None:
        return ("exc", rec.exc)
    I = twin.Intern()
    o = twin.observation(rec, I, 10)
    return (o, tuple(sorted(((str(k), v) for k, v in I.d.items()))))


def trace_c20(job):
    case, faults, tid0 = job
    out = []
    case = copy.deepcopy(case)
    o = case["opts"]
    slow = 0.002 if is_par(case) else 0.0
    clean = drive(case, slow=slow)
    if clean.raised:
        return [("exc", brief(case), repr(clean.exc)[:300])]
    r = vlib.rng("C20later", tid0)
    lc = later_case(r)
    before = seen_by(lc)
    t = tid0
    for call, n, name in faults:
        if clean.count[call] < n:
            continue
        exc = make_exc(name)
        bad = drive(case, call, n, exc, slow=slow)
        k = len(bad.calls)
        if is_par(case):
            time.sleep(0.02)
        late = len(bad.calls) - k
        info = dict(case, call=call, n=n, exc=name, parallel=is_par(case))
        after = seen_by(lc)
        out.append(("ok", brief(info), dict(
            tid=t, par=is_par(case), clean=clean.calls, seen=list(bad.calls), call=call, n=n, raised=bad.raised,
            same=bad.exc is exc, points=same_points(clean, bad, case), later=before == after)))
        t += 1
    return out


def gen_c20(i):
    r = vlib.rng("C20", i)
    k = i % 10
    if k >= 8:
        case = cases.gen_sam(r, ("mcmc", "hmc")[k - 8])
        case["opts"]["maxiter"] = r.choice([1, 2, 4, 6])
        if case["alg"] == "hmc":
            case["opts"]["nleap"] = r.choice([1, 2, 3])
    elif k >= 6:
        alg = r.choice(["de", "pso", "cpso", "na", "cmaes", "vdcma"])
        case = cases.gen_opt(r, alg, maxeval=60, opts=dict(ftol=-math.inf, workers=r.choice([2, 3]), backend="threading"))
        case["opts"]["maxiter"] = r.choice([2, 3, 4])
        case["opts"]["popsize"] = max(6, min(8, case["opts"]["popsize"]))
        case.pop("x0", None)
    else:
        alg = ("de", "pso", "cpso", "na", "cmaes", "vdcma")[k]
        case = cases.gen_opt(r, alg, maxeval=60, opts=dict(ftol=-math.inf))
        case["opts"]["maxiter"] = min(6, case["opts"]["maxiter"])
        if case["opts"].get("backend") == "loky":
            case["opts"]["backend"] = None
    case["obj"] = dict(kind=r.choice(["sphere", "rastrigin", "quad"]), c=0.3)
    if case["opts"].get("seed") is None:
        case["opts"]["seed"] = 9
        case.pop("npseed", None)
    case["cb"] = True
    o = case["opts"]
    nf = o["maxiter"] * (o.get("popsize", 2))
    faults = []
    for _ in range(4):
        call = r.choice(["f", "f", "f", "c", "c"] + (["j"] * 3 if case.get("jac") else []))
        n = {"f": nf, "c": o["maxiter"], "j": 6 * max(1, o["maxiter"] - 1)}[call]
        faults.append((call, r.choice([1, n, r.randint(1, max(1, n)), r.randint(1, max(1, n))]), r.choice(EXCS)))
    return case, faults


def model_c20(rs, jobs):
    """Fault points enumerated by TLC, on every algorithm."""
    out, k = [], 0
    for j, r in zip(jobs, rs):
        kind, par = j["consts"]["Kind"], j["consts"]["Parallel"]
        bs = {(b["call"], b["n"]) for b in r.tagged("@@B ")}
        pts = sorted(bs)
        algs = ("de", "pso", "cpso", "na", "cmaes", "vdcma") if kind == "optimizer" else (kind,)
        for alg in algs:
            for upd in ("immediate", "deferred") if alg in ("de", "pso", "cpso") and not par else (None,):
                if kind == "optimizer":
                    o = dict(popsize=j["consts"]["Pop"], maxiter=j["consts"]["Iters"], ftol=-math.inf, seed=1)
                    if alg == "de":
                        o["strategy"] = "best1bin"
                    if upd:
                        o["updating"] = upd
                    if par:
                        o.update(workers=2, backend="threading")
                else:
                    o = dict(maxiter=j["consts"]["Iters"], seed=1)
                    if alg == "hmc":
                        o["nleap"] = j["consts"]["Leap"]
                case = dict(alg=alg, bounds=[[-2.0, 2.0], [-1.0, 3.0]], obj=dict(kind="rastrigin", c=0.3), opts=o, cb=True,
                            jac=alg == "hmc", entry="minimize" if k % 2 else "direct")
                faults = []
                for call, n in pts:
                    faults.append((call, n, EXCS[k % len(EXCS)]))
                    k += 1
                out.append((case, faults))
    return out


def every_exception():
    """Every type of exception, from every kind of call, in every way of running."""
    out, k = [], 0
    for alg in ("de", "pso", "cpso", "na", "cmaes", "vdcma", "mcmc", "hmc", "hmcfd"):
        modes = [{}]
        if alg in ("de", "pso", "cpso"):
            modes = [dict(updating="immediate"), dict(updating="deferred"), dict(updating="immediate", backend="mpi")]
        elif alg in ("na", "cmaes", "vdcma"):
            modes = [{}, dict(backend="mpi")]
        if alg not in record.SAMPLERS and alg != "hmcfd":
            modes.append(dict(workers=2, backend="threading"))
        for m in modes:
            if alg in ("mcmc", "hmc", "hmcfd"):
                o = dict(maxiter=4, seed=1)
                if alg != "mcmc":
                    o["nleap"] = 2
            else:
                o = dict(popsize=4, maxiter=3, ftol=-math.inf, seed=1)
                if alg == "de":
                    o["strategy"] = "best1bin"
            case = dict(alg=alg[:3] if alg == "hmcfd" else alg, bounds=[[-2.0, 2.0], [-1.0, 3.0]], obj=dict(kind="rastrigin", c=0.3),
                        opts=dict(o, **m), cb=True, jac=alg == "hmc", entry="minimize")
            faults = []
            for name in EXCS:
                for call in ("f", "c", "j") if alg == "hmc" else ("f", "c"):
                    k += 1
                    # in the first iteration (which is written out separately in the code) and in a later one
                    for n in {"f": (1 + k % 4, 5 + k % 5), "c": (1, 2 + k % 2), "j": (1, 2 + k % 6)}[call]:
                        faults.append((call, n, name))
            out.append((dict(case, entry=("minimize", "direct")[len(out) % 2]), faults))
    return out


def fault_jobs():
    j = [dict(Kind="optimizer", Pop=3, Iters=3, Leap=0, Parallel=False), dict(Kind="optimizer", Pop=3, Iters=2, Leap=0, Parallel=True),
         dict(Kind="mcmc", Pop=1, Iters=5, Leap=0, Parallel=False), dict(Kind="hmc", Pop=1, Iters=3, Leap=2, Parallel=False)]
    return [dict(module="Fault", consts=c, invariants=("SerialStops", "NoCallbackOfFailed", "WithinIteration", "Emitted"),
                 properties=("Ends",), deadlock=False) for c in j]


def run_c20(check):
    jobs = fault_jobs()
    rs = vlib.tlc_many(jobs, par=4)
    for j, r in zip(jobs, rs):
        if not r.ok:
            raise vlib.MachineryError("Fault %s\n%s" % (j["consts"], r.out[-2000:]))
        check.add_tlc("Fault", r)
    todo = model_c20(rs, jobs)
    todo += every_exception()
    check.replayed += sum(len(f) for _, f in todo)
    n = 150 * (8 if vlib.THOROUGH else 1)
    todo += vlib.pmap(gen_c20, range(n))
    outs = vlib.pmap(trace_c20, [(c, f, 1000 * i) for i, (c, f) in enumerate(todo)], chunksize=2)
    traces, info = [], {}
    kinds = {}
    for out in outs:
        for st, inf, t in out:
            if st == "exc":
                check.violate("C20.completes", inf, t)
            else:
                traces.append(t)
                info[t["tid"]] = inf
                key = "%s%s" % (t["call"], "/parallel" if t["par"] else "")
                kinds[key] = kinds.get(key, 0) + 1
    for tid, cl in vlib.validate(check, "FaultTrace", traces, invariants=("Sane",)).items():
        for c in cl:
            check.violate(c, info[tid])
    check.extra["faults_injected"] = kinds
    for k in list(info)[:: max(1, len(info) // 3)][:3]:
        check.sample({"case": info[k]})


# ---------------------------------------------------------------------------

def content(I, v):
    def key(u):
        if isinstance(u, np.ndarray):
            return ("a", str(u.dtype), u.shape, u.tobytes() if u.dtype != object else tuple(map(key, u.ravel())))
        if isinstance(u, dict):
            return ("d",) + tuple((str(k), key(x)) for k, x in u.items())
        if isinstance(u, (list, tuple)):
            return (type(u).__name__,) + tuple(key(x) for x in u)
        if isinstance(u, (np.generic,)):
            return ("n", str(u.dtype), u.tobytes())
        return (type(u).__name__, repr(u))
    return I(key(v))


def gen_c21(i):
    r = vlib.rng("C21", i)
    alg = ("de", "pso", "cpso", "na", "cmaes", "vdcma", "mcmc", "hmc")[i % 8]
    if alg in record.SAMPLERS:
        case = cases.gen_sam(r, alg)
        if r.random() < 0.7:
            nd = len(case["bounds"])
            case["opts"]["stepsize"] = [round(r.uniform(0.01, 0.3), 3) for _ in range(nd)]
        case["opts"]["return_all"] = r.random() < 0.85
    else:
        case = cases.gen_opt(r, alg, maxeval=400)
        case["opts"]["return_all"] = r.random() < 0.85
        if case["opts"].get("backend") == "loky":
            case["opts"]["backend"] = None
    far = False
    if r.random() < 0.75:
        b = case["bounds"]
        far = r.random() < 0.35   # some coordinates on or beyond the bounds
        mk = lambda: [r.choice([lo, hi, lo - 0.5 * (hi - lo), hi + 2.0 * (hi - lo), 0.5 * (lo + hi)]) if far else lo + (hi - lo) * r.random()
                      for lo, hi in b]
        case["x0"] = [mk() for _ in range(case["opts"]["popsize"])] if alg in cases.SLOT else mk()
        case["x0form"] = r.choice(["array", "array", "list", "tuple", "fortran"])
    if alg in ("pso", "cpso") and r.random() < 0.4:
        case["opts"]["constraints"] = "Shrink"
    if alg in ("pso", "cpso") and far:
        case["opts"]["constraints"] = None
    case["args"] = r.choice([[], [0.1], [0.5, [1, 2]], [0.0, {"k": [1.0]}]])
    case["cb"] = True
    case["bform"] = r.choice(["list", "array", "tuple"])
    return case


def trace_c21(job):
    case, tid = job
    I = twin.Intern()
    rec = Rec = execute(case, want_live=True)
    if rec.exc:
        return None, rec.exc
    g, b = rec.given, rec.before
    args = [[k, content(I, b[k]), content(I, g[k])] for k in ("bounds", "x0", "args")]
    args.append(["options", content(I, b["opts"]), content(I, g["opts"])])

    def fields(st):
        return {k: content(I, st[k]) for k in ("x", "fun", "nfev", "nit", "xall", "funall", "accept_ratio") if k in st}

    first = [fields(c["state"]) for c in rec.cb]
    end = [fields(c["live"]) for c in rec.cb]
    resnow = fields(rec.res)
    rescopy = record.snap(rec.res)
    r = vlib.rng("C21b", tid)
    for _ in range(2):
        execute(case if r.random() < 0.5 else later_case(r))
    later = [fields(c["live"]) for c in rec.cb]
    reslater = fields(rec.res)
    states = []
    for k, (a, e, l) in enumerate(zip(first, end, later)):
        for f in a:
            states.append([k + 1, f, a[f], e.get(f, 0), l.get(f, 0)])
    for f in resnow:
        states.append([0, f, content(I, rescopy[f]), resnow[f], reslater.get(f, 0)])
    args2 = [[k, content(I, b[k]), content(I, g[k])] for k in ("bounds", "x0", "args")]
    return dict(tid=tid, args=args + args2, states=states), None


def run_c21(check):
    jobs = [dict(module="Alias", consts=dict(Cells=5, Copies=True, Writes=4), invariants=("ArgumentsKept", "StatesKept"), deadlock=False),
            dict(module="Alias", consts=dict(Cells=5, Copies=False, Writes=3), invariants=("ArgumentsKept",), deadlock=False),
            dict(module="Alias", consts=dict(Cells=5, Copies=False, Writes=3), invariants=("StatesKept",), deadlock=False)]
    for k, (j, r) in enumerate(zip(jobs, vlib.tlc_many(jobs, par=3))):
        if r.ok != (k == 0):
            raise vlib.MachineryError("Alias %s\n%s" % (j["consts"], r.out[-2000:]))
        check.add_tlc("Alias", r)
    n = 480 * (8 if vlib.THOROUGH else 1)
    cs = vlib.pmap(gen_c21, range(n))
    traces = []
    for c, (t, err) in zip(cs, vlib.pmap(trace_c21, list(zip(cs, range(n))))):
        if t is None:
            check.violate("C21.completes", brief(c), err)
        else:
            traces.append(t)
    for tid, cl in vlib.validate(check, "PureTrace", traces, invariants=("Sane",)).items():
        for c in cl:
            check.violate(c, brief(cs[tid]))
    check.extra["state_fields_watched"] = sum(len(t["states"]) for t in traces)
    for i in (0, n // 2):
        check.sample({"case": brief(cs[i])})


def run(check):
    (run_c20 if check.prop == "C20" else run_c21)(check)
