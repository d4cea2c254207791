"""C25: invalid configurations are rejected before anything is evaluated; valid ones complete.

The decision table and its combinations come from spec/Config.tla; every
enumerated configuration is turned into a real call."""
import math
import zlib

import numpy as np

import record
import vlib
from p_pop import brief, replay  # noqa: F401

OPT = ("de", "pso", "cpso", "na", "cmaes", "vdcma")
RANGE = dict(mutation=(0.0, 2.0), recombination=(0.0, 1.0), inertia=(0.0, 1.0), cognitivity=(0.0, 4.0), sociability=(0.0, 4.0),
             competitivity=(0.0, 2.0), perc=(0.0, 1.0), verbosity=(0.0, 1.0), nrperc=(0.0, 1.0), muperc=(0.0, 1.0), sigma=(0.0, 1.0))
NEED = {"best1bin": 3, "rand1bin": 4, "best2bin": 5, "rand2bin": 6}


class Fun:
    def __init__(self):
        self.n = 0

    def __call__(self, x, *a):
        self.n += 1
        return float((np.asarray(x) ** 2).sum())


class PFun:
    def __call__(self, x, *a):
        return float((np.asarray(x) ** 2).sum())


def pickone(key, *xs):
    return xs[zlib.crc32(repr(key).encode()) % len(xs)]


def concrete(m, devs, ndim, salt):
    """The call for a configuration: fun, bounds, keyword arguments, entry."""
    pop = int(devs.get("popsize", 8))
    o = {}
    fun, cb = Fun(), None
    bounds = [[-2.0, 3.0], [-1.0, 1.0], [0.0, 4.0]][:ndim]
    if devs.get("bounds") == "one":
        ndim, bounds = 1, [[-2.0, 3.0]]
    x0, entry = None, pickone((m, sorted(devs.items()), salt), "direct", "generic")
    if m in OPT:
        o.update(popsize=pop, maxiter=3, seed=5)
    else:
        o.update(maxiter=4, seed=5)
    mid = [0.5 * (a + b) for a, b in bounds] if ndim == len(bounds) else [0.5] * ndim
    for p, c in devs.items():
        k = (m, p, c, sorted(devs.items()), salt)
        if p == "fun":
            calls = fun
            fun = dict(none=None, int=pickone(k, 3, 2.5, math, [np.sum], (np.sum,), {}, np.zeros(3), object()), string="sphere").get(c, fun)
        elif p in ("callback", "jac"):
            if p == "callback":
                cb = {"function": lambda X, s: None, "object": _Cb(), "int": pickone(k, 7, 0, math, [print], {}, (), np.zeros(2), False), "string": "cb"}[c]
            else:
                o["jac"] = {"none": None, "function": lambda x, *a: 2 * np.asarray(x), "object": _Jac(), "int": pickone(k, 1, 0, 2.5, math, [print], np.zeros(2)),
                            "string": "2-point"}[c]
        elif p == "bounds":
            b = bounds
            bounds = {"array": np.array(b), "tuple": tuple(tuple(q) for q in b), "one": b, "int": [[int(q) for q in r] for r in b],
                      "flat": pickone(k, [-1.0, 1.0], np.array([-1.0, 1.0, 2.0, 3.0])), "cube": np.array([b, b]),
                      "scalar": pickone(k, 1.0, 3)}[c]
        elif p == "maxiter":
            o["maxiter"] = dict(one=1, two=2)[c]
        elif p == "seed":
            o["seed"] = dict(zero=0, none=None)[c]
        elif p == "return_all":
            o["return_all"] = c == "yes"
        elif p == "method":
            entry = "unknown"
        elif p in ("popsize",):
            pass
        elif p == "workers":
            o["workers"] = dict(zero=0, two=2, all=-1)[c]
        elif p == "backend":
            o["backend"] = dict(none=None, unknown=pickone(k, "multiprocess", "MPI", "thread", "threads")).get(c, c)
        elif p in ("xtol", "ftol"):
            o[p] = 0.0
        elif p == "x0":
            pass
        elif p == "strategy":
            o["strategy"] = pickone(k, "best3bin", "rand1exp", "BEST1BIN", None) if c == "unknown" else c
        elif p == "updating":
            o["updating"] = pickone(k, "synchronous", "Deferred", "async", None) if c == "unknown" else c
        elif p == "constraints":
            foreign = {"de": "Shrink", "pso": "Penalize", "cpso": "Random", "cmaes": "Random", "vdcma": "Shrink"}.get(m)
            o["constraints"] = None if c == "none" else foreign if c == "foreign" else pickone(k, "clip", "reflect", "penalize ") if c == "unknown" else c
        elif p == "stepsize":
            o["stepsize"] = {"array": np.full(ndim, 0.1), "list": [0.1] * ndim, "intarray": np.ones(ndim, dtype=int),
                             "short": pickone(k, [0.1] * (ndim - 1), np.full(max(1, ndim - 1) if ndim > 1 else 2, 0.1)), "long": np.full(ndim + 1, 0.1)}[c]
        elif p == "nleap":
            o["nleap"] = dict(one=1, many=5, zero=0, below=pickone(k, -1, -5))[c]
        else:
            lo, hi = RANGE[p]
            o[p] = {"lo": lo, "mid": 0.5 * hi, "hi": hi, "one": 1.0, "small": 1e-3, "zero": 0.0, "none": None,
                    "below": pickone(k, -1e-9, -0.1, -3.0), "above": pickone(k, hi + 1e-9, hi + 0.01, hi + 5.0)}[c]
    c = devs.get("x0")
    if c:
        k = (m, c, sorted(devs.items()), salt)
        P = max(pop, 1)
        if m in ("de", "pso", "cpso", "na"):
            base = np.tile(np.array(mid), (P, 1)) + 0.01 * np.arange(P)[:, None]
            x0 = {"array": base, "list": base.tolist(), "intarray": np.zeros((P, ndim), dtype=int) + np.arange(P)[:, None] % 2,
                  "flat": base.ravel() if ndim * P != ndim else np.array(mid), "narrow": np.zeros((P, ndim - 1)), "wide": np.zeros((P, ndim + 1)),
                  "short": base[:-1], "long": np.vstack([base, base[:1]]), "cube": base[None], "scalar": 0.5}[c]
        else:
            x0 = {"array": np.array(mid), "list": list(mid), "intarray": np.zeros(ndim, dtype=int) + 1 * 0,
                  "short": np.zeros(ndim - 1) if ndim > 1 else np.zeros(0), "long": np.zeros(ndim + 1),
                  "matrix": pickone(k, np.zeros((ndim, 1)), np.zeros((ndim, ndim)), np.zeros((1, ndim))), "scalar": 0.5}[c]
    return fun, bounds, x0, o, cb, entry


class _Cb:
    def __call__(self, X, s):
        pass


class _Jac:
    def __call__(self, x, *a):
        return 2 * np.asarray(x)


def attempt(job):
    m, devs, ok, ndim, salt = job
    fun, bounds, x0, o, cb, entry = concrete(m, devs, ndim, salt)
    counter = fun if isinstance(fun, Fun) else Fun()
    if o.get("backend") == "loky" and o.get("workers", 1) not in (0, 1) and isinstance(fun, Fun):
        fun = PFun()
    calls = [0]
    exc = res = None
    use = cb
    try:
        np.random.seed(1)
        if entry == "direct" and devs.get("method") is None:
            res = record.DIRECT[m](fun, bounds, x0=x0, callback=use, **o)
        else:
            f = record.SS.sample if m in record.SAMPLERS else record.SO.minimize
            name = pickone(salt, "nelder-mead", "DE", "", None) if entry == "unknown" else m
            res = f(fun, bounds, x0=x0, method=name, options=o, callback=use)
    except Exception as e:
        exc = repr(e)[:200]
    n = fun.n if isinstance(fun, Fun) else counter.n
    bad = None
    if ok:
        if exc is not None:
            bad = ("accepted", exc)
        elif not (res is not None and np.all(np.isfinite(np.asarray(res["x"], dtype=float))) and res["nit"] >= 1
                  and (n > 0 or isinstance(fun, PFun))):
            bad = ("completes", str(dict(nit=res.get("nit"), x=res.get("x"), calls=n)))
    else:
        if exc is None:
            bad = ("rejected", "no exception; %d evaluations" % n)
        elif n > 0:
            bad = ("beforeEvaluation", "%d evaluations, then %s" % (n, exc))
    return bad, dict(method=m, devs=devs, ndim=ndim, entry=entry, options={k: str(v)[:60] for k, v in o.items()})


def skip(m, d):
    """Combinations that have no meaning."""
    if d.get("bounds") in ("flat", "cube", "scalar") and "x0" in d:
        return True
    if d.get("popsize") in ("0", "-1") and "x0" in d:
        return True
    if d.get("popsize") in ("1",) and d.get("x0") == "short":
        return True
    return False


def run(check):
    ms = ("de", "pso", "cpso", "na", "cmaes", "vdcma", "mcmc", "hmc")
    inv = ("NothingEvaluated", "OnlyValidRuns", "RejectedIsInvalid", "Defaults")
    depth = 3 if vlib.THOROUGH else 2
    jobs = [dict(module="Config", consts=dict(Methods={m}, Depth=depth, Emit=True), invariants=inv, properties=("Monotone",),
                 deadlock=False) for m in ms]
    todo = []
    for j, r in zip(jobs, vlib.tlc_many(jobs, par=8)):
        if not r.ok:
            raise vlib.MachineryError("design model Config\n" + r.out[-2500:])
        check.add_tlc("Config", r)
        for b in r.tagged("@@B "):
            d = b["devs"] if isinstance(b["devs"], dict) else {}
            if skip(b["m"], d):
                continue
            if len(d) == 3 and zlib.crc32(repr(sorted(d.items())).encode()) % 4 != vlib.SEED % 4:
                continue
            for ndim in (2, 3, 1):
                if "bounds" in d and d["bounds"] == "one" and ndim != 2:
                    continue
                if ndim == 1 and d.get("x0") == "narrow":
                    continue
                if len(d) == 3 and ndim != 2:
                    continue
                if d.get("backend") == "loky" and "workers" in d and ndim != 2:
                    continue
                todo.append((b["m"], d, b["ok"], ndim, (vlib.SEED, ndim)))
    # the processes of loky cannot be made in a forked worker
    here = [t for t in todo if t[1].get("backend") == "loky" and t[1].get("workers") in ("two", "all")]
    there = [t for t in todo if not (t[1].get("backend") == "loky" and t[1].get("workers") in ("two", "all"))]
    out = vlib.pmap(attempt, there) + [attempt(t) for t in here]
    for t, (bad, case) in zip(there + here, out):
        check.replayed += 1
        check.count("valid_run" if t[2] else "invalid_run")
        if bad:
            check.violate("C25." + bad[0], case, bad[1])
    documented(check)
    for i in (7, len(out) // 2, len(out) - 7):
        check.sample({"case": out[i][1]}, 4)


def documented(check):
    """sigma is documented as 'scalar or array_like'."""
    for m in ("cmaes", "vdcma"):
        for sig in ([0.1, 0.2], np.array([0.1, 0.2])):
            check.replayed += 1
            try:
                record.DIRECT[m](Fun(), [[-1.0, 1.0], [-2.0, 2.0]], sigma=sig, seed=1, maxiter=3)
            except Exception as e:
                check.violate("C25.accepted", dict(method=m, param="sigma", kind="array_like"), repr(e)[:200])
