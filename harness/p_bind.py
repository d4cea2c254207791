"""C34: documented order, names and defaults of the parameters; documented fields of results and states.

spec/Binding.tla enumerates ways of passing arguments and gives the configuration each must
amount to.  Every call is made that way and compared, on TwinTrace, with the call of the direct
function that gives the whole configuration by name."""
import ast
import math
import threading
import zlib

import numpy as np

import record
import twin
import vlib
from p_pop import brief, replay  # noqa: F401

ALGS = ("de", "pso", "cpso", "na", "cmaes", "vdcma", "mcmc", "hmc")
SLOT = ("de", "pso", "cpso", "na")
OTHER = dict(maxiter=(7, 12, 3), popsize=(6, 8, 14), mutation=(0.8, 1.3), recombination=(0.3, 0.6), strategy=("rand1bin", "best2bin", "rand2bin"),
             seed=(3, 0), xtol=(1e-3, 0.5, 1e-12), ftol=(1e-3, -1.0, 1e-12), updating=("deferred",), workers=(2, 0, 0), backend=("loky", "mpi", "threading"),
             return_all=(True,), verbosity=(0.5, 0.0), inertia=(0.4, 0.9), cognitivity=(1.0, 2.5), sociability=(2.0, 0.5), competitivity=(0.3, None, 1.8),
             nrperc=(0.25, 1.0), sigma=(0.3, 0.6), muperc=(0.25, 1.0), stepsize=(0.3, 0.05), perc=(0.4, 0.7), nleap=(4, 3), finite_diff_abs_step=(0.5, 0.2))
CON = dict(de="Random", pso="Shrink", cpso="Shrink", cmaes="Penalize", vdcma="Penalize", mcmc="Reject", hmc="Reject")


class Fun:
    """Multimodal, or (tol) with values around the default tolerance, or (once) below it from the start."""

    def __init__(self, tol, width):
        self.tol, self.width = tol, width
        if tol == "once":
            self.width = 2e-8

    def __call__(self, x, *args):
        x = np.asarray(x)
        c = 0.3 * self.width + (args[0] if args else 0.0)
        d = (x - c) / self.width
        v = float((d * d).sum() - 0.3 * np.cos(9.0 * d).sum() + 0.3 * len(x))
        if self.tol == "once":
            return 5e-9 + 1e-9 * math.atan(v - 30.0)
        return v * 1e-7 if self.tol else 3.0 * v


def scenario(sc, i, salt):
    """The case, and the value of every parameter when it is not the default."""
    m = sc["m"]
    key = zlib.crc32(repr((m, sc["entry"], sc["pos"], sorted(sc["omit"]), sc["profile"], salt, vlib.SEED)).encode())
    r = vlib.rng("C34", key)
    tol = r.random() < 0.5 and m not in record.SAMPLERS
    if {"xtol", "ftol"} & set(sc["omit"]):
        tol = r.random() < 0.85
    small = tol and r.random() < 0.5
    once = "xtol" in sc["omit"] and sc["profile"] == "others" and "x0" not in sc["omit"] and m not in record.SAMPLERS and salt % 2 == 1
    if once:
        tol, small = "once", False
    width = 1.0 if once else 3e-8 if small else r.choice([1.0, 4.0, 10.0])
    n = r.choice([2, 3, 2, 1])
    bounds = [[-width * r.uniform(0.5, 1), width * r.uniform(0.5, 1)] for _ in range(n)]
    eff = sc["eff"]
    # popsize must suit the strategy
    other = {k: r.choice(v) for k, v in OTHER.items()}
    if other["strategy"] == "rand2bin":
        other["popsize"] = max(other["popsize"], 6)
    # the tolerances that are given must not hide the ones that are not
    if "xtol" in sc["omit"] and "ftol" not in sc["omit"]:
        other["ftol"] = 1e-8 if small else 1e-3
    if "ftol" in sc["omit"] or "xtol" in sc["omit"]:
        other["maxiter"] = 60
        if m in ("cmaes", "vdcma") and "sigma" not in sc["omit"]:
            other["sigma"] = r.choice([0.3, 1e-7, 3e-8])
    if "backend" in sc["omit"]:
        other["workers"] = 2
    elif other["backend"] == "loky" and eff.get("workers", "1") != "1":
        other["backend"] = "threading"  # processes cannot be observed
    if m in record.SAMPLERS:
        other["return_all"] = False
    if m == "hmc" and other["stepsize"] == 0.3:
        other["stepsize"] = 0.1
    pop = other["popsize"] if str(eff.get("popsize", "")).startswith("other") else 10
    u = lambda: [b[0] + (b[1] - b[0]) * r.uniform(0.05, 0.95) for b in bounds]
    other["x0"] = [u() for _ in range(pop)] if m in SLOT else u()
    other["args"] = (0.11 * width,)
    if once:
        bounds[1:] = [list(bounds[0]) for _ in bounds[1:]]
        # the best moves by about the default tolerance
        size = r.choice([1e-8, 2e-8, 4e-8])
        c = [0.3 * sum(b) for b in bounds]
        u = lambda: [v + size * r.uniform(-1, 1) for v in c]
        other["x0"] = [u() for _ in range(pop)] if m in SLOT else u()
        other["args"] = (c[0],)
        other["sigma"] = size
        other["ftol"] = 1e-8
    if m in CON:
        other["constraints"] = CON[m]
    return dict(alg=m, bounds=bounds, opts={}, obj=dict(kind="sphere"), npseed=r.randrange(10 ** 6), tol=tol, width=width,
                entry=sc["entry"], pos=sc["pos"], omit=sorted(sc["omit"]), profile=sc["profile"], cb=True, jac=m == "hmc",
                x0=other["x0"], args=other["args"]), other


def kinds(d):
    out = {}
    for k in d:
        v = d[k]
        a = np.asarray(v) if not isinstance(v, str) else None
        if isinstance(v, str):
            t = "text"
        elif isinstance(v, (bool, np.bool_)):
            t = "flag"
        elif a.dtype.kind in "iuf" and a.ndim == 0:
            t = "number" if k in ("fun", "accept_ratio") else "count" if int(a) == a else "fraction"
        elif a.dtype.kind in "iuf":
            t = {1: "vector", 2: "table", 3: "cube"}.get(a.ndim, "array%d" % a.ndim)
        else:
            t = type(v).__name__
        out[k] = t
    return out


def job(a):
    sc, i, salt = a
    case, other = scenario(sc, i, salt)
    m = sc["m"]
    names = list(sc["eff"])

    def make(passing):
        off = []

        def call(wrapped, bounds, x0, args, kw, cb):
            val = {}
            for p, e in sc["eff"].items():
                if not e.startswith("other "):
                    val[p] = ast.literal_eval(e)
                elif p == "x0":
                    val[p] = x0
                elif p == "args":
                    val[p] = args
                elif p == "callback":
                    val[p] = cb
                elif p == "jac":
                    val[p] = kw["jac"]
                else:
                    val[p] = other[p]
            # threads and ranks are part of what is compared
            if not passing:
                return record.DIRECT[m](wrapped, bounds, **val)
            pos = [val[p] for p in sc["pos"]]
            rest = {p: val[p] for p in names if p not in sc["pos"] and p not in sc["omit"]}
            if sc["entry"] == "direct":
                return record.DIRECT[m](wrapped, bounds, *pos, **rest)
            f = record.SS.sample if m in record.SAMPLERS else record.SO.minimize
            own = {p: rest.pop(p) for p in ("x0", "args", "callback") if p in rest}
            given = [("x0", None), ("args", ()), ("method", m), ("options", rest), ("callback", None)]
            if rest or i % 2:
                own["options"] = rest
            if sc["entry"] == "generic":
                own["method"] = m
                if i % 3 == 0:  # minimize and sample by position as well
                    return f(wrapped, bounds, *[own.get(k, d) for k, d in given])
            return f(wrapped, bounds, **own)

        def on_eval(rec, x):
            off.append(threading.current_thread() is not threading.main_thread())
        rec = record.execute(dict(case, cb=True), fun=Fun(case["tol"], case["width"]), direct=call, limit=20000, on_eval=on_eval,
                             jac=lambda x, *a: 2 * (np.asarray(x) - 0.1 * case["width"]) / case["width"] ** 2)
        rec.off = any(off)
        return rec

    ra, rb = make(True), make(False)
    info = dict(case, eff={k: (other[k] if k in other and e.startswith("other ") and k != "x0" else e) for k, e in sc["eff"].items()})
    info.pop("obj"), info.pop("opts")
    if ra.exc or rb.exc:
        if ra.exc and rb.exc:
            return ("bothfail", info, "%s / %s" % (ra.exc, rb.exc), None)
        return ("exc", info, "%s / %s" % (ra.exc, rb.exc), None)
    off = rb.off
    pop = int(info["eff"].get("popsize", 20)) if m not in record.SAMPLERS else 20
    ra.cb = [dict(c, state=dict(c["state"], off=ra.off)) for c in ra.cb]
    if not ra.cb:
        ra.res = dict(ra.res, off=ra.off)
        rb.res = dict(rb.res, off=rb.off)
    rb.cb = [dict(c, state=dict(c["state"], off=rb.off)) for c in rb.cb]
    ret = sc["eff"]["return_all"]
    keep = other["return_all"] if ret.startswith("other") else ret == "True"
    strip = lambda d: {k: v for k, v in d.items() if k != "off"}
    f = dict(opt=m not in record.SAMPLERS, keep=keep, res=kinds(strip(ra.res)), cbs=[kinds(strip(c["state"])) for c in ra.cb[:12]])
    return ("ok", info, twin.pair("C34", i, ra, rb, pop, sortseg=pop if off else None), f)


def run(check):
    jobs = [dict(module="Binding", consts=dict(Methods={m}, Emit=True), invariants=("Bound", "Neutral", "Distinct"), properties=("Stable",), deadlock=False)
            for m in ALGS]
    todo = []
    for j, r in zip(jobs, vlib.tlc_many(jobs, par=4)):
        if not r.ok:
            raise vlib.MachineryError("design model Binding\n" + r.out[-2500:])
        check.add_tlc("Binding", r)
        for b in r.tagged("@@B "):
            if b["profile"] == "defaults" and b["pos"] and len(b["pos"]) % 4 and not vlib.THOROUGH:
                continue
            if b["profile"] == "defaults" and len(b["omit"]) == 2 and not vlib.THOROUGH:
                continue
            for salt in range(16 if b["omit"] == ["xtol"] and b["m"] != "na" else 64 if b["omit"] == ["xtol"] else 4 if vlib.THOROUGH else 2 if len(b["omit"]) <= 1 or b["pos"] else 1):
                todo.append((b, salt))
    out = vlib.pmap(job, [(b, i, s) for i, (b, s) in enumerate(todo)])
    twins, fields, infos = [], [], {}
    for i, (kind, info, t, f) in enumerate(out):
        check.replayed += 1
        infos[i] = info
        check.count("%s" % kind)
        check.count("alg=%s" % info["alg"])
        if kind != "ok":
            check.violate("C34.completes", info, t)
            continue
        twins.append(t)
        fields.append(dict(f, tid=i))
    for mod, tr in (("TwinTrace", twins), ("FieldsTrace", fields)):
        for tid, clauses in vlib.validate(check, mod, tr, invariants=("Sane",)).items():
            for cl in clauses:
                check.violate(cl, brief(infos[tid]), clauses)
    for i in list(infos)[:2]:
        check.sample(brief(infos[i]))
