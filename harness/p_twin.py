"""C16 C17 C26 C29 C30: relations between two runs (2-safety), decided in lockstep by TwinTrace."""
import bisect
import contextlib
import copy
import json
import math

import numpy as np

import cases
import twin
import vlib
from p_pop import brief, replay  # noqa: F401
from record import Objective, execute

import stochopy.optimize as SO
import stochopy.sample as SS


class Mapped:
    """Strictly increasing transformation of an objective (values decided by a table of intervals or a formula)."""

    def __init__(self, base, how):
        self.base, self.how, self.kind, self.p, self.saw = base, how, "mapped", base.p, set()

    def __call__(self, x, *a):
        v = float(self.base(x, *a))
        self.saw.add(v)
        return self.map(v)

    def map(self, v):
        h = self.how
        if math.isinf(v):
            return v
        if h == "shift":
            return v + 1024.0 if abs(v) < 1e10 else v * 2.0
        if h == "neg":
            return v - 4096.0 if abs(v) < 1e10 else v * 2.0
        if h == "scale":
            return v * 8.0
        if h == "tiny":
            return v * 2.0 ** -20
        if h == "micro":
            return v * 2.0 ** -60
        if h == "pico":
            return 3.0 + math.floor(v * 64.0) * 2.0 ** -48 if abs(v) < 1e3 else v
        if h == "mega":
            return v * 2.0 ** 60
        if h == "cube":
            return math.copysign(abs(v) ** 3, v)
        if h == "atan":
            return math.atan(v)
        if h == "asinh":
            return math.asinh(v)
        raise ValueError(h)

    def grad(self, x, *a):
        return self.base.grad(x, *a)


class Ranked:
    """Increasing map that sends the values seen in one run to a table: neighbouring floats, doublings, far-off integers, ..."""

    def __init__(self, base, values, how):
        self.base, self.kind, self.p = base, "ranked", base.p
        self.ks = sorted({float(v) for v in values})
        t = cases.value_table(how, len(self.ks))
        self.d = dict(zip(self.ks, t))
        self.t = t

    def __call__(self, x, *a):
        v = float(self.base(x, *a))
        if math.isinf(v):
            return v
        if v in self.d:
            return self.d[v]
        k = bisect.bisect(self.ks, v)   # a point the other run has not seen: the specification will tell
        return self.t[max(0, k - 1)]

    def grad(self, x, *a):
        return self.base.grad(x, *a)


class Scaled:
    """f(x / s), gradient divided by s."""

    def __init__(self, base, s):
        self.base, self.s, self.kind, self.p = base, s, "scaled", base.p

    def __call__(self, x, *a):
        return self.base(np.asarray(x) / self.s, *a)

    def grad(self, x, *a):
        return np.asarray(self.base.grad(np.asarray(x) / self.s, *a)) / self.s


def strictly_increasing(m, rec):
    """Whether the map tells apart all values either run has seen (rounding may merge some)."""
    vs = sorted(m.saw | {float(e[1]) for e in rec.ev})
    t = [m.map(v) for v in vs]
    return all(a < b for a, b in zip(t, t[1:]))


def job_c16(i):
    r = vlib.rng("C16", i)
    alg = ("de", "pso", "cpso", "na", "cmaes", "vdcma")[i % 6]
    c = cases.gen_opt(r, alg, opts=dict(ftol=-math.inf))
    if c["opts"].get("constraints") == "Penalize":
        c["opts"]["constraints"] = None
    if c["obj"]["kind"] in ("huge",):
        c["obj"] = dict(kind="rastrigin", c=0.3)
    if c["opts"]["seed"] is None:
        c["opts"]["seed"] = r.randrange(1000)
    how = r.choice(["shift", "neg", "scale", "tiny", "cube", "atan", "asinh", "micro", "mega"])
    a = execute(c)
    if i % 12 >= 6 and not a.exc:
        how = cases.TABLES[(i // 12) % len(cases.TABLES)]
        b = execute(c, fun=Ranked(Objective(**c["obj"]), [e[1] for e in a.ev if math.isfinite(e[1])], how))
    else:
        m = Mapped(Objective(**c["obj"]), how)
        b = execute(c, fun=m)
        if not strictly_increasing(m, a):
            return ("skip", None, None)
    info = dict(c, map=how)
    if a.exc or b.exc:
        return ("exc", brief(info), "%s / %s" % (a.exc, b.exc)) if a.exc != b.exc or a.exc in ("Budget", "Timeout") else ("exc", brief(info), a.exc)
    tol = {0, 1, -5, -7}
    prefix = a.res.status in tol or b.res.status in tol
    t = twin.pair("C16", i, a, b, c["opts"]["popsize"], cmpcb=False, cmpres=not prefix, prefix=prefix, ranks=True,
                  skip=("fun", "funall"))
    return ("ok", brief(info), t)


class Garbage:
    """While active, memory that numpy does not initialise holds the value `v`.

    With `scalar`, logarithms and exponentials of arrays that are not contiguous are taken element by element: NumPy
    does one or the other depending on where the array and its result lie, and they may differ in the last digit."""

    def __init__(self, v, scalar=False):
        self.v, self.saved, self.scalar = v, {}, scalar

    def __enter__(self):
        for name in ("empty", "empty_like"):
            old = self.saved[name] = getattr(np, name)

            def f(*a, old=old, **k):
                r = old(*a, **k)
                if r.dtype.kind == "f":
                    r.fill(self.v)
                return r
            setattr(np, name, f)
        for name in ("log", "exp") if self.scalar else ():
            old = self.saved[name] = getattr(np, name)

            def g(x, *a, old=old, name=name, **k):
                if a or k or not isinstance(x, np.ndarray) or x.flags.forc or x.dtype != float:
                    return old(x, *a, **k)
                fn = getattr(math, name)
                return np.array([fn(t) if (t > 0 if name == "log" else abs(t) < 700) else float(old(t)) for t in x.ravel().tolist()]).reshape(x.shape)
            setattr(np, name, g)

    def __exit__(self, *a):
        for k, v in self.saved.items():
            setattr(np, k, v)


def job_c17(i):
    r = vlib.rng("C17", i)
    alg = ("de", "pso", "cpso", "na", "cmaes", "vdcma", "mcmc", "hmc")[i % 8]
    c = gen_any(r, alg)
    o = c["opts"]
    if alg == "cpso" and r.random() < 0.5:   # restarts from the second iteration on
        o.update(competitivity=2.0, maxiter=max(o["maxiter"], r.choice([4, 7])), ftol=-math.inf, xtol=-1.0)
        c["x0"] = [[lo + (hi - lo) * (0.4 + 1e-4 * r.random()) for lo, hi in c["bounds"]] for _ in range(o["popsize"])]
        c["x0form"] = "array"
    variant = ("again", "unseeded", "callback", "return_all", "verbosity", "foreign", "npint", "memory")[(i // 8) % 8]
    if variant == "verbosity" and alg in ("mcmc", "hmc"):
        variant = "foreign"
    o["seed"] = r.choice([0, 0, 1, 7, 2 ** 31 - 1])
    c.pop("npseed", None)
    c2 = copy.deepcopy(c)
    cmpcb, retkeys, pre2 = c["cb"], True, None

    def pre():
        np.random.seed(987654321)
        np.random.rand(3)

    if variant == "again":
        def pre2():
            np.random.seed(5)
    elif variant == "foreign":
        d = gen_any(vlib.rng("C17f", i), r.choice(["de", "pso", "cpso", "na", "cmaes", "vdcma", "mcmc", "hmc", alg]))

        def pre2():
            execute(d)
            np.random.randn(7)
    elif variant == "unseeded":
        s = o["seed"]
        c2["opts"]["seed"] = None

        def pre2():
            np.random.seed(s)
    elif variant == "npint":
        def pre2():
            np.random.seed(3)
            np.random.standard_normal()
    elif variant == "callback":
        c["cb"], c2["cb"] = True, False
        cmpcb = False
    elif variant == "return_all":
        o["return_all"], c2["opts"]["return_all"] = True, False
        retkeys = False
    elif variant == "verbosity":
        o["return_all"] = c2["opts"]["return_all"] = True
        o["verbosity"], c2["opts"]["verbosity"] = 1.0, (0.0, 0.3, 0.0, 0.5)[i // 64 % 4]
        retkeys = False
    elif variant == "memory":
        # arrays that are not written yet hold whatever was there
        if alg in ("cmaes", "vdcma") and r.random() < 0.7:
            c["x0"] = c2["x0"] = [r.choice([lo - (hi - lo) * r.uniform(1, 30), hi + (hi - lo) * r.uniform(1, 30), 0.5 * (lo + hi)]) for lo, hi in c["bounds"]]
            c["x0form"] = c2["x0form"] = "array"
            if r.random() < 0.7:
                for q in (c, c2):
                    q["opts"].update(constraints="Penalize", sigma=0.1, popsize=max(8, o["popsize"]))
                    q["obj"] = dict(kind="linear", c=0.0, s=0.01)
    if variant == "memory":
        u, v = r.choice([(1e200, -1e200), (-3.0, 5.0), (0.0, -1e200), (math.nan, 1.0)])
        with Garbage(u):
            a = execute(c, pre=pre)
        with Garbage(v, scalar=True):
            b = execute(c2, pre=pre)
    else:
        a = execute(c, pre=pre)
        b = execute(c2, pre=pre2 or pre)
    info = dict(c, variant=variant)
    if a.exc or b.exc:
        return ("exc", brief(info), "%s / %s" % (a.exc, b.exc))
    ch = o.get("popsize", 20)
    return ("ok", brief(info), twin.pair("C17", i, a, b, ch, cmpcb=cmpcb, retkeys=retkeys))


def gen_any(r, alg):
    if alg in ("mcmc", "hmc"):
        return cases.gen_sam(r, alg)
    return cases.gen_opt(r, alg, maxeval=500)


SHARED = ["maxiter", "seed", "return_all"]
EVOL = ["popsize", "xtol", "ftol", "constraints", "updating", "workers", "backend", "verbosity"]
OWN = dict(de=EVOL + ["mutation", "recombination", "strategy"], pso=EVOL + ["inertia", "cognitivity", "sociability"],
           cpso=EVOL + ["inertia", "cognitivity", "sociability", "competitivity"],
           na=["popsize", "nrperc", "xtol", "ftol", "workers", "backend", "verbosity"],
           cmaes=["popsize", "sigma", "muperc", "xtol", "ftol", "constraints", "workers", "backend", "verbosity"],
           vdcma=["popsize", "sigma", "muperc", "xtol", "ftol", "constraints", "workers", "backend", "verbosity"],
           mcmc=["stepsize", "perc", "constraints"],
           hmc=["nleap", "stepsize", "perc", "jac", "constraints", "finite_diff_abs_step"])
FOREIGN_VALUES = dict(competitivity=1.0, popsize=8, sigma=0.2, strategy="best1bin", nleap=4, jac=None, workers=1, mutation=0.5,
                      verbosity=1.0, x0=None, args=(), callback=None, method="de", fun=None, bounds=None, options=None)


def job_c26(i):
    r = vlib.rng("C26", i)
    algs = ("de", "pso", "cpso", "na", "cmaes", "vdcma", "mcmc", "hmc")
    kinds = ("direct", "direct", "psocpso", "psocpso", "default", "none", "foreign")
    kind = kinds[(i // 8) % len(kinds)]
    alg = algs[i % 8]
    if kind == "psocpso":
        alg = "pso"
    if kind in ("default", "none"):
        alg = ("de", "mcmc")[i % 2] if kind == "default" else alg
    c = gen_any(r, alg)
    if c["opts"].get("seed") is None:
        c["opts"]["seed"] = 11
        c.pop("npseed", None)
    c1, c2 = copy.deepcopy(c), copy.deepcopy(c)
    if kind == "direct":
        c1["entry"], c2["entry"] = "minimize", "direct"
    elif kind == "default":
        c1["entry"], c2["entry"] = "default", "direct"
    elif kind == "none":  # options=None means no options: the documented defaults
        c1["opts"], c2["opts"] = {}, {}
        c1["npseed"] = c2["npseed"] = 77 + i
        c1["entry"], c2["entry"] = "none", "direct"
        if alg in cases.SLOT and c.get("x0") is not None:
            nd = len(c["bounds"])
            c1["x0"] = c2["x0"] = [[b[0] + (b[1] - b[0]) * r.random() for b in c["bounds"]] for _ in range(10)]
            c1["x0form"] = c2["x0form"] = "array"
        if c["obj"]["kind"] == "script":
            c1["obj"] = c2["obj"] = dict(kind="rastrigin", c=0.3)
        if alg == "hmc":
            c1["jac"] = c2["jac"] = False
            c1["bounds"] = c2["bounds"] = c["bounds"][:1]
            c1["x0"] = c2["x0"] = None if c.get("x0") is None else list(c["x0"])[:1]
    elif kind == "foreign":  # an option that the direct function does not take
        own = OWN[alg] + SHARED
        names = [n for a in sorted(OWN) for n in OWN[a]]
        names += ["x0", "args", "bounds", "fun", "callback", "method", "options", "max_iter", "Seed", "nmax", "competitivity"]
        names = [n for n in names if n not in own]
        n = "competitivity" if alg == "pso" and i % 2 else names[r.randrange(len(names))]
        v = FOREIGN_VALUES.get(n, 0.5)
        c1["opts"][n] = c2["opts"][n] = v
        c1["entry"], c2["entry"] = "minimize", "direct"
    elif kind == "psocpso":
        c2["alg"] = "cpso"
        if r.random() < 0.6:
            c2["opts"]["competitivity"] = r.choice([None, 0, 0.0])
            c1["entry"] = r.choice(["minimize", "direct"])
            c2["entry"] = r.choice(["minimize", "direct"])
        else:
            c1["entry"] = c2["entry"] = "direct"
            c2["opts"]["competitivity"] = None
    a, b = execute(c1), execute(c2)
    if kind == "foreign":
        a.exc, b.exc = [q.exc and q.exc.split(":")[0] for q in (a, b)]
    info = dict(c1, variant=kind, other=dict(alg=c2["alg"], entry=c2["entry"], competitivity=c2["opts"].get("competitivity", "-")))
    if (a.exc or b.exc) and kind != "foreign":
        return ("exc", brief(info), "%s / %s" % (a.exc, b.exc))
    t = twin.pair("C26", i, a, b, c1["opts"].get("popsize", 10))
    if type(a.res) is not type(b.res):
        t["a"]["exc"] = 0
    return ("ok", brief(info), t)


def job_c29(i):
    r = vlib.rng("C29", i)
    alg = ("de", "pso", "cpso", "na", "cmaes", "vdcma", "mcmc", "hmc")[i % 8]
    c = gen_any(r, alg)
    o = c["opts"]
    if o.get("seed") is None:
        o["seed"] = 5
        c.pop("npseed", None)
    s = 2.0 ** r.choice([-40, -30, -12, -3, -1, 1, 2, 5, 10, 20, 40])
    if alg == "cpso":
        o["competitivity"] = r.choice([None, 0.0])
    if c["obj"]["kind"] not in ("script", "const") and r.random() < 0.4:
        c["obj"] = dict(kind=r.choice(["sphere", "rastrigin", "quad"]), c=0.3)
    c2 = copy.deepcopy(c)
    c2["bounds"] = [[b[0] * s, b[1] * s] for b in c["bounds"]]
    if alg in ("de", "pso", "cpso"):
        c2["opts"]["xtol"] = o["xtol"] * s
    if alg == "hmc":
        c2["opts"]["finite_diff_abs_step"] = o.get("finite_diff_abs_step", 1e-4) * s
    if c.get("x0") is not None:
        c["x0form"] = c2["x0form"] = "array"
        c2["x0"] = (np.array(c["x0"], dtype=float) * s).tolist()
    base = Objective(**c["obj"])
    a = execute(c, fun=base)
    b = execute(c2, fun=Scaled(Objective(**c["obj"]), s))
    info = dict(c, scale=s)
    if a.exc or b.exc:
        return ("exc", brief(info), "%s / %s" % (a.exc, b.exc))
    return ("ok", brief(info), twin.pair("C29", i, a, b, o.get("popsize", 20), scale=s))


class Mirror:
    """While active, normal deviates come out with the opposite sign."""

    def __init__(self):
        self.used, self.saved = 0, {}

    def __enter__(self):
        for name in ("randn", "standard_normal", "normal"):
            old = self.saved[name] = getattr(np.random, name)

            def f(*a, old=old, name=name, **k):
                self.used += 1
                v = old(*a, **k)
                m = (a[0] if a else k.get("loc", 0.0)) if name == "normal" else 0.0
                return m - (v - m) if np.any(m) else -v
            setattr(np.random, name, f)
        return self

    def __exit__(self, *a):
        for k, v in self.saved.items():
            setattr(np.random, k, v)


def job_c30(i):
    r = vlib.rng("C30", i)
    alg = ("de", "pso", "cpso", "cmaes", "vdcma", "mcmc", "hmc", "cmaes")[i % 8]
    c = gen_any(r, alg)
    o = c["opts"]
    b = c["bounds"]
    if o.get("seed") is None:
        o["seed"] = 5
        c.pop("npseed", None)
    if alg == "de":
        o["constraints"] = None
    if alg == "cpso":
        o["competitivity"] = r.choice([None, 0.0])
    if alg in ("cmaes", "vdcma") and r.random() < 0.6:
        o["constraints"] = "Penalize"
        o["sigma"] = r.choice([0.3, 1.0, 2.0, 0.1])
        o["popsize"] = max(o["popsize"], 4)
    if c["obj"]["kind"] != "script" and r.random() < 0.5 or o.get("constraints") == "Penalize":
        # optima beyond a face
        c["obj"] = dict(kind=r.choice(["sphere", "linear", "quad"]), c=r.choice([b[0][0] - 5.0, b[0][1] + 5.0, 0.3]), s=r.choice([1.0, -1.0]))
        c.pop("args", None)
    nd = len(b)
    if alg in cases.SLOT:
        c["x0"] = [[lo + (hi - lo) * r.random() for lo, hi in b] for _ in range(o["popsize"])]
        s = np.array([r.choice([-1.0, 1.0]) for _ in range(nd)])
        s[r.randrange(nd)] = -1.0
    else:
        c["x0"] = [lo + (hi - lo) * r.random() for lo, hi in b]
        if alg in ("cmaes", "vdcma") and r.random() < 0.25:
            c["x0"] = [r.choice([lo - 3 * (hi - lo), hi + 3 * (hi - lo), 0.5 * (lo + hi)]) for lo, hi in b]
        s = np.full(nd, -1.0)
        if r.random() < 0.3:
            c["x0"] = [r.choice([lo, hi, v]) for v, (lo, hi) in zip(c["x0"], b)]
    c["x0form"] = "array"
    c2 = copy.deepcopy(c)
    c2["bounds"] = [[lo, hi] if q > 0 else [-hi, -lo] for (lo, hi), q in zip(b, s)]
    c2["x0"] = (np.array(c["x0"]) * s).tolist()
    a = execute(c, fun=Objective(**c["obj"]))
    if alg in cases.SLOT:
        d = execute(c2, fun=Scaled(Objective(**c["obj"]), s))
    else:
        with Mirror() as m:
            d = execute(c2, fun=Scaled(Objective(**c["obj"]), s))
        if not m.used and len(a.ev) > 1:
            return ("loud", None, None)   # the deviates are drawn some other way
    info = dict(c, mirrored=[int(q) for q in s])
    if a.exc or d.exc:
        return ("exc", brief(info), "%s / %s" % (a.exc, d.exc))
    if alg == "hmc" and not c.get("jac"):
        a.ev, d.ev = [], []   # the two sides of a central difference are exchanged
    chunk = o.get("popsize", 20)
    t = twin.pair("C30", i, a, d, chunk, scale=s)
    if t["a"] == t["b"]:
        return ("ok", brief(info), t)
    # not the same bits: what rounding explains is not a preference for a direction
    with Coarse():
        a = execute(c, fun=Objective(**c["obj"]))
        with Mirror() if alg not in cases.SLOT else contextlib.nullcontext():
            d = execute(c2, fun=Scaled(Objective(**c["obj"]), s))
        refs = [execute(p, fun=Objective(**c["obj"])) for p in nudged(c)]
    if alg == "hmc" and not c.get("jac"):
        for q in [a, d] + refs:
            q.ev = []
    whole = twin.settle(a, d, s, refs, chunk, np.array([hi - lo for lo, hi in b]))
    return ("rounded", brief(info), twin.pair("C30", i, a, d, chunk, scale=s, cmpcb=whole, cmpres=whole, prefix=not whole))


class Coarse:
    """Decompose matrices given to nine digits: rounding then does not choose between equivalent bases."""

    def __enter__(self):
        self.saved = {n: getattr(np.linalg, n) for n in ("eigh", "eig", "svd", "cholesky")}
        for name, old in self.saved.items():
            def f(m, *a, old=old, **k):
                m = np.array(m, dtype=float)
                top = np.abs(m).max() if m.size else 0.0
                if top > 0 and np.isfinite(top):
                    q = 2.0 ** (math.floor(math.log2(top)) - 30)
                    m = np.round(m / q) * q
                return old(m, *a, **k)
            setattr(np.linalg, name, f)
        return self

    def __exit__(self, *a):
        for k, v in self.saved.items():
            setattr(np.linalg, k, v)


def nudged(c):
    """The same problem with x0 and the box moved by a few units in the last place: how much rounding grows in it."""
    out = []
    for k in (1, -1, 3, 2, -2, 4, -5, 7):
        p = copy.deepcopy(c)
        b = np.array(c["bounds"], dtype=float)
        e = np.spacing(np.abs(b).max(axis=1) + 1e-3 * (b[:, 1] - b[:, 0]))
        sgn = np.array([1 if (j * 7 + k) % 3 else -1 for j in range(len(b))])
        x = np.array(c["x0"], dtype=float)
        if c["alg"] not in ("cmaes", "vdcma"):
            # these compare positions with the bounds as they are given
            p["x0"] = np.where((x == b[:, 0]) | (x == b[:, 1]), x, x + k * sgn * e).tolist()
        else:
            if k not in (3, 7):
                p["x0"] = (x + k * sgn * e).tolist()
            if k != 1:
                p["bounds"] = np.stack([b[:, 0] - k * e, b[:, 1] + k * e], axis=1).tolist()
        out.append(p)
    return out


def other_number(r, v):
    """The same number as another kind of number."""
    if isinstance(v, bool) or not isinstance(v, (int, float)):
        return v
    if isinstance(v, int):
        return r.choice([np.int64, np.intp, np.int32 if abs(v) < 1000 else np.int64])(v)
    kinds = [np.float64]
    if math.isfinite(v):
        if v == int(v) and abs(v) < 2 ** 31:
            kinds += [int, np.int64]
        if float(np.float32(v)) == v:
            kinds.append(np.float32)
    elif math.isinf(v):
        kinds.append(np.float32)
    return r.choice(kinds)(v)


def valued(obj, how):
    """The objective `obj`, its values returned as another kind of number with the same value."""
    def f(x, *a):
        v = float(obj(x, *a))
        if how == "float":
            return v
        if how == "0d":
            return np.array(v)
        if how == "int" and v == int(v):
            return int(v)
        if how == "int64" and v == int(v):
            return np.int64(v)
        if how == "float32" and float(np.float32(v)) == v:
            return np.float32(v)
        return np.float64(v)
    f.grad = getattr(obj, "grad", None)
    return f


class Rounded:
    """An objective whose values can be written in many ways (multiples of 1 / den)."""

    def __init__(self, spec, den):
        self.obj, self.den = Objective(**spec), den

    def __call__(self, x, *a):
        v = float(self.obj(x, *a))
        return math.floor(v * self.den) / self.den if abs(v) < 2 ** 20 else math.copysign(2.0 ** 20, v)

    def grad(self, x, *a):
        return self.obj.grad(x, *a)


PLAIN = dict(fun="function", callback="function", back=None, seed="int", bounds="same", value="same")
FORMS = ("array", "list", "tuple", "fortran", "frozen", "narrow", "int", "intlist", "strided", "rows", "byte")


def job_c40(i):
    """The same arguments in another form."""
    r = vlib.rng("C40", i)
    alg = ("de", "pso", "cpso", "na", "cmaes", "vdcma", "mcmc", "hmc")[i % 8]
    kind = ("x0", "bounds", "numbers", "value", "callables", "all")[(i // 8) % 6]
    c = gen_any(r, alg)
    o = c["opts"]
    o["seed"] = r.randrange(2 ** 31)
    c.pop("npseed", None)
    b = np.array(c["bounds"], dtype=float)
    whole = r.random() < 0.5
    if kind in ("bounds", "all") and whole:
        b = np.stack([np.floor(b[:, 0]), np.ceil(b[:, 1])], axis=1)
    elif kind in ("bounds", "all"):
        q = np.stack([np.nextafter(b[:, 0].astype(np.float32), np.float32(-np.inf)), np.nextafter(b[:, 1].astype(np.float32), np.float32(np.inf))], axis=1)
        if np.isfinite(q).all():
            b = q.astype(float)
    if np.abs(b).max() < 2 ** 31:
        c["bounds"] = b.tolist()
    c["bform"] = "list"
    if kind in ("x0", "all") and (alg not in cases.SLOT or "popsize" in o):
        n = o["popsize"] if alg in cases.SLOT else 1
        lo, hi = np.array(c["bounds"], dtype=float).T
        x0 = np.array([[lo_ + (hi_ - lo_) * r.random() for lo_, hi_ in c["bounds"]] for _ in range(n)])
        u = r.random()
        if u < 0.4:
            y = np.round(x0)
        elif u < 0.8:
            y = x0.astype(np.float32).astype(float)
        else:
            y = x0
        if ((y >= lo) & (y <= hi)).all():
            x0 = y
        c["x0"] = x0.tolist() if alg in cases.SLOT else x0[0].tolist()
    c["x0form"] = "array"
    c["dress"] = dict(PLAIN)
    c["entry"] = r.choice(["direct", "minimize"])
    f1 = f2 = None
    c1, c2 = copy.deepcopy(c), copy.deepcopy(c)
    forms = {}
    if kind in ("x0", "all") and c.get("x0") is not None:
        c2["x0form"] = forms["x0"] = r.choice(FORMS)
    if kind in ("bounds", "all"):
        c2["bform"] = forms["bounds"] = r.choice(FORMS)
    if kind in ("numbers", "all"):
        for k in sorted(o):
            if k != "stepsize" and (kind == "numbers" or r.random() < 0.4):
                v = other_number(r, o[k])
                if v is not o[k]:
                    c2["opts"][k] = v
                    forms[k] = type(v).__name__
        keys = list(c2["opts"])
        r.shuffle(keys)
        c2["opts"] = {k: c2["opts"][k] for k in keys}
    if "stepsize" in o and kind in ("numbers", "all"):
        if isinstance(o["stepsize"], list):
            c2["stepform"] = forms["stepsize"] = r.choice(["list", "tuple", "frozen", "narrow", "strided"])
        else:
            c2["opts"]["stepsize"] = other_number(r, o["stepsize"]) if r.random() < 0.5 else [o["stepsize"]] * len(b)
            forms["stepsize"] = type(c2["opts"]["stepsize"]).__name__
    if kind in ("value", "all") and c["obj"]["kind"] != "script":
        den = r.choice([1, 1, 4, 1024])
        how = r.choice(["0d", "int", "int64", "float32", "float64"])
        f1, f2 = valued(Rounded(c["obj"], den), "float"), valued(Rounded(c["obj"], den), how)
        forms["value"] = "%s/%d" % (how, den)
    if kind in ("callables", "all"):
        c2["dress"] = dict(PLAIN, fun=r.choice(["object", "partial", "method", "lambda"]), callback=r.choice(["object", "partial", "method"]),
                           back=r.choice([None, True, False, 1, 0, "stop", np.ones(2), StopIteration]), seed=r.choice(["int", "int64", "uint32", "intp"]))
        forms["callables"] = c2["dress"]["fun"]
    a, d = execute(c1, fun=f1), execute(c2, fun=f2)
    info = dict(c1, variant=kind, forms=forms)
    if a.exc or d.exc:
        return ("exc", brief(info), "%s / %s" % (a.exc, d.exc))
    return ("ok", brief(info), twin.pair("C40", i, a, d, o.get("popsize", 10)))


JOBS = dict(C16=(job_c16, 768), C17=(job_c17, 896), C26=(job_c26, 896), C29=(job_c29, 640), C30=(job_c30, 720), C40=(job_c40, 3072))


def design(check):
    maps = vlib.Raw("{<<1, 2, 3>>, <<10, 20, 300>>, <<-7, -3, 5>>}")
    jobs = []
    for sync in (True, False):
        for seeded in (True, False):
            jobs.append(dict(module="Twin", consts=dict(Sync=sync, Pop=2, MaxIter=3 if vlib.THOROUGH else 2, Levels={1, 2, 3},
                                                        Maps=maps, Seeded=seeded),
                             invariants=("Lockstep", "Continues"), deadlock=False))
    for j, r in zip(jobs, vlib.tlc_many(jobs, 4)):
        if not r.ok:
            raise vlib.MachineryError("Twin: %s\n%s" % (r.violated, r.out[-3000:]))
        check.add_tlc("Twin", r)


def run(check):
    design(check)
    fn, n = JOBS[check.prop]
    n *= 8 if vlib.THOROUGH else 1
    traces, infos = [], {}
    for i, (kind, info, t) in enumerate(vlib.pmap(fn, range(n))):
        check.count(kind)
        if kind == "exc":
            check.violate(check.prop + ".completes", info, t)
        elif kind in ("ok", "rounded"):
            traces.append(t)
            infos[t["tid"]] = info
            v = info.get("variant") or info.get("map") or ""
            check.count("alg=%s" % info["alg"])
            if v:
                check.count("variant=%s" % v)
    bad = vlib.validate(check, "TwinTrace", traces, invariants=("Sane",))
    for tid, cl in bad.items():
        for c in cl:
            check.violate(c, infos[tid], cl)
    for i in list(infos)[:2]:
        check.sample(infos[i])
