"""Runs the real code on a case and records everything a user can observe."""
import copy
import functools
import json
import math
import random
import signal
import threading
import warnings
import zlib

import numpy as np

warnings.filterwarnings("ignore")
np.seterr(all="ignore")

import fakempi  # noqa: E402  (before stochopy)
import stochopy  # noqa: E402
import stochopy.optimize as SO  # noqa: E402
import stochopy.sample as SS  # noqa: E402

DIRECT = {
    "de": SO.de, "pso": SO.pso, "cpso": SO.cpso, "na": SO.na, "cmaes": SO.cmaes, "vdcma": SO.vdcma,
    "mcmc": SS.mcmc, "hmc": SS.hmc,
}
SAMPLERS = ("mcmc", "hmc")


class Budget(BaseException):
    """More evaluations than the run can possibly need (a run that does not stop)."""


class Timeout(BaseException):
    """The run did not finish."""


class Objective:
    """Objective functions of all shapes; picklable; `kind` selects the formula."""

    def __init__(self, kind, **p):
        self.kind, self.p, self.n = kind, p, 0

    def __call__(self, x, *args):
        self.n += 1
        v = self.value(np.asarray(x), args)
        return v

    def value(self, x, args):
        k, p = self.kind, self.p
        if k == "script":
            s = p["values"]
            return s[min(self.n, len(s)) - 1]
        c = p.get("c", 0.3)
        if args and isinstance(args[0], (int, float)):
            c = c + args[0] + 2.0 ** -6 * (len(args) - 1)
        d = x - c
        if k == "sphere":
            return float((d * d).sum())
        if k == "rastrigin":
            return float(10 * len(x) + (d * d - 10 * np.cos(2 * math.pi * d)).sum())
        if k == "rosen":
            return float(sum(100 * (x[i + 1] - x[i] ** 2) ** 2 + (1 - x[i]) ** 2 for i in range(len(x) - 1))
                         if len(x) > 1 else (1 - x[0]) ** 2)
        if k == "plateau":
            return float(math.floor(p.get("s", 2.0) * float(np.abs(d).sum())))
        if k == "intplateau":
            return int(math.floor(min(9e15, p.get("s", 2.0) * float(np.abs(d).sum()))))
        if k == "mixed":
            q = p.get("s", 2.0) * float(np.abs(d).sum())
            return int(q) if int(q) % 2 == 0 else q
        if k == "const":
            return p.get("v", 1.0)
        if k == "linear":
            return float(d.sum() * p.get("s", 1.0))
        if k == "infwall":
            return math.inf if d[0] > p.get("w", 0.0) else float((d * d).sum())
        if k == "nanwall":
            return math.nan if d[0] > p.get("w", 0.0) else float((d * d).sum())
        if k == "huge":
            return float(p.get("s", 1e33) * (1.0 + (d * d).sum()))
        if k == "neg":
            return float(-1e3 + (d * d).sum() * p.get("s", 1.0))
        if k == "step":
            return float((d > 0).sum())
        if k == "quad":  # ill-conditioned quadratic
            w = np.arange(1, len(x) + 1) ** 2
            return float((w * d * d).sum())
        if k == "npint":
            return np.int64(math.floor(min(9e15, p.get("s", 2.0) * float(np.abs(d).sum()))))
        raise ValueError(k)

    def grad(self, x, *args):
        k = self.kind
        c = self.p.get("c", 0.3)
        if args and isinstance(args[0], (int, float)):
            c = c + args[0] + 2.0 ** -6 * (len(args) - 1)
        d = np.asarray(x) - c
        if k == "sphere":
            return 2 * d
        if k == "quad":
            return 2 * np.arange(1, len(x) + 1) ** 2 * d
        if k == "linear":
            return np.full(len(x), self.p.get("s", 1.0))
        if k == "rastrigin":
            return 2 * d + 20 * math.pi * np.sin(2 * math.pi * d)
        return np.zeros(len(x))


def same(a, b):
    """Equality of two argument objects (type and content)."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return type(a) is type(b) and a.dtype == b.dtype and a.shape == b.shape and bool(np.array_equal(a, b))
    if isinstance(a, (tuple, list)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    return type(a) is type(b) and (a is b or a == b)


def snap(state):
    """Deep copy of the fields of a state."""
    return {k: (np.array(v, copy=True) if isinstance(v, np.ndarray) else copy.deepcopy(v)) for k, v in dict(state).items()}


def form(x, kind):
    if x is None or kind in (None, "array"):
        return None if x is None else np.array(x, dtype=float)
    if kind == "list":
        return np.array(x, dtype=float).tolist()
    if kind == "tuple":
        return tuple(map(tuple, x)) if np.ndim(x) == 2 else tuple(x)
    if kind in ("int", "intlist"):
        y = np.array(x).round().astype(int)
        if (y != np.array(x)).any():
            return np.array(x, dtype=float)
        return y if kind == "int" else y.tolist()
    if kind == "fortran":
        return np.asfortranarray(np.array(x, dtype=float))
    if kind == "narrow":
        y = np.array(x, dtype=np.float32)
        return y if (y == np.array(x, dtype=float)).all() else np.array(x, dtype=float)
    if kind == "byte":
        y = np.array(x, dtype=float)
        return y.astype(np.int8) if (y == np.round(y)).all() and (np.abs(y) < 128).all() else y
    if kind == "strided":
        y = np.empty(tuple(2 * n for n in np.shape(x)))
        y.fill(np.nan)
        y = y[tuple(slice(None, None, 2) for _ in np.shape(x))]
        y[...] = x
        return y
    if kind == "rows":
        return [np.array(v, dtype=float) for v in x]
    if kind == "frozen":
        y = np.array(x, dtype=float)
        y.flags.writeable = False
        return y
    raise ValueError(kind)


def build(case):
    """Objects of a case: (callable, args, kwargs) of the call to make, without fun/callback."""
    opts = dict(case.get("opts", {}))
    for k in ("stepsize",):
        if isinstance(opts.get(k), list):
            opts[k] = form(opts[k], case.get("stepform", "array"))
    bounds = case["bounds"]
    bf = case.get("bform", "list")
    bounds = form(bounds, bf) if bf != "list" else [list(b) for b in bounds]
    x0 = form(case.get("x0"), case.get("x0form"))
    args = tuple(case.get("args", ()))
    return bounds, x0, args, opts


def dress(case):
    """Forms that mean the same: kinds of callables, of numbers and of sequences, what a callback returns.

    Chosen by the content of the case, so that a replay makes the same choice and the two runs of a pair do not."""
    if "dress" in case:
        return case["dress"]
    r = random.Random(zlib.crc32(json.dumps(case, sort_keys=True, default=str).encode()))
    return dict(fun=r.choice(["function", "function", "object", "partial", "method", "lambda"]),
                callback=r.choice(["function", "function", "object", "partial", "method"]),
                back=r.choice([None, None, True, False, 1, "stop", 0.0, np.ones(2)]),
                seed=r.choice(["int", "int", "int64", "uint32", "intp"]),
                bounds=r.choice(["same", "same", "tuple", "fortran", "rows"]),
                value=r.choice(["same", "same", "same", "float64", "0d"]))


def callable_as(f, kind):
    if kind == "object":
        class Callable:
            def __call__(self, *a):
                return f(*a)
        return Callable()
    if kind == "method":
        class Holder:
            def of_it(self, *a):
                return f(*a)
        return Holder().of_it
    if kind == "partial":
        return functools.partial(f)
    if kind == "lambda":
        return lambda x, *a: f(x, *a)
    return f


def value_as(v, kind):
    if kind != "same" and type(v) is float:
        return np.float64(v) if kind == "float64" else np.array(v)
    return v


class Recorder:
    """Record of one run."""

    def __init__(self, case):
        self.case = case
        self.ev = []      # [x copy, value, argument ok]
        self.jac = []     # [x copy, gradient]
        self.order = []   # ("e", i) / ("j", i) / ("c", i)
        self.cb = []      # dict(nev=.., X=.., state=.., live=state object)
        self.res = None
        self.exc = None
        self.lock = threading.RLock()
        self.late = 0

    def trace_lines(self):
        return self.order


def execute(case, fun=None, callback=None, jac=None, limit=None, timeout=60, want_live=False, pre=None, direct=None,
            on_eval=None, on_cb=None, concurrent=False):
    """Run `case` against the real code; never raises for what the code under test does."""
    rec = Recorder(case)
    obj = fun if fun is not None else Objective(**case["obj"])
    rec.obj = obj
    bounds, x0, args, opts = build(case)
    look = dress(case)
    if type(opts.get("seed")) is int and 0 <= opts["seed"] < 2 ** 32 and look["seed"] != "int":
        opts["seed"] = dict(int64=np.int64, uint32=np.uint32, intp=np.intp)[look["seed"]](opts["seed"])
    if type(bounds) is list and look["bounds"] != "same":
        bounds = [np.array(b, dtype=float) for b in bounds] if look["bounds"] == "rows" else form(bounds, look["bounds"])
    rec.given = dict(bounds=bounds, x0=x0, args=args, opts=opts)
    rec.before = copy.deepcopy(dict(bounds=bounds, x0=x0, args=args, opts=opts))
    ndim = len(bounds)
    alg = case["alg"]
    if limit is None:
        mi, ps = opts.get("maxiter", 100), opts.get("popsize", 10)
        if alg == "mcmc":
            limit = mi * 2 + 10
        elif alg == "hmc":
            limit = mi * ((opts.get("nleap", 10) + 3) * 2 * ndim + 4) + 50
        else:
            limit = (mi + 2) * ps + 10

    def wrapped(x, *a):
        ok = (isinstance(x, np.ndarray) and x.ndim == 1 and x.shape[0] == ndim and x.dtype.kind == "f"
              and len(a) == len(args) and all(u is v or same(u, v) for u, v in zip(a, args)))
        xc = np.array(x, dtype=float, copy=True)
        if concurrent:
            v = obj(np.array(x, copy=True), *a)
            with rec.lock:
                rec.order.append(("e", len(rec.ev)))
                rec.ev.append([xc, v, ok])
                if len(rec.ev) >= limit:
                    raise Budget()
            return v
        with rec.lock:
            if len(rec.ev) >= limit:
                raise Budget()
            if on_eval is not None:
                on_eval(rec, xc)
            v = obj(np.array(x, copy=True), *a)
            rec.order.append(("e", len(rec.ev)))
            rec.ev.append([xc, v, ok])
        return v

    def wrapped_jac(x, *a):
        xc = np.array(x, dtype=float, copy=True)
        with rec.lock:
            if len(rec.jac) >= limit:
                raise Budget()
            g = (jac or obj.grad)(np.array(x, copy=True), *a)
            rec.order.append(("j", len(rec.jac)))
            rec.jac.append([xc, np.array(g, dtype=float, copy=True)])
        return g

    def wrapped_cb(X, state):
        with rec.lock:
            rec.order.append(("c", len(rec.cb)))
            d = dict(nev=len(rec.ev), njac=len(rec.jac), X=np.array(X, dtype=float, copy=True), state=snap(state),
                     cls=type(state).__name__)
            if want_live:
                d["live"] = state
                d["liveX"] = X
            rec.cb.append(d)
            if on_cb is not None:
                on_cb(rec, X, state)
            if callback is not None:
                callback(X, state)
        return look["back"]

    kw = dict(opts)
    if case.get("jac"):
        kw["jac"] = wrapped_jac
    # what the call is really given (functions compare by identity)
    rec.given["opts"] = kw
    rec.before["opts"] = {k: v if callable(v) else copy.deepcopy(v) for k, v in kw.items()}
    if pre is not None:
        pre()
    elif case.get("npseed") is not None:
        np.random.seed(case["npseed"])
    use_cb = callable_as(wrapped_cb, look["callback"]) if case.get("cb", True) else None
    target = callable_as(lambda *q: value_as(wrapped(*q), look["value"]), look["fun"])
    old = None
    main = threading.current_thread() is threading.main_thread()
    if main and timeout:
        def onalarm(*_):
            raise Timeout()
        old = signal.signal(signal.SIGALRM, onalarm)
        signal.alarm(timeout)
    try:
        entry = case.get("entry", "direct") if direct is None else direct
        if callable(entry):
            rec.res = entry(target, bounds, x0, args, kw, use_cb)
        elif entry == "direct":
            rec.res = DIRECT[alg](target, bounds, x0=x0, args=args, callback=use_cb, **kw)
        else:
            f = SS.sample if alg in SAMPLERS else SO.minimize
            extra = {} if entry == "default" else {"method": alg}
            rec.res = f(target, bounds, x0=x0, args=args, options=kw if (kw or entry != "none") else None, callback=use_cb, **extra)
    except Budget:
        rec.exc = "Budget"
    except Timeout:
        rec.exc = "Timeout"
    except KeyboardInterrupt:
        raise
    except BaseException as e:
        rec.exc = type(e).__name__ + ": " + str(e)[:200]
        rec.exco = e
    finally:
        if main and timeout:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
    if rec.exc is None and case.get("wellformed", True):
        bad = malformed(alg, ndim, rec.res, True)
        for k, c in enumerate(rec.cb):
            bad = bad or malformed(alg, ndim, c["state"], False)
        if bad:
            rec.exc = "Malformed: " + bad
    return rec


def malformed(alg, ndim, st, final):
    """What is wrong with the form of a result or a callback state (its contents are judged by the specifications)."""
    def number(v):
        a = np.asarray(v)
        return a.ndim == 0 and a.dtype.kind in "iufb"

    def array(v, dim):
        return isinstance(v, np.ndarray) and v.dtype.kind in "iuf" and v.ndim == dim
    if not isinstance(st, dict):
        return "not a result: " + type(st).__name__
    opt = alg not in SAMPLERS
    need = ["x", "fun", "nit"] + (["nfev"] + (["success", "status", "message"] if final else []) if opt else ["accept_ratio"])
    for k in need:
        if k not in st:
            return "no field " + k
    if not array(st["x"], 1) or len(st["x"]) != ndim:
        return "x: %.80r" % (st["x"],)
    for k in ("fun", "nit", "nfev", "status", "accept_ratio"):
        if k in st and not number(st[k]):
            return "%s: %.80r" % (k, st[k])
    for k in ("nit", "nfev", "status"):
        if k in st and not float(st[k]).is_integer():
            return "%s: %.80r" % (k, st[k])
    if "success" in st and not isinstance(st["success"], (bool, np.bool_)):
        return "success: %.80r" % (st["success"],)
    if "message" in st and not isinstance(st["message"], str):
        return "message: %.80r" % (st["message"],)
    if ("xall" in st) != ("funall" in st):
        return "only one of xall, funall"
    if "xall" in st:
        if not array(st["xall"], 3 if opt else 2) or st["xall"].shape[-1] != ndim:
            return "xall: shape %s" % (np.shape(st["xall"]),)
        if not array(st["funall"], 2 if opt else 1) or st["funall"].shape != st["xall"].shape[:-1]:
            return "funall: shape %s" % (np.shape(st["funall"]),)
    return None
