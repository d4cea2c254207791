"""C28: the benchmark functions."""
import math

import numpy as np

import stochopy.factory as F
import vlib
from p_pop import replay  # noqa: F401

NAMES = ("ackley", "griewank", "quartic", "rastrigin", "rosenbrock", "sphere", "styblinski_tang")
H = math.sqrt(0.5)
MIN = dict(ackley=0.0, griewank=0.0, quartic=0.0, rastrigin=0.0, rosenbrock=1.0, sphere=0.0, styblinski_tang=-2.903534027771177)
ORDER = ("ackley", "rastrigin", "sphere", "styblinski_tang")
SIGN = ("ackley", "griewank", "quartic", "rastrigin", "sphere")


def close(name, n, p):
    """Value of a function from the integer parts computed by the specification."""
    if name == "sphere":
        return p["sq"] / 64.0
    if name == "quartic":
        return p["qu"] / 4096.0
    if name == "rosenbrock":
        return 100.0 * p["ra"] / 4096.0 + p["rb"] / 64.0
    if name == "styblinski_tang":
        return p["st"] / 8192.0 + 39.16599 * n
    if name == "rastrigin":
        return p["sq"] / 64.0 + 10.0 * (n - p["ca"] - p["cb"] * H)
    if name == "ackley":
        return 20.0 + math.e - 20.0 * math.exp(-0.2 * math.sqrt(p["sq"] / 64.0 / n)) - math.exp((p["ca"] + p["cb"] * H) / n)
    if name == "griewank":
        return 1.0 + p["gs"] * (math.pi / 4) ** 2 / 4000.0 - p["gg"] * H ** p["gp"]


def scale(name, n, x):
    """Magnitude of the terms of a function at x (for rounding)."""
    a = np.abs(np.asarray(x, dtype=float))
    m = float(a.max()) if a.size else 0.0
    s = dict(sphere=n * m ** 2, quartic=n * n * m ** 4, rosenbrock=n * 100 * (m + m ** 2) ** 2 + n, styblinski_tang=n * (m ** 4 + 16 * m ** 2 + 40),
             rastrigin=n * (m ** 2 + 10 + 10 * m), ackley=30.0 + 20 * m, griewank=1 + n * m ** 2 / 4000 + n * m)[name]
    return 1.0 + s


def oracle(name, x):
    """The published formula at an arbitrary real point, summed exactly."""
    x = [float(v) for v in x]
    n = len(x)
    if name == "sphere":
        return math.fsum(v * v for v in x)
    if name == "quartic":
        return math.fsum((i + 1) * v ** 4 for i, v in enumerate(x))
    if name == "rosenbrock":
        return math.fsum(100.0 * (x[i + 1] - x[i] ** 2) ** 2 + (1.0 - x[i]) ** 2 for i in range(n - 1))
    if name == "styblinski_tang":
        return 0.5 * math.fsum(v ** 4 - 16 * v * v + 5 * v for v in x) + 39.16599 * n
    if name == "rastrigin":
        return math.fsum(v * v + 10.0 - 10.0 * math.cos(2 * math.pi * v) for v in x)
    if name == "ackley":
        return 20.0 + math.e - 20.0 * math.exp(-0.2 * math.sqrt(math.fsum(v * v for v in x) / n)) - math.exp(math.fsum(math.cos(2 * math.pi * v) for v in x) / n)
    if name == "griewank":
        q = 1.0
        for i, v in enumerate(x):
            q *= math.cos(v / math.sqrt(i + 1))
        return 1.0 + math.fsum(v * v for v in x) / 4000.0 - q


def dist(a, b, name, n, x):
    """Distance of two values in thousandths of the tolerance."""
    try:
        a, b = float(a), float(b)
    except Exception:
        return 10 ** 9
    if a == b:
        return 0
    if not (math.isfinite(a) and math.isfinite(b)):
        return 10 ** 9
    return int(min(1e9, 1000 * abs(a - b) / (1e-12 * scale(name, n, x))))


def forms(x):
    out = [list(map(float, x)), tuple(map(float, x)), np.array(x, dtype=float)]
    b = np.zeros(2 * len(x))
    b[::2] = x
    out.append(b[::2])
    if all(float(v) == int(v) and abs(v) < 2 ** 31 for v in x):
        out += [[int(v) for v in x], np.array([int(v) for v in x]), np.array([int(v) for v in x], dtype=np.int32),
                tuple(int(v) for v in x)]
        if all(abs(v) <= 100 for v in x):
            out.append(np.array([int(v) for v in x], dtype=np.int8))
    a = np.array(x, dtype=float)
    a.setflags(write=False)
    out.append(a)
    return out


def same(a, b):
    return type(a) is type(b) and (np.array_equal(a, b) if isinstance(a, np.ndarray) else a == b)


def call(name, x):
    import copy
    before = copy.copy(x) if not isinstance(x, np.ndarray) else x.copy()
    try:
        v = getattr(F, name)(x)
    except Exception as e:
        return None, not same(before, x), repr(e)
    if np.ndim(v) != 0:
        return None, not same(before, x), "not a scalar"
    return float(v), not same(before, x), None


def lattice(job):
    """One lattice point: every function, in every form."""
    k, p, tid = job
    n = len(k)
    rel, mut, errs = [], False, []
    got = {}
    x8 = [c / 8.0 for c in k]
    for name in NAMES:
        if name == "rosenbrock" and n < 2:
            got[name] = 0
            continue
        x = [c * (math.pi / 4) * math.sqrt(i + 1) for i, c in enumerate(k)] if name == "griewank" else x8
        want = close(name, n, p)
        for j, f in enumerate(forms(x)):
            v, m, err = call(name, f)
            mut = mut or m
            if err:
                rel.append([name, 10 ** 9])
                errs.append((name, err))
                continue
            rel.append([name, dist(v, want, name, n, x)])
            if j == 2:
                back = dict(sphere=lambda: v * 64, quartic=lambda: v * 4096, styblinski_tang=lambda: (v - 39.16599 * n) * 8192,
                            rosenbrock=lambda: v * 4096, rastrigin=lambda: (v + 10 * p["cb"] * H) * 64).get(name)
                if back:
                    b = back()
                    got[name] = int(round(b)) if math.isfinite(b) and abs(b - round(b)) < 1e-3 + 1e-9 * abs(b) and abs(b) < 2e9 else -2 * 10 ** 9
        for j, f in enumerate(forms(x)[:1]):
            pass
    for name in NAMES:
        got.setdefault(name, -2 * 10 ** 9)
    return dict(tid=tid, kind="lattice", k=k, got=got, rel=rel, mut=bool(mut))


def relations(job):
    i, tid = job
    r = vlib.rng("C28", i)
    n = r.choice([1, 2, 2, 3, 5, 10, 30, r.randint(1, 200)] + ([257, 300, 1000] if i % 10 == 0 else []))
    style = r.random()
    if style < 0.5:
        x = [r.uniform(-6, 6) for _ in range(n)]
    elif style < 0.65:
        x = [r.gauss(0, 1) * 10 ** r.uniform(-8, 3) for _ in range(n)]
    elif style < 0.75:
        x = [float(r.randint(-10, 10)) for _ in range(n)]
    elif style < 0.85:
        x = [float(r.choice([-1, 1]) * r.choice([0, 1, 10 ** 5, 4 * 10 ** 4, 2 ** 30])) for _ in range(n)]
    elif style < 0.92:
        x = [0.0] * n
        x[r.randrange(n)] = r.uniform(-5, 5)
    else:
        x = [r.choice([-0.0, 0.0, 1.0, -2.903534027771177]) for _ in range(n)]
    rel, mut = [], False
    per = list(range(n))
    r.shuffle(per)
    sg = [r.choice([-1.0, 1.0]) for _ in range(n)]
    for name in NAMES:
        if name == "rosenbrock" and n < 2:
            continue
        vs = []
        for f in forms(x):
            v, m, err = call(name, f)
            mut = mut or m
            vs.append(math.nan if err else v)
        base = vs[0]
        rel.append([name, max(dist(v, oracle(name, x), name, n, x) for v in vs)])
        rel.append(["inputType", max(dist(v, base, name, n, x) for v in vs)])
        rel.append(["nonNegative", 0 if base >= -(1e-9 * scale(name, n, x) * 1e-3 + (2e-4 * n if name == "styblinski_tang" else 0)) else 10 ** 9])
        if name in ORDER:
            v, _, err = call(name, [x[j] for j in per])
            rel.append(["order", 10 ** 9 if err else dist(v, base, name, n, x)])
        if name in SIGN:
            v, _, err = call(name, [s * c for s, c in zip(sg, x)])
            rel.append(["sign", 10 ** 9 if err else dist(v, base, name, n, x)])
        v, m, err = call(name, np.full(n, MIN[name]))
        mut = mut or m
        rel.append(["minimum", 10 ** 9 if err else 0 if abs(v) <= 1e-9 * n + (2e-4 * n if name == "styblinski_tang" else 0) else 10 ** 9])
        # nothing is remembered between calls
        v, _, err = call(name, x)
        rel.append(["again", 0 if not err and (v == base or (v != v and base != base)) else 10 ** 9])
    return dict(tid=tid, kind="rel", k=[], got={n_: 0 for n_ in NAMES}, rel=rel, mut=bool(mut), x=x)


def run(check):
    big = vlib.THOROUGH
    inv = ("NonNegative", "OnlyThere", "Order", "Signs")
    jobs = [dict(module="BenchModel", consts=dict(Dim=d, Span=s, Stride=t, Emit=True), invariants=inv, deadlock=False)
            for d, s, t in ((1, 64 if big else 48, 1), (2, 12, 1), (2, 6, 5), (3, 4, 1), (3, 2, 4), (4, 1, 3), (4, 2, 8 if not big else 7), (5, 1, 5))]
    pts = []
    for j, r in zip(jobs, vlib.tlc_many(jobs, par=8)):
        if not r.ok:
            raise vlib.MachineryError("design model BenchModel\n" + r.out[-2500:])
        check.add_tlc("BenchModel", r)
        pts += r.tagged("@@B ")
    seen, todo = set(), []
    for b in pts:
        if tuple(b["k"]) not in seen:
            seen.add(tuple(b["k"]))
            todo.append((b["k"], b["p"], len(todo)))
    n = 1500 * (6 if big else 1)
    traces = vlib.pmap(lattice, todo) + vlib.pmap(relations, [(i, len(todo) + i) for i in range(n)])
    xs = {t["tid"]: t.pop("x", None) or [c / 8.0 for c in t["k"]] for t in traces}
    by = {t["tid"]: t for t in traces}
    for tid, clauses in vlib.validate(check, "BenchTrace", traces, invariants=("Sane",)).items():
        for cl in clauses:
            check.violate(cl, dict(x=xs[tid]), [q for q in by[tid]["rel"] if q[1] > 1000][:6] + [by[tid]["got"]])
    check.replayed += len(todo)
    check.extra["lattice_points"] = len(todo)
    check.extra["function_values"] = sum(len(t["rel"]) for t in traces)
    check.sample(dict(lattice_point=todo[len(todo) // 2]))
    check.sample(dict(relations=traces[-1]))
