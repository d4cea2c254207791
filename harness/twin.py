"""Projection of pairs of recorded runs to TwinTrace traces."""
import math

import numpy as np


class Intern:
    def __init__(self):
        self.d = {}

    def __call__(self, key):
        return self.d.setdefault(key, len(self.d) + 1)


def arr(v, scale=1.0):
    """Hashable exact content of a number or an array (scaled by a power of two)."""
    if v is None:
        return "none"
    a = np.asarray(v, dtype=float) / scale + 0.0
    a = np.where(np.isnan(a), np.nan, a)
    return (a.shape, a.tobytes())


def observation(rec, I, chunk, scale=1.0, values=None, skip=(), sortseg=None, retkeys=True):
    """Observation of one run; `values` maps evaluation index -> comparable value number."""
    evs = []
    for j, e in enumerate(rec.ev):
        v = values[j] if values is not None else I(("v", arr(e[1])))
        evs.append([I(("x", arr(e[0], scale))), v])
    if sortseg:
        out = []
        for s in range(0, len(evs), sortseg):
            out += sorted(evs[s:s + sortseg])
        evs = out
    chunks = [evs[s:s + chunk] for s in range(0, len(evs), chunk)]

    def state(st, X=None):
        f = []
        for k in sorted(st):
            if k in skip or (not retkeys and k in ("xall", "funall")):
                continue
            v = st[k]
            if k in ("x", "xall"):
                f.append(I((k, arr(v, scale))))
            elif isinstance(v, (str, bool, type(None), np.bool_)):
                f.append(I((k, str(v))))
            else:
                f.append(I((k, arr(v))))
        if X is not None:
            f.append(I(("X", arr(X, scale))))
        return f

    cbs = [state(c["state"], c["X"]) for c in rec.cb]
    return dict(ev=chunks, cb=cbs, res=state(rec.res) if rec.res is not None else [], exc=I(("exc", rec.exc)))


def ranks_on_prefix(recs):
    """Ranks of the values over the common prefix of several runs (order isomorphism)."""
    n = min(len(r.ev) for r in recs)
    out = []
    for r in recs:
        v = [float(e[1]) for e in r.ev]
        order = {x: i + 1 for i, x in enumerate(sorted(set(v[:n])))}
        out.append([order.get(x, 0) for x in v])
    return out


def pair(P, tid, ra, rb, chunk, cmpcb=True, cmpres=True, prefix=False, scale=1.0, ranks=False, skip=(), sortseg=None,
         retkeys=True):
    I = Intern()
    va = vb = None
    if ranks:
        va, vb = ranks_on_prefix([ra, rb])
    return dict(tid=tid, P=P, cmpcb=cmpcb, cmpres=cmpres, prefix=prefix,
                a=observation(ra, I, chunk, 1.0, va, skip, sortseg, retkeys),
                b=observation(rb, I, chunk, scale, vb, skip, sortseg, retkeys))


def settle(a, d, scale, refs, chunk, width):
    """Remove from `d` what differs from `a` by rounding only; False when the two runs part for that reason.

    Rounding is what is below 1e-10 of the box, or below 1000 times what the runs `refs` (the same problem moved by
    a few units in the last place) differ from `a` by.  The runs part where points that agree get values that do not
    (a jump of the objective), where the order of the values is not the same, where the runs `refs` part from `a`, or
    where rounding has grown to a hundredth of the box.
    """
    base = 1e-10 * width
    tol = np.array(base)
    n = min(len(a.ev), len(d.ev))
    for r in refs:
        if len(r.ev) != len(a.ev) or len(r.cb) != len(a.cb) or r.exc:
            n = min(n, len(r.ev))

    def cut(m):
        del a.ev[m:], d.ev[m:]
        return False

    short = n < max(len(a.ev), len(d.ev)) and any(len(r.ev) != len(a.ev) for r in refs)
    va, vb = [], []
    for j in range(n):
        xa, xb = np.asarray(a.ev[j][0], float), np.asarray(d.ev[j][0], float) / scale
        for r in refs:
            tol = np.maximum(tol, 1e3 * np.abs(np.asarray(r.ev[j][0], float) - xa))
        if (tol > 0.01 * width).any() or not np.all(np.isfinite(tol)):
            return cut(j)
        if not (np.abs(xa - xb) <= tol).all():
            return True     # the specification will tell
        fa, fb = float(a.ev[j][1]), float(d.ev[j][1])
        e = max([1e-6 * max(abs(fa), abs(fb))] + [1e3 * abs(float(r.ev[j][1]) - fa) for r in refs])
        d.ev[j][:2] = [xa * scale, a.ev[j][1]]
        va.append(fa)
        vb.append(fb)
        if fa != fb and not abs(fa - fb) <= e:
            return cut(j + 1)
        if (j + 1) % chunk == 0 or j + 1 == n:
            oa, ob = np.unique(va, return_inverse=True)[1], np.unique(vb, return_inverse=True)[1]
            if (oa != ob).any():
                return cut(j + 1)
    if short:
        return cut(n)

    def near(k, x, y, rs):
        x, y = np.asarray(x, float), np.asarray(y, float)
        if k in ("x", "xall", "X"):
            y = y / scale
            t = base
        else:
            t = 1e-6 * np.abs(x)
        if x.shape != y.shape:
            return False
        for q in rs:
            q = np.asarray(q, float)
            if q.shape == x.shape:
                t = np.maximum(t, 1e3 * np.abs(q - x))
        if k in ("x", "xall", "X"):
            t = np.maximum(t, tol)
        return bool(np.all((np.abs(x - y) <= t) | (x == y) | (np.isnan(x) & np.isnan(y))))

    def state(x, y, rs):
        if x is None or y is None:
            return
        for k in y:
            if k in x and isinstance(x[k], (np.ndarray, float, np.floating)) and near(k, x[k], y[k], [q[k] for q in rs if k in q]):
                y[k] = np.asarray(x[k], float) * scale if k in ("x", "xall", "X") else x[k]

    for j, (p, q) in enumerate(zip(a.cb, d.cb)):
        rs = [r.cb[j] for r in refs if j < len(r.cb)]
        state(p["state"], q["state"], [r["state"] for r in rs])
        if p.get("X") is not None and q.get("X") is not None and near("X", p["X"], q["X"], [r["X"] for r in rs if r.get("X") is not None]):
            q["X"] = np.asarray(p["X"], float) * scale
    state(a.res, d.res, [r.res for r in refs if r.res is not None])
    return True
