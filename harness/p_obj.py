"""C27: OptimizeResult and SampleResult are dictionaries whose keys are their attributes."""
import copy
import pickle
import re

import numpy as np

import record
import vlib
from p_pop import brief, replay  # noqa: F401
from stochopy.optimize import OptimizeResult
from stochopy.sample import SampleResult

CLASSES = {"OptimizeResult": OptimizeResult, "SampleResult": SampleResult}
VALUES = [None, 1.5, np.array([1.0, 2.0]), "some text", np.arange(6.0).reshape(3, 2), True, 0, [1, 2], float("nan"), {"a": 1}, (), -3]
KEYS = ["x", "fun", "xall", "funall", "nit", "success", "status", "message", "nfev", "accept_ratio", "other", "_private", "x_2", "a",
        "xall2", "fun all", "Ünicode", "population_of_the_last_generation", ""]
MISSING = object()


def observe(r, known):
    """Everything a user can read; values are identified by object identity."""
    def num(v):
        for i, w in enumerate(VALUES):
            if v is w:
                return i
        return -1
    out = dict(items=[[k, num(dict.__getitem__(r, k))] for k in dict.keys(r)])
    attrs = []
    miss = True
    for k in known:
        try:
            v = getattr(r, k)
            attrs.append([k, num(v)])
            if k not in dict.keys(r):
                miss = False
            if not hasattr(r, k) or r[k] is not v or r.get(k, MISSING) is not v:
                attrs[-1][1] = -2
        except AttributeError:
            if k in dict.keys(r):
                attrs.append([k, -3])
            else:
                try:
                    r[k]
                    miss = False
                except KeyError:
                    pass
                except Exception:
                    miss = False
                if hasattr(r, k) or getattr(r, k, MISSING) is not MISSING or k in r:
                    miss = False
        except Exception:
            miss = False
    out["attrs"], out["missing"] = attrs, miss
    try:
        out["dir"] = list(r.__dir__()) if hasattr(type(r), "__dir__") else dir(r)
        if sorted(dir(r)) != sorted(out["dir"]):
            out["dir"] = list(dir(r)) + ["?"]
    except Exception:
        out["dir"] = ["?"]
    out["shown"], out["hid"], out["repr"] = [], 0, True
    try:
        text = repr(r)
        out["repr"] = isinstance(text, str) and isinstance(str(r), str)
        for k in dict.keys(r):
            pat = re.compile(r"^\s*%s: " % re.escape(k), re.M)
            m = pat.search(text)
            if k in ("xall", "funall"):
                if m or re.search(r"^\s*%s:" % re.escape(k), text, re.M):
                    out["hid"] += 1
            elif m and text[m.end():].startswith(repr(dict.__getitem__(r, k))):
                out["shown"].append(k)
    except Exception:
        out["repr"] = False
    try:
        ok = True
        for c in (copy.copy(r), pickle.loads(pickle.dumps(r)), copy.deepcopy(r)):
            ok = ok and type(c) is type(r) and list(dict.keys(c)) == list(dict.keys(r))
        c = copy.copy(r)
        ok = ok and all(dict.__getitem__(c, k) is dict.__getitem__(r, k) for k in dict.keys(r))
        out["copy"] = bool(ok)
    except Exception:
        out["copy"] = False
    return out


def apply(r, o):
    """Perform the operation; returns the object and whether it raised."""
    k, v = o["k"], VALUES[o["v"]]
    try:
        op = o["op"]
        if op == "setitem":
            r[k] = v
        elif op == "setattr":
            setattr(r, k, v)
        elif op == "setdefault":
            r.setdefault(k, v)
        elif op == "delitem":
            del r[k]
        elif op == "delattr":
            delattr(r, k)
        elif op == "pop":
            r.pop(k)
        elif op == "update":
            r.update([(a, VALUES[b]) for a, b in o["s"]])
        elif op == "updatekw":
            r.update(**{a: VALUES[b] for a, b in o["s"]})
        elif op == "ior":
            d = {}
            for a, b in o["s"]:
                d[a] = VALUES[b]
            r |= d
        elif op == "clear":
            r.clear()
        elif op == "getitem":
            r[k]
        elif op == "getattr":
            getattr(r, k)
        return r, False
    except (KeyError, AttributeError):
        return r, True


def sequence(job):
    cls, ops, start, known, tid = job
    r = CLASSES[cls](**{}) if not start else CLASSES[cls]({k: VALUES[v] for k, v in start})
    steps = []
    known = list(known)
    for o in ops:
        kinds = type(r)
        r, failed = apply(r, o)
        for k in [o["k"]] + [a for a, _ in o["s"]]:
            if k not in known and o["op"] != "clear":
                known.append(k)
        ob = observe(r, known)
        if type(r) is not kinds:
            ob["copy"] = False
        ob.update(o=o, failed=failed)
        steps.append(ob)
    return dict(tid=tid, start=start, steps=steps)


def gen(i):
    r = vlib.rng("C27", i)
    cls = r.choice(list(CLASSES))
    keys = r.sample(KEYS, r.choice([2, 4, 8, len(KEYS)]))
    ops = []
    for _ in range(r.choice([1, 3, 10, 25])):
        op = r.choice(["setitem", "setattr", "setitem", "setattr", "delitem", "delattr", "pop", "update", "updatekw", "ior", "setdefault",
                       "clear", "getitem", "getattr"])
        if op == "clear" and r.random() < 0.6:
            op = "setattr"
        s = [[r.choice(keys), r.randrange(len(VALUES))] for _ in range(r.choice([0, 1, 2, 3]))] if op in ("update", "updatekw", "ior") else []
        if op == "updatekw":
            s = [list(x) for x in {a: b for a, b in s}.items()]
        ops.append(dict(op=op, k=r.choice(keys) if not s and op not in ("update", "updatekw", "ior", "clear") else "", v=r.randrange(len(VALUES)), s=s))
    start = [[k, r.randrange(len(VALUES))] for k in r.sample(keys, r.randrange(len(keys) + 1))] if r.random() < 0.5 else []
    return cls, ops, start, keys, i


def real(i):
    """A result the library itself returned, and the states given to the callback."""
    import cases
    r = vlib.rng("C27real", i)
    alg = ("de", "pso", "cpso", "na", "cmaes", "vdcma", "mcmc", "hmc")[i % 8]
    c = cases.gen_sam(r, alg) if alg in record.SAMPLERS else cases.gen_opt(r, alg, maxeval=60)
    if c["opts"].get("backend") == "loky":
        c["opts"]["backend"] = None
    c["opts"]["maxiter"] = min(4, c["opts"]["maxiter"])
    c["cb"] = True
    bad = {}
    rec = record.execute(c, want_live=True)
    want = SampleResult if alg in record.SAMPLERS else OptimizeResult
    if rec.res is None:
        return {"completes": rec.exc}, c
    objs = [rec.res] + [d["live"] for d in rec.cb]
    for o in objs:
        if type(o) is not want:
            bad["class"] = str(type(o))
            continue
        for k in dict.keys(o):
            v = dict.__getitem__(o, k)
            try:
                if getattr(o, k) is not v:
                    bad["attributes"] = k
            except AttributeError:
                bad["attributes"] = k
        if sorted(dir(o)) != sorted(dict.keys(o)):
            bad["dir"] = dir(o)
        t = repr(o)
        for k in dict.keys(o):
            there = re.search(r"^\s*%s: " % re.escape(k), t, re.M) is not None
            if there == (k in ("xall", "funall")):
                bad["repr"] = k
    return bad, c


def run(check):
    big = vlib.THOROUGH
    inv = ("Functional", "Failing", "HiddenNotShown")
    ops = {"setitem", "setattr", "delitem", "delattr", "pop", "update", "ior", "setdefault", "clear"}
    jobs = [dict(module="ResultModel", consts=dict(K={"x", "xall"}, V={1, 2}, Length=3, Ops=ops, Emit=True), invariants=inv,
                 properties=("Local", "ReadBack"), deadlock=False),
            dict(module="ResultModel", consts=dict(K={"x", "xall", "fun"}, V={1, 2}, Length=2, Ops=ops, Emit=True), invariants=inv,
                 properties=("Local", "ReadBack"), deadlock=False),
            dict(module="ResultModel", consts=dict(K={"x", "fun"}, V={1}, Length=5 if big else 4, Ops={"setitem", "setattr", "delattr", "delitem", "clear"},
                                                   Emit=True), invariants=inv, properties=("Local", "ReadBack"), deadlock=False)]
    seqs = []
    for j, r in zip(jobs, vlib.tlc_many(jobs, par=3)):
        if not r.ok:
            raise vlib.MachineryError("design model ResultModel\n" + r.out[-2500:])
        check.add_tlc("ResultModel", r)
        seqs += r.tagged("@@B ")
    # behaviours of the model: every observation is compared with the model's own dictionary
    jobs = []
    for n, log in enumerate(seqs):
        jobs.append((("OptimizeResult", "SampleResult")[n % 2], [e["o"] for e in log], [], ["x", "xall", "fun"], n))
    for log, job, t in zip(seqs, jobs, vlib.pmap(sequence, jobs)):
        check.replayed += 1
        for e, s in zip(log, t["steps"]):
            want = sorted(map(tuple, e["d"]))
            keys = sorted(k for k, _ in want)
            cl = None
            if sorted(map(tuple, s["items"])) != want:
                cl = "items"
            elif sorted(map(tuple, s["attrs"])) != want:
                cl = "attributes"
            elif s["failed"] != e["fails"]:
                cl = "error"
            elif not s["missing"]:
                cl = "missing"
            elif sorted(s["dir"]) != keys:
                cl = "dir"
            elif not s["repr"] or s["hid"] or sorted(s["shown"]) != [k for k in keys if k not in ("xall", "funall")]:
                cl = "repr"
            elif not s["copy"]:
                cl = "copy"
            if cl:
                check.violate("C27." + cl, dict(cls=job[0], ops=job[1]), s)
                break
    n = 3000 * (5 if big else 1)
    jobs = [gen(i) for i in range(n)]
    traces = vlib.pmap(sequence, jobs)
    for tid, clauses in vlib.validate(check, "ResultTrace", traces, invariants=("Sane",)).items():
        for cl in clauses:
            check.violate(cl, dict(cls=jobs[tid][0], ops=jobs[tid][1], start=jobs[tid][2]), None)
    for bad, c in vlib.pmap(real, range(160 if not big else 800)):
        check.replayed += 1
        for k, v in bad.items():
            check.violate("C27." + k, brief(c), v)
    check.sample({"model_sequence": seqs[len(seqs) // 2]})
    check.sample({"random_sequence": jobs[0][:2]})
    check.extra["operations_observed"] = sum(len(t["steps"]) for t in traces) + sum(map(len, seqs))
