"""Shared machinery: TLC runs, result collection, evidence, known findings, replay files."""
import concurrent.futures as cf
import functools
import json
import multiprocessing as mp
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
THOROUGH = TIER == "thorough"
NCPU = max(1, min(8, os.cpu_count() or 1))
JARS = ":".join(
    os.path.join("/opt/veriftools/tla", j)
    for j in ("tla2tools.jar", "CommunityModules-deps.jar")
)


class MachineryError(Exception):
    """The check itself failed (never a verdict)."""


def scratch(prefix="stochopy-verif-"):
    return tempfile.mkdtemp(prefix=prefix)


class TLC:
    """Outcome of one TLC run."""

    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.findall(r"^(\d+) states generated, (\d+) distinct states found", out, re.M)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.ok = rc == 0 and "Model checking completed. No error has been found." in out
        self.violated = re.findall(
            r"(?:Invariant (\S+) is violated|Action property (\S+) is violated|Temporal properties were violated)",
            out,
        )

    def tagged(self, tag):
        """JSON payloads printed with PrintT(tag \\o ToJson(..))."""
        res = []
        for line in self.out.splitlines():
            line = line.strip()
            if line.startswith('"' + tag):
                res.append(json.loads(json.loads(line)[len(tag):]))
        return res


def tla(v):
    """Python value -> TLA+ constant expression."""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(tla(x) for x in sorted(v, key=str)) + "}"
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    raise TypeError(v)


def run_tlc(module, consts=None, spec="Spec", invariants=(), properties=(), data=None,
            workers=NCPU, timeout=600, heap="3g", deadlock=True, defs="", keep=None, constraint=None):
    """Model check spec/<module>.tla. `data` (JSON-able) is made available as IOEnv.TRACEFILE."""
    d = scratch()
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        main = "MC" + module
        # constants go through definitions so that sets, sequences and strings are possible
        lines, cfg = [], ["SPECIFICATION %s" % spec]
        for k, v in (consts or {}).items():
            lines.append("def_%s == %s" % (k, v if isinstance(v, Raw) else tla(v)))
            cfg.append("CONSTANT %s <- def_%s" % (k, k))
        with open(os.path.join(d, main + ".tla"), "w") as f:
            f.write("---- MODULE %s ----\nEXTENDS %s\n%s\n%s\n====\n" % (main, module, "\n".join(lines), defs))
        cfg += ["INVARIANT %s" % i for i in invariants]
        cfg += ["PROPERTY %s" % p for p in properties]
        if constraint:
            cfg.append("CONSTRAINT %s" % constraint)
        cfg.append("CHECK_DEADLOCK %s" % ("TRUE" if deadlock else "FALSE"))
        with open(os.path.join(d, main + ".cfg"), "w") as f:
            f.write("\n".join(cfg) + "\n")
        env = dict(os.environ)
        if data is not None:
            p = os.path.join(d, "trace.json")
            with open(p, "w") as f:
                json.dump(data, f, separators=(",", ":"))
            env["TRACEFILE"] = p
        t = time.time()
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m", "-cp", JARS, "tlc2.TLC",
               "-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE",
               "-config", main + ".cfg", main + ".tla"]
        try:
            pr = subprocess.run(cmd, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                text=True, timeout=timeout)
            out, rc = pr.stdout, pr.returncode
        except subprocess.TimeoutExpired as e:
            raise MachineryError("TLC timed out on %s" % module) from e
        if keep:
            shutil.copytree(d, keep, dirs_exist_ok=True)
        return TLC(out, rc, time.time() - t)
    finally:
        shutil.rmtree(d, ignore_errors=True)


class Raw(str):
    """A TLA+ expression given literally."""


def tlc_many(jobs, par=4):
    """Run several run_tlc(**job) concurrently; returns the outcomes in order."""
    with cf.ThreadPoolExecutor(par) as ex:
        return list(ex.map(lambda j: run_tlc(**dict(j, workers=max(1, NCPU // min(par, max(1, len(jobs)))))), jobs))


def design(check, module, consts, invariants=(), properties=(), **kw):
    """Exhaustive check of a design model; a failure is a failure of the machinery."""
    r = run_tlc(module, consts, invariants=invariants, properties=properties, **kw)
    if not r.ok:
        raise MachineryError("design model %s: %s\n%s" % (module, r.violated, r.out[-3000:]))
    check.add_tlc(module, r)
    return r


def unreadable(module, consts, invariants, part, r, timeout):
    """A recorded run that the specification cannot even be evaluated on (a callback too few, a field of another shape)
    is no behaviour of it: find it among the traces of a failed run.  Anything else is a failure of the machinery."""
    whole, last = list(part), r
    while len(part) > 1:
        half = part[:len(part) // 2]
        r = run_tlc(module, consts, invariants=invariants, data=half, deadlock=False, timeout=timeout)
        if r.ok:
            part = part[len(part) // 2:]
        else:
            part, last = half, r
    r = run_tlc(module, consts, invariants=invariants, data=part, deadlock=False, timeout=timeout)
    if r.ok or "Error:" not in r.out or "arsing or semantic analysis failed" in r.out or "OutOfMemory" in r.out:
        raise MachineryError("trace specification %s failed:\n%s" % (module, last.out[-4000:]))
    return part[0], [t for t in whole if t is not part[0]]


def validate(check, module, traces, consts=None, invariants=(), chunk=None, timeout=600, par=4):
    """Validate recorded traces with a trace specification.

    Every trace must be consumed to its end and must get one @@END verdict.
    Returns {tid: [failing clauses]}.
    """
    if not traces:
        return {}
    chunk = chunk or max(1, -(-len(traces) // par))
    parts = [traces[i:i + chunk] for i in range(0, len(traces), chunk)]
    jobs = [dict(module=module, consts=consts, invariants=invariants, data=p, deadlock=False, timeout=timeout)
            for p in parts]
    verdicts = {}
    for part, r in zip(parts, tlc_many(jobs, par)):
        if not r.ok:
            odd, part = unreadable(module, consts, invariants, part, r, timeout)
            verdicts[odd["tid"]] = [check.prop + ".malformed"]
            if not part:
                continue
            r = run_tlc(module, consts, invariants=invariants, data=part, deadlock=False, timeout=timeout)
            if not r.ok:   # more of them; one is enough
                continue
        check.add_tlc(module, r)
        got = {v["tid"]: sorted(v["bad"]) for v in r.tagged("@@END")}
        for t in part:
            if t["tid"] not in got:
                raise MachineryError("trace %s was not consumed by %s" % (t["tid"], module))
        verdicts.update(got)
    check.traces += len(traces)
    return verdicts


class Check:
    """Collects what one check covered and found."""

    level = "model_checking"

    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.replayed = 0
        self.models = {}
        self.samples = []
        self.extra = {}
        self.violations = []
        self.known = []
        self.findings = load_findings()

    def add_tlc(self, module, r):
        self.states += r.distinct
        self.transitions += r.generated
        m = self.models.setdefault(module, {"runs": 0, "distinct_states": 0, "states_generated": 0, "wall_s": 0.0})
        m["runs"] += 1
        m["distinct_states"] += r.distinct
        m["states_generated"] += r.generated
        m["wall_s"] = round(m["wall_s"] + r.wall, 2)

    def sample(self, s, limit=4):
        if len(self.samples) < limit:
            self.samples.append(s)

    def count(self, name, k=1):
        self.extra[name] = self.extra.get(name, 0) + k

    def violate(self, clause, case, detail=None):
        key = {"clause": clause, "case": case, "detail": detail}
        for f in self.findings:
            if f["property"] == self.prop and matches(f, clause, case):
                self.known.append((f, key))
                return
        self.violations.append(key)

    def finish(self):
        ev = os.path.join(VERIF, "evidence")
        os.makedirs(ev, exist_ok=True)
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces + self.replayed,
                   samples=self.samples or ["none"], models=self.models,
                   code_traces_checked_by_tlc=self.traces, model_behaviours_replayed=self.replayed)
        cov.update(self.extra)
        doc = dict(property=self.prop, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED,
                   level=self.level, coverage=cov, wall_s=round(time.time() - self.t0, 2),
                   violations=len(self.violations))
        with open(os.path.join(ev, self.prop + ".json"), "w") as f:
            json.dump(doc, f, indent=1, default=str)
        seen = set()
        for f, key in self.known:
            if f["id"] not in seen:
                seen.add(f["id"])
                print("KNOWN-FINDING: property=%s %s" % (self.prop, f["what"]))
        for k in ("models",):
            for m, v in self.models.items():
                print("  TLC %-14s runs=%d distinct=%d generated=%d %.1fs" % (
                    m, v["runs"], v["distinct_states"], v["states_generated"], v["wall_s"]))
        print("  traces=%d replayed=%d %s wall=%.1fs" % (self.traces, self.replayed, self.extra, time.time() - self.t0))
        if not self.violations:
            print("OK property=%s" % self.prop)
            return 0
        rd = os.path.join(ev, "replay")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, "%s.json" % self.prop)
        with open(path, "w") as f:
            json.dump(self.violations[:20], f, indent=1, default=str)
        for v in self.violations[:8]:
            print("  %s %s" % (v["clause"], json.dumps(v["case"], default=str)[:400]))
            if v["detail"]:
                print("     ", str(v["detail"])[:400])
        print("VIOLATION property=%s replay=%s" % (self.prop, path))
        return 1


FINDINGS = os.path.join(VERIF, "KNOWN_FINDINGS.json")


def load_findings():
    try:
        with open(FINDINGS) as f:
            return [x for x in json.load(f)["findings"]]
    except FileNotFoundError:
        return []


def matches(f, clause, case):
    """A known finding suppresses exactly the clause and the case it names."""
    if f["clause"] != clause:
        return False
    return isinstance(case, dict) and all(case.get(k) == v for k, v in f["match"].items())


class ProjectionError(Exception):
    """A recorded run does not have the form every run of the library has."""

    def __init__(self, item, text):
        self.item, self.text = item, text


def _guarded(fn, item):
    try:
        return True, fn(item)
    except (IndexError, KeyError, ValueError, TypeError, AttributeError, ArithmeticError, AssertionError):
        return False, traceback.format_exc()


def pmap(fn, items, workers=NCPU, chunksize=None):
    """Parallel map in forked processes; a worker that dies is a machinery error."""
    items = list(items)
    out = _pmap(functools.partial(_guarded, fn), items, workers, chunksize)
    for i, (ok, v) in zip(items, out):
        if not ok:
            raise ProjectionError(i, v)
    return [v for _, v in out]


def _pmap(fn, items, workers, chunksize):
    if len(items) <= 2:
        return [fn(i) for i in items]
    ctx = mp.get_context("fork")
    chunksize = chunksize or max(1, min(64, len(items) // (workers * 4) or 1))
    with cf.ProcessPoolExecutor(workers, mp_context=ctx) as ex:
        return list(ex.map(fn, items, chunksize=chunksize))


def rng(*keys):
    """Random generator for this seed and these keys."""
    import random
    return random.Random("|".join(map(str, (SEED,) + keys)))
