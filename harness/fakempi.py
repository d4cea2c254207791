"""Stand-in for mpi4py: in-process ranks. Default world: one rank, every call returns at once.

A `World` runs n ranks as threads, exactly one at a time (a baton), each with its own numpy random state;
which rank runs next at each collective call is decided by a schedule.
"""
import copy
import sys
import threading
import types

import numpy as np


class Comm:
    """COMM_WORLD: delegates to the world of the calling thread."""

    def _w(self):
        return getattr(_tls, "world", None), getattr(_tls, "rank", 0)

    def Get_rank(self):
        return self._w()[1]

    def Get_size(self):
        w, _ = self._w()
        return w.size if w else 1

    rank = property(Get_rank)
    size = property(Get_size)

    def _coll(self, name, payload, fn):
        w, r = self._w()
        if w is None:
            return fn([payload], 0)
        return w.collective(r, name, payload, fn)

    # lowercase (objects)
    def bcast(self, obj=None, root=0):
        return self._coll("bcast(%d)" % root, obj, lambda p, r: copy.deepcopy(p[root]))

    def barrier(self):
        return self._coll("barrier", None, lambda p, r: None)

    Barrier = barrier

    def allgather(self, obj):
        return self._coll("allgather", obj, lambda p, r: copy.deepcopy(list(p)))

    def gather(self, obj, root=0):
        return self._coll("gather(%d)" % root, obj, lambda p, r: copy.deepcopy(list(p)) if r == root else None)

    def scatter(self, obj=None, root=0):
        return self._coll("scatter(%d)" % root, obj, lambda p, r: copy.deepcopy(p[root][r]))

    def allreduce(self, obj, op=None):
        return self._coll("allreduce", copy.deepcopy(obj), lambda p, r: _reduce(p, op))

    def reduce(self, obj, op=None, root=0):
        return self._coll("reduce(%d)" % root, copy.deepcopy(obj), lambda p, r: _reduce(p, op) if r == root else None)

    # uppercase (buffers)
    def Bcast(self, buf, root=0):
        a = _arr(buf)
        v = self._coll("Bcast(%d)" % root, a.copy(), lambda p, r: p[root])
        a[...] = np.asarray(v).reshape(a.shape)

    def Allreduce(self, sendbuf, recvbuf, op=None):
        r = _arr(recvbuf)
        s = r if sendbuf is IN_PLACE else _arr(sendbuf)
        v = self._coll("Allreduce", s.copy(), lambda p, _: _reduce(p, op))
        r[...] = np.asarray(v).reshape(r.shape)

    def Reduce(self, sendbuf, recvbuf, op=None, root=0):
        s = _arr(recvbuf) if sendbuf is IN_PLACE else _arr(sendbuf)
        v = self._coll("Reduce(%d)" % root, s.copy(), lambda p, r: _reduce(p, op))
        if self.Get_rank() == root:
            _arr(recvbuf)[...] = v

    def Allgather(self, sendbuf, recvbuf):
        s, r = _arr(sendbuf), _arr(recvbuf)
        v = self._coll("Allgather", s.copy(), lambda p, _: np.concatenate([np.ravel(q) for q in p]))
        r[...] = v.reshape(r.shape)

    def Gather(self, sendbuf, recvbuf, root=0):
        s = _arr(sendbuf)
        v = self._coll("Gather(%d)" % root, s.copy(), lambda p, _: np.concatenate([np.ravel(q) for q in p]))
        if self.Get_rank() == root:
            r = _arr(recvbuf)
            r[...] = v.reshape(r.shape)

    def Scatter(self, sendbuf, recvbuf, root=0):
        r = _arr(recvbuf)
        s = _arr(sendbuf).copy() if self.Get_rank() == root else None
        v = self._coll("Scatter(%d)" % root, s, lambda p, k: np.ravel(p[root]).reshape(self.Get_size(), -1)[k])
        r[...] = v.reshape(r.shape)


def _arr(buf):
    if isinstance(buf, (list, tuple)):
        buf = buf[0]
    return buf


def _reduce(parts, op):
    f = op.f if isinstance(op, Op) else SUM.f
    out = copy.deepcopy(parts[0])
    for p in parts[1:]:
        out = f(out, p)
    return out


class Op:
    def __init__(self, name, f):
        self.name, self.f = name, f


SUM = Op("SUM", lambda a, b: a + b)
MAX = Op("MAX", np.maximum)
MIN = Op("MIN", np.minimum)
PROD = Op("PROD", lambda a, b: a * b)
IN_PLACE = object()
_tls = threading.local()


class Deadlock(BaseException):
    """Some rank waits for a collective the others do not make."""


class World:
    """n ranks as threads; exactly one runs at a time; `schedule` picks who runs next."""

    def __init__(self, size, schedule=()):
        self.size = size
        self.schedule = list(schedule)  # rank preferences, consumed at every switch
        self.cv = threading.Condition()
        self.turn = None
        self.state = ["ready"] * size       # ready | waiting | done
        self.want = [None] * size           # pending collective
        self.payload = [None] * size
        self.result = [None] * size
        self.rng = [None] * size
        self.calls = [[] for _ in range(size)]
        self.log = []                        # ("run", r) / ("coll", name)
        self.fault = None

    def _pick(self):
        """Choose the next rank to run; called with the lock held."""
        if self.fault:
            self.turn = None
            self.cv.notify_all()
            return
        ready = [r for r in range(self.size) if self.state[r] == "ready"]
        if not ready:
            live = [r for r in range(self.size) if self.state[r] != "done"]
            if not live:
                self.turn = None
                self.cv.notify_all()
                return
            names = {self.want[r] for r in live}
            if len(live) < self.size or len(names) > 1:
                self.fault = "deadlock: " + ", ".join(
                    "rank %d %s" % (r, self.want[r] if self.state[r] != "done" else "returned") for r in range(self.size))
                self.turn = None
                self.cv.notify_all()
                return
            fn = self._fn
            for r in live:
                self.result[r] = fn(self.payload, r)
                self.state[r] = "ready"
                self.calls[r].append(self.want[r])
            self.log.append(("coll", self.want[live[0]]))
            ready = live
        p = None
        while self.schedule:
            c = self.schedule.pop(0)
            if c in ready:
                p = c
                break
        self.turn = p if p is not None else ready[0]
        self.cv.notify_all()

    def _wait_turn(self, r):
        while self.turn != r:
            if self.fault:
                raise Deadlock(self.fault)
            if not self.cv.wait(30):
                self.fault = self.fault or "stuck"
                self.cv.notify_all()
        np.random.set_state(self.rng[r])
        self.log.append(("run", r))

    def collective(self, r, name, payload, fn):
        with self.cv:
            self.rng[r] = np.random.get_state()
            self.state[r] = "waiting"
            self.want[r], self.payload[r] = name, payload
            self._fn = fn
            self._pick()
            self._wait_turn(r)
            return self.result[r]

    def run(self, bodies, rng):
        """Run bodies[r]() on every rank; returns [(kind, value)]."""
        out = [None] * self.size
        self.rng = list(rng)

        def main(r):
            _tls.world, _tls.rank = self, r
            try:
                with self.cv:
                    self._wait_turn(r)
                out[r] = ("ok", bodies[r]())
            except Deadlock as e:
                out[r] = ("deadlock", str(e))
            except BaseException as e:  # noqa
                out[r] = ("exc", e)
            finally:
                with self.cv:
                    self.state[r] = "done"
                    self.want[r] = "returned"
                    if not self.fault or self.turn == r:
                        self._pick()

        keep = np.random.get_state()
        ts = [threading.Thread(target=main, args=(r,), daemon=True) for r in range(self.size)]
        for t in ts:
            t.start()
        with self.cv:
            self._pick()
        for t in ts:
            t.join(120)
        np.random.set_state(keep)
        return out


def install():
    m = types.ModuleType("mpi4py")
    MPI = types.ModuleType("mpi4py.MPI")
    MPI.COMM_WORLD = Comm()
    MPI.COMM_SELF = Comm()
    MPI.DOUBLE = MPI.FLOAT64_T = "double"
    MPI.INT = MPI.INT64_T = MPI.LONG = MPI.BOOL = "other"
    MPI.SUM, MPI.MAX, MPI.MIN, MPI.PROD, MPI.IN_PLACE = SUM, MAX, MIN, PROD, IN_PLACE
    MPI.Comm = Comm
    m.MPI = MPI
    sys.modules["mpi4py"] = m
    sys.modules["mpi4py.MPI"] = MPI


install()
