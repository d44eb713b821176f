"""Simulated MPI world: N ranks run as threads with explicit hand-off (exactly one runs at a time). Every
communication call is a scheduling point; which runnable rank continues is a symbolic choice of the harness
context, as is whether a point-to-point send is buffered or waits for its receiver. No real time, no real network."""
import copy
import pickle
import threading
import numpy as np


class Deadlock(Exception):
    pass


class Misuse(Exception):
    """An MPI call that is erroneous by the standard (mismatched collective, use of a freed window, ...)."""


class _Stop(BaseException):
    pass


def _dup(x):
    """What a pickle transport does: an equal but distinct object; symbolic leaves are immutable and shared."""
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, tuple) and hasattr(x, "_fields"):
        return type(x)(*[_dup(y) for y in x])
    if isinstance(x, (list, tuple)):
        return type(x)(_dup(y) for y in x)
    if isinstance(x, dict):
        return {k: _dup(v) for k, v in x.items()}
    return x


class World:
    def __init__(self, ctx, size, name="s"):
        self.ctx, self.size, self.name = ctx, size, name
        self.nchoice = 0
        self.coll = [0] * size          # number of collectives entered per rank
        self.slots = {}                 # collective index -> state
        self.mail = {}                  # (src, dst, tag) -> list of [payload, taken]
        self.wins = {}
        self.nwin = [0] * size
        self.tls = threading.local()
        self.dead = None

    # ---- scheduling
    def run(self, fn, max_choices=None):
        """fn(rank) on every rank; returns the list of results. Raises the first exception of any rank."""
        n = self.size
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.back = threading.Semaphore(0)
        self.wait = [None] * n          # predicate a rank is blocked on
        self.done = [False] * n
        self.res = [None] * n
        self.err = [None] * n
        self.stop = False
        ths = [threading.Thread(target=self._body, args=(fn, r), daemon=True) for r in range(n)]
        for t in ths:
            t.start()
        last = None
        try:
            while not all(self.done):
                ready = [r for r in range(n) if not self.done[r] and (self.wait[r] is None or self.wait[r]())]
                if not ready:
                    raise Deadlock("deadlock: ranks %s wait forever" % [r for r in range(n) if not self.done[r]])
                if len(ready) == 1 or (max_choices is not None and self.nchoice >= max_choices):
                    r = ready[0]
                else:
                    r = ready[self.ctx.int("%s%d" % (self.name, self.nchoice), 0, len(ready) - 1)]
                    self.nchoice += 1
                self.wait[r] = None
                self.cur = r
                self.sem[r].release()
                self.back.acquire()
                if self.err[r] is not None:
                    raise self.err[r]
        finally:
            self.stop = True
            for r in range(n):
                if not self.done[r]:
                    self.sem[r].release()
            for t in ths:
                t.join()
        return self.res

    def _body(self, fn, r):
        self.tls.rank = r
        self.sem[r].acquire()
        try:
            if self.stop:
                return
            self.res[r] = fn(r)
        except _Stop:
            return
        except BaseException as e:
            self.err[r] = e
        finally:
            self.done[r] = True
            self.back.release()

    def rank(self):
        return self.tls.rank

    def pause(self, pred=None):
        r = self.rank()
        self.wait[r] = pred
        self.back.release()
        self.sem[r].acquire()
        if self.stop:
            raise _Stop()

    # ---- collectives
    def collective(self, kind, value, **meta):
        r = self.rank()
        i = self.coll[r]
        self.coll[r] += 1
        s = self.slots.setdefault(i, dict(kind=kind, vals={}, meta=meta, left=0))
        if s["kind"] != kind or s["meta"] != meta:
            raise Misuse("collective %d: rank %d calls %s%s, another rank %s%s" % (i, r, kind, meta, s["kind"], s["meta"]))
        s["vals"][r] = value
        self.pause(lambda: len(s["vals"]) == self.size)
        return [s["vals"][k] for k in range(self.size)]

    def mpi(self, rank):
        return FakeMPI(self, rank)


class Comm:
    def __init__(self, w, rank):
        self.w, self.r = w, rank

    def _me(self):
        if self.w.rank() != self.r:
            raise Misuse("communicator of rank %d used on rank %d" % (self.r, self.w.rank()))

    def Get_rank(self):
        return self.r

    def Get_size(self):
        return self.w.size

    def Barrier(self):
        self._me()
        self.w.collective("barrier", None)

    barrier = Barrier

    def _op(self, vals, op):
        out = _dup(vals[0])
        for v in vals[1:]:
            out = (out and v) if op == "LAND" else (max(out, v) if op == "MAX" else out + v)
        return out

    def allreduce(self, x, op="SUM"):
        self._me()
        return self._op(self.w.collective("allreduce", _dup(x), op=op), op)

    def reduce(self, x, op="SUM", root=0):
        self._me()
        v = self.w.collective("reduce", _dup(x), op=op, root=root)
        return self._op(v, op) if self.r == root else None

    def bcast(self, x, root=0):
        self._me()
        v = self.w.collective("bcast", _dup(x), root=root)
        return x if self.r == root else _dup(v[root])

    def allgather(self, x):
        self._me()
        return [_dup(v) for v in self.w.collective("allgather", _dup(x))]

    def gather(self, x, root=0):
        self._me()
        v = self.w.collective("gather", _dup(x), root=root)
        return [_dup(a) for a in v] if self.r == root else None

    def Bcast(self, buf, root=0):
        self._me()
        if not (isinstance(buf, np.ndarray) and buf.flags.c_contiguous):
            raise Misuse("Bcast needs a contiguous buffer")
        v = self.w.collective("Bcast", buf, root=root)
        src = v[root]
        if src.size != buf.size or (src.dtype != buf.dtype and object not in (src.dtype, buf.dtype)):
            raise Misuse("Bcast: buffers of different size or type")
        if self.r != root:
            buf.reshape(-1)[...] = src.reshape(-1)

    def send(self, x, dest, tag=0):
        self._me()
        if not 0 <= dest < self.w.size:
            raise Misuse("send to rank %r" % dest)
        cell = [_dup(x), False]
        self.w.mail.setdefault((self.r, int(dest), tag), []).append(cell)
        k = "%ssend%d" % (self.w.name, sum(map(len, self.w.mail.values())))
        if self.w.ctx.boolean(k):
            self.w.pause()                       # buffered
        else:
            self.w.pause(lambda: cell[1])        # waits for its receiver

    def recv(self, source, tag=0):
        self._me()
        box = self.w.mail.setdefault((int(source), self.r, tag), [])

        def nxt():
            return next((c for c in box if not c[1]), None)
        self.w.pause(lambda: nxt() is not None)
        c = nxt()
        c[1] = True
        return c[0]


class Win:
    """RMA window: memory per rank, locks are real (exclusive excludes), Get/Put are performed at Unlock."""

    def __init__(self, w, index, rank):
        self.w, self.i, self.r = w, index, rank
        self.ops, self.held = [], None

    @property
    def st(self):
        return self.w.wins[self.i]

    def _ok(self):
        if self.st["freed"]:
            raise Misuse("window used after Free")

    def Lock(self, rank, lock_type="EXCLUSIVE"):
        self._ok()
        if self.held is not None:
            raise Misuse("Lock while holding a lock")
        lk = self.st["locks"]

        def free():
            other = [t for (q, o), t in lk.items() if q == rank and o != self.r]
            return not other or (lock_type == "SHARED" and all(t == "SHARED" for t in other))
        self.w.pause(free)
        lk[(rank, self.r)] = lock_type
        self.held = (rank, lock_type)

    def _in(self, rank):
        self._ok()
        if self.held is None or self.held[0] != rank:
            raise Misuse("RMA access outside of a Lock epoch")

    def Put(self, data, target_rank):
        self._in(target_rank)
        if self.held[1] == "SHARED":
            raise Misuse("Put under a shared lock races")
        mem = self.st["mem"][target_rank]
        if data.size > mem.size:
            raise Misuse("Put of %d elements into a window of %d" % (data.size, mem.size))
        if not data.flags.c_contiguous and not data.flags.f_contiguous:
            raise Misuse("Put needs a contiguous buffer")
        flat = data.reshape(-1) if data.flags.c_contiguous else data.T.reshape(-1)
        self.ops.append(lambda: mem.__setitem__(slice(0, data.size), flat))

    def Get(self, buf, target_rank):
        self._in(target_rank)
        mem = self.st["mem"][target_rank]
        if buf.size > mem.size:
            raise Misuse("Get of %d elements from a window of %d" % (buf.size, mem.size))
        self.ops.append(lambda: buf.reshape(-1).__setitem__(slice(None), mem[:buf.size]))

    def Unlock(self, rank):
        self._in(rank)
        self.w.pause()
        for o in self.ops:
            o()
        self.ops = []
        self.st["locks"].pop((rank, self.r))
        self.held = None

    def Free(self):
        self._ok()
        self.w.collective("Win.Free", None, i=self.i)
        self.st["freed"] = True


class FakeMPI:
    LOCK_SHARED, LOCK_EXCLUSIVE = "SHARED", "EXCLUSIVE"
    LAND, SUM, MAX = "LAND", "SUM", "MAX"

    def __init__(self, w, rank):
        self.COMM_WORLD = Comm(w, rank)
        self.Win = type("Win", (), {"Allocate": staticmethod(lambda nbytes, comm=None: self._alloc(w, rank, nbytes))})

    @staticmethod
    def _alloc(w, rank, nbytes):
        i = w.nwin[rank]
        w.nwin[rank] += 1
        sizes = w.collective("Win.Allocate", int(nbytes), i=i)
        if i not in w.wins:
            mem = []
            for s in sizes:
                m = np.empty(s // 8, dtype=object)
                m[:] = [Garbage] * len(m)
                mem.append(m)
            w.wins[i] = dict(mem=mem, locks={}, freed=False)
        return Win(w, i, rank)

    @staticmethod
    def Wtime():
        return 0.0


class _G:
    def __repr__(self):
        return "<uninitialised window memory>"


Garbage = _G()


class Proxy:
    """Stands in for the module-global `mpi`: delegates to the interface of the rank that is executing."""

    def __init__(self, world, ifaces):
        object.__setattr__(self, "_w", world)
        object.__setattr__(self, "_i", ifaces)

    def __getattr__(self, k):
        return getattr(self._i[self._w.rank()], k)

    def __len__(self):
        return len(self._i[self._w.rank()])

    def __bool__(self):
        return bool(self._i[self._w.rank()])
