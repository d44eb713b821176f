"""C23: MPI layer. The real MPI_Interface, RMA_Dict, scf_with_mpi, FragmentRegister and Embedding.get_fragments run on a
simulated MPI world (vsym/mpisim.py): one thread per rank with explicit hand-off, the order in which runnable ranks
continue and the buffering of sends being symbolic choices the solver enumerates, and the exchanged numbers symbolic.
Collectives follow the standard: mismatched collectives, unmatched receives, use of freed windows, racing RMA and
ranks that wait forever are violations."""
import types
import numpy as np
from vsym.harness import Harness
from vsym import mpisim
from checks.common import *
from checks.c13 import NullLog
from checks.c26 import mkbase
from vayesta.mpi.interface import MPI_Interface
from vayesta.mpi import rma as rmamod
from vayesta.mpi.rma import RMA_Dict
from vayesta.mpi.scf import scf_with_mpi, gdf_with_mpi
from vayesta.core.qemb.register import FragmentRegister

META = dict(assumptions=["MPI library replaced by a simulated world that follows the MPI standard's semantics (collectives match in order, "
                         "point-to-point messages do not overtake within source/tag, RMA inside lock epochs, completed at unlock)",
                         "time, process start-up and network failures are outside"])


def world(ctx, n):
    w = mpisim.World(ctx, n)
    ifs = [MPI_Interface(w.mpi(r), log=NullLog()) for r in range(n)]
    return w, ifs


class FArr(np.ndarray):
    """Array of symbolic numbers that reports the dtype of the numbers it stands for."""
    @property
    def dtype(self):
        return np.dtype(float)


def far(ctx, a):
    return a.view(FArr) if ctx.symbolic and a is not None else a


def run(ctx, w, fn, **kw):
    rmamod.log = NullLog()
    return w.run(fn, **kw)


def h_register(ctx, nmax, kmax):
    """Any number of processes and fragments: every fragment gets a unique id and exactly one owner, all ranks compute
    the same assignment, the load is balanced, and the per-rank selections partition the fragments."""
    n = ctx.int("size", 1, nmax)
    k = ctx.int("nfrag", 0, kmax)
    regs = [FragmentRegister(mpi_size=n) for _ in range(n)]
    tab = [[r.get_next() for _ in range(k)] for r in regs]
    for t in tab[1:]:
        ctx.true("all ranks agree on ids and owners", t == tab[0])
    ids = [i for i, _ in tab[0]]
    own = [o for _, o in tab[0]]
    ctx.true("ids unique and consecutive", ids == list(range(k)))
    ctx.true("owner is a rank", all(0 <= o < n for o in own))
    cnt = [own.count(r) for r in range(n)]
    ctx.true("balanced", max(cnt) - min(cnt) <= 1)


def h_partition(ctx, nmax, k, kind):
    """get_fragments(mpi_rank=r) over all ranks selects every fragment exactly once, whatever owners and parents the
    fragments have, and the registered order is kept."""
    n = ctx.int("size", 1, nmax)
    b = mkbase(kind)
    b.register = FragmentRegister(mpi_size=n)
    for i in range(k):
        fid, rk = b.register.get_next()
        f = b.Fragment(b, fid, "f", np.eye(4)[:, :1], np.eye(4)[:, 1:], mpi_rank=rk, active=ctx.boolean("act%d" % i))
        b.fragments.append(f)
    act = [f.id for f in b.fragments if f.active]
    sel = [[f.id for f in b.get_fragments(active=True, sym_parent=None, mpi_rank=r)] for r in range(n)]
    ctx.true("every active fragment on exactly one rank", sorted(sum(sel, [])) == act)
    ctx.true("order kept", all(s == sorted(s) for s in sel))
    ctx.true("several ranks", [f.id for f in b.get_fragments(active=True, mpi_rank=list(range(n)))] == act)


def h_nreduce(ctx, n, nargs):
    """nreduce of several arguments: the sum over ranks on every rank (or the target only)."""
    w, ifs = world(ctx, n)
    x = [[ctx.real("x%d_%d" % (r, a), (2,)) if a % 2 == 0 else ctx.scalar("x%d_%d" % (r, a)) for a in range(nargs)] for r in range(n)]
    tgt = ctx.choice("tgt", [None] + list(range(n)))
    keep = [[np.array(v) for v in y] for y in x]

    def fn(r):
        return ifs[r].nreduce(*x[r], target=tgt, logfunc=lambda *a: None)
    res = run(ctx, w, fn)
    for r in range(n):
        if tgt not in (None, r):
            out = res[r] if nargs > 1 else [res[r]]
            ctx.true("no result off the target", all(v is None for v in out))
            continue
        out = res[r] if nargs > 1 else (res[r],)
        ctx.true("one result per argument", len(out) == nargs)
        for a in range(nargs):
            ctx.eq("sum over ranks", out[a], sum(keep[q][a] for q in range(n)))
            ctx.eq("input untouched", x[r][a], keep[r][a])


def h_bcast(ctx, n, kind):
    """bcast of arrays of any shape/layout and of general objects from any root."""
    w, ifs = world(ctx, n)
    root = ctx.int("root", 0, n - 1)
    data = ctx.real("d", (2, 3))
    if kind == "T":
        obj = data.T
    elif kind == "slice":
        obj = data[:, ::2]
    elif kind == "empty":
        obj = data[:0]
    elif kind == "0d":
        obj = np.array(data[0, 0], dtype=object if ctx.symbolic else float)
    elif kind == "array":
        obj = data
    elif kind == "none":
        obj = None
    elif kind == "tuple":
        obj = (data[0, 0], "x", None, 3)
    keep = obj.copy() if isinstance(obj, np.ndarray) else obj

    def fn(r):
        return ifs[r].bcast(obj if r == root else (None if r % 2 else np.zeros(3)), root=root)
    res = run(ctx, w, fn)
    for r in range(n):
        if keep is None:
            ctx.true("None", res[r] is None)
        elif isinstance(keep, tuple):
            ctx.true("object", isinstance(res[r], tuple) and len(res[r]) == 4 and res[r][1:] == keep[1:])
            ctx.eq("object number", res[r][0], keep[0])
        else:
            ctx.true("array with shape", isinstance(res[r], np.ndarray) and res[r].shape == keep.shape)
            ctx.eq("values", res[r], keep)


def h_decor(ctx, n):
    """with_allreduce / with_reduce / only_master: same as the serial sum over what the ranks contributed; called
    several times in any order of ranks; serial interface leaves functions alone."""
    w, ifs = world(ctx, n)
    parts = ctx.real("p", (n, 2))
    root = ctx.int("root", 0, n - 1)

    def fn(r):
        m = ifs[r]
        f = m.with_allreduce()(lambda k, scale=1: scale * parts[r, k])
        g = m.with_reduce(root=root)(lambda k: parts[r, k])
        h = m.only_master()(lambda k: parts[r, k])
        return f(0), f(1, scale=2), g(0), h(0), bool(m), len(m), m.is_master, m.enabled, m.disabled
    res = run(ctx, w, fn)
    for r in range(n):
        a0, a1, g0, h0, on, ln, ms, en, dis = res[r]
        ctx.eq("allreduce", a0, sum(parts[q, 0] for q in range(n)))
        ctx.eq("allreduce args", a1, 2 * sum(parts[q, 1] for q in range(n)))
        if r == root or n == 1:
            ctx.eq("reduce", g0, sum(parts[q, 0] for q in range(n)))
        else:
            ctx.true("reduce elsewhere", g0 is None)
        if r == 0:
            ctx.eq("master", h0, parts[0, 0])
        else:
            ctx.true("not master", h0 is None)
        ctx.true("flags", (on, ln, ms, en, dis) == (n > 1, n, r == 0, n > 1, n == 1))
    m = MPI_Interface(None, log=NullLog())
    fun = lambda: 1
    ctx.true("serial: decorators are identity", all(d(fun) is fun for d in (m.with_allreduce(), m.with_reduce(), m.only_master(), m.with_send(source=0))))
    ctx.true("serial: flags", not m and len(m) == 1 and m.rank == 0 and m.is_master and m.disabled)


def h_send(ctx, n, k, maxc):
    """with_send called on all ranks for a list of fragments in the same order: source and destination return the
    value computed at the source, other ranks None; messages of different functions do not get mixed; no deadlock."""
    w, ifs = world(ctx, n)
    own = [ctx.int("own%d" % i, 0, n - 1) for i in range(k)]
    dest = ctx.int("dest", 0, n - 1)
    val = ctx.real("v", (k, 2))
    fr = [types.SimpleNamespace(i=i, mpi_rank=own[i]) for i in range(k)]
    ran = []

    def fn(r):
        m = ifs[r]

        @m.with_send(source=lambda *a: a[0].mpi_rank, dest=dest)
        def f(x):
            ran.append((r, x.i, 0))
            return val[x.i, 0]

        @m.with_send(source=lambda *a: a[0].mpi_rank, dest=dest)
        def g(x, c=1):
            ran.append((r, x.i, 1))
            return c * val[x.i, 1]
        out = [(f(x), g(x, c=2)) for x in fr]
        fixed = m.with_send(source=0, dest=dest)(lambda: val[0, 0])
        return out, fixed()
    res = run(ctx, w, fn, max_choices=maxc)
    for r in range(n):
        out, fixed = res[r]
        for i in range(k):
            for j in range(2):
                if r in (own[i], dest):
                    ctx.eq("value at source and destination", out[i][j], (1 + j) * val[i, j])
                else:
                    ctx.true("nothing elsewhere", out[i][j] is None)
        if r in (0, dest):
            ctx.eq("fixed source", fixed, val[0, 0])
        else:
            ctx.true("fixed source elsewhere", fixed is None)
    ctx.true("each evaluated once, by its owner", sorted(ran) == sorted((own[i], i, j) for i in range(k) for j in range(2)))
    ctx.true("all messages delivered", all(c[1] for b in w.mail.values() for c in b))


def h_rma(ctx, n, rounds, maxc):
    """RMA_Dict: after synchronisation every rank reads every key with the value its owner wrote (None kept as None),
    over several writing rounds and clear(); reads inside / writes outside the with-block are rejected."""
    w, ifs = world(ctx, n)
    shp = [(2,), (1, 2), (0,)]
    vals = {}
    plan = []
    for t in range(rounds):
        for r in range(n):
            kind = ctx.choice("k%d_%d" % (t, r), ["none", "array", "two", "nokey"] if n == 2 and (t == 0 or r == 0) else ["none", "array"])
            d = {}
            if kind != "nokey":
                d[("a", t, r)] = None if kind == "none" else far(ctx, ctx.real("v%d_%d" % (t, r), shp[(t + r) % 2]))
            if kind == "two":
                d[("b", t, r)] = far(ctx, ctx.real("w%d_%d" % (t, r), shp[2 if r else 0]))
            plan.append(d)
            vals.update({k: (None if v is None else v.copy()) for k, v in d.items()})
    clear = ctx.boolean("clear") if rounds == 1 else True

    def fn(r):
        m = ifs[r]
        d = RMA_Dict(m)
        bad = []
        for t in range(rounds):
            mine = plan[t * n + r]
            if t == 0 and ctx.boolean("fd"):
                d = m.create_rma_dict(mine)
            else:
                with (d.writable() if t == 0 else d) as dd:
                    for k, v in mine.items():
                        dd[k] = v
                    try:
                        d[("a", 0, 0)]
                        bad.append("read inside")
                    except AttributeError:
                        pass
        try:
            d["x"] = np.zeros(1)
            bad.append("write outside")
        except AttributeError:
            pass
        got = {k: d[k] for k in list(d.keys())}
        info = {k: (d.get_location(k), k in d) for k in got}
        ln = len(d)
        if clear:
            d.clear()
            ln2 = len(d)
            with d:
                d[("c", r)] = far(ctx, np.array([vals_c[r]], dtype=object if ctx.symbolic else float))
            return bad, got, info, ln, ln2, {k: d[k] for k in list(d.keys())}
        return bad, got, info, ln, None, None
    vals_c = [ctx.scalar("c%d" % r) for r in range(n)]
    res = run(ctx, w, fn, max_choices=maxc)
    for r in range(n):
        bad, got, info, ln, ln2, after = res[r]
        ctx.true("misuse rejected %s" % bad, not bad)
        ctx.true("all ranks see all keys", set(got) == set(vals) and ln == len(vals))
        for k, v in vals.items():
            ctx.true("location", info[k] == (k[2], True))
            if v is None:
                ctx.true("None", got[k] is None)
            else:
                ctx.true("shape", got[k].shape == v.shape)
                ctx.eq("value", got[k], v)
        if clear:
            ctx.true("cleared", ln2 == 0 and set(after) == {("c", q) for q in range(n)})
            for q in range(n):
                ctx.eq("after clear", after[("c", q)], np.array([vals_c[q]], dtype=object))


def h_rma_dup(ctx, n):
    """A key written by two ranks in one round is rejected on every rank; wrong types are rejected; serial dictionaries
    behave like a dict."""
    w, ifs = world(ctx, n)
    ka = [ctx.int("k%d" % r, 0, n - 1) for r in range(n)]
    v = ctx.real("v", (n, 2))

    def fn(r):
        d = RMA_Dict(ifs[r])
        try:
            with d.writable():
                d[ka[r]] = far(ctx, v[r])
        except AttributeError:
            return "dup"
        return {k: d[k] for k in d.keys()}
    dup = len(set(ka)) < n
    try:
        res = run(ctx, w, fn, max_choices=6)
    except mpisim.Misuse:
        res = None
    if dup:
        ctx.true("duplicate key rejected everywhere", res is not None and all(x == "dup" for x in res))
    else:
        for r in range(n):
            ctx.true("keys", isinstance(res[r], dict) and set(res[r]) == set(ka))
            for q in range(n):
                ctx.eq("value", res[r][ka[q]], v[q])
    s = RMA_Dict(MPI_Interface(None, log=NullLog()))
    with s.writable():
        s["x"] = v[0]
        s["y"] = None
        ctx.raises("wrong type", lambda: s.__setitem__("z", 3.0), ValueError)
    ctx.eq("serial read", s["x"], v[0])
    ctx.true("serial keys", set(s.keys()) == {"x", "y"} and s["y"] is None)
    with s:
        del s["y"]
    ctx.true("serial delete", set(s.keys()) == {"x"})
    s.clear()
    ctx.true("serial clear", len(s) == 0)


class FakeDF:
    def __init__(self, v=None):
        self._cderi = v
        self.auxmol = "set"


def h_scf(ctx, n, df):
    """scf_with_mpi: only the chosen rank runs the SCF; afterwards every rank's mean field holds that rank's result."""
    w, ifs = world(ctx, n)
    root = ctx.int("root", 0, n - 1)
    e = ctx.real("e", (n,))
    moe = ctx.real("moe", (n, 2))
    mo = ctx.real("mo", (n, 2, 2))
    cd = ctx.real("cd", (n, 3))
    ran = []

    def fn(r):
        mf = types.SimpleNamespace(converged=False, e_tot=0, mo_energy=None, mo_occ=None, mo_coeff=None)

        class MF:
            pass
        mf = MF()
        mf.converged, mf.e_tot, mf.mo_energy, mf.mo_occ, mf.mo_coeff = False, 0, None, None, None
        if df:
            mf.with_df = FakeDF()

        def kernel(dm0=None):
            ran.append(r)
            mf.converged, mf.e_tot, mf.mo_energy = True, e[r], moe[r]
            mf.mo_occ, mf.mo_coeff = np.array([2.0, 0.0]), mo[r].T
            if df:
                mf.with_df._cderi = cd[r]
            return e[r]
        mf.kernel = kernel
        mf2 = ifs[r].scf(mf, mpi_rank=root, log=NullLog())
        out = mf2.kernel(dm0=None)
        return mf2, out
    res = run(ctx, w, fn, max_choices=5)
    ctx.true("only the chosen rank ran the SCF", ran == [root] or n == 1)
    for r in range(n):
        mf, out = res[r]
        ctx.eq("returned", out, e[root])
        ctx.true("converged", mf.converged is True)
        ctx.eq("e_tot", mf.e_tot, e[root])
        ctx.eq("mo_energy", mf.mo_energy, moe[root])
        ctx.eq("mo_coeff", mf.mo_coeff, mo[root].T)
        ctx.eq("mo_occ", mf.mo_occ, np.array([2.0, 0.0]))
        if df:
            ctx.eq("cderi", mf.with_df._cderi, cd[root])
        if n > 1:
            ctx.true("marked", mf.with_mpi is True)


def h_gdf(ctx, n):
    """gdf_with_mpi: only the chosen rank builds the integrals, all ranks point to its file."""
    w, ifs = world(ctx, n)
    root = ctx.int("root", 0, n - 1)
    ran = []

    def fn(r):
        class DF:
            pass
        d = DF()
        d._cderi_to_save = "file%d" % r
        d._cderi = None

        def build():
            ran.append(r)
            d._cderi = d._cderi_to_save
            return d
        d.build = build
        d2 = ifs[r].gdf(d, mpi_rank=root, log=NullLog())
        d2.build()
        return d2._cderi, d2._cderi_to_save
    res = run(ctx, w, fn)
    ctx.true("built once", ran == [root])
    ctx.true("same file everywhere", all(x == ("file%d" % root,) * 2 for x in res))


HARNESSES = [
    Harness("register", h_register, dict(nmax=5, kmax=9), "1-5 processes, 0-9 fragments"),
    Harness("partition.EWF", h_partition, dict(nmax=3, k=4, kind="EWF"), "1-3 processes, 4 fragments, any active set"),
    Harness("partition.DMET", h_partition, dict(nmax=3, k=4, kind="DMET"), "1-3 processes, 4 fragments, any active set", tiers=("thorough",)),
    Harness("nreduce.2x3", h_nreduce, dict(n=2, nargs=3), "2 ranks, 3 arguments, every interleaving"),
    Harness("nreduce.3x1", h_nreduce, dict(n=3, nargs=1), "3 ranks, 1 argument, every interleaving"),
    Harness("nreduce.3x2", h_nreduce, dict(n=3, nargs=2), "3 ranks, 2 arguments, every interleaving", tiers=("thorough",)),
    Harness("decor.2", h_decor, dict(n=2), "2 ranks, every interleaving"),
    Harness("decor.1", h_decor, dict(n=1), "1 rank"),
    Harness("decor.3", h_decor, dict(n=3), "3 ranks, every interleaving", tiers=("thorough",), maxpaths=40000),
    Harness("send.2", h_send, dict(n=2, k=2, maxc=3), "2 ranks, 2 fragments, any owners, buffered or synchronous sends, first 3 scheduling choices free", maxpaths=20000),
    Harness("send.3", h_send, dict(n=3, k=1, maxc=2), "3 ranks, 1 fragment, any owner, buffered or synchronous sends, first 2 scheduling choices free", maxpaths=20000),
    Harness("send.2full", h_send, dict(n=2, k=2, maxc=None), "2 ranks, 2 fragments, every interleaving", tiers=("thorough",), maxpaths=60000, budget=800),
    Harness("send.3x2", h_send, dict(n=3, k=2, maxc=3), "3 ranks, 2 fragments, first 3 scheduling choices free", tiers=("thorough",), maxpaths=60000, budget=800),
    Harness("rma.2", h_rma, dict(n=2, rounds=1, maxc=3), "2 ranks, 1 round, up to 2 keys per rank, first 3 scheduling choices free"),
    Harness("rma.2r2", h_rma, dict(n=2, rounds=2, maxc=1), "2 ranks, 2 rounds, up to 2 keys per rank and round, first scheduling choice free"),
    Harness("rma.3", h_rma, dict(n=3, rounds=1, maxc=3), "3 ranks, 1 round, first 3 scheduling choices free"),
    Harness("rma.dup", h_rma_dup, dict(n=2), "2 ranks, any keys"),
    Harness("rma.dup3", h_rma_dup, dict(n=3), "3 ranks, any keys", tiers=("thorough",)),
    Harness("scf.2", h_scf, dict(n=2, df=True), "2 ranks, density fitting, first 5 scheduling choices free"),
    Harness("scf.2n", h_scf, dict(n=2, df=False), "2 ranks, no density fitting, first 5 scheduling choices free"),
    Harness("scf.3", h_scf, dict(n=3, df=True), "3 ranks, density fitting, first 5 scheduling choices free", tiers=("thorough",)),
    Harness("gdf.2", h_gdf, dict(n=2), "2 ranks"),
    Harness("gdf.3", h_gdf, dict(n=3), "3 ranks, every interleaving", tiers=("thorough",)),
] + [Harness("bcast.%s" % k, h_bcast, dict(n=2, kind=k), "2 ranks, any root, %s" % k) for k in ("array", "T", "slice", "empty", "0d", "none", "tuple")] \
  + [Harness("bcast3.%s" % k, h_bcast, dict(n=3, kind=k), "3 ranks, any root, %s" % k, tiers=("thorough",), maxpaths=20000) for k in ("T", "tuple")]
