"""C13: natural-orbital truncation."""
import types
import numpy as np
from vsym.harness import Harness
from checks.common import *
from vayesta.core.bath import bno
from vayesta.core.bath.bno import BNO_Threshold

META = dict(assumptions=["occupation numbers and thresholds are real numbers (rounding of the running sums is not modelled)"])


class NullLog:
    def __getattr__(self, k):
        return lambda *a, **kw: None


def occups(ctx, name, n):
    o = ctx.real(name, (n,), lo=-0.125, hi=2)
    if ctx.symbolic:
        for i in range(n - 1):
            ctx.assume(o[i] >= o[i + 1])
    else:
        o = np.sort(o)[::-1]
    return o


def pos(x):
    return x if x > 0 else 0 * x


def check_number(ctx, kind, occ, thr, ne, k, lab=""):
    n = len(occ)
    ctx.true(lab + "range", 0 <= k <= n)
    if kind == "occupation":
        for i in range(n):
            ctx.true(lab + "kept/discarded", (occ[i] >= thr) if i < k else (occ[i] < thr))
        return
    p = [pos(x) for x in occ]
    tot = sum(p, 0)

    def lost(j):
        return sum(p[j:], 0)
    allow = dict(truncation=thr, **{"electron-percent": thr * ne, "excited-percent": thr * tot})[kind]
    ctx.true(lab + "lost electrons within the threshold", lost(k) <= allow)
    if k:
        ctx.true(lab + "no smaller number would do", lost(k - 1) > allow)


def h_number(ctx, kind, n):
    occ = occups(ctx, "occ", n)
    thr = ctx.scalar("thr", 0, 1)
    ne = 2 * n + 2
    before = np.array(occ)
    k = int(BNO_Threshold(kind, thr).get_number(occ, electron_total=ne))
    ctx.eq("occupations untouched", occ, before)
    check_number(ctx, kind, occ, thr, ne, k)


def h_monotone(ctx, kind, n):
    """A tighter threshold never keeps fewer orbitals."""
    occ = occups(ctx, "occ", n)
    t1, t2 = ctx.scalar("t1", 0, 1), ctx.scalar("t2", 0, 1)
    if ctx.fork(t1 > t2):
        t1, t2 = t2, t1
    k1 = int(BNO_Threshold(kind, t1).get_number(occ, electron_total=2 * n))
    k2 = int(BNO_Threshold(kind, t2).get_number(occ, electron_total=2 * n))
    ctx.true("monotone", k1 >= k2)


def h_fixed(ctx, nmax):
    n, k = ctx.int("n", 0, nmax), ctx.int("k", 0, nmax)
    occ = occups(ctx, "occ", n)
    ctx.true("fixed number", min(int(BNO_Threshold("number", k).get_number(occ)), n) == min(k, n))


def h_type(ctx):
    ctx.raises("unknown rule rejected", lambda: BNO_Threshold("electrons", 0.1), ValueError)


def mkbath(cls, ne, occtype):
    b = cls.__new__(cls)
    b.fragment = types.SimpleNamespace(log=NullLog())
    b.dmet_bath = types.SimpleNamespace(get_cluster_electrons=lambda: ne)
    b.occtype = occtype
    return b


def h_trunc(ctx, kind, n, uhf, verbose=False):
    """Splitting the orbitals: leading columns are kept, nothing is lost or repeated."""
    cls = bno.BNO_Bath_UHF if uhf else bno.BNO_Bath
    ne = 6
    b = mkbath(cls, ne, ctx.choice("occtype", ["occupied", "virtual"]))
    ns = n if uhf else (n,)
    occ = [occups(ctx, "occ%d" % s, m) for s, m in enumerate(ns)]
    C = [ctx.real("c%d" % s, (3, m)) for s, m in enumerate(ns)]
    if kind == "plain":
        thr = ctx.scalar("thr", 0, 1) if ctx.symbolic else float(ctx.scalar("thr", 0, 1))
        t = thr if not ctx.symbolic else BNO_Threshold("occupation", thr)
        kind = "occupation"
    elif kind == "number":
        thr = ctx.int("k", 0, max(ns) + 1)
        t = BNO_Threshold("number", thr)
    else:
        thr = ctx.scalar("thr", 0, 1)
        t = BNO_Threshold(kind, thr)
    if uhf:
        bath, rest = b.truncate_bno(tuple(C), tuple(occ), bno_threshold=t, verbose=verbose)
    else:
        bath, rest = b.truncate_bno(C[0], occ[0], bno_threshold=t, verbose=verbose)
        bath, rest = (bath,), (rest,)
    for s, m in enumerate(ns):
        k = bath[s].shape[-1]
        ctx.true("all orbitals accounted for", k + rest[s].shape[-1] == m)
        ctx.eq("bath", bath[s], C[s][:, :k])
        ctx.eq("rest", rest[s], C[s][:, k:])
        if kind == "number":
            ctx.true("fixed number", k == min(thr, m))
        else:
            check_number(ctx, kind, occ[s], thr, ne, k)


HARNESSES = []


def add(name, fn, tiers=("quick", "thorough"), **p):
    HARNESSES.append(Harness(name + "[" + ",".join("%s=%s" % (k, str(v).replace(" ", "")) for k, v in p.items()) + "]", fn, p,
                             bounds="number of orbitals as named; every non-increasing occupation list in [-1/8, 2] and every threshold in [0, 1]", tiers=tiers))


T = ("thorough",)
KINDS = ("occupation", "truncation", "electron-percent", "excited-percent")
for kind in KINDS:
    for n in (0, 1, 2, 3, 4):
        add("number", h_number, kind=kind, n=n)
    for n in (5, 6):
        add("number", h_number, kind=kind, n=n, tiers=T)
    add("monotone", h_monotone, kind=kind, n=3)
    add("monotone", h_monotone, kind=kind, n=4, tiers=T)
    add("trunc", h_trunc, kind=kind, n=3, uhf=False)
    add("trunc", h_trunc, kind=kind, n=(2, 1), uhf=True)
    add("trunc", h_trunc, kind=kind, n=(2, 3), uhf=True, tiers=T)
add("fixed", h_fixed, nmax=4)
add("type", h_type)
add("trunc", h_trunc, kind="number", n=3, uhf=False)
add("trunc", h_trunc, kind="number", n=(1, 2), uhf=True)
add("trunc", h_trunc, kind="plain", n=3, uhf=False)
