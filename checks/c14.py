"""C14: memory blocking never changes results."""
import types
import numpy as np
from vsym.harness import Harness
from checks.common import *
from checks.c05 import ratC
from checks.c13 import NullLog
from vayesta.core.util import brange, split_into_blocks
from vayesta.core.bath import bno

META = dict(assumptions=["mean-field orbital energies of the amplitude harnesses are fixed rationals; integrals and fragment projector entries are symbolic"])


def cover(ctx, lab, slices, start, stop, maxlen=None):
    at = start
    for s in slices:
        ctx.true(lab + " contiguous", s.start == at)
        ctx.true(lab + " non-empty", s.stop > s.start)
        if maxlen is not None:
            ctx.true(lab + " block size", s.stop - s.start <= maxlen)
        at = s.stop
    ctx.true(lab + " complete", at == max(stop, start))


def h_brange(ctx, nmax):
    start, stop = ctx.int("start", 0, nmax), ctx.int("stop", 0, nmax)
    step = ctx.int("step", -1, nmax + 2)
    mn = ctx.int("minstep", 1, 3)
    bl = list(brange(start, stop, step, minstep=mn))
    cover(ctx, "brange", bl, start, stop, max(step, mn) if stop > start else None)
    cover(ctx, "brange one argument", list(brange(stop)), 0, stop, 1)
    cover(ctx, "brange two arguments", list(brange(start, stop)), start, stop, 1)


def h_brange_max(ctx, nmax):
    stop = ctx.int("stop", 0, nmax)
    step, mx = ctx.int("step", 1, nmax + 1), ctx.int("maxstep", 1, nmax)
    cover(ctx, "brange maxstep", list(brange(0, stop, step, maxstep=mx)), 0, stop, mx)


def h_split(ctx, shape):
    a = ctx.real("a", shape)
    axis = ctx.int("axis", -len(shape), len(shape) - 1)
    mode = ctx.choice("mode", ["size", "memory"])
    n = shape[axis]
    if mode == "size":
        bs = ctx.int("bs", 1, n + 1)
        it = list(split_into_blocks(a, axis=axis, blocksize=bs))
    else:
        mem = ctx.int("mem", 1, int(np.prod(shape)) + 1) * 8
        it = list(split_into_blocks(a, axis=axis, max_memory=mem))
        bs = None
    full = list(range(n))
    seen = []
    pieces = []
    for blk, sub in it:
        seen += full[blk]
        pieces.append(sub)
        idx = [slice(None)] * len(shape)
        idx[axis] = blk
        ctx.eq("block content", sub, a[tuple(idx)])
        if bs is not None:
            ctx.true("block size", sub.shape[axis] <= bs)
    ctx.true("every index once in order", seen == full)


def mkbath(ctx, cls, nao, cfrag, has_df, eris, cderi, occtype):
    b = cls.__new__(cls)
    base = types.SimpleNamespace(get_ovlp=lambda: np.eye(nao), has_df=has_df,
                                 get_eris_array=lambda mo: eris, get_eris_array_uhf=lambda mo, mo_coeff2=None: eris,
                                 get_cderi=lambda mo: cderi(mo))
    b.fragment = types.SimpleNamespace(log=NullLog(), base=base, c_frag=cfrag, mf=None, mol=None)
    b.occtype = occtype
    b.project_dmet_order = 0
    return b


class Space:
    pass


def blockarg(ctx, nocc, nvir):
    mode = ctx.choice("mode", ["size", "memory"])
    if mode == "size":
        return dict(blksize=ctx.int("bs", 1, nocc + 1))
    return dict(max_memory=ctx.int("mem", 1, nocc + 1) * (nocc * nvir * nvir * 8) // 2)


def h_t2r(ctx, no, nv, df, naux=2, neg=False):
    """Restricted second-order amplitudes and projected energy for every block size."""
    n = no + nv
    e = [-(n - i) for i in range(no)] + [1 + i for i in range(nv)]
    fock = np.diag(np.array(e, dtype=float))
    s = Space()
    s.c_active = np.eye(n)
    s.c_active_occ, s.c_active_vir = s.c_active[:, :no], s.c_active[:, no:]
    L = N = None
    if df:
        L = ctx.real("L", (naux, no, nv))
        g = np.einsum("Lia,Ljb->iajb", L, L)
        if neg:
            N = ctx.real("N", (1, no, nv))
            g = g - np.einsum("Lia,Ljb->iajb", N, N)
    else:
        g = ctx.unique("g", (no, nv, no, nv), [((2, 3, 0, 1), 1)])
    cf = np.zeros((n, 1), dtype=object) if ctx.symbolic else np.zeros((n, 1))
    cf[:, 0] = ctx.real("f", (n,))
    b = mkbath(ctx, bno.MP2_BNO_Bath, n, cf, df, g, lambda mo: (L, N), ctx.choice("occtype", ["occupied", "virtual"]))
    kw = blockarg(ctx, no, nv)
    only = ctx.boolean("energy_only")
    t2, ec = b._make_t2(s, fock, energy_only=only, **kw)
    gg = g.transpose(0, 2, 1, 3)
    from fractions import Fraction
    inv = np.empty(gg.shape, dtype=object)
    for i, j, a, c in np.ndindex(*gg.shape):
        inv[i, j, a, c] = Fraction(1, e[i] + e[j] - e[no + a] - e[no + c])
    if not ctx.symbolic:
        inv = inv.astype(float)
    t = gg * inv
    if only:
        ctx.true("no amplitudes stored", t2 is None)
    else:
        ctx.eq("amplitudes", t2, t)
    f = cf[:no, 0]
    tp, gp = np.einsum("i,ijab->jab", f, t), np.einsum("i,ijab->jab", f, gg)
    ctx.eq("projected energy", ec, 2 * np.einsum("jab,jab->", tp, gp) - np.einsum("jab,jba->", tp, gp))


def h_t2u(ctx, no, nv, df, naux=1, neg=False):
    n = (no[0] + nv[0], no[1] + nv[1])
    nao = max(n)
    es = [[-(4 + s - i) for i in range(no[s])] + [1 + i + 2 * s for i in range(nv[s])] for s in (0, 1)]
    s = Space()
    s.c_active = (np.eye(nao)[:, :n[0]], np.eye(nao)[:, :n[1]])
    s.c_active_occ = tuple(s.c_active[x][:, :no[x]] for x in (0, 1))
    s.c_active_vir = tuple(s.c_active[x][:, no[x]:] for x in (0, 1))
    fock = tuple(np.diag(np.array(es[x] + [0] * (nao - n[x]), dtype=float)) for x in (0, 1))
    L = N = None
    if df:
        L = [ctx.real("L%d" % x, (naux, no[x], nv[x])) for x in (0, 1)]
        gs = [np.einsum("Lia,Ljb->iajb", L[x], L[y]) for x, y in ((0, 0), (0, 1), (1, 1))]
        if neg:
            N = [ctx.real("N%d" % x, (1, no[x], nv[x])) for x in (0, 1)]
            gs = [g - np.einsum("Lia,Ljb->iajb", N[x], N[y]) for g, (x, y) in zip(gs, ((0, 0), (0, 1), (1, 1)))]
    else:
        gs = [ctx.unique("gaa", (no[0], nv[0]) * 2, [((2, 3, 0, 1), 1)]),
              ctx.real("gab", (no[0], nv[0], no[1], nv[1])),
              ctx.unique("gbb", (no[1], nv[1]) * 2, [((2, 3, 0, 1), 1)])]

    def cderi(mo):
        x = 0 if mo[0] is s.c_active_occ[0] or np.shape(mo[0]) == np.shape(s.c_active_occ[0]) else 1
        return L[x], (None if N is None else N[x])
    cf = []
    for x in (0, 1):
        c = np.zeros((nao, 1), dtype=object) if ctx.symbolic else np.zeros((nao, 1))
        c[:, 0] = ctx.real("f%d" % x, (nao,))
        cf.append(c)
    b = mkbath(ctx, bno.UMP2_BNO_Bath, nao, tuple(cf), df, gs, cderi, ctx.choice("occtype", ["occupied", "virtual"]))
    kw = blockarg(ctx, max(no), max(nv))
    only = ctx.boolean("energy_only")
    t2, ec = b._make_t2(s, fock, energy_only=only, **kw)
    from fractions import Fraction
    ref, e = [], 0
    for k, (x, y) in enumerate(((0, 0), (0, 1), (1, 1))):
        g = gs[k].transpose(0, 2, 1, 3)
        inv = np.empty(g.shape, dtype=object)
        for i, j, a, c in np.ndindex(*g.shape):
            inv[i, j, a, c] = Fraction(1, es[x][i] + es[y][j] - es[x][no[x] + a] - es[y][no[y] + c])
        if not ctx.symbolic:
            inv = inv.astype(float)
        t = g * inv
        fx, fy = cf[x][:no[x], 0], cf[y][:no[y], 0]
        if x == y:
            t = t - t.transpose(0, 1, 3, 2)
            tp, gp = np.einsum("i,ijab->jab", fx, t), np.einsum("i,ijab->jab", fx, g)
            q = np.einsum("jab,jab->", tp, gp) - np.einsum("jab,jba->", tp, gp)
            e = e + (q * Fraction(1, 4) if ctx.symbolic else q / 4)
        else:
            q = np.einsum("jab,jab->", np.einsum("i,ijab->jab", fx, t), np.einsum("i,ijab->jab", fx, g))
            q = q + np.einsum("iab,iab->", np.einsum("j,ijab->iab", fy, t), np.einsum("j,ijab->iab", fy, g))
            e = e + (q * Fraction(1, 2) if ctx.symbolic else q / 2)
        ref.append(t)
    if not only:
        ctx.eq("amplitudes", list(t2), ref)
    ctx.eq("projected energy", ec, e)


def h_cderi(ctx, naux, nao, pbc):
    """Three-centre integrals read from disk in blocks of auxiliary functions."""
    from vayesta.core import eris as veris
    full = ctx.unique("L", (naux, nao, nao), [((0, 2, 1), 1)])
    neg = ctx.unique("N", (1, nao, nao), [((0, 2, 1), 1)]) if pbc == 2 else None
    il = np.tril_indices(nao)
    bs = ctx.int("bs", 1, naux + 1)

    class DF:
        def get_naoaux(self):
            return naux

        def loop(self, blksize=None):
            for k in range(0, naux, blksize):
                yield full[k:k + blksize][:, il[0], il[1]]

    class GDF(DF):
        def sr_loop(self, compact=True, blksize=None):
            assert not compact
            for k in range(0, naux, blksize):
                x = full[k:k + blksize].reshape(-1, nao * nao)
                yield x, np.zeros(x.shape), 1
            if neg is not None:
                yield neg.reshape(-1, nao * nao), np.zeros((1, nao * nao)), -1
    mf = types.SimpleNamespace(mol=types.SimpleNamespace(nao=nao), with_df=(GDF if pbc else DF)())
    c1, c2 = ctx.real("c1", (nao, 2)), ctx.real("c2", (nao, 1))
    ref = np.einsum("Lab,ai,bj->Lij", full, c1, c2, optimize=True)
    x, xn = veris.get_cderi_df(mf, (c1, c2), blksize=bs)
    ctx.eq("cderi", x, ref)
    ctx.true("negative part present", (xn is None) == (neg is None))
    if neg is not None:
        ctx.eq("negative part", xn, np.einsum("Lab,ai,bj->Lij", neg, c1, c2, optimize=True))
    x, xn = veris.get_cderi_df(mf, c1, blksize=bs)
    ctx.eq("cderi one set", x, np.einsum("Lab,ai,bj->Lij", full, c1, c1, optimize=True))
    ex = ctx.real("ex", (2, nao, nao))
    x, xn = veris.get_cderi_df_exspace(mf, ex, blksize=bs)
    ctx.eq("excitation space", x, np.einsum("Lab,nab->Ln", full, ex, optimize=True))
    if neg is not None:
        ctx.eq("excitation space negative", xn, np.einsum("Lab,nab->Ln", neg, ex, optimize=True))


HARNESSES = []


def add(name, fn, tiers=("quick", "thorough"), **p):
    HARNESSES.append(Harness(name + "[" + ",".join("%s=%s" % (k, str(v).replace(" ", "")) for k, v in p.items()) + "]", fn, p,
                             bounds="sizes as named; every block size / memory limit in the stated range, every array value", tiers=tiers))


T = ("thorough",)
add("brange", h_brange, nmax=5)
add("brange", h_brange, nmax=9, tiers=T)
add("brange_max", h_brange_max, nmax=6)
add("split", h_split, shape=(3, 2))
add("split", h_split, shape=(2, 4, 1))
add("split", h_split, shape=(5, 3), tiers=T)
for df in (False, True):
    add("t2r", h_t2r, no=3, nv=2, df=df)
    add("t2u", h_t2u, no=(2, 3), nv=(2, 1), df=df)
    add("t2r", h_t2r, no=4, nv=2, df=df, tiers=T)
    add("t2u", h_t2u, no=(3, 2), nv=(1, 2), df=df, tiers=T)
add("t2r", h_t2r, no=2, nv=2, df=True, neg=True)
add("t2u", h_t2u, no=(2, 3), nv=(2, 1), df=True, neg=True)
for pbc in (0, 1, 2):
    add("cderi", h_cderi, naux=3, nao=2, pbc=pbc)
add("cderi", h_cderi, naux=5, nao=3, pbc=2, tiers=T)
