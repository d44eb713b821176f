"""C03: rotating occupied/virtual orbitals leaves physical content unchanged."""
import numpy as np
from vsym.harness import Harness
from checks.common import *
from checks.c02 import uamps, cp

META = dict(assumptions=["rotations: products of Givens rotations with symbolic angle (fixed rational rotation composed for 3 orbitals)"])


def bd(a, b):
    r = np.zeros((len(a) + len(b),) * 2, dtype=object)
    r[:len(a), :len(a)] = a
    r[len(a):, len(a):] = b
    return r


def fl(ctx, a):
    return a if ctx.symbolic else np.asarray(a, dtype=float)


def dm2_ao(w, **kw):
    return w.make_rdm2(ao_basis=True, **kw)


def h_r(ctx, no, nv, dm2=False, rdm=True, full=False):
    n = no + nv
    C = ctx.orth("C", n) if full else fl(ctx, bd(np.eye(no), np.eye(nv)))
    mo = rmo(ctx, no, nv, C.copy())
    t1, t2, l1, l2 = ctx.real("t1", (no, nv)), ctx.t2("t2", no, nv), ctx.real("l1", (no, nv)), ctx.t2("l2", no, nv)
    w = wf.CCSD_WaveFunction(mo, t1.copy(), t2.copy(), l1=l1.copy(), l2=l2.copy())
    to, tv = ctx.orth("o", no), ctx.orth("v", nv)
    R = fl(ctx, bd(to, tv))
    for nm, x in (("ov", w.rotate_ov(to, tv)), ("rotate", w.rotate(R)), ("inplace", w.copy().rotate_ov(to, tv, inplace=True))):
        ctx.eq(nm + " coeff", x.mo.coeff, np.dot(C, R))
        for a, y, z in (("t", x.t1, t1), ("l", x.l1, l1)):
            ctx.eq(nm + a + "1", y, np.einsum("ia,iI,aA->IA", z, to, tv, optimize=True))
        for a, y, z in (("t", x.t2, t2), ("l", x.l2, l2)):
            ctx.eq(nm + a + "2", y, np.einsum("ijab,iI,jJ,aA,bB->IJAB", z, to, to, tv, tv, optimize=True))
        ctx.true(nm + " counts", x.mo.nocc == no and x.mo.norb == n)
    for a, y, z in (("t1", w.t1, t1), ("t2", w.t2, t2), ("l1", w.l1, l1), ("l2", w.l2, l2), ("coeff", w.mo.coeff, C)):
        ctx.eq("unchanged " + a, y, z)
    x = w.rotate_ov(to, tv)
    b = x.rotate_ov(to.T, tv.T)
    for a, y, z in (("t1", b.t1, t1), ("t2", b.t2, t2), ("l1", b.l1, l1), ("l2", b.l2, l2), ("coeff", b.mo.coeff, C)):
        ctx.eq("back " + a, y, z)
    if rdm:
        ctx.eq("dm1 ao", x.make_rdm1(ao_basis=True), w.make_rdm1(ao_basis=True))
        ctx.eq("dm1 ao corr", x.make_rdm1(ao_basis=True, with_mf=False), w.make_rdm1(ao_basis=True, with_mf=False))
    if dm2:
        ctx.eq("dm2 ao", dm2_ao(x), dm2_ao(w))
        ctx.eq("dm2 cumulant ao", dm2_ao(x, with_dm1=False), dm2_ao(w, with_dm1=False))
    if ctx.symbolic or True:
        bad = R.copy()
        bad[0, n - 1] = bad[0, n - 1] + 1
        ctx.raises("mixing rejected", lambda: w.rotate(bad), ValueError)


def h_u(ctx, no, nv, dm2=False, n4=False, same=False):
    n = [no[s] + nv[s] for s in (0, 1)]
    C = [fl(ctx, np.eye(k, dtype=int).astype(object)) for k in n]
    mo = umo(ctx, no, nv, tuple(c.copy() for c in C))
    (t1, t2), (l1, l2) = uamps(ctx, "t", no, nv), uamps(ctx, "l", no, nv)
    if n4:
        # a projected wave function: the beta-alpha block is independent of the alpha-beta one
        ba = (no[1], no[0], nv[1], nv[0])
        t2 = (t2[0], t2[1], ctx.real("t2ba", ba), t2[2])
        l2 = (l2[0], l2[1], ctx.real("l2ba", ba), l2[2])
    w = wf.CCSD_WaveFunction(mo, cp(t1), cp(t2), l1=cp(l1), l2=cp(l2))
    to = tuple(ctx.orth("o%d" % (0 if same else s), no[s]) for s in (0, 1))
    tv = tuple(ctx.orth("v%d" % (0 if same else s), nv[s]) for s in (0, 1))
    R = tuple(fl(ctx, bd(to[s], tv[s])) for s in (0, 1))
    sp = [(0, 0), (0, 1), (1, 0), (1, 1)] if n4 else [(0, 0), (0, 1), (1, 1)]
    xs = [("ov", w.rotate_ov(to, tv)), ("rotate", w.rotate(R)), ("inplace", w.copy().rotate_ov(to, tv, inplace=True))]
    if same:
        xs.append(("common matrix", w.rotate(R[0])))
    for nm, x in xs:
        ctx.eq(nm + " coeff", list(x.mo.coeff), [np.dot(C[s], R[s]) for s in (0, 1)])
        for a, y, z in (("t", x.t1, t1), ("l", x.l1, l1)):
            ctx.eq(nm + a + "1", list(y), [np.einsum("ia,iI,aA->IA", z[s], to[s], tv[s], optimize=True) for s in (0, 1)])
        for a, y, z in (("t", x.t2, t2), ("l", x.l2, l2)):
            ctx.eq(nm + a + "2", list(y), [np.einsum("ijab,iI,jJ,aA,bB->IJAB", zz, to[s], to[q], tv[s], tv[q], optimize=True)
                                           for (s, q), zz in zip(sp, z)])
    for a, y, z in (("t1", w.t1, t1), ("t2", w.t2, t2), ("l1", w.l1, l1), ("l2", w.l2, l2), ("coeff", w.mo.coeff, C)):
        ctx.eq("unchanged " + a, list(y), list(z))
    x = w.rotate_ov(to, tv)
    b = x.rotate_ov(tuple(y.T for y in to), tuple(y.T for y in tv))
    for a, y, z in (("t1", b.t1, t1), ("t2", b.t2, t2), ("l1", b.l1, l1), ("l2", b.l2, l2), ("coeff", b.mo.coeff, C)):
        ctx.eq("back " + a, list(y), list(z))
    for mf in (True, False) if not n4 else ():
        ctx.eq("dm1 ao %s" % mf, list(x.make_rdm1(ao_basis=True, with_mf=mf)), list(w.make_rdm1(ao_basis=True, with_mf=mf)))
    if dm2:
        ctx.eq("dm2 ao", list(dm2_ao(x)), list(dm2_ao(w)))
    for s in (0, 1):
        bad = [r.copy() for r in R]
        bad[s][n[s] - 1, 0] = bad[s][n[s] - 1, 0] + 1
        ctx.raises("mixing rejected", lambda: w.rotate(tuple(bad)), ValueError)


def h_orb(ctx):
    """basis_transform of orbital containers and clusters, in place or not."""
    from vayesta.core.types import Cluster
    a, f = ctx.real("a", (4, 2)), ctx.real("f", (4, 2))
    M = ctx.real("M", (3, 4))
    tr = lambda c: np.dot(M, c)
    cl = Cluster.from_coeffs(a[:, :1].copy(), a[:, 1:].copy(), f[:, :1].copy(), f[:, 1:].copy())
    for inpl in (False, True):
        c = cl.copy() if inpl else cl
        r = c.basis_transform(tr, inplace=inpl)
        ctx.eq("active", r.c_active, np.dot(M, a))
        ctx.eq("frozen", r.c_frozen, np.dot(M, f))
        ctx.true("object", (r is c) == inpl)
        ctx.eq("source", cl.c_active, a)
        ctx.eq("source frozen", cl.c_frozen, f)
        ctx.eq("total occ", r.c_total_occ, np.dot(M, np.hstack((f[:, :1], a[:, :1]))))
        ctx.eq("total vir", r.c_total_vir, np.dot(M, np.hstack((a[:, 1:], f[:, 1:]))))
        ctx.eq("occ", r.c_active_occ, np.dot(M, a[:, :1]))
    M2 = (ctx.real("Ma", (3, 4)), ctx.real("Mb", (3, 4)))
    ua, uf = [ctx.real("ua%d" % s, (4, 2)) for s in (0, 1)], [ctx.real("uf%d" % s, (4, 2)) for s in (0, 1)]
    h = lambda x, s: tuple(y[:, s].copy() for y in x)
    lo, hi = slice(0, 1), slice(1, 2)
    cl = Cluster.from_coeffs(h(ua, lo), h(ua, hi), h(uf, lo), h(uf, hi))
    r = cl.basis_transform((lambda c: np.dot(M2[0], c), lambda c: np.dot(M2[1], c)))
    ctx.eq("u active", list(r.c_active), [np.dot(M2[s], ua[s]) for s in (0, 1)])
    ctx.eq("u frozen", list(r.c_frozen), [np.dot(M2[s], uf[s]) for s in (0, 1)])
    ctx.eq("u source", list(cl.c_active), ua)
    r = cl.basis_transform(tr)
    ctx.eq("u common", list(r.c_active), [np.dot(M, ua[s]) for s in (0, 1)])
    ctx.true("u counts", tuple(r.nocc_total) == (2, 2) and tuple(r.norb_active) == (2, 2) and tuple(r.nvir_frozen) == (1, 1))


Q, T = ("quick", "thorough"), ("thorough",)
HARNESSES = [
    Harness("r_22", h_r, dict(no=2, nv=2), "nocc=2 nvir=2, two symbolic rotations, dm1 in AO basis"),
    Harness("r_22_mo", h_r, dict(no=2, nv=2, full=True, rdm=False), "nocc=2 nvir=2 and a rotated AO coefficient matrix"),
    Harness("r_13_mo", h_r, dict(no=1, nv=3), "nocc=1 nvir=3"),
    Harness("r_31", h_r, dict(no=3, nv=1), "nocc=3 nvir=1"),
    Harness("r_21_dm2", h_r, dict(no=2, nv=1, dm2=True), "nocc=2 nvir=1, 2-RDM in AO basis", budget=300),
    Harness("u_21_12", h_u, dict(no=(2, 1), nv=(1, 2)), "nocc=(2,1) nvir=(1,2)"),
    Harness("u_22_12", h_u, dict(no=(2, 2), nv=(1, 2)), "nocc=(2,2) nvir=(1,2), independent alpha/beta rotations"),
    Harness("u_22_12_4", h_u, dict(no=(2, 2), nv=(1, 2), n4=True), "same with four amplitude blocks"),
    Harness("u_22_22_same", h_u, dict(no=(2, 2), nv=(1, 1), same=True), "one matrix for both spins"),
    Harness("u_21_12_dm2", h_u, dict(no=(2, 1), nv=(1, 2), dm2=True), "2-RDM in AO basis", budget=300),
    Harness("orbitals", h_orb, {}, "4 AOs, 2 active, 2 frozen orbitals, arbitrary 3x4 basis change"),
    Harness("u_22_22", h_u, dict(no=(2, 2), nv=(2, 2)), "nocc=(2,2) nvir=(2,2)", T, budget=600),
    Harness("r_22_dm2", h_r, dict(no=2, nv=2, dm2=True), "nocc=2 nvir=2, 2-RDM in AO basis", T, budget=800),
]
