"""C05: density matrices of the wave-function types."""
import itertools
from fractions import Fraction
import numpy as np
from vsym.harness import Harness
from vsym import fock
from checks.common import *
from checks.c02 import uamps, cp
from checks.c04 import arrs

META = dict(assumptions=["FCI density matrices: pyscf's make_rdm1/make_rdm12 kernels are replaced by their definition on determinants (vsym/fock.py) in the symbolic run; the concrete twin uses the compiled kernels",
                         "CCSD oracle: <0|(1+Lambda) exp(-T) O exp(T)|0> on determinants, symmetrised"])


def ratC(ctx, m, n):
    """Fixed rational m x n coefficient matrix."""
    a = np.array([[Fraction((3 * i + 5 * j) % 7 - 3, 4) + (1 if i == j else 0) for j in range(n)] for i in range(m)], dtype=object)
    return ctx.const(a) if ctx.symbolic else a.astype(float)


def mf1(ctx, n, no, f):
    a = np.zeros((n, n), dtype=int)
    a[np.arange(no), np.arange(no)] = f
    return a


def wr(a, b):
    return np.einsum("ij,kl->ijkl", a, b) - np.einsum("ij,kl->ilkj", a, b) * Fraction(1, 2) if a.dtype == object or b.dtype == object else \
        np.einsum("ij,kl->ijkl", a, b) - np.einsum("ij,kl->ilkj", a, b) / 2


def wu(a, b, same):
    r = np.einsum("ij,kl->ijkl", a, b)
    return r - np.einsum("ij,kl->ilkj", a, b) if same else r


def nc_r(dm1, mf, approx):
    if not approx:
        return wr(dm1, dm1)
    return wr(mf, dm1) + wr(dm1, mf) - wr(mf, mf)


def nc_u(dm1, mf, approx):
    out = []
    for s, t in ((0, 0), (0, 1), (1, 1)):
        if not approx:
            out.append(wu(dm1[s], dm1[t], s == t))
        else:
            out.append(wu(mf[s], dm1[t], s == t) + wu(dm1[s], mf[t], s == t) - wu(mf[s], mf[t], s == t))
    return out


def ao1(c, d):
    return np.einsum("ai,ij,bj->ab", c, d, c, optimize=True)


def ao2(c, e, d):
    return np.einsum("ijkl,ai,bj,ck,dl->abcd", d, c, c, e, e, optimize=True)


def perms(ctx, lab, d):
    ctx.eq(lab + " hermitian", d, d.transpose(1, 0, 3, 2))


def check_r(ctx, w, no, n, exact_cumulant=True, exact_state=True, norm=1, ao_dm2=True):
    """Option consistency of a restricted wave function."""
    C = w.mo.coeff
    mf = mf1(ctx, n, no, 2)
    d1 = w.make_rdm1()
    ctx.eq("hermitian", d1, d1.T)
    if norm is not None:
        ctx.eq("electrons", sum(d1[i, i] for i in range(n)), 2 * no * norm)
    ctx.eq("dm1 without mf", w.make_rdm1(with_mf=False), d1 - mf)
    ctx.eq("dm1 ao", w.make_rdm1(ao_basis=True), ao1(C, d1))
    ctx.eq("dm1 ao without mf", w.make_rdm1(ao_basis=True, with_mf=False), ao1(C, d1 - mf))
    d2 = w.make_rdm2()
    perms(ctx, "dm2", d2)
    ctx.eq("dm2 exchange", d2, d2.transpose(2, 3, 0, 1))
    if exact_state:
        ctx.eq("contraction", np.einsum("ijkk->ij", d2), (2 * no - 1) * d1)
    for approx in (True, False) if exact_cumulant else (True,):
        c = w.make_rdm2(with_dm1=False, approx_cumulant=approx)
        ctx.eq("cumulant approx=%s" % approx, c, d2 - nc_r(d1, mf, approx))
        if ao_dm2:
            ctx.eq("cumulant ao approx=%s" % approx, w.make_rdm2(with_dm1=False, approx_cumulant=approx, ao_basis=True), ao2(C, C, c))
    if ao_dm2:
        ctx.eq("dm2 ao", w.make_rdm2(ao_basis=True), ao2(C, C, d2))
    ctx.eq("repeatable dm1", w.make_rdm1(), d1)
    ctx.eq("repeatable dm2", w.make_rdm2(), d2)
    return d1, d2


def check_u(ctx, w, no, n, exact_state=True, norm=1, ao_dm2=True):
    C = w.mo.coeff
    mf = [mf1(ctx, n[s], no[s], 1) for s in (0, 1)]
    d1 = list(w.make_rdm1())
    for s in (0, 1):
        ctx.eq("hermitian", d1[s], d1[s].T)
        if norm is not None:
            ctx.eq("electrons", sum([d1[s][i, i] for i in range(n[s])], 0), no[s] * norm)
    ctx.eq("dm1 without mf", list(w.make_rdm1(with_mf=False)), [d1[s] - mf[s] for s in (0, 1)])
    ctx.eq("dm1 ao", list(w.make_rdm1(ao_basis=True)), [ao1(C[s], d1[s]) for s in (0, 1)])
    ctx.eq("dm1 ao without mf", list(w.make_rdm1(ao_basis=True, with_mf=False)), [ao1(C[s], d1[s] - mf[s]) for s in (0, 1)])
    d2 = list(w.make_rdm2())
    for d in d2:
        perms(ctx, "dm2", d)
    for d in (d2[0], d2[2]):
        ctx.eq("dm2 exchange", d, d.transpose(2, 3, 0, 1))
        ctx.eq("dm2 antisymmetric", d, -d.transpose(0, 3, 2, 1))
    if exact_state:
        ctx.eq("contraction aa", np.einsum("ijkk->ij", d2[0]), (no[0] - 1) * d1[0])
        ctx.eq("contraction bb", np.einsum("ijkk->ij", d2[2]), (no[1] - 1) * d1[1])
        ctx.eq("contraction ab", np.einsum("ijkk->ij", d2[1]), no[1] * d1[0])
        ctx.eq("contraction ba", np.einsum("kkij->ij", d2[1]), no[0] * d1[1])
    sp = ((0, 0), (0, 1), (1, 1))
    for approx in (True, False):
        c = list(w.make_rdm2(with_dm1=False, approx_cumulant=approx))
        ctx.eq("cumulant approx=%s" % approx, c, [a - b for a, b in zip(d2, nc_u(d1, mf, approx))])
        if ao_dm2:
            ctx.eq("cumulant ao approx=%s" % approx, list(w.make_rdm2(with_dm1=False, approx_cumulant=approx, ao_basis=True)),
                   [ao2(C[s], C[t], x) for (s, t), x in zip(sp, c)])
    if ao_dm2:
        ctx.eq("dm2 ao", list(w.make_rdm2(ao_basis=True)), [ao2(C[s], C[t], x) for (s, t), x in zip(sp, d2)])
    ctx.eq("repeatable dm1", list(w.make_rdm1()), d1)
    ctx.eq("repeatable dm2", list(w.make_rdm2()), d2)
    return d1, d2


def spin_sum(d1, d2):
    return d1[0] + d1[1], d2[0] + d2[1] + d2[1].transpose(2, 3, 0, 1) + d2[2]


def h_hf(ctx):
    n, no = 3, 1
    C = ctx.real("C", (4, n))
    w = wf.HF_WaveFunction(rmo(ctx, no, n - no, C))
    d = w.make_rdm1()
    ctx.eq("ao", d, 2 * np.outer(C[:, 0], C[:, 0]))
    ctx.eq("mo", w.make_rdm1(ao_basis=False), mf1(ctx, n, no, 2))
    ctx.eq("dm2", w.make_rdm2(), wr(d, d))
    m = mf1(ctx, n, no, 2)
    ctx.eq("dm2 mo", w.make_rdm2(ao_basis=False), wr(m, m) if ctx.symbolic else wr(m * 1.0, m * 1.0))
    occ = np.array([2, 1, 0])
    ctx.eq("explicit occupation", w.make_rdm1(mo_occ=occ), 2 * np.outer(C[:, 0], C[:, 0]) + np.outer(C[:, 1], C[:, 1]))
    Cs = (C, ctx.real("D", (4, n)))
    u = wf.HF_WaveFunction(umo(ctx, (2, 1), (1, 2), Cs))
    da = np.outer(C[:, 0], C[:, 0]) + np.outer(C[:, 1], C[:, 1])
    db = np.outer(Cs[1][:, 0], Cs[1][:, 0])
    ctx.eq("u ao", list(u.make_rdm1()), [da, db])
    ctx.eq("u mo", list(u.make_rdm1(ao_basis=False)), [mf1(ctx, n, 2, 1), mf1(ctx, n, 1, 1)])
    ctx.eq("u dm2", list(u.make_rdm2()), [wu(da, da, True), wu(da, db, False), wu(db, db, True)])


def h_mp2(ctx, no, nv):
    n = no + nv
    t2 = ctx.t2("t2", no, nv)
    w = wf.MP2_WaveFunction(rmo(ctx, no, nv, ratC(ctx, n + 1, n)), t2.copy())
    d1, d2 = check_r(ctx, w, no, n, exact_cumulant=False, exact_state=False)
    ctx.eq("t2 untouched", w.t2, t2)
    # correlation energy functional: <t2|V> contraction
    g = ctx.eri8("g", n)
    c = w.make_rdm2(with_dm1=False)
    ov = g[:no, no:, :no, no:]
    e = np.einsum("ijab,iajb", t2, ov) * 2 - np.einsum("ijab,ibja", t2, ov)
    ctx.eq("energy", np.einsum("ijkl,ijkl", c, g), 4 * e)


def h_rcc(ctx, no, nv, ao_dm2=True):
    n = no + nv
    t1, t2, l1, l2 = ctx.real("t1", (no, nv)), ctx.t2("t2", no, nv), ctx.real("l1", (no, nv)), ctx.t2("l2", no, nv)
    mo = rmo(ctx, no, nv, ratC(ctx, n + 1, n))
    w = wf.CCSD_WaveFunction(mo, t1.copy(), t2.copy(), l1=l1.copy(), l2=l2.copy())
    d1, d2 = check_r(ctx, w, no, n, ao_dm2=ao_dm2)
    u = w.as_unrestricted()
    s1, s2 = spin_sum(list(u.make_rdm1()), list(u.make_rdm2()))
    ctx.eq("unrestricted dm1", s1, d1)
    ctx.eq("unrestricted dm2", s2, d2)
    wt = wf.CCSD_WaveFunction(mo, t1.copy(), t2.copy())
    wl = wf.CCSD_WaveFunction(mo, t1.copy(), t2.copy(), l1=t1.copy(), l2=t2.copy())
    ctx.eq("t as lambda", wt.make_rdm1(t_as_lambda=True), wl.make_rdm1())
    ctx.eq("t as lambda dm2", wt.make_rdm2(t_as_lambda=True), wl.make_rdm2())
    ctx.eq("t as lambda cumulant", wt.make_rdm2(t_as_lambda=True, with_dm1=False, approx_cumulant=False), wl.make_rdm2(with_dm1=False, approx_cumulant=False))
    ctx.raises("needs lambda", lambda: wt.make_rdm1())
    ctx.raises("needs lambda 2", lambda: wt.make_rdm2())
    for a, b in ((w.t1, t1), (w.t2, t2), (w.l1, l1), (w.l2, l2)):
        ctx.eq("amplitudes untouched", a, b)


def half(x):
    return x * Fraction(1, 2) if x.dtype == object else x / 2


def h_ucc(ctx, no, nv, oracle=True, two=True, ao_dm2=True):
    n = [no[s] + nv[s] for s in (0, 1)]
    (t1, t2), (l1, l2) = uamps(ctx, "t", no, nv), uamps(ctx, "l", no, nv)
    mo = umo(ctx, no, nv, (ratC(ctx, 3, n[0]), ratC(ctx, 3, n[1])[::-1].copy()))
    w = wf.CCSD_WaveFunction(mo, cp(t1), cp(t2), l1=cp(l1), l2=cp(l2))
    if two:
        d1, d2 = check_u(ctx, w, no, n, ao_dm2=ao_dm2)
    else:
        d1 = list(w.make_rdm1())
        ctx.eq("without mf", list(w.make_rdm1(with_mf=False)), [d1[s] - mf1(ctx, n[s], no[s], 1) for s in (0, 1)])
    if oracle:
        o1, o2 = fock.cc_rdms(t1, t2, l1, l2, no, n, two)
        for s in (0, 1):
            o = o1[s] if ctx.symbolic else o1[s].astype(float)
            ctx.eq("definition dm1", d1[s], half(o + o.T))
        if two:
            for a, b in zip(d2, o2):
                b = b if ctx.symbolic else b.astype(float)
                ctx.eq("definition dm2", a, half(b + b.transpose(1, 0, 3, 2)))
    wt = wf.CCSD_WaveFunction(mo, cp(t1), cp(t2))
    wl = wf.CCSD_WaveFunction(mo, cp(t1), cp(t2), l1=cp(t1), l2=cp(t2))
    ctx.eq("t as lambda", list(wt.make_rdm1(t_as_lambda=True)), list(wl.make_rdm1()))


def h_fci(ctx, no, nv, symC=False):
    n = no + nv
    nd = len(fock.strings(n, no))
    ci = ctx.sym2("ci", nd)
    C = ctx.real("C", (n, n)) if symC else ratC(ctx, n + 1, n)
    w = wf.FCI_WaveFunction(rmo(ctx, no, nv, C), ci.copy())
    nrm = (ci * ci).sum()
    d1, d2 = check_r(ctx, w, no, n, norm=nrm, ao_dm2=n < 4)
    ctx.eq("ci untouched", w.ci, ci)
    u = w.as_unrestricted()
    s1, s2 = spin_sum(list(u.make_rdm1()), list(u.make_rdm2()))
    ctx.eq("unrestricted dm1", s1, d1)
    ctx.eq("unrestricted dm2", s2, d2)
    r = wf.RDM_WaveFunction(rmo(ctx, no, nv, C), d1.copy(), d2.copy())
    ctx.eq("rdm type dm1", r.make_rdm1(with_mf=False), w.make_rdm1(with_mf=False))
    for approx in (True, False):
        ctx.eq("rdm type cumulant", r.make_rdm2(with_dm1=False, approx_cumulant=approx), w.make_rdm2(with_dm1=False, approx_cumulant=approx))


def h_ufci(ctx, no, n):
    nv = (n - no[0], n - no[1])
    ci = ctx.real("ci", (len(fock.strings(n, no[0])), len(fock.strings(n, no[1]))))
    C = (ratC(ctx, n + 1, n), ratC(ctx, n + 1, n)[::-1].copy())
    w = wf.FCI_WaveFunction(umo(ctx, no, nv, C), ci.copy())
    d1, d2 = check_u(ctx, w, no, (n, n), norm=(ci * ci).sum(), ao_dm2=n < 4)
    r = wf.RDM_WaveFunction(umo(ctx, no, nv, C), [x.copy() for x in d1], [x.copy() for x in d2])
    ctx.eq("rdm type dm1", list(r.make_rdm1(with_mf=False)), list(w.make_rdm1(with_mf=False)))
    for approx in (True, False):
        ctx.eq("rdm type cumulant", list(r.make_rdm2(with_dm1=False, approx_cumulant=approx)), list(w.make_rdm2(with_dm1=False, approx_cumulant=approx)))


def h_rdm(ctx, no, nv):
    """Arbitrary stored density matrices."""
    n = no + nv
    d1, d2 = ctx.sym2("d", n), ctx.dm2("g", n)
    w = wf.RDM_WaveFunction(rmo(ctx, no, nv, ratC(ctx, n + 1, n)), d1.copy(), d2.copy())
    check_r(ctx, w, no, n, exact_state=False, norm=None)
    ctx.eq("dm1", w.make_rdm1(), d1)
    ctx.eq("dm2", w.make_rdm2(), d2)
    ctx.eq("stored dm1", w.dm1, d1)
    ctx.eq("stored dm2", w.dm2, d2)


def h_urdm(ctx, no, nv):
    n = [no[s] + nv[s] for s in (0, 1)]
    d1 = [ctx.sym2("d%d" % s, n[s]) for s in (0, 1)]
    anti = [((1, 0, 3, 2), 1), ((2, 3, 0, 1), 1), ((0, 3, 2, 1), -1)]
    d2 = [ctx.unique("gaa", (n[0],) * 4, anti), ctx.unique("gab", (n[0], n[0], n[1], n[1]), [((1, 0, 3, 2), 1)]), ctx.unique("gbb", (n[1],) * 4, anti)]
    C = (ratC(ctx, 3, n[0]), ratC(ctx, 3, n[1])[::-1].copy())
    w = wf.RDM_WaveFunction(umo(ctx, no, nv, C), [x.copy() for x in d1], [x.copy() for x in d2])
    check_u(ctx, w, no, n, exact_state=False, norm=None)
    ctx.eq("stored", list(w.dm1) + list(w.dm2), d1 + d2)
    ctx.eq("mixed block", w.dm2ba, d2[1].transpose(2, 3, 0, 1))


def h_dummy(ctx, no, norb):
    """Spin channels of different size, padded with dummy virtual orbitals."""
    n = max(norb)
    nv = [norb[s] - no[s] for s in (0, 1)]
    sa, sb = fock.strings(n, no[0]), fock.strings(n, no[1])
    ci = ctx.real("ci", (len(sa), len(sb)))
    for i, a in enumerate(sa):
        for j, b in enumerate(sb):
            if (a >> norb[0]) or (b >> norb[1]):
                ci[i, j] = 0
    C = (ratC(ctx, n, norb[0]), ratC(ctx, n, norb[1])[::-1].copy())
    dummy = [list(range(norb[s], n)) for s in (0, 1)]
    w = wf.fci.UFCI_WaveFunction_w_dummy(umo(ctx, no, nv, C), ci.copy(), dummy)
    d1, d2 = check_u(ctx, w, no, norb, norm=(ci * ci).sum())
    f1, f2 = fock.rdm12s(ci, n, no)
    na, nb = norb
    ctx.eq("definition dm1", d1, [f1[0][:na, :na], f1[1][:nb, :nb]])
    ctx.eq("definition dm2", d2, [f2[0][:na, :na, :na, :na], f2[1][:na, :na, :nb, :nb], f2[2][:nb, :nb, :nb, :nb]])


Q, T = ("quick", "thorough"), ("thorough",)
HARNESSES = [
    Harness("hf", h_hf, {}, "4 AOs, 3 MOs, symbolic coefficients"),
    Harness("mp2_12", h_mp2, dict(no=1, nv=2), "nocc=1 nvir=2"),
    Harness("mp2_21", h_mp2, dict(no=2, nv=1), "nocc=2 nvir=1"),
    Harness("mp2_22", h_mp2, dict(no=2, nv=2), "nocc=2 nvir=2"),
    Harness("rccsd_11", h_rcc, dict(no=1, nv=1), "nocc=1 nvir=1"),
    Harness("rccsd_21", h_rcc, dict(no=2, nv=1), "nocc=2 nvir=1"),
    Harness("rccsd_12", h_rcc, dict(no=1, nv=2), "nocc=1 nvir=2"),
    Harness("uccsd_11_11", h_ucc, dict(no=(1, 1), nv=(1, 1)), "nocc=(1,1) nvir=(1,1), vs definition"),
    Harness("uccsd_21_12", h_ucc, dict(no=(2, 1), nv=(1, 2), ao_dm2=False), "nocc=(2,1) nvir=(1,2), vs definition"),
    Harness("uccsd_22_22_dm1", h_ucc, dict(no=(2, 2), nv=(2, 2), two=False), "nocc=(2,2) nvir=(2,2), one-body vs definition", budget=300),
    Harness("uccsd_22_11", h_ucc, dict(no=(2, 2), nv=(1, 1), ao_dm2=False), "nocc=(2,2) nvir=(1,1), vs definition", budget=300),
    Harness("uccsd_11_22", h_ucc, dict(no=(1, 1), nv=(2, 2), ao_dm2=False), "nocc=(1,1) nvir=(2,2), vs definition", budget=300),
    Harness("fci_11", h_fci, dict(no=1, nv=1, symC=True), "2 electrons in 2 orbitals, symbolic AO coefficients"),
    Harness("fci_12", h_fci, dict(no=1, nv=2), "2 electrons in 3 orbitals"),
    Harness("fci_21", h_fci, dict(no=2, nv=1), "4 electrons in 3 orbitals"),
    Harness("ufci_21_3", h_ufci, dict(no=(2, 1), n=3), "3 electrons in 3 orbitals"),
    Harness("ufci_12_3", h_ufci, dict(no=(1, 2), n=3), "3 electrons in 3 orbitals"),
    Harness("rdm_12", h_rdm, dict(no=1, nv=2), "3 orbitals, arbitrary symmetric matrices"),
    Harness("rdm_21", h_rdm, dict(no=2, nv=1), "3 orbitals, arbitrary symmetric matrices"),
    Harness("urdm_21_12", h_urdm, dict(no=(2, 1), nv=(1, 1)), "(3,2) orbitals"),
    Harness("dummy_32", h_dummy, dict(no=(1, 1), norb=(3, 2)), "(3,2) physical orbitals"),
    Harness("dummy_23", h_dummy, dict(no=(1, 2), norb=(2, 3)), "(2,3) physical orbitals"),
    Harness("fci_22", h_fci, dict(no=2, nv=2), "4 electrons in 4 orbitals", T, budget=700),
    Harness("rccsd_22", h_rcc, dict(no=2, nv=2, ao_dm2=False), "nocc=2 nvir=2", T, budget=800),
    Harness("uccsd_22_12", h_ucc, dict(no=(2, 2), nv=(1, 2), ao_dm2=False), "nocc=(2,2) nvir=(1,2), vs definition", T, budget=800),
]
