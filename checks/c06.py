"""C06: integral blocks, full arrays and their contractions."""
import types
import numpy as np
import pyscf.cc
import pyscf.mp
import pyscf.ci
import pyscf.cc.dfccsd
import pyscf.cc.rccsd
from vsym.harness import Harness
from checks.common import *
from checks.c02 import uamps
from checks.c05 import ratC
from vayesta.core.ao2mo import helper as H
import importlib
from vayesta.core.ao2mo import pyscf_eris
postscf_ao2mo = importlib.import_module('vayesta.core.ao2mo.postscf_ao2mo')
from vayesta.core.vpyscf import ccsd_rdm, uccsd_rdm

META = dict(assumptions=["pyscf.lib.pack_tril/unpack_tril and ao2mo.restore are replaced by their definition on symbolic arrays; the concrete twin uses the compiled routines"])


def sl(no):
    return {"o": slice(None, no), "v": slice(no, None)}


def blk(g, block, no):
    """Block of the (pq|rs) tensor; lower case alpha (or restricted), upper case beta."""
    s = {"o": slice(None, no[0]), "v": slice(no[0], None), "O": slice(None, no[1]), "V": slice(no[1], None)}
    return g[tuple(s[c] for c in block)]


def tp(a, n):
    """Lower triangle of the trailing (n, n) axes."""
    i = np.tril_indices(n)
    return a[..., i[0], i[1]]


def packv(a, style, left, right):
    if style == "full":
        return a
    if style == "tri":
        return tp(a, right)
    b = tp(a, right)                       # packed on both pairs
    i = np.tril_indices(left)
    return b[i[0], i[1]]


RB = ["oooo", "ovoo", "oovv", "ovov", "ovvo", "ovvv", "vvvv"]


def reris(g, no, n, packed, fock=None):
    e = types.SimpleNamespace()
    nv = n - no
    for b in RB:
        x = blk(g, b, (no, no))
        if packed and b == "ovvv":
            x = packv(x, "tri", nv, nv)
        if packed and b == "vvvv":
            x = packv(x, "both", nv, nv)
        setattr(e, b, x)
    e.nocc, e.fock, e.mo_coeff = no, np.zeros((n, n)) if fock is None else fock, np.eye(n)
    return e


def ueris(gs, no, n, packed, fock=None):
    e = types.SimpleNamespace()
    gaa, gab, gbb = gs
    gba = gab.transpose(2, 3, 0, 1)
    nv = (n[0] - no[0], n[1] - no[1])

    def put(name, g, block, nvl, nvr):
        x = blk(g, block, no)
        if packed and block[1:].lower() == "vvv" and block[0].lower() == "o":
            x = packv(x, "tri", nvl, nvr)
        if packed and block.lower() == "vvvv":
            x = packv(x, "both", nvl, nvr)
        setattr(e, name, x)
    for b in RB:
        put(b, gaa, b, nv[0], nv[0])
        put(b.upper(), gbb, b.upper(), nv[1], nv[1])
    for b in ["ooOO", "ovOO", "ooVV", "ovVO", "ovOV", "ovVV", "vvVV"]:
        put(b, gab, b, nv[0], nv[1])
    for b in ["OVoo", "OOvv", "OVvo", "OVvv"]:
        put(b, gba, b, nv[1], nv[0])
    e.nocc = no
    e.fock = (np.zeros((n[0],) * 2), np.zeros((n[1],) * 2)) if fock is None else fock
    e.focka, e.fockb = e.fock
    e.mo_coeff = (np.eye(n[0]), np.eye(n[1]))
    return e


def eab(ctx, name, na, nb):
    return ctx.unique(name, (na, na, nb, nb), [((1, 0, 2, 3), 1), ((0, 1, 3, 2), 1)])


def ugs(ctx, n):
    return ctx.eri8("gaa", n[0]), eab(ctx, "gab", *n), ctx.eri8("gbb", n[1])


def h_full_r(ctx, no, nv, packed):
    n = no + nv
    g = ctx.eri8("g", n)
    e = reris(g, no, n, packed)
    ctx.eq("full array", H.get_full_array(e), g)
    out = np.zeros((n,) * 4) if not ctx.symbolic else ctx.const(np.zeros((n,) * 4))
    r = H.get_full_array(e, mo_coeff=np.eye(n), out=out)
    ctx.eq("full array in buffer", out, g)
    ctx.eq("returned buffer", r, g)
    for b in RB:
        ctx.eq("block " + b, H.get_block(e, b)[:], blk(g, b, (no, no)))


def h_full_u(ctx, no, nv, packed):
    n = (no[0] + nv[0], no[1] + nv[1])
    gs = ugs(ctx, n)
    e = ueris(gs, no, n, packed)
    ctx.eq("full arrays", list(H.get_full_array(e)), list(gs))
    outs = [np.zeros(g.shape) if not ctx.symbolic else ctx.const(np.zeros(g.shape)) for g in gs]
    H.get_full_array(e, out=outs)
    ctx.eq("full arrays in buffers", outs, list(gs))
    gba = gs[1].transpose(2, 3, 0, 1)
    for b in RB:
        ctx.eq("block " + b, H.get_block(e, b)[:], blk(gs[0], b, no))
        ctx.eq("block " + b.upper(), H.get_block(e, b.upper())[:], blk(gs[2], b.upper(), no))
    for b in ["ooOO", "ovOO", "ooVV", "ovVO", "ovOV", "ovVV", "vvVV"]:
        ctx.eq("block " + b, H.get_block(e, b)[:], blk(gs[1], b, no))
    for b in ["OVoo", "OOvv", "OVvo", "OVvv"]:
        ctx.eq("block " + b, H.get_block(e, b)[:], blk(gba, b, no))


def h_vvl(ctx, no, nv, naux, packed):
    """Virtual block stored as three-centre integrals."""
    n = no + nv
    L = ctx.unique("L", (nv, nv, naux), [((1, 0, 2), 1)])
    e = reris(ctx.eri8("g", n), no, n, False)
    del e.vvvv
    i = np.tril_indices(nv)
    e.vvL = L[i] if packed else L
    ctx.eq("vvvv from three-centre", H.get_block(e, "vvvv"), np.einsum("abQ,cdQ->abcd", L, L))


def h_make_r(ctx, no, nv):
    """Cutting a full array into a solver's integral object and putting it together again."""
    n = no + nv
    g, f = ctx.eri8("g", n), ctx.sym2("f", n)
    e = pyscf_eris.make_ccsd_eris(f, g, no)
    r = reris(g, no, n, True)
    for b in RB:
        ctx.eq("stored " + b, getattr(e, b), getattr(r, b))
    ctx.eq("fock", e.fock, f)
    ctx.eq("energies", e.mo_energy, np.array([f[i, i] for i in range(n)]))
    ctx.true("nocc", e.nocc == no)
    ctx.eq("full array again", H.get_full_array(e), g)
    me = ctx.real("me", (n,))
    ctx.eq("given energies", pyscf_eris.make_ccsd_eris(f, g, no, mo_energy=me).mo_energy, me)


def h_make_u(ctx, no, nv):
    n = (no[0] + nv[0], no[1] + nv[1])
    gs = ugs(ctx, n)
    f = (ctx.sym2("fa", n[0]), ctx.sym2("fb", n[1]))
    e = pyscf_eris.make_uccsd_eris(f, gs, no)
    r = ueris(gs, no, n, True)
    for b in [x for x in vars(r) if x.lower().strip("ov") == ""]:
        ctx.eq("stored " + b, getattr(e, b), getattr(r, b))
    for s in (0, 1):
        ctx.eq("fock", e.fock[s], f[s])
        ctx.eq("fock", (e.focka, e.fockb)[s], f[s])
        ctx.eq("energies", e.mo_energy[s], np.array([f[s][i, i] for i in range(n[s])]))
    ctx.eq("full arrays again", list(H.get_full_array(e)), list(gs))


def h_con_r(ctx, no, nv, packed):
    n = no + nv
    g, d = ctx.eri8("g", n), ctx.dm2("d", n)
    ctx.eq("energy", H.contract_dm2_eris(d, reris(g, no, n, packed)), np.einsum("pqrs,pqrs->", d, g))


def h_con_u(ctx, no, nv, packed):
    n = (no[0] + nv[0], no[1] + nv[1])
    gs = ugs(ctx, n)
    d = (ctx.dm2("daa", n[0]), ctx.unique("dab", (n[0], n[0], n[1], n[1]), [((1, 0, 3, 2), 1)]), ctx.dm2("dbb", n[1]))
    ref = sum(f * np.einsum("pqrs,pqrs->", x, g) for f, x, g in zip((1, 2, 1), d, gs))
    ctx.eq("energy", H.contract_dm2_eris(d, ueris(gs, no, n, packed)), ref)


def rdm2_from(d2, no, n):
    """Two-body density matrix defined by the intermediates (pyscf's layout)."""
    import pyscf.cc.ccsd_rdm as P
    return P._make_rdm2(None, None, d2, with_dm1=False, with_frozen=False)


def h_int_r(ctx, no, nv, packed, destroy):
    """Energy from two-body intermediates of CCSD amplitudes = energy of their density matrix."""
    n = no + nv
    t1, t2, l1, l2 = ctx.real("t1", (no, nv)), ctx.t2("t2", no, nv), ctx.real("l1", (no, nv)), ctx.t2("l2", no, nv)
    g = ctx.eri8("g", n)
    fake = types.SimpleNamespace(stdout=None, verbose=0, max_memory=1000, mo_coeff=None, frozen=0)
    d2 = ccsd_rdm._gamma2_intermediates(fake, t1, t2, l1, l2)
    ref = np.einsum("pqrs,pqrs->", rdm2_from(d2, no, n), g)
    before = [None if x is None else np.array(x) for x in d2]
    ctx.eq("energy", H.contract_dm2intermeds_eris_rhf(d2, reris(g, no, n, packed), destroy_dm2=destroy), ref)
    ctx.eq("intermediates untouched", list(d2), before)


def h_int_u(ctx, no, nv, packed, destroy):
    n = (no[0] + nv[0], no[1] + nv[1])
    t1, t2 = uamps(ctx, "t", no, nv)
    l1, l2 = uamps(ctx, "l", no, nv)
    gs = ugs(ctx, n)
    import pyscf.cc.uccsd_rdm as P
    d2 = uccsd_rdm._gamma2_intermediates(None, t1, t2, l1, l2)
    dm = P._make_rdm2(None, None, d2, with_dm1=False, with_frozen=False)
    ref = sum(f * np.einsum("pqrs,pqrs->", x, g) for f, x, g in zip((1, 2, 1), dm, gs))
    ctx.eq("energy", H.contract_dm2intermeds_eris_uhf(d2, ueris(gs, no, n, packed), destroy_dm2=destroy), ref)


def h_project(ctx, no0, nv0, no, nv, packed, check):
    """Restricting integrals to a rotated subspace of the orbitals."""
    n0, n = no0 + nv0, no + nv
    g, f = ctx.eri8("g", n0), ctx.sym2("f", n0)
    e = reris(g, no0, n0, packed, fock=f)
    ro = np.asarray(ctx.orth("ro", no0) if not check else np.eye(no0)[:, ::-1])[:, :no]
    rv = np.asarray(ctx.orth("rv", nv0) if not check else np.eye(nv0)[:, ::-1])[:, :nv]
    if not check:
        for nm, k in (("ro", no0), ("rv", nv0)):      # the code treats rotations within 1e-5 of unity as unity
            if k == 2 and ctx.symbolic:
                ctx.assume(ctx.scalar(nm + "_01_c") <= 0.9)
    u = np.zeros((n0, n), dtype=object) if ctx.symbolic else np.zeros((n0, n))
    u[...] = 0
    u[:no0, :no], u[no0:, no:] = ro, rv
    ovlp = np.eye(n0)
    r = H.project_ccsd_eris(e, u, no, ovlp, check_subspace=check)
    gr = np.einsum("abcd,ai,bj,ck,dl->ijkl", g, u, u, u, u, optimize=True)
    ctx.eq("projected integrals", H.get_full_array(r), gr)
    fr = u.T @ f @ u
    # occupied-virtual elements are transformed by the same matrices
    ctx.eq("fock", r.fock, fr)
    ctx.true("nocc", r.nocc == no)
    ctx.eq("coefficients", r.mo_coeff, u)
    ctx.eq("energies", r.mo_energy, np.array([fr[i, i] for i in range(n)]))


def fakepost(cls, mo, no, frozen=0):
    p = cls.__new__(cls)
    p.__dict__.update(mo_coeff=mo, frozen=frozen, _nocc=no, _nmo=None, stdout=None, verbose=0, mo_occ=None)
    return p


def with_cderi(fn, table):
    """Run fn with the density-fitting back end answering from `table` (coefficients -> tensors)."""
    old = postscf_ao2mo.kao2gmo_cderi
    postscf_ao2mo.kao2gmo_cderi = table
    try:
        return fn()
    finally:
        postscf_ao2mo.kao2gmo_cderi = old


def h_kpost_r(ctx, kind, no, nv, naux, neg):
    """Integral object of a supercell calculation from density-fitted three-centre integrals."""
    n = no + nv
    L = ctx.unique("L", (naux, n, n), [((0, 2, 1), 1)])
    N = ctx.unique("N", (1, n, n), [((0, 2, 1), 1)]) if neg else None
    f = ctx.sym2("f", n)
    C = ratC(ctx, n, n)
    cls = dict(mp2=pyscf.mp.mp2.MP2, rccsd=pyscf.cc.rccsd.RCCSD, dfccsd=pyscf.cc.dfccsd.RCCSD, ccsd=pyscf.cc.ccsd.CCSD, cisd=pyscf.ci.cisd.CISD)[kind]
    mo = C
    post = fakepost(cls, mo, no)
    occ = np.zeros(n)
    occ[:no] = 2
    post.mo_occ = occ

    def table(gdf, coeffs, **kw):
        ls = []
        for T in (L, N):
            ls.append(None if T is None else np.einsum("Lab,ai,bj->Lij", T, coeffs[0], coeffs[1], optimize=True))
        return ls
    e = with_cderi(lambda: postscf_ao2mo.postscf_kao2gmo(post, None, f, np.arange(n), mo_coeff=mo), table)
    M = np.einsum("Lab,ai,bj->Lij", L, C, C, optimize=True)
    g = np.einsum("Lpq,Lrs->pqrs", M, M)
    if neg:
        Mn = np.einsum("Lab,ai,bj->Lij", N, C, C, optimize=True)
        g = g - np.einsum("Lpq,Lrs->pqrs", Mn, Mn)
    ctx.eq("fock", e.fock, C.T @ f @ C)
    if kind == "mp2":
        ctx.eq("ovov", e.ovov, blk(g, "ovov", (no, no)))
        return
    ctx.eq("full array", H.get_full_array(e), g)


def h_kpost_u(ctx, kind, no, nv, naux, neg):
    n = (no[0] + nv[0], no[1] + nv[1])
    nao = max(n)
    L = ctx.unique("L", (naux, nao, nao), [((0, 2, 1), 1)])
    N = ctx.unique("N", (1, nao, nao), [((0, 2, 1), 1)]) if neg else None
    f = (ctx.sym2("fa", nao), ctx.sym2("fb", nao))
    C = (ratC(ctx, nao, n[0]), ratC(ctx, nao, n[1])[::-1])
    cls = dict(ump2=pyscf.mp.ump2.UMP2, uccsd=pyscf.cc.uccsd.UCCSD, ucisd=pyscf.ci.ucisd.UCISD)[kind]
    post = fakepost(cls, C, no)
    post.mo_occ = tuple(np.r_[np.ones(no[s]), np.zeros(nv[s])] for s in (0, 1))

    def table(gdf, coeffs, **kw):
        return [None if T is None else np.einsum("Lab,ai,bj->Lij", T, coeffs[0], coeffs[1], optimize=True) for T in (L, N)]
    e = with_cderi(lambda: postscf_ao2mo.postscf_kao2gmo_uhf(post, None, f, (np.arange(n[0]), np.arange(n[1])), mo_coeff=C), table)
    M = [np.einsum("Lab,ai,bj->Lij", L, c, c, optimize=True) for c in C]
    gs = [np.einsum("Lpq,Lrs->pqrs", M[a], M[b]) for a, b in ((0, 0), (0, 1), (1, 1))]
    if neg:
        Mn = [np.einsum("Lab,ai,bj->Lij", N, c, c, optimize=True) for c in C]
        gs = [g - np.einsum("Lpq,Lrs->pqrs", Mn[a], Mn[b]) for g, (a, b) in zip(gs, ((0, 0), (0, 1), (1, 1)))]
    for s in (0, 1):
        ctx.eq("fock", e.fock[s], C[s].T @ f[s] @ C[s])
    if kind == "ump2":
        ctx.eq("ovov", e.ovov, blk(gs[0], "ovov", no))
        ctx.eq("ovOV", e.ovOV, blk(gs[1], "ovOV", no))
        ctx.eq("OVOV", e.OVOV, blk(gs[2], "OVOV", no))
        return
    ctx.eq("full arrays", list(H.get_full_array(e)), gs)
    ctx.eq("OVvo", e.OVvo, blk(gs[1].transpose(2, 3, 0, 1), "OVvo", no))


HARNESSES = []


def add(name, fn, tiers=("quick", "thorough"), **p):
    HARNESSES.append(Harness(name + "[" + ",".join("%s=%s" % (k, str(v).replace(" ", "")) for k, v in p.items()) + "]", fn, p,
                             bounds="orbital-space shape fixed as named; every integral, density and rotation value symbolic in [-1,1]", tiers=tiers))


T = ("thorough",)
for pk_ in (False, True):
    add("full_r", h_full_r, no=2, nv=2, packed=pk_)
    add("full_r", h_full_r, no=1, nv=2, packed=pk_)
    add("full_u", h_full_u, no=(2, 1), nv=(1, 2), packed=pk_)
    add("full_u", h_full_u, no=(1, 2), nv=(2, 2), packed=pk_, tiers=T)
    add("full_r", h_full_r, no=2, nv=3, packed=pk_, tiers=T)
    add("vvl", h_vvl, no=1, nv=2, naux=2, packed=pk_)
    add("con_r", h_con_r, no=2, nv=2, packed=pk_)
    add("con_u", h_con_u, no=(2, 1), nv=(1, 2), packed=pk_)
    add("con_u", h_con_u, no=(1, 2), nv=(2, 2), packed=pk_, tiers=T)
    add("int_r", h_int_r, no=2, nv=2, packed=pk_, destroy=pk_)
    add("int_u", h_int_u, no=(2, 1), nv=(2, 1), packed=pk_, destroy=pk_)
    add("int_u", h_int_u, no=(1, 2), nv=(2, 2), packed=pk_, destroy=pk_, tiers=T)
    add("project", h_project, no0=2, nv0=2, no=2, nv=1, packed=pk_, check=False)
    add("project", h_project, no0=2, nv0=2, no=1, nv=2, packed=pk_, check=True)
add("full_r", h_full_r, no=2, nv=1, packed=True)
add("full_u", h_full_u, no=(1, 1), nv=(2, 2), packed=True)
add("make_r", h_make_r, no=2, nv=2)
add("make_r", h_make_r, no=1, nv=3)
add("make_u", h_make_u, no=(2, 1), nv=(1, 2))
add("make_u", h_make_u, no=(1, 1), nv=(2, 2))
for kind in ("mp2", "rccsd", "dfccsd", "ccsd", "cisd"):
    for neg in (False, True):
        if neg and kind == "dfccsd":
            continue
        add("kpost_r", h_kpost_r, kind=kind, no=1, nv=2, naux=2, neg=neg)
for kind in ("ump2", "uccsd", "ucisd"):
    for neg in (False, True):
        add("kpost_u", h_kpost_u, kind=kind, no=(2, 1), nv=(1, 2), naux=1, neg=neg)
