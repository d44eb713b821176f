"""C07: cluster Hamiltonians. The Hamiltonian handed to a cluster solver reproduces the Fock matrix of the full system in
the cluster, with bare and with screened interactions, in every representation (arrays, blocks, integral objects,
mean-field objects with padding or density fitting, bosonic displacement)."""
import types
import pyscf.scf
from vsym.harness import Harness
from checks.ewfsim import *
from checks.c15 import snap, unchanged
from checks.c16 import exact_svd
from checks.c18 import System, sp, gab_of
import vayesta.solver.hamiltonian as hm
import vayesta.solver.mp2 as mp2mod

META = dict(assumptions=["clusters, Fock matrix, interactions, external potential and screened interactions are given values; the screening calculation itself is replaced by symbolic results"])


def setup(ctx, uhf, n, no, sizes, split=None, exxdiv=False, vext=True, **opts):
    split = split or (2, n - 2)
    if uhf:
        b, g, data = model_u(ctx, n, no, split, full=False, lam=False, sizes=[sizes] * len(split), **opts)
    else:
        b, g, data = model_r(ctx, n, no, split, full=False, lam=False, sizes=[sizes] * len(split), **opts)
    s = System(ctx, b, uhf, vmf=False, exxdiv=exxdiv)
    b.mf.mol.output = None
    f = data[0]["f"]
    ca = sp(f.cluster.c_active)
    m = [c.shape[1] for c in ca]
    fo = cl(s, ca, s.f)
    g = [s.eris([f.cluster.c_active] * 4)] if not uhf else list(s.eris_uhf(f.cluster.c_active))
    o = [x.shape[1] for x in sp(f.cluster.c_active_occ)]
    return types.SimpleNamespace(b=b, f=f, s=s, m=m, o=o, fo=fo, g=g, ca=ca, uhf=uhf, ctx=ctx)


def direct(x):
    """variables are the Fock matrix and interaction of the cluster itself (keeps order comparisons small)"""
    ctx, S = x.ctx, x.b.get_ovlp()
    x.fo = [ctx.sym2("cf%d" % q, m) for q, m in enumerate(x.m)]
    x.g = [ctx.eri8("cg", x.m[0])] if not x.uhf else [ctx.eri8("cgaa", x.m[0]), gab2(ctx, x.m[0], x.m[1], "cgab"), ctx.eri8("cgbb", x.m[1])]
    fao = [np.dot(np.dot(np.dot(S, c), f), np.dot(S, c).T) for c, f in zip(x.ca, x.fo)]
    x.b.get_fock = lambda **kw: np.stack(fao) if x.uhf else fao[0]
    x.b.get_eris_array = x.b.get_eris_array_uhf = lambda c: un(x, [y.copy() for y in x.g])


def cl(s, ca, x):
    """matrices of the reference space in the cluster orbitals"""
    r = [np.dot(S.T, c) for S, c in zip(s.SC, ca)]
    return [np.dot(np.dot(q.T, y), q) for q, y in zip(r, x)]


def hf(x, g, uhf=None):
    """Hartree-Fock potential of the cluster's occupied orbitals"""
    o = x.o
    if not x.uhf:
        s = slice(o[0])
        return [2 * np.einsum("pqii->pq", g[0][:, :, s, s]) - np.einsum("piiq->pq", g[0][:, s, s, :])]
    a, b = slice(o[0]), slice(o[1])
    return [np.einsum("pqii->pq", g[0][:, :, a, a]) + np.einsum("pqii->pq", g[1][:, :, b, b]) - np.einsum("piiq->pq", g[0][:, a, a, :]),
            np.einsum("pqii->pq", g[2][:, :, b, b]) + np.einsum("iipq->pq", g[1][a, a]) - np.einsum("piiq->pq", g[2][:, b, b, :])]


def add(a, b, f=1):
    return [p + f * q for p, q in zip(a, b)]


def un(x, v):
    return tuple(v) if x.uhf else v[0]


def screened(x):
    ctx, m = x.ctx, x.m
    if not x.uhf:
        return [ctx.eri8("w", m[0])]
    return [ctx.eri8("waa", m[0]), gab2(ctx, m[0], m[1]), ctx.eri8("wbb", m[1])]


def gab2(ctx, na, nb, name="wab"):
    w = ctx.real(name, (na, na, nb, nb))
    w = w + w.transpose(1, 0, 2, 3)
    return w + w.transpose(0, 1, 3, 2)


def vext(x):
    return [x.ctx.sym2("x%d" % s, m) for s, m in enumerate(x.m)]


def ham(x, **kw):
    return hm.ClusterHamiltonian(x.f, x.b.mf, log=NullLog(), **kw)


def h_fock(ctx, uhf, scr=False, exxdiv=False, **kw):
    """one-body Hamiltonian + Hartree-Fock potential of the interaction = Fock matrix; options of the Fock matrix"""
    x = setup(ctx, uhf, exxdiv=exxdiv, **kw)
    match = ctx.boolean("match_fock")
    h = ham(x, screening="mrpa" if scr else None, cache_eris=ctx.boolean("cache"), match_fock=match)
    W = x.g
    if scr:
        ctx.raises("screened interactions before they are set", h.get_eris_screened, RuntimeError)
        W = screened(x)
        h._seris = un(x, W)
    V = vext(x)
    vb = [v.copy() for v in V]
    h.v_ext = un(x, [v.copy() for v in V]) if ctx.boolean("v_ext") else None
    xv = [0 * f for f in x.fo]
    if exxdiv:
        xv = cl(x.s, x.ca, [-x.b.madelung * np.diag([int(i < o) for i in range(x.s.n)]) for o in x.s.no])
    dw = add(hf(x, W), hf(x, x.g), -1)
    F = lambda vx, us, xd: add(add(add(x.fo, V if vx and h.v_ext is not None else [0 * v for v in V]), dw if us else [0 * v for v in dw]), xv if xd else [0 * v for v in xv])
    deflt = scr and (uhf or not match)
    for vx in (True, False):
        for xd in (False, True) if exxdiv else (False,):
            for us in (None, True, False):
                if us is None:
                    got = h.get_fock(with_vext=vx, with_exxdiv=xd)
                else:
                    got = h.get_fock(with_vext=vx, use_seris=us, with_exxdiv=xd)
                ctx.eq("Fock matrix v_ext=%r use_seris=%r exxdiv=%r" % (vx, us, xd), list(sp2(x, got)), F(vx, deflt if us is None else us and scr, xd))
            e = sp2(x, h.get_mf(xd) if False else h.get_clus_mf_info(with_vext=vx, with_exxdiv=xd)[2])
            ctx.eq("orbital energies v_ext=%r exxdiv=%r" % (vx, xd), [np.asarray(q) for q in e], [np.diag(q) for q in F(vx, deflt, xd)])
        hh, ww = h.get_integrals(with_vext=vx)
        ctx.eq("interaction", list(sp2(x, ww)), W)
        ctx.eq("h + V[w] = F", add(sp2(x, hh), hf(x, W)), F(vx, deflt, False))
        fx = [ctx.sym2("f%d" % q, m) for q, m in enumerate(x.m)]
        h2 = h.get_heff(eris=un(x, x.g), fock=un(x, fx), with_vext=vx)
        ctx.eq("given Fock matrix and interaction", sp2(x, h2), add(add(fx, hf(x, x.g), -1), V if vx and h.v_ext is not None else [0 * v for v in V]))
    if h.v_ext is not None:
        ctx.eq("v_ext unchanged", list(sp2(x, h.v_ext)), vb)
    if scr:
        ctx.eq("screened interaction unchanged", list(sp2(x, h._seris)), W)


def sp2(x, a):
    return a if x.uhf else [a]


OV = ["oooo", "ooov", "ovov", "ovvo", "oovv", "vvov", "vovv", "vvvv", "vooo"]


def ublocks():
    r = []
    for p in ("oo", "ov", "vo", "vv"):
        for q in ("oo", "ov", "vo", "vv"):
            for a in (str.lower, str.upper):
                for b in (str.lower, str.upper):
                    r.append(a(p) + b(q))
    return r


def h_blocks(ctx, uhf, scr=False, **kw):
    """blocks of the interaction are slices of the full tensor, from the cache or computed; integral objects"""
    x = setup(ctx, uhf, **kw)
    cache = ctx.boolean("cache")
    h = ham(x, screening="mrpa" if scr else None, cache_eris=cache, match_fock=False)
    W = x.g
    if scr:
        W = screened(x)
        h._seris = un(x, W)
    pre = ctx.boolean("full tensor first")
    if pre:
        ctx.eq("full tensor", list(sp2(x, h.get_eris_bare())), x.g)
    o = x.o if uhf else x.o * 2
    m = x.m if uhf else x.m * 2
    sl = {"o": slice(0, o[0]), "v": slice(o[0], m[0]), "O": slice(0, o[1]), "V": slice(o[1], m[1])}

    def want(g, blk):
        if not uhf:
            return g[0][tuple(sl[c] for c in blk.lower())]
        a, b = int(blk[0].isupper()), int(blk[2].isupper())
        t = {(0, 0): g[0], (0, 1): g[1], (1, 0): g[1].transpose(2, 3, 0, 1), (1, 1): g[2]}[a, b]
        return t[tuple(sl[c] for c in blk)]

    names = ublocks() if uhf else OV
    d = h.get_dummy_eri_object()
    db = h.get_dummy_eri_object(force_bare=True)
    for blk in names:
        ctx.eq("bare " + blk, h.get_eris_bare(blk), want(x.g, blk))
        ctx.eq("screened " + blk, h.get_eris_screened(blk), want(W, blk))
        ctx.eq("integral object " + blk, getattr(d, blk), want(W, blk))
        ctx.eq("bare integral object " + blk, getattr(db, blk), want(x.g, blk))
    ctx.eq("full tensor", list(sp2(x, h.get_eris_bare())), x.g)
    ctx.eq("full screened tensor", list(sp2(x, h.get_eris_screened())), W)
    ctx.raises("other attributes", lambda: d.ov, AttributeError)
    ctx.raises("other attributes", lambda: d.ovxx, AttributeError)
    ctx.eq("Fock matrix of the integral object", list(sp2(x, d.fock)), add(add(x.fo, hf(x, W)), hf(x, x.g), -1))
    ctx.eq("Fock matrix of the bare integral object", list(sp2(x, db.fock)), x.fo)
    ctx.true("occupied orbitals", tuple(sp2(x, d.nocc)) == tuple(x.o))


def h_basis(ctx, uhf, **kw):
    """orbitals and projectors of the Hamiltonian; options kept by a Hamiltonian with another cluster"""
    x = setup(ctx, uhf, **kw)
    f = x.f
    h = ham(x, screening=None, cache_eris=ctx.boolean("cache"), match_fock=ctx.boolean("match"))
    mo = h.mo
    ctx.eq("orbitals", list(sp2(x, mo.coeff)), x.ca)
    ctx.true("occupied", tuple(sp2(x, mo.nocc)) == tuple(x.o))
    ctx.true("sizes", tuple(sp2(x, h.ncas) if uhf else h.ncas[:1]) == tuple(x.m) and (tuple(h.nelec) == tuple(x.o) if uhf else tuple(h.nelec) == (x.o[0],) * 2))
    r = [rotc(ctx, m, 1) for m in x.m]
    ctx.eq("rotated orbitals", list(sp2(x, h.get_mo(un(x, r)).coeff)), [np.dot(c, q) for c, q in zip(x.ca, r)])
    S = x.b.get_ovlp()
    p = [np.dot(np.dot(c.T, S), cf) for c, cf in zip(x.ca, sp(f.c_frag))]
    ctx.eq("target space projector", list(sp2(x, h.target_space_projector())), [np.dot(q, q.T) for q in p])
    x.b.mf.get_ovlp = lambda: S
    nao, c, e, occ, ov = h.get_clus_mf_info(ao_basis=True)
    ctx.true("number of AOs", nao == S.shape[0])
    ctx.eq("mean field in AO basis", list(sp2(x, c)), x.ca)
    ctx.eq("overlap in AO basis", ov, S)
    nao, c, e, occ, ov = h.get_clus_mf_info()
    ctx.eq("cluster basis", list(sp2(x, c)) + list(sp2(x, ov)), [np.eye(m) for m in x.m] * 2)
    ctx.eq("occupations", [np.asarray(q) for q in sp2(x, occ)], [np.array([(1 if uhf else 2) * int(i < o) for i in range(m)]) for m, o in zip(x.m, x.o)])
    f2 = x.b.fragments[1]
    h._eris = "cached"
    h2 = h.with_new_cluster(f2.cluster)
    ctx.true("options kept", h2.opts.asdict() == h.opts.asdict() and type(h2) is type(h))
    ctx.true("new cluster", h2.cluster is f2.cluster and h.cluster is f.cluster)
    c2 = f2.cluster.c_active
    ctx.eq("interaction in the new cluster", list(sp2(x, h2.get_eris_bare())), [x.s.eris([c2] * 4)] if not uhf else list(x.s.eris_uhf(c2)))
    ctx.eq("Fock matrix in the new cluster", list(sp2(x, h2.get_fock())), cl(x.s, sp(c2), x.s.f))


def pad(x, a, nmo, diag, ctx):
    """one-body matrix padded with decoupled levels"""
    n = a.shape[0]
    r = np.zeros((nmo, nmo), dtype=object if ctx.symbolic else float)
    r[:n, :n] = a
    for i in range(n, nmo):
        r[i, i] = diag
    return r


def h_mf(ctx, uhf, scr=False, **kw):
    """mean-field object: physical block equals the cluster Hamiltonian, dummy orbitals are decoupled and frozen"""
    x = setup(ctx, uhf, **kw)
    direct(x)
    h = ham(x, screening="mrpa" if scr else None, cache_eris=ctx.boolean("cache"), match_fock=ctx.boolean("match_fock"))
    W = x.g
    if scr:
        W = screened(x)
        h._seris = un(x, W)
    V = vext(x)
    h.v_ext = un(x, V) if ctx.boolean("v_ext") else None
    bare = ctx.boolean("force_bare_eris")
    over = ctx.boolean("overwrite_fock")
    nmo, nsm = max(x.m), min(x.m)
    if nmo != nsm:
        ctx.raises("unequal spin channels", lambda: h.to_pyscf_mf(allow_dummy_orbs=False), NotImplementedError)
        # the largest orbital energy is one of the occupied level's (keeps max() concrete)
        e = [np.diag(q) for q in sp2(x, h.get_fock())]
        for q in e:
            for y in q[1:]:
                ctx.assume(y <= q[0])
    mf, frozen = h.to_pyscf_mf(allow_dummy_orbs=True, force_bare_eris=bare, overwrite_fock=over)
    U = x.g if bare else W
    hc = list(sp2(x, mf.get_hcore()))
    g = list(sp2(x, mf._eri))
    if nmo == nsm:
        ctx.true("nothing frozen", frozen is None)
    else:
        ctx.true("dummy orbitals are frozen", [list(q) for q in frozen] == [list(range(m, nmo)) for m in x.m])
    P = lambda a: [y[:m, :m] for y, m in zip(a, x.m)]
    gm = [(m,) * 4 for m in x.m[:1]] if not uhf else [(x.m[0],) * 4, (x.m[0],) * 2 + (x.m[1],) * 2, (x.m[1],) * 4]
    ctx.eq("interaction", [y[tuple(slice(q) for q in sh)] for y, sh in zip(g, gm)], U)
    fock = list(sp2(x, h.get_fock(use_seris=False if bare and uhf else (None if not uhf else True))))
    if not (bare and scr and not uhf):
        ctx.eq("h + V[w] = F", add(P(hc), hf(x, U)), fock)
    else:
        ctx.eq("h + V[v] = F", add(P(hc), hf(x, U)), list(sp2(x, h.get_fock(use_seris=False))))
    d = None
    for s, (y, m) in enumerate(zip(hc, x.m)):
        for i in range(m, nmo):
            ctx.eq("dummy orbitals decoupled in h", [y[i, j] for j in range(nmo) if j != i] + [y[j, i] for j in range(nmo) if j != i], [0] * (2 * nmo - 2))
            ctx.true("dummy level above all others", ctx_le(ctx, [q for f, k in zip(sp2(x, mf.mo_energy), x.m) for q in np.asarray(f)[:k]], y[i, i]))
    if uhf or over:
        F = list(sp2(x, mf.get_fock()))
        fo = list(sp2(x, h.get_fock(use_seris=not bare)))
        ctx.eq("Fock matrix", P(F), fo)
        ctx.eq("potential", add(hc, list(sp2(x, mf.get_veff()))), F)
    for s, (y, sh) in enumerate(zip(g, gm)):
        z = y.copy()
        z[tuple(slice(q) for q in sh)] = 0
        ctx.eq("dummy orbitals do not interact", z, 0 * z)
    oc = np.asarray(mf.mo_occ) if uhf else np.asarray([mf.mo_occ])
    ctx.eq("occupations", oc, np.array([[(1 if uhf else 2) * int(i < o) for i in range(nmo)] for o in x.o]))
    ctx.eq("orbitals", list(sp2(x, mf.mo_coeff)) + list(sp2(x, mf.get_ovlp())), [np.eye(nmo)] * (2 * len(x.m)))
    ctx.eq("orbital energies", [np.asarray(q)[:m] for q, m in zip(sp2(x, mf.mo_energy), x.m)], [np.diag(q) for q in sp2(x, h.get_fock())])
    ctx.true("electrons", tuple(mf.mol.nelec) == (tuple(x.o) if uhf else (x.o[0],) * 2) and mf.mol.nao == nmo)
    if uhf:
        dm = [ctx.sym2("d%d" % s, nmo) for s in (0, 1)]
        vv = [ctx.sym2("u%d" % s, nmo) for s in (0, 1)]
        e, ec = mf.energy_elec(np.stack(dm), None, np.stack(vv))
        e2 = hlf(np.asarray(sum(np.sum(p * q) for p, q in zip(vv, dm)))).item()
        ctx.eq("energy", [e, ec], [sum(np.sum(p * q) for p, q in zip(hc, dm)) + e2, e2])


def ctx_le(ctx, xs, y):
    r = True
    for q in xs:
        r = r and bool(q < y)
    return r


# --- density-fitted interactions ---------------------------------------------------------------------------------------

def rows(ctx, kind, r):
    """constant rational three-index integrals whose rows stay orthogonal per spin and for both spins together"""
    if kind == "pair":      # two auxiliary functions, two orbital pairs per spin
        a = np.array([[Fraction(9, 5), Fraction(12, 5)], [-4, 3]], dtype=object)
        b = np.array([[Fraction(16, 5), Fraction(-12, 5)], [Fraction(36, 5), Fraction(48, 5)]], dtype=object)
    else:                   # three auxiliary functions, one of them redundant
        a = np.array([[3, 0, 0, 4], [0, 5, 0, 0], [0, 0, 0, 0]], dtype=object) * Fraction(1)
        b = np.array([[0, 12, 0, 0], [0, 0, 12, 0], [0, 0, 0, 0]], dtype=object) * Fraction(1)
    return a, b


def prep(ctx, q, mats):
    """SVD of q @ (matrix with orthogonal rows)"""
    for a in mats:
        u, sv, vt = exact_svd(a)
        ctx.prepare_svd(np.dot(q, a), np.dot(q, u), sv, vt)


def h_compress(ctx, uhf, kind, only_ov):
    """compression of the three-index integrals keeps every two-electron integral (with negative part, both spins)"""
    a, b = rows(ctx, kind, 0)
    naux = a.shape[0]
    q = ctx.orth("q", 2)
    if naux == 3:
        w = np.zeros((3, 3), dtype=object if ctx.symbolic else float)
        w[np.ix_((0, 2), (0, 2))] = q
        w[1, 1] = 1
        q = w
    a, b = num(ctx, a), num(ctx, b)
    if ctx.symbolic:
        mats = [a, b, np.hstack((a, b)), np.hstack((b, a))]
        prep(ctx, q, mats)
    neg = ctx.boolean("negative part")
    ba, bb = np.dot(q, a), np.dot(q, b)
    if a.shape[1] == 2:
        sh = (1, 2)
    else:
        sh = (2, 2)
    B = [x.reshape(naux, *sh) for x in (ba, bb)]
    calls = []

    def get(c):
        k = 1 if (c[0] if isinstance(c, (tuple, list)) else c) in ("ob", "cb") else 0
        calls.append(c)
        return B[k].copy(), (B[1 - k].copy() if neg else None)

    f = types.SimpleNamespace(base=types.SimpleNamespace(get_cderi=get), log=NullLog())
    cluster = types.SimpleNamespace(c_active=("ca", "cb") if uhf else "ca", c_active_occ=("oa", "ob") if uhf else "oa", c_active_vir=("va", "vb") if uhf else "va")
    cls = hm.UClusterHamiltonian if uhf else hm.RClusterHamiltonian
    h = cls(f, None, log=NullLog(), cluster=cluster)
    g = lambda x, y: np.einsum("Lpq,Lrs->pqrs", x, y)
    for comp in (False, True):
        calls[:] = []
        cd, cn = h.get_cderi_bare(only_ov=only_ov, compress=comp)
        ctx.true("orbitals", [tuple(c) if isinstance(c, (tuple, list)) else c for c in calls] == [(("o" + s, "v" + s) if only_ov else "c" + s) for s in ("ab" if uhf else "a")])
        cd = cd if uhf else (cd,)
        cn = cn if uhf else (cn,)
        B2 = (B[1], B[0])
        for i in range(len(cd)):
            for j in range(len(cd)):
                ctx.eq("integrals %d%d compress=%r" % (i, j, comp), g(cd[i], cd[j]), g(B[i], B[j]))
                if neg:
                    ctx.eq("negative part %d%d compress=%r" % (i, j, comp), g(cn[i], cn[j]), g(B2[i], B2[j]))
                else:
                    ctx.true("no negative part", cn[i] is None)


class StubRHF:
    """restricted mean field with density fitting: potential from the packed three-index integrals it holds"""

    def __init__(self, mol):
        self.mol = mol

    def density_fit(self):
        self.with_df = types.SimpleNamespace(_cderi=None)
        return self

    def get_veff(self):
        d = np.dot(self.mo_coeff * self.mo_occ[None, :], self.mo_coeff.T)
        B = unpack(self.with_df._cderi)
        J = np.einsum("Lpq,L->pq", B, np.einsum("Lpq,pq->L", B, d))
        return J - hlf(np.einsum("Lpr,rs,Lsq->pq", B, d, B, optimize=True))


def unpack(t):
    n = int(round((np.sqrt(8 * t.shape[1] + 1) - 1) / 2))
    r = np.zeros((t.shape[0], n, n), dtype=t.dtype)
    k = 0
    for i in range(n):
        for j in range(i + 1):
            r[:, i, j] = r[:, j, i] = t[:, k]
            k += 1
    return r


def pack(t):
    return np.array([[x[i, j] for i in range(x.shape[0]) for j in range(i + 1)] for x in t], dtype=t.dtype)


def h_df(ctx, n, no, sizes):
    """mean-field object with density fitting: its own potential plus its one-body Hamiltonian is the Fock matrix"""
    x = setup(ctx, False, n=n, no=no, sizes=sizes)
    direct(x)
    B0 = num(ctx, [[1, 2, 2, 4], [2, -1, -1, Fraction(1, 2)], [0, 0, 0, 0]])
    q = np.zeros((3, 3), dtype=object if ctx.symbolic else float)
    q[np.ix_((0, 2), (0, 2))] = ctx.orth("q", 2)
    q[1, 1] = 1
    if ctx.symbolic:
        vt = np.vstack((B0[0] / 5, B0[1] * Fraction(2, 5), np.array([-2, 1, -4, 2], dtype=object) * Fraction(1, 5)))
        ctx.prepare_svd(np.dot(q, B0), q, np.array([Fraction(5), Fraction(5, 2), Fraction(0)], dtype=object), vt)
    B = np.dot(q, B0).reshape(3, 2, 2)
    x.b.get_cderi = lambda c: (B.copy(), None)
    mode = ctx.choice("case", ["df", "no df", "screened", "2d", "not allowed"])
    if mode != "no df":
        x.b.mf.with_df = "df"
    x.b.__class__ = type("EWF_", (type(x.b),), dict(pbc_dimension=property(lambda self: 2 if mode == "2d" else 0)))
    h = ham(x, screening="mrpa" if mode == "screened" else None, cache_eris=True, match_fock=True)
    if mode == "screened":
        h._seris = un(x, screened(x))
    V = vext(x)
    h.v_ext = un(x, V) if ctx.boolean("v_ext") else None
    save = pyscf.scf.RHF, hm.pyscf.lib.pack_tril
    pyscf.scf.RHF = StubRHF
    hm.pyscf.lib.pack_tril = pack
    try:
        mf, frozen = h.to_pyscf_mf(allow_df=mode != "not allowed")
    finally:
        pyscf.scf.RHF, hm.pyscf.lib.pack_tril = save
    ctx.true("density fitting used", hasattr(mf, "with_df") == (mode == "df"))
    F = x.fo[0] + (V[0] if h.v_ext is not None else 0)
    if mode == "df":
        Bc = unpack(mf.with_df._cderi)
        ctx.eq("integrals", np.einsum("Lpq,Lrs->pqrs", Bc, Bc), np.einsum("Lpq,Lrs->pqrs", B, B))
        ctx.eq("h + V = F", mf.get_hcore() + mf.get_veff(), F)
        ctx.true("integrals not held in core", mf.mol.incore_anyway is False)
    else:
        ctx.eq("h + V = F", mf.get_hcore() + hf(x, [mf._eri])[0], F)
        ctx.true("integrals held in core", mf.mol.incore_anyway is True)


def h_mp2(ctx, uhf, scr=False, v=True, **kw):
    """MP2 solver: first-order amplitudes solve their equations, from integrals or from (indefinite) three-index integrals"""
    x = setup(ctx, uhf, **kw)
    exx = [ctx.real("e%d" % q, (m,)) for q, m in enumerate(x.m)]
    for e, o in zip(exx, x.o):
        for i in range(o):
            for j in range(o, len(e)):
                ctx.assume(e[i] <= e[j] - Fraction(1, 8))
    S = x.b.get_ovlp()
    fo = [np.diag(e) if ctx.symbolic else np.diag(e) for e in exx]
    off = [ctx.sym2("of%d" % q, m) for q, m in enumerate(x.m)]
    fo = [f + y - np.diag(np.diag(y)) for f, y in zip(fo, off)]
    fao = [np.dot(np.dot(np.dot(S, c), f), np.dot(S, c).T) for c, f in zip(x.ca, fo)]
    seen = []
    x.b.get_fock = lambda with_exxdiv=True: (seen.append(with_exxdiv), np.stack(fao) if uhf else fao[0])[1]
    mode = ctx.choice("integrals", ["eris", "cderi", "cderi-neg"]) if not scr else "screened"
    h = ham(x, screening="mrpa" if scr else None, cache_eris=False, match_fock=True)
    naux = 2
    Bs = [ctx.real("B%d" % q, (naux, o, m - o)) for q, (m, o) in enumerate(zip(x.m, x.o))]
    Ns = [ctx.real("N%d" % q, (1, o, m - o)) for q, (m, o) in enumerate(zip(x.m, x.o))]
    ov = lambda g, i, j: g[:x.o[i], x.o[i]:, :x.o[j], x.o[j]:]
    if scr:
        W = screened(x)
        h._seris = un(x, W)
    pairs = ((0, 0), (0, 1), (1, 1)) if uhf else ((0, 0),)

    def get_cderi(c):
        if mode in ("eris", "screened"):
            raise AttributeError
        i = 0 if not uhf else x.s.spin(c[0])
        ctx.true("orbitals", [y.shape[1] for y in c] == [x.o[i], x.m[i] - x.o[i]])
        return Bs[i].copy(), (Ns[i].copy() if mode == "cderi-neg" else None)

    x.b.get_cderi = get_cderi
    w = W if scr else x.g
    g = [ov(w[k], i, j) for k, (i, j) in enumerate(pairs)]
    if mode[:5] == "cderi":
        g = [np.einsum("Lia,Ljb->iajb", Bs[i], Bs[j]) - (np.einsum("Lia,Ljb->iajb", Ns[i], Ns[j]) if mode == "cderi-neg" else 0) for i, j in pairs]
    cls = mp2mod.UMP2_Solver if uhf else mp2mod.RMP2_Solver
    sol = cls(h)
    sol.kernel()
    ctx.true("mean-field exchange correction included", all(seen) and len(seen) > 0)
    ctx.true("converged", sol.converged is True)
    en = exx
    if scr:   # orbital energies of the Fock matrix used with the screened interaction
        en = [np.diag(q) for q in sp2(x, h.get_fock(with_exxdiv=True))]
    check = lambda lab, t2: [ctx.eq(lab, np.asarray(t) * den(en, x, i, j), as_(gg, i == j and uhf).transpose(0, 2, 1, 3)) for t, gg, (i, j) in zip(sp2(x, t2), g, pairs)]
    check("amplitude equations", sol.wf.t2)
    ctx.eq("orbitals", list(sp2(x, sol.wf.mo.coeff)), x.ca)
    e = un(x, [np.asarray(q) for q in en])
    for bs in (1, 2):
        kw2 = dict(eris=un(x, g)) if mode in ("eris", "screened") else dict(cderi=un(x, Bs), cderi_neg=(un(x, Ns) if mode == "cderi-neg" else ((None, None) if uhf else None)))
        check("block size %d" % bs, sol.make_t2(e, blksize=bs, **kw2))


def as_(g, anti):
    return g - g.transpose(0, 3, 2, 1) if anti else g


def den(en, x, i, j):
    a, b = (en[k][:x.o[k], None] - en[k][None, x.o[k]:] for k in (i, j))
    return a[:, None, :, None] + b[None, :, None, :]


# --- bosons ------------------------------------------------------------------------------------------------------------

def h_bosons(ctx, uhf, **kw):
    """displaced bosons: no linear bosonic term at the reference, one-body shift, density-matrix shift"""
    x = setup(ctx, uhf, **kw)
    nb = 2
    om = np.array([ctx.scalar("w%d" % i, Fraction(1, 8), 2) for i in range(nb)], dtype=object if ctx.symbolic else float)
    g = [ctx.real("g%d" % q, (nb, m, m)) for q, m in enumerate(x.m)]
    if not uhf:
        g = g * 2
    x.f.bos_freqs = om
    x.f.couplings = tuple(y.copy() for y in g)
    shift = ctx.boolean("polaritonic_shift")
    h = ham(x, screening=None, cache_eris=True, match_fock=True, polaritonic_shift=shift)
    ctx.true("electron-boson Hamiltonian", type(h) is (hm.EB_UClusterHamiltonian if uhf else hm.EB_RClusterHamiltonian))
    base = (hm.UClusterHamiltonian if uhf else hm.RClusterHamiltonian)(x.f, x.b.mf, log=NullLog(), screening=None, cache_eris=True, match_fock=True)
    V = vext(x)
    v = un(x, V) if ctx.boolean("v_ext") else None
    h.v_ext, base.v_ext = v, v
    o = x.o if uhf else x.o * 2
    tr = [sum(np.einsum("npp->n", g[s][:, :o[s], :o[s]]) for s in (0, 1))][0]
    c = h.couplings
    c = c if uhf else (c, c)
    for vx in (True, False):
        hh, h0 = sp2(x, h.get_heff(with_vext=vx)), sp2(x, base.get_heff(with_vext=vx))
        for s, (p, q) in enumerate(zip(hh, h0)):
            d = p - q
            if shift:
                # frequency-weighted: sum_n eta_n (g + g^T), eta_n = tr_n / w_n
                eta = np.array([t / w for t, w in zip(tr, om)], dtype=object if ctx.symbolic else float)
                ctx.eq("one-body shift", d, -np.einsum("n,npq->pq", eta, g[s] + g[s].transpose(0, 2, 1)))
            else:
                ctx.eq("no shift", d, 0 * d)
    if shift:
        ctx.eq("shift", h.polaritonic_shift * om, tr)
        ctx.eq("no linear term at the reference", sum(np.einsum("npp->n", c[s][:, :o[s], :o[s]]) for s in (0, 1)), 0 * tr)
        k = sum(o)
        for s in range(len(x.m)):
            ctx.eq("couplings", k * (g[s] - c[s]), np.einsum("n,pq->npq", tr, np.eye(x.m[s], dtype=int)))
        dm = [ctx.sym2("d%d" % s, m) for s, m in enumerate(x.m)]
        sh = h.get_eb_dm_polaritonic_shift(un(x, dm))
        for s, y in enumerate(sh):
            d = dm[s] if uhf else hlf(dm[0])
            ctx.eq("density-matrix shift", y * om[None, None, :], -np.einsum("n,pq->pqn", tr, d))
    else:
        for s in range(len(x.m)):
            ctx.eq("couplings", c[s], g[s])
        ctx.true("no shift", h._polaritonic_shift is None)
    ctx.eq("couplings unchanged", list(h.unshifted_couplings), g)
    if not uhf and shift:
        f2 = x.f.couplings
        x.f.couplings = (f2[0], f2[1] + 1)
        ctx.raises("spin-dependent couplings", lambda: ham(x, screening=None, cache_eris=True, match_fock=True).couplings, RuntimeError)


# --- screening ---------------------------------------------------------------------------------------------------------

def spread(ctx, name, shape, start):
    """distinct constants with one variable entry"""
    a = np.array([Fraction(start + 7 * i + i * i, 64) for i in range(int(np.prod(shape)))], dtype=object).reshape(shape)
    a = a + a.transpose(1, 0, 2, 3) if shape[0] == shape[1] else a
    a[(0,) * 4] += 40
    a = num(ctx, a)
    a[0, 1, 0, 0] += ctx.scalar(name, 0, Fraction(1, 16))
    return a


def h_screen(ctx, uhf, **kw):
    """screened interactions of the screening module end up in the Hamiltonian: spin average (restricted) or per spin"""
    x = setup(ctx, uhf, **kw)
    m = x.m if uhf else x.m * 2
    x.g = [spread(ctx, "g%d" % i, s, 3 * i) for i, s in enumerate(([(m[0],) * 4] if not uhf else [(m[0],) * 4, (m[0],) * 2 + (m[1],) * 2, (m[1],) * 4]))]
    for y in x.g:
        y *= Fraction(1, 4) if ctx.symbolic else 0.25
    x.b.get_eris_array = x.b.get_eris_array_uhf = lambda c: un(x, [y.copy() for y in x.g])
    new = [spread(ctx, "n%d" % i, s, 11 * i + 1) for i, s in enumerate(((m[0],) * 4, (m[0],) * 2 + (m[1],) * 2, (m[1],) * 4))]
    kind = ctx.choice("screening", ["mrpa", "crpa", "crpa_ov_pcoupled"])
    seen = []
    save = hm.screening_moment, hm.screening_crpa
    hm.screening_moment = types.SimpleNamespace(get_screened_eris_full=lambda e, i, log=None: (seen.append((e, i)), tuple(y.copy() for y in new))[1])
    hm.screening_crpa = types.SimpleNamespace(get_frag_deltaW=lambda mf, f, pcoupling, only_ov_screened, log=None: (seen.append((mf, f, pcoupling, only_ov_screened)), (tuple(y.copy() for y in new), "crpa"))[1])
    try:
        h = ham(x, screening=kind, cache_eris=True, match_fock=True)
        h.add_screening(("moment", "x", "y") if kind == "mrpa" else None)
    finally:
        hm.screening_moment, hm.screening_crpa = save
    ctx.true("one call", len(seen) == 1)
    if kind == "mrpa":
        ctx.eq("bare interactions passed", list(sp2(x, seen[0][0])), x.g)
        ctx.true("moments passed", seen[0][1] == "moment")
    else:
        ctx.true("system and options passed", seen[0][0] is x.b.mf and seen[0][1] is x.f and seen[0][2:] == (kind != "crpa",) * 2)
    if uhf:
        ref = new if kind == "mrpa" else [p + q for p, q in zip(x.g, new)]
    else:
        av = new[0] + new[1] + new[1].transpose(2, 3, 0, 1) + new[2]
        av = av * Fraction(1, 4) if ctx.symbolic else av / 4
        ref = [av] if kind == "mrpa" else [x.g[0] + av]
    ctx.eq("screened interaction", list(sp2(x, h.get_eris_screened())), ref)
    ctx.true("screening recorded", h.has_screening)
    ctx.eq("bare interaction kept", list(sp2(x, h.get_eris_bare())), x.g)


def h_erpa(ctx, **kw):
    """local RPA correction: projected onto the fragment's occupied orbitals, additive over a partition of them"""
    x = setup(ctx, False, **kw)
    no, nv = x.o[0], x.m[0] - x.o[0]
    nov = no * nv
    m0 = ctx.sym2("m", 2 * nov)
    d = ctx.real("d", (2, nov))
    amb = np.zeros((2 * nov, 2 * nov), dtype=object if ctx.symbolic else float)
    for i in range(nov):
        amb[i, i], amb[nov + i, nov + i] = d[0, i], d[1, i]
    v = x.g[0][:no, no:, :no, no:].reshape(nov, nov)
    S = x.b.get_ovlp()
    h = ham(x, screening=None, cache_eris=True, match_fock=True)
    p = np.dot(np.dot(x.f.c_frag.T, S), x.f.cluster.c_active_occ)
    P = np.dot(p.T, p)
    PP = np.einsum("ij,ab->iajb", P, np.eye(nv, dtype=int)).reshape(nov, nov)
    tot = m0[:nov, :nov] + m0[:nov, nov:] + m0[nov:, :nov] + m0[nov:, nov:]
    tr = lambda *a: np.trace(a[0] if len(a) == 1 else np.dot(a[0], a[1]) if len(a) == 2 else np.dot(np.dot(a[0], a[1]), a[2]))
    da, db = amb[:nov, :nov], amb[nov:, nov:]
    e = (tr(PP, m0[:nov, :nov], da) + tr(PP, m0[nov:, nov:], db) - tr(PP, da) - tr(PP, db) - 2 * tr(PP, v))
    ctx.eq("plasmonic energy", 2 * h.calc_loc_erpa(m0, amb), e + 2 * tr(PP, tot, v))
    ctx.eq("cumulant part", 2 * h.calc_loc_erpa(m0, amb, True), tr(PP, tot, v) - 2 * tr(PP, v))


R4 = dict(n=4, no=2, sizes=(1, 2))
R4b = dict(n=4, no=2, sizes=(2, 1))
U4 = dict(n=4, no=(2, 1), sizes=((2, 1), (1, 2)))
U4d = dict(n=4, no=(2, 1), sizes=((2, 2), (1, 1)))
U4e = dict(n=4, no=(1, 2), sizes=((1, 1), (2, 1)))


def H_(name, fn, **kw):
    return Harness(name, fn, kw, bounds=", ".join("%s=%r" % i for i in kw.items()), tiers=kw.pop("tiers", ("quick", "thorough")), extra=["vayesta.solver.hamiltonian", "vayesta.solver.mp2", "vayesta.core.qemb"])


HARNESSES = []
for scr in (False, True):
    for nm, u, k in (("r", False, R4), ("r2", False, R4b), ("u", True, U4), ("ud", True, U4d), ("ue", True, U4e)):
        t = "-screened" if scr else ""
        if nm in ("r", "u", "ud"):
            HARNESSES.append(H_("fock-%s%s" % (nm, t), h_fock, uhf=u, scr=scr, **k))
            HARNESSES.append(H_("blocks-%s%s" % (nm, t), h_blocks, uhf=u, scr=scr, **k))
            if not scr:
                HARNESSES.append(H_("fock-exxdiv-%s" % nm, h_fock, uhf=u, scr=scr, exxdiv=True, **k))
                HARNESSES.append(H_("basis-%s" % nm, h_basis, uhf=u, **k))
        HARNESSES.append(H_("mf-%s%s" % (nm, t), h_mf, uhf=u, scr=scr, **k))
for nm, u, k in (("r", False, R4), ("r2", False, R4b), ("u", True, U4), ("ud", True, U4d)):
    if True:
        HARNESSES.append(H_("mp2-%s" % nm, h_mp2, uhf=u, **k))
        HARNESSES.append(H_("bosons-%s" % nm, h_bosons, uhf=u, **k))
HARNESSES.append(H_("screening-r", h_screen, uhf=False, n=3, no=1, sizes=(1, 1), split=(1, 2)))
HARNESSES.append(H_("screening-u", h_screen, uhf=True, n=3, no=(1, 1), sizes=((1, 1), (1, 1)), split=(1, 2)))
HARNESSES.append(H_("local-rpa", h_erpa, **R4b))
for u in (False, True):
    for kind in ("pair", "redundant"):
        HARNESSES.append(H_("compress-%s-%s" % ("u" if u else "r", kind), h_compress, uhf=u, kind=kind, only_ov=kind == "pair"))
for nm, u, k in (("r", False, R4), ("u", True, U4)):
    HARNESSES.append(H_("mp2-%s-screened" % nm, h_mp2, uhf=u, scr=True, **k))
HARNESSES.append(H_("density-fitting", h_df, n=3, no=1, sizes=(1, 1)))
for h in HARNESSES:
    if h.name in ("mf-ud", "mf-ud-screened"):
        h.tiers = ("thorough",)
