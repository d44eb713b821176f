"""C12: bath construction. The real make_bath/make_cluster of a fragment run on mean-field states given by their exact
decomposition: arbitrary entanglement angles between fragment and bath, arbitrary rotations of the environment, arbitrary
sign and order choices of the eigensolver. The cluster and frozen orbitals must be an orthonormal basis of the whole space
containing the fragment, split into exactly occupied and unoccupied orbitals."""
import itertools
import types
from vsym.harness import Harness
from vsym.sym import Sym
from checks.ewfsim import *
from checks.c18 import sp
import vayesta.core.bath.dmet as dmetmod
import vayesta.core.bath.ewdmet as ewmod
import vayesta.core.bath.r2bath as r2mod
import vayesta.core.bath.bno as bnomod
import vayesta.core.linalg as linmod
import vayesta.core.util as util

META = dict(assumptions=["eigen- and singular-value decompositions answered from prepared ones (arbitrary angles, every sign choice of the vectors)",
                         "mean-field density and Fock matrix are given; position integrals of the R2 bath are given values"])

dmetmod.DMET_Bath_RHF.log_info = lambda self, *a, **k: None   # text output only


class State:
    """One spin channel in an S-orthonormal basis: nf fragment orbitals, each entangled with its own bath orbital by an
    angle (cos f + sin b occupied), plus unentangled fragment orbitals, plus pure environment orbitals."""

    def __init__(self, ctx, name, C0, nbath, fo, fv, eo, ev, frot=0, erot=True):
        self.ctx = ctx
        n = C0.shape[0]
        assert n == 2 * nbath + fo + fv + eo + ev
        self.nb, self.nf = nbath, nbath + fo + fv
        nf = self.nf
        one = np.eye(n, dtype=int).astype(object) if ctx.symbolic else np.eye(n)
        F, B = one[:, :nbath], one[:, nf:nf + nbath]
        rest = one[:, nf + nbath:]
        self.cs = [ctx.rot2("%st%d" % (name, i)) for i in range(nbath)]
        occ, vir = [], []
        for i, (c, s) in enumerate(self.cs):
            occ.append(c * F[:, i] + s * B[:, i])
            vir.append(-s * F[:, i] + c * B[:, i])
        self.cocc = occ + [one[:, nbath + i] for i in range(fo)]      # exact occupied / virtual cluster orbitals
        self.cvir = vir + [one[:, nbath + fo + i] for i in range(fv)]
        self.eocc, self.evir = rest[:, :eo], rest[:, eo:]
        st = lambda l: np.array(l, dtype=object if ctx.symbolic else float).T.reshape(n, len(l))
        self.cocc, self.cvir = st(self.cocc), st(self.cvir)
        occall = np.hstack((self.cocc, self.eocc))
        D = np.dot(occall, occall.T)
        # the code is given rotated fragment and environment orbitals
        fr, er = rotc(ctx, nf, frot), rotc(ctx, n - nf, frot + 1)
        if n - nf > 1 and erot:
            g = np.array(er)
            g[:, :2] = np.dot(er[:, :2], ctx.orth(name + "e", 2))
            er = g
        self.C0 = C0
        self.bo, self.fr, self.er = one, fr, er
        self.c_frag = np.dot(C0, np.dot(one[:, :nf], fr))
        self.c_env = np.dot(C0, np.dot(one[:, nf:], er))
        self.D = np.dot(np.dot(C0, D), C0.T)
        # eigenvectors of the environment density: columns of one[:, nf:] in ascending order of occupation
        occs = [s * s for c, s in self.cs] + [1] * eo + [0] * ev
        for (c, s), (c2, s2) in zip(self.cs, self.cs[1:]):
            ctx.assume(s * s <= s2 * s2)
        order = [nbath + eo + i for i in range(ev)] + list(range(nbath)) + [nbath + i for i in range(eo)]
        self.eorder = order
        E = np.diag(np.array([1] * (n - nf)))
        self.envD = np.dot(np.dot(er.T, np.diag(np.array(occs, dtype=object if ctx.symbolic else float))), er)
        if ctx.symbolic:
            ctx.prepare_eigh(self.envD, np.array([occs[i] for i in order], dtype=object), er.T[:, order])

    def prepare_cluster(self, keep):
        """eigenvectors of the cluster density for every sign of the kept bath orbitals"""
        ctx, nb, nf = self.ctx, self.nb, self.nf
        if not ctx.symbolic:
            return
        # the code's bath orbitals: descending occupation
        kept = [i for i in reversed(range(nb)) if i in keep]
        for sg in itertools.product((1, -1), repeat=len(kept)):
            basis = np.hstack((np.dot(self.bo[:, :nf], self.fr), np.array([sg[j] * self.bo[:, nf + i] for j, i in enumerate(kept)], dtype=object).reshape(len(kept), len(self.bo)).T))
            vecs, e = [], []
            for i in range(nb):
                c, s = self.cs[i]
                if i in keep:
                    vecs.append((0, self.cvir[:, i]))
                    vecs.append((1, self.cocc[:, i]))
                else:
                    vecs.append((c * c, self.bo[:, i]))
            vecs += [(1, self.cocc[:, k]) for k in range(nb, self.cocc.shape[1])] + [(0, self.cvir[:, k]) for k in range(nb, self.cvir.shape[1])]
            vecs.sort(key=lambda p: 0 if isinstance(p[0], int) and p[0] == 0 else (2 if isinstance(p[0], int) else 1))
            W = np.array([np.dot(basis.T, v) for _, v in vecs], dtype=object).T
            e = np.array([p[0] for p in vecs], dtype=object)
            ctx.prepare_eigh(np.dot(np.dot(W, np.diag(e)), W.T), e, W)


def fockof(ctx, name, st, fsym=True, couple=None):
    """Fock matrix with given cluster eigenvectors: canonical cluster orbitals are rotations of the natural ones"""
    n = st.C0.shape[0]
    S0 = np.linalg.inv(st.C0).T if not ctx.symbolic else None
    blocks = []
    rots = {}
    F = 0
    for nm, c in (("o", st.cocc), ("v", st.cvir)):
        m = c.shape[1]
        if m == 0:
            continue
        e = ctx.real(name + "eps" + nm, (m,))
        for i in range(m - 1):
            ctx.assume(e[i] <= e[i + 1])
        r = rotc(ctx, m, 1) if m > 2 or not fsym and m == 2 else ctx.orth(name + "f" + nm, m) if m == 2 else np.ones((1, 1), dtype=int)
        k = np.dot(c, r)
        F = F + np.dot(k * e[None, :], k.T)
        rots[nm] = (r, e)
    # coupling to and within the environment
    env = np.hstack((st.eocc, st.evir))
    x = ctx.real(name + "x", (env.shape[1], st.cocc.shape[1] + st.cvir.shape[1])) if couple is None else couple
    cl = st.bo[:, :st.nf + st.nb]
    y = np.dot(np.dot(env, x), cl.T)
    z = ctx.sym2(name + "z", env.shape[1])
    F = F + y + y.T + np.dot(np.dot(env, z), env.T)
    st.F0 = F
    st.rots = rots
    return F


def prep_fock(ctx, st, F0, groups):
    """decompositions of the Fock blocks for every sign of the natural orbitals. groups: orbital matrices"""
    if not ctx.symbolic:
        return
    for nm, c in groups:
        m = c.shape[1]
        if m < 2:
            continue
        r, e = st.rots[nm]
        A = np.dot(np.dot(c.T, F0), c)
        for perm in itertools.permutations(range(m)):
            for sg in itertools.product((1, -1), repeat=m - 1):
                P = np.zeros((m, m), dtype=int)
                for a, b in enumerate(perm):
                    P[b, a] = ((1,) + sg)[a]
                ctx.prepare_eigh(np.dot(np.dot(P.T, A), P), e, np.dot(P.T, r))


def build(ctx, uhf, specs, metric=True, btype="dmet", erot=True, fsym=True, couple=None, **bo):
    from checks.c22 import rmetric
    n = sum((2 if i == 0 else 1) * k for i, k in enumerate(specs[0][:5]))
    if metric:
        S, _ = rmetric(ctx, n)
        C0 = lowinvT(S) if ctx.symbolic else np.linalg.inv(np.linalg.cholesky(S)).T
    else:
        S = np.eye(n, dtype=int).astype(object) if ctx.symbolic else np.eye(n)
        C0 = S.copy()
    sts = [State(ctx, "ab"[k], C0, *spec, frot=k, erot=erot) for k, spec in enumerate(specs)]
    no = [st.cocc.shape[1] + st.eocc.shape[1] for st in sts]
    pk = (lambda x: tuple(x)) if uhf else (lambda x: x[0])
    C = [np.dot(C0, np.hstack((st.cocc, st.eocc, st.cvir, st.evir))) for st in sts]
    b = base(ctx, S, pk(C), pk(no), uhf=uhf)
    SC = np.dot(S, C0)
    fo = []
    for k, st in enumerate(sts):
        f0 = fockof(ctx, "ab"[k], st, fsym, couple)
        st.F = np.dot(np.dot(SC, f0), SC.T)
        fo.append(st.F)
    b.get_fock = b.get_fock_for_bath = lambda *a, **k: np.stack(fo) if uhf else fo[0]
    D = [st.D for st in sts]
    b.mf.make_rdm1 = lambda *a, **k: np.stack(D) if uhf else 2 * D[0]
    b.opts.bath_options = dict(b.opts.bath_options, bathtype=btype, **bo)
    f = frag(b, pk([st.c_frag for st in sts]), pk([st.c_env for st in sts]))
    f.opts.bath_options = dict(f.opts.bath_options, bathtype=btype, **bo)
    return b, f, sts, S


def check(ctx, b, f, sts, S, uhf, exact=True, tol=None, full=False):
    c = f.cluster
    spn = range(len(sts))
    g = lambda a: sp(a)
    n = S.shape[0]
    for s, st in enumerate(sts):
        act_o, act_v, fr_o, fr_v = (g(x)[s] for x in (c.c_active_occ, c.c_active_vir, c.c_frozen_occ, c.c_frozen_vir))
        allc = np.hstack((act_o, act_v, fr_o, fr_v))
        ctx.true("number of orbitals", allc.shape[1] == n)
        ctx.eq("orthonormal basis", np.dot(np.dot(allc.T, S), allc), np.eye(n, dtype=int))
        act = np.hstack((act_o, act_v))
        p = np.dot(np.dot(act.T, S), g(f.c_frag)[s])
        ctx.eq("fragment inside the cluster", np.dot(p.T, p), np.eye(st.nf, dtype=int))
        if exact:
            for x, v in ((np.hstack((act_o, fr_o)), 1), (np.hstack((act_v, fr_v)), 0)):
                y = np.dot(S, x)
                ctx.eq("occupation %d" % v, np.dot(np.dot(y.T, st.D), y), v * np.eye(x.shape[1], dtype=int))
        for x in (act_o, act_v):
            F = np.dot(np.dot(x.T, st.F), x)
            if x.shape[1] and exact:
                ctx.eq("canonical", F - np.diag(np.diag(F)), np.zeros(F.shape, dtype=int))
                ctx.true("ascending", all(bool(F[i, i] <= F[i + 1, i + 1] + (0 if ctx.symbolic else 1e-9)) for i in range(len(F) - 1)))


def h_dmet(ctx, uhf, specs, metric=True, trunc=False, tol=Fraction(1, 10), **kw):
    """DMET bath and cluster: every entanglement angle; truncation of nearly unentangled bath orbitals"""
    b, f, sts, S = build(ctx, uhf, specs, metric, dmet_threshold=float(tol) if not ctx.symbolic else tol, occupation_tolerance=float(tol) if not ctx.symbolic else tol, canonicalize=not trunc, **kw)
    n = S.shape[0]
    keeps = []
    for st in sts:
        keep = []
        for i, (c, s) in enumerate(st.cs):
            if not trunc:
                ctx.assume(s * s >= tol)
                ctx.assume(s * s <= 1 - tol)
                keep.append(i)
            elif bool(s * s >= tol) and bool(s * s <= 1 - tol):
                keep.append(i)
        keeps.append(keep)
        st.prepare_cluster(keep)
        if not trunc:
            prep_fock(ctx, st, st.F0, (("o", st.cocc), ("v", st.cvir)))
    f.make_bath()
    d = f._dmet_bath
    g = lambda a: sp(a)
    for s, st in enumerate(sts):
        bath, eo, ev, nd = (g(x)[s] for x in (d.c_dmet, d.c_env_occ, d.c_env_vir, d.n_dmet))
        ctx.true("kept bath orbitals", bath.shape[1] == len(keeps[s]))
        ctx.eq("bath occupations", nd, [st.cs[i][1] * st.cs[i][1] for i in reversed(keeps[s])])
        y = np.dot(S, bath)
        ctx.eq("occupations of the bath orbitals", np.diag(np.dot(np.dot(y.T, st.D), y)), nd)
        env = np.hstack((bath, eo, ev))
        ctx.eq("environment split", np.dot(env, env.T), np.dot(st.c_env, st.c_env.T))
        for x, lo in ((eo, True), (ev, False)):
            y = np.dot(S, x)
            o = np.diag(np.dot(np.dot(y.T, st.D), y))
            ctx.true("environment occupations beyond the threshold", all(bool(q > 1 - tol) if lo else bool(q < tol) for q in o))
    # threshold of the mean-field state separates every orbital: number of cluster electrons
    nel = sum(g(d.c_cluster_occ)[s].shape[1] for s in range(len(sts)))
    ctx.true("cluster electrons", d.get_cluster_electrons() == (nel if uhf else 2 * nel))
    ob, vb = d.get_occupied_bath(), d.get_virtual_bath()
    for (x, y), e in ((ob, d.c_env_occ), (vb, d.c_env_vir)):
        ctx.true("no further bath orbitals", all(z.shape[1] == 0 for z in (x if uhf else [x])))
        ctx.eq("all environment orbitals remain", list(g(y)), list(g(e)))
    try:
        c = f.make_cluster()
    except AssertionError:
        ctx.true("occupations within tolerance", trunc)
        return
    check(ctx, b, f, sts, S, uhf, exact=not trunc)
    if not trunc:
        for s, st in enumerate(sts):
            ctx.true("electrons of the cluster", g(c.nocc_active)[s] == st.cocc.shape[1] and g(c.nvir_active)[s] == st.cvir.shape[1])
    ctx.eq("orbital occupations", [np.asarray(q) for q in (f.get_mo_occupation(c.c_total_occ) if uhf else [f.get_mo_occupation(c.c_total_occ)])],
           [np.diag(np.dot(np.dot(np.dot(S, x).T, (1 if uhf else 2) * st.D), np.dot(S, x))) for x, st in zip(g(c.c_total_occ), sts)])
    ctx.eq("fragment electrons", list(f.nelectron) if uhf else [f.nelectron], [(1 if uhf else 2) * np.trace(np.dot(np.dot(np.dot(S, st.c_frag).T, st.D), np.dot(S, st.c_frag))) for st in sts])


def num0(ctx, x):
    return x if ctx.symbolic else float(x)


def half(st, S, x, F):
    return np.dot(np.dot(np.dot(S, x).T, F), np.dot(S, x))


def setup(ctx, specs, uhf, btype, canon=False, **kw):
    tol = num0(ctx, Fraction(1, 10))
    b, f, sts, S = build(ctx, uhf, specs, btype=btype, canonicalize=canon, dmet_threshold=tol, occupation_tolerance=tol, **kw)
    for st in sts:
        for c, s in st.cs:
            ctx.assume(s * s >= tol)
            ctx.assume(s * s <= 1 - tol)
        st.prepare_cluster(list(range(st.nb)))
        prep_fock(ctx, st, st.F0, (("o", st.cocc), ("v", st.cvir)))
    return b, f, sts, S


def h_full(ctx, uhf, specs, metric=False, mixed=False):
    """full bath (optionally only for one type of orbitals): every orbital becomes active, none is frozen"""
    b, f, sts, S = setup(ctx, specs, uhf, "full", metric=metric, erot=False, fsym=False)
    which = ctx.choice("which", ["both", "occ", "vir"]) if mixed else "both"
    if which != "both":
        f.opts.bath_options["bathtype"] = "dmet"
        f.opts.bath_options["bathtype_" + which] = "full"
    f.make_bath()
    c = f.make_cluster()
    check2(ctx, b, f, sts, S, uhf)
    g = lambda a: sp(a)
    for s, st in enumerate(sts):
        for nm, x, full in (("occ", c.c_frozen_occ, st.eocc), ("vir", c.c_frozen_vir, st.evir)):
            ctx.true("frozen %s" % nm, g(x)[s].shape[1] == (full.shape[1] if which not in ("both", nm) else 0))


def check2(ctx, b, f, sts, S, uhf):
    """orthonormal basis of exactly occupied and unoccupied orbitals containing the fragment (not canonicalised)"""
    c = f.cluster
    for s, st in enumerate(sts):
        act_o, act_v, fr_o, fr_v = (sp(x)[s] for x in (c.c_active_occ, c.c_active_vir, c.c_frozen_occ, c.c_frozen_vir))
        allc = np.hstack((act_o, act_v, fr_o, fr_v))
        ctx.true("number of orbitals", allc.shape[1] == S.shape[0])
        ctx.eq("orthonormal basis", np.dot(np.dot(allc.T, S), allc), np.eye(S.shape[0], dtype=int))
        p = np.dot(np.dot(np.hstack((act_o, act_v)).T, S), sp(f.c_frag)[s])
        ctx.eq("fragment inside the cluster", np.dot(p.T, p), np.eye(st.nf, dtype=int))
        for x, v in ((np.hstack((act_o, fr_o)), 1), (np.hstack((act_v, fr_v)), 0)):
            ctx.eq("occupation %d" % v, half(st, S, x, st.D), v * np.eye(x.shape[1], dtype=int))


def h_ew(ctx, specs, nenv, metric=False):
    """energy-weighted bath: orbitals of order k couple by the Fock matrix only to orders k-1, k, k+1"""
    spec = specs[0]
    nb, fo, fv, eo, ev = spec
    ncl = 2 * nb + fo + fv
    tol = num0(ctx, Fraction(1, 10))
    w = "occ" if eo else "vir"
    ne = eo + ev
    x = ctx.real("x", (ne, ncl))
    if ne == 2:
        c, s = ctx.rot2("cpl")
        r = ctx.real("r")
        ctx.assume(r >= 0)
        x[0, 0], x[1, 0] = r * c, r * s
    b, f, sts, S = setup(ctx, specs, False, "dmet", metric=metric, erot=False, fsym=False, couple=x)
    st = sts[0]
    order = ctx.int("order", 0, 3)
    maxo = ctx.choice("max_order", [1, 20])
    f.opts.bath_options.update({"bathtype_" + w: "ewdmet", "threshold": tol, "order": order, "max_order": maxo})
    if ctx.symbolic and ne == 2:
        one = np.ones((1, 1), dtype=int).astype(object)
        for perm in ((0, 1), (1, 0)):
            for s0, s1, s2 in itertools.product((1, -1), repeat=3):
                v = [x[0, 0], x[1, 0]]
                cs = [c, s]
                row = np.array([[s1 * v[perm[0]], s2 * v[perm[1]]]], dtype=object)
                a, d = s1 * cs[perm[0]], s2 * cs[perm[1]]
                for sg in (1, -1):
                    ctx.prepare_svd(sg * row, sg * one, np.array([r], dtype=object), np.array([[a, d], [-d, a]], dtype=object))
    f.make_bath()
    fac = getattr(f, "_bath_factory_" + w)
    c = f.make_cluster()
    check2(ctx, b, f, sts, S, False)
    nact = getattr(c, "c_active_" + w).shape[1] - getattr(st, "c" + w).shape[1]
    od, sv, cb = fac.orders, fac.sv, fac.c_bath
    ctx.true("active bath orbitals", nact == sum(1 for o in od if o <= order))
    ctx.true("orders ascend from one", all(od[i] <= od[i + 1] for i in range(len(od) - 1)) and all(o >= 1 for o in od))
    ctx.true("no order beyond the maximum", all(o <= maxo or np.isinf(float(o)) for o in od))
    chain = np.hstack((st.c_frag, cb))
    F = half(st, np.eye(len(S), dtype=int), chain, st.F)
    lev = [0] * st.nf + [float(o) for o in od]
    for i in range(len(lev)):
        for j in range(len(lev)):
            if np.isinf(lev[i]) or lev[j] <= lev[i] + 1:
                continue
            if np.isinf(lev[j]):
                if maxo == 20 or lev[i] < maxo:
                    ctx.true("uncoupled within the threshold", F[i, j] < tol)
                    ctx.true("uncoupled within the threshold", -F[i, j] < tol)
            else:
                ctx.eq("coupling of orders differing by more than one", F[i, j], 0)
    for k in range(st.nf, len(lev)):
        if not np.isinf(lev[k]):
            prev = [i for i in range(len(lev)) if lev[i] == lev[k] - 1]
            q = F[prev, k]
            ctx.eq("singular value", np.dot(q, q), sv[k - st.nf] * sv[k - st.nf])
            ctx.true("singular value above threshold", sv[k - st.nf] >= tol)


def h_svd(ctx, n, m, order):
    """recursive block decomposition of a matrix with one-dimensional couplings: an orthogonal, block-tridiagonalising rotation"""
    tol = num0(ctx, Fraction(1, 10))
    a = ctx.sym2("a", n + m)
    co, sv, od = linmod.recursive_block_svd(a, n, tol=tol, maxblock=order)
    ctx.eq("orthogonal", np.dot(co.T, co), np.eye(m, dtype=int))
    ctx.true("sizes", len(sv) == m and len(od) == m and co.shape == (m, m))


def h_r2(ctx, specs, metric=False):
    """orbitals within the distance: eigenvectors of the squared-distance matrix of the environment"""
    spec = specs[0]
    nb, fo, fv, eo, ev = spec
    tol = num0(ctx, Fraction(1, 10))
    w = "occ" if eo else "vir"
    b, f, sts, S = setup(ctx, specs, False, "dmet", metric=metric, erot=False, fsym=False)
    st = sts[0]
    f.atoms = [0]
    b.mol.atom_coord = lambda a: np.zeros(3)
    rc = ctx.real("rcut")
    ctx.assume(rc >= 0)
    d = ctx.real("d", (eo + ev,))
    for i in range(len(d) - 1):
        ctx.assume(d[i] <= d[i + 1])
    ctx.assume(d[0] >= 0)
    V = ctx.orth("r2", eo + ev) if eo + ev > 1 else np.ones((1, 1), dtype=int)
    E = np.hstack((st.eocc, st.evir))
    U = np.dot(E, V)
    R = np.dot(U * (d * d)[None, :], U.T)
    z = ctx.sym2("z", 2 * nb + fo + fv)
    cl = st.bo[:, :st.nf + st.nb]
    R = R + np.dot(np.dot(cl, z), cl.T)
    SC = np.dot(S, st.C0)
    R = np.dot(np.dot(SC, R), SC.T)
    old = r2mod._get_r2
    r2mod._get_r2 = lambda mol, center, mesh=None: R
    if ctx.symbolic:
        k = eo + ev
        for perm in itertools.permutations(range(k)):
            for sg in itertools.product((1, -1), repeat=k):
                P = np.zeros((k, k), dtype=int)
                for i, j in enumerate(perm):
                    P[j, i] = sg[i]
                for q in (V, np.dot(st.er.T, V)) if nb == 0 else (V,):
                    q = np.dot(P.T, q)
                    ctx.prepare_eigh(np.dot(q * (d * d)[None, :], q.T), d * d, q)
    unit = ctx.choice("unit", ["bohr", "B"])
    f.opts.bath_options.update({"bathtype_" + w: "r2", "rcut": rc, "unit": unit})
    try:
        f.make_bath()
        c = f.make_cluster()
    finally:
        r2mod._get_r2 = old
    check2(ctx, b, f, sts, S, False)
    nact = getattr(c, "c_active_" + w).shape[1] - getattr(st, "c" + w).shape[1]
    bath = getattr(c, "c_active_" + w)[:, getattr(st, "c" + w).shape[1]:]
    rest = getattr(c, "c_frozen_" + w)
    I = np.eye(len(S), dtype=int)
    ctx.eq("distances of the bath orbitals", half(st, I, bath, R), np.diag((d * d)[:nact]) if nact else np.zeros((0, 0)))
    ctx.eq("distances of the remaining orbitals", half(st, I, rest, R), np.diag((d * d)[nact:]) if nact < len(d) else np.zeros((0, 0)))
    for i in range(len(d)):
        ctx.true("bath orbitals are those within the distance", bool(d[i] <= rc) == (i < nact))


def h_sign(ctx, n, m, inplace, uhf=False):
    """sign convention: columns only change sign and their largest entry becomes positive"""
    C = ctx.real("C", (n, m))
    C0 = C.copy()
    for j in range(m):
        ctx.assume(sum(C[i, j] * C[i, j] for i in range(n)) > 0)
    if uhf:
        (out, o2), (sg, sg2) = util.fix_orbital_sign((C, -C0), inplace=inplace)
        ctx.eq("both channels", o2, out)
        ctx.eq("both channels", sg2, -sg)
    else:
        out, sg = util.fix_orbital_sign(C, inplace=inplace)
    ctx.true("signs", all(int(s) in (1, -1) for s in sg))
    ctx.eq("columns change sign", out, C0 * np.asarray(sg)[None, :])
    for j in range(m):
        top = max(range(n), key=lambda i: abs(C0[i, j]))
        ctx.true("largest entry positive", out[top, j] > 0)
    ctx.eq("input kept unless asked for", C, out if inplace else C0)


def h_canon(ctx, sub, nao):
    """canonicalise_mo: rotation within the given orbitals that diagonalises the Fock matrix there"""
    k = sum(sub)
    C = ctx.real("C", (nao, k))
    e = ctx.real("e", (k,))
    for i in range(k - 1):
        ctx.assume(e[i] <= e[i + 1])
    V = ctx.orth("V", k) if k > 1 else np.ones((1, 1), dtype=int)
    A = np.dot(V * e[None, :], V.T)
    # Fock matrix with C^T F C = A, where C = [C1; C2] and C1 invertible
    T = rotc(ctx, k, 2)
    C[:k] = T
    F = ctx.sym2("F", nao)
    F[:k, k:] = 0
    F[k:, :k] = 0
    rest = np.dot(np.dot(C[k:].T, F[k:, k:]), C[k:])
    F[:k, :k] = np.dot(np.dot(T, A - rest), T.T)
    ctx.prepare_eigh(A, e, V)
    S = np.eye(nao, dtype=int).astype(object) if ctx.symbolic else np.eye(nao)
    b = base(ctx, S, S, 1)
    f = frag(b, S[:, :1], S[:, 1:])
    b.get_fock = lambda *a, **kw: F
    give = ctx.boolean("give fock")
    sgn = ctx.boolean("sign convention")
    parts = np.hsplit(C, np.cumsum(sub)[:-1])
    keep = [p.copy() for p in parts]
    out, rot, en = f.canonicalize_mo(*parts, fock=F if give else None, eigvals=True, sign_convention=sgn)
    ctx.eq("inputs untouched", parts, keep)
    ctx.eq("orthogonal rotation", np.dot(rot.T, rot), np.eye(k, dtype=int))
    ctx.eq("rotated orbitals", out - np.dot(C, rot), np.zeros(C.shape, dtype=int))
    ctx.eq("diagonal", np.dot(np.dot(out.T, F), out), np.diag(np.asarray(en)))
    ctx.true("ascending", all(bool(en[i] <= en[i + 1]) for i in range(k - 1)))


def so(blocks, no, nv):
    """antisymmetric spin-orbital amplitudes from (aa, ab, bb); spin-orbital order: alpha then beta"""
    aa, ab, bb = blocks
    t = np.zeros((sum(no), sum(no), sum(nv), sum(nv)), dtype=object)
    o, O, v, V = slice(0, no[0]), slice(no[0], None), slice(0, nv[0]), slice(nv[0], None)
    t[o, o, v, v], t[O, O, V, V] = aa, bb
    t[o, O, v, V] = ab
    t[O, o, V, v] = ab.transpose(1, 0, 3, 2)
    t[o, O, V, v] = -ab.transpose(0, 1, 3, 2)
    t[O, o, v, V] = -ab.transpose(1, 0, 2, 3)
    return t


def h_bno(ctx, uhf, occtype, nclu, nenv, order, mode, canon, df, other=1):
    """MP2 bath: the natural orbitals diagonalise the environment block of the second-order density of the amplitudes whose
    other indices are projected onto fragment and weighted DMET orbitals; invariant to canonicalising"""
    nsp = 2 if uhf else 1
    occ = occtype == "occupied"
    na = nclu + nenv
    no, nv = (na, other) if occ else (other, na)
    n = no + nv
    I = np.eye(n, dtype=int).astype(object) if ctx.symbolic else np.eye(n)
    spaces, focks, can, eps, D = [], [], [], [], []
    for s in range(nsp):
        e = [Fraction(-(n - i) - s) for i in range(no)] + [Fraction(1 + 2 * i + s) for i in range(nv)]
        U = np.array(I)
        lo = slice(0, no) if occ else slice(no, n)
        if canon and na == 2:
            U[lo, lo] = ctx.orth("u%d" % s, 2)
            ee = np.array(e[lo], dtype=object if ctx.symbolic else float)
            if ctx.symbolic:
                A = np.dot(U[lo, lo] * ee[None, :], U[lo, lo].T)
                ctx.prepare_eigh(A, ee, U[lo, lo])
        E = np.array(e, dtype=object if ctx.symbolic else float)
        focks.append(np.dot(U * E[None, :], U.T))
        can.append(U)
        eps.append(E)
    C = [rotc(ctx, n, s) if n > 1 else I for s in range(nsp)]
    F = [np.dot(np.dot(C[s], focks[s]), C[s].T) for s in range(nsp)]
    L = [ctx.real("L%d" % s, (1, no, nv)) for s in range(nsp)]       # (L|ov) in the basis of the given orbitals
    co, cv = [c[:, :no] for c in C], [c[:, no:] for c in C]
    clo = [c[:, :nclu] if occ else c[:, :other] for c in co]
    clv = [c[:, :other] if occ else c[:, :nclu] for c in cv]
    env = [c[:, nclu:] for c in (co if occ else cv)]
    pk = (lambda x: tuple(x)) if uhf else (lambda x: x[0])
    empty = [np.zeros((n, 0)) for s in range(nsp)]
    # fragment and DMET bath span the cluster (given by an orthogonal combination of cluster orbitals)
    fragc, dm, nd = [], [], []
    for s in range(nsp):
        x = np.hstack((clo[s], clv[s]))
        c, sn = ctx.rot2("fb%d" % s)
        fragc.append((c * x[:, 0] + sn * x[:, -1])[:, None])
        dm.append((-sn * x[:, 0] + c * x[:, -1])[:, None])
        w = ctx.real("n%d" % s, (1,))
        ctx.assume(w[0] >= 0)
        ctx.assume(w[0] <= 1)
        nd.append(w)
    dmet = types.SimpleNamespace(c_cluster_occ=pk(clo), c_cluster_vir=pk(clv), c_env_occ=pk(env if occ else empty), c_env_vir=pk(empty if occ else env),
                                 c_dmet=pk(dm), n_dmet=pk(nd), get_cluster_electrons=lambda: 2)
    cls = bnomod.UMP2_BNO_Bath if uhf else bnomod.MP2_BNO_Bath
    S = I.copy()
    b = base(ctx, S, pk(C), pk([no] * nsp), uhf=uhf)
    f = frag(b, pk(fragc), pk(dm))
    def tr(mo, s):
        # integrals in the requested orbitals; the auxiliary index carries one vector
        o, v = (np.dot(np.dot(m.T, S), c) for m, c in zip(mo, (co[s], cv[s])))
        return np.einsum("io,av,Lov->Lia", o, v, L[s])
    def get_cderi(mo):
        s = 1 if uhf and spin_of(mo, co) else 0
        return tr(mo, s), None
    def spin_of(mo, co):
        # which channel the orbitals belong to
        d = mo[0] - np.dot(co[0], np.dot(co[0].T, mo[0]))
        return any(abs(float(x)) > 1e-6 if not ctx.symbolic else bool(Sym.const(x).d) for x in d.flat)
    b.get_cderi = get_cderi
    g2 = lambda x, y: np.einsum("Lia,Ljb->iajb", x, y)
    b.get_eris_array = lambda mo: g2(tr(mo[:2], 0), tr(mo[:2], 0))
    def eri_u(mo, mo_coeff2=None):
        x = [tr((mo[s], mo_coeff2[s]), s) for s in (0, 1)]
        return g2(x[0], x[0]), g2(x[0], x[1]), g2(x[1], x[1])
    b.get_eris_array_uhf = eri_u
    type(b).has_df = property(lambda self: df)
    b.mol.nao = n
    b.get_fock_for_bath = lambda *a, **k: np.stack(F) if uhf else F[0]
    seen = []
    def diag(self, dmx):
        seen.append(dmx)
        q = [np.asarray(y) for y in (dmx if uhf else [dmx])]
        r = [np.array([[0, 1], [1, 0]]) if y.shape == (2, 2) else np.eye(len(y), dtype=int) for y in q]
        n_ = [np.arange(len(y))[::-1] for y in q]
        return pk(r), pk(n_)
    old = cls._diagonalize_dm
    oldlog = cls.log_histogram
    cls._diagonalize_dm = diag
    cls.log_histogram = lambda self, *a: None
    cobj = canon if na == 2 else False
    cflag = (cobj, False) if occ else (False, cobj)
    try:
        bath = cls(f, dmet, occtype, canonicalize=cflag, project_dmet_order=order, project_dmet_mode=mode)
    finally:
        cls._diagonalize_dm = old
        cls.log_histogram = oldlog
    one = Fraction(1) if ctx.symbolic else 1.0
    weight = {"full": lambda x: 0, "half": lambda x: one / 2, "linear": lambda x: 2 * x if bool(x <= one / 2) else 2 * (1 - x),
              "entropy": lambda x: 4 * x * (1 - x), "squared-entropy": lambda x: (4 * x * (1 - x)) * (4 * x * (1 - x))}[mode]
    # definition
    T, P = [], []
    Lc = [np.einsum("io,av,Lov->Lia", can[s][:no, :no].T, can[s][no:, no:].T, L[s]) for s in range(nsp)]
    inv = lambda s, r: np.array([[[[1 / (eps[s][i] + eps[r][j] - eps[s][no + a] - eps[r][no + c]) for c in range(nv)] for a in range(nv)] for j in range(no)] for i in range(no)], dtype=object if ctx.symbolic else float)
    for s in range(nsp):
        sub = (clv if occ else clo)[s]
        act = (cv if occ else co)[s]
        cf = np.hstack((fragc[s], dm[s]))
        r = np.dot(act.T, cf)
        p = np.dot(r * np.array([1, weight(nd[s][0])], dtype=object if ctx.symbolic else float)[None, :], r.T)
        P.append(p)
    raw = lambda s, r: np.einsum("Lia,Ljb->ijab", Lc[s], Lc[r]) * inv(s, r)
    back = lambda t, s, r: np.einsum("Ii,Jj,Aa,Bb,ijab->IJAB", can[s][:no, :no], can[r][:no, :no], can[s][no:, no:], can[r][no:, no:], t)
    if uhf:
        blk = [back(raw(s, r), s, r) for s, r in ((0, 0), (0, 1), (1, 1))]
        blk = [blk[0] - blk[0].transpose(0, 1, 3, 2), blk[1], blk[2] - blk[2].transpose(0, 1, 3, 2)]
        t = so(blk, (no, no), (nv, nv))
        Q = np.zeros((2 * len(P[0]),) * 2, dtype=object)
        Q[:len(P[0]), :len(P[0])], Q[len(P[0]):, len(P[0]):] = P
    else:
        t = back(raw(0, 0), 0, 0)
        Q = P[0]
    half_ = one / 2
    if occ:
        if order == 1:
            t = (np.einsum("xa,ijab->ijxb", Q, t) + np.einsum("xb,ijab->ijax", Q, t)) * half_
        elif order == 2:
            t = np.einsum("xa,yb,ijab->ijxy", Q, Q, t)
        d = np.einsum("ikab,jkab->ij", t, t) * half_ if uhf else 2 * np.einsum("ikab,jkab->ij", t, t) - np.einsum("ikab,jkba->ij", t, t)
    else:
        if order == 1:
            t = (np.einsum("xi,ijab->xjab", Q, t) + np.einsum("xj,ijab->ixab", Q, t)) * half_
        elif order == 2:
            t = np.einsum("xi,yj,ijab->xyab", Q, Q, t)
        d = np.einsum("ijac,ijbc->ab", t, t) * half_ if uhf else 2 * np.einsum("ijac,ijbc->ab", t, t) - np.einsum("ijac,ijcb->ab", t, t)
    if uhf:
        m = na
        want = [d[nclu:m, nclu:m], d[m + nclu:, m + nclu:]]
    else:
        want = [d[nclu:, nclu:]]
    ctx.true("diagonalised once", len(seen) == 1)
    ctx.eq("environment block of the projected density", list(seen[0]) if uhf else [seen[0]], want)
    for s in range(nsp):
        cb = sp(bath.coeff)[s] if uhf else bath.coeff
        P1 = np.dot(cb, cb.T) - np.dot(env[s], env[s].T)
        ctx.eq("natural orbitals span the environment", P1, np.zeros(P1.shape, dtype=int))


S1 = (1, 0, 0, 1, 1)       # one entangled pair, one occupied and one virtual environment orbital
S2 = (1, 1, 0, 1, 0)
S3 = (0, 1, 1, 1, 1)       # unentangled fragment
S4 = (2, 0, 0, 0, 1)
S5 = (1, 0, 1, 1, 0)
HARNESSES = []


def add(name, fn, tiers=("quick", "thorough"), **p):
    k = sum(h.name.rsplit(" #", 1)[0] == name for h in HARNESSES)
    name += " #%d" % (k + 1) if k else ""
    HARNESSES.append(Harness(name, fn, params=p, tiers=tiers, bounds=str(p), extra=["vayesta.core.bath", "vayesta.core.linalg", "vayesta.core.types"]))


add("dmet", h_dmet, uhf=False, specs=[S1])
add("dmet frag occ", h_dmet, uhf=False, specs=[S2], metric=False, erot=False)
add("dmet unentangled", h_dmet, uhf=False, specs=[S3])
add("dmet two pairs", h_dmet, uhf=False, specs=[S4], metric=False, erot=False, fsym=False, tiers=("thorough",))
add("dmet truncated", h_dmet, uhf=False, specs=[S1], metric=False, trunc=True)
add("unrestricted dmet", h_dmet, uhf=True, specs=[(1, 0, 0, 0, 1), (0, 1, 0, 1, 1)], metric=False)

add("unrestricted dmet metric", h_dmet, uhf=True, specs=[(1, 0, 0, 1, 1), (0, 1, 1, 1, 1)], erot=False, tiers=("thorough",))
add("dmet 5", h_dmet, uhf=False, specs=[S5], metric=False, erot=False, tiers=("thorough",))
add("full bath", h_full, uhf=False, specs=[(1, 0, 0, 1, 1)], metric=True, mixed=True)
add("full bath two", h_full, uhf=False, specs=[(0, 1, 1, 2, 1)])
add("unrestricted full bath", h_full, uhf=True, specs=[(1, 0, 0, 0, 1), (0, 1, 0, 1, 1)], mixed=True)
add("ew one", h_ew, specs=[(1, 0, 0, 1, 0)], nenv=1, metric=True)
add("ew occ", h_ew, specs=[(1, 0, 0, 2, 0)], nenv=2)
add("ew vir", h_ew, specs=[(1, 0, 0, 0, 2)], nenv=2)
add("ew occ frag", h_ew, specs=[(0, 0, 1, 1, 0)], nenv=1)
add("block svd", h_svd, n=1, m=1, order=3)
add("r2 occ", h_r2, specs=[(1, 0, 0, 2, 0)])
add("r2 vir", h_r2, specs=[(0, 1, 0, 0, 2)], metric=False)
add("r2 one", h_r2, specs=[(1, 0, 0, 0, 1)], metric=True)
for ip in (True, False):
    add("sign", h_sign, n=2, m=2, inplace=ip, uhf=False)
add("sign uhf", h_sign, n=3, m=1, inplace=False, uhf=True)
add("canonical", h_canon, sub=(1, 1), nao=3)
add("canonical 1", h_canon, sub=(1,), nao=2)

for occtype in ("occupied", "virtual"):
    for order, mode in ((0, "full"), (1, "half"), (1, "entropy"), (2, "linear"), (2, "squared-entropy")):
        add("mp2 bath", h_bno, uhf=False, occtype=occtype, nclu=1, nenv=1, order=order, mode=mode, canon=order != 1, df=order != 2)
    add("mp2 bath", h_bno, uhf=False, occtype=occtype, nclu=1, nenv=2, order=1, mode="half", canon=False, df=True)
    for order, mode in ((0, "full"), (1, "half"), (2, "entropy")):
        add("unrestricted mp2 bath", h_bno, uhf=True, occtype=occtype, nclu=1, nenv=1, order=order, mode=mode, canon=order == 0, df=order != 2)
    add("mp2 bath wide", h_bno, uhf=False, occtype=occtype, nclu=1, nenv=2, order=2, mode="entropy", canon=False, df=True, other=2, tiers=("thorough",))
    add("unrestricted mp2 bath wide", h_bno, uhf=True, occtype=occtype, nclu=1, nenv=1, order=2, mode="half", canon=True, df=True, other=1, tiers=("thorough",))
    add("unrestricted mp2 bath wide", h_bno, uhf=True, occtype=occtype, nclu=1, nenv=2, order=1, mode="half", canon=False, df=False, other=2, tiers=("thorough",))
