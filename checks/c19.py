"""C19: correlation functions. The real functions of misc/corrfunc.py, get_corrfunc / get_corrfunc_unrestricted /
get_corrfunc_mf and the atom projector assembly run on symbolic density matrices, cumulants, projectors and orbitals.
Oracle: the definition as a sum over second-quantised operators, sum_ijkl P_ij Q_kl (<a+_i a+_k a_l a_j> + delta_jk <a+_i a_l>)
per pair of spins, evaluated with plain loops from the spin-resolved density matrices."""
import types
import itertools
import numpy as np
from vsym.harness import Harness
from checks.common import *
from checks.c13 import NullLog
from checks.c04 import pk
from vayesta.misc import corrfunc as cf
from vayesta.core.qemb import corrfunc as qcf
from vayesta.core.qemb import qemb
from vayesta.core.qemb import fragment as qfrag

META = dict(assumptions=["projectors are symmetric matrices (any symmetric operator is allowed)",
                         "restricted density matrices are those of spin singlets (the same-spin part is the antisymmetrised opposite-spin part)",
                         "approximate cumulant in the library's sense: 2-DM minus the symmetrised products of the mean-field and (correlated - half mean-field) 1-DM"])


def two(d2, p, q):
    n = d2.shape[0]
    return sum(p[i, j] * q[k, l] * d2[i, j, k, l] for i in range(p.shape[0]) for j in range(p.shape[0]) for k in range(q.shape[0]) for l in range(q.shape[0]))


def one(d1, p, q):
    n = d1.shape[0]
    return sum(p[i, j] * q[j, l] * d1[i, l] for i in range(n) for j in range(n) for l in range(n))


def tr(d, p):
    return sum(d[i, j] * p[i, j] for i in range(d.shape[0]) for j in range(d.shape[1]))


def singlet(ctx, n, tag="g"):
    """(dm1, dm2, aa, ab): 2-DM of a spin singlet from an arbitrary opposite-spin part."""
    ab = ctx.eri4(tag, n)
    aa = ab - ab.transpose(0, 3, 2, 1)
    return ctx.sym2(tag + "d", n), 2 * (aa + ab), aa, ab


def nn(d1, d2, p, q):
    return two(d2, p, q) + one(d1, p, q)


def szsz_u(d1, d2, p, q):
    (da, db), (aa, ab, bb) = d1, d2
    (pa, pb), (qa, qb) = p, q
    return (two(aa, pa, qa) + two(bb, pb, qb) - two(ab, pa, qb) - two(ab, qa, pb) + one(da, pa, qa) + one(db, pb, qb)) / 4


def projs(ctx, n, comp):
    p = ctx.sym2("p", n)
    q = np.eye(n, dtype=int).astype(object) - p if comp else ctx.sym2("q", n)
    return p, q if ctx.symbolic else q.astype(float)


def h_charge(ctx, n):
    """chargecharge: <N_A N_B>, with and without the independent-particle part, symmetric in the two sites; sums to the
    total."""
    d1, d2, aa, ab = singlet(ctx, n)
    p, q = projs(ctx, n, False)
    for sub in (False, True):
        w = nn(d1, d2, p, q) - (tr(d1, p) * tr(d1, q) if sub else 0)
        ctx.eq("charge", cf.chargecharge(d1, d2, p, q, subtract_indep=sub), w)
        ctx.eq("charge swapped", cf.chargecharge(d1, d2, q, p, subtract_indep=sub), w)
        ctx.eq("one projector", cf.chargecharge(d1, d2, p, subtract_indep=sub), nn(d1, d2, p, p) - (tr(d1, p) ** 2 if sub else 0))
        I = np.eye(n)
        ctx.eq("total", cf.chargecharge(d1, d2, subtract_indep=sub), nn(d1, d2, I, I) - (np.trace(d1) ** 2 if sub else 0))
    ctx.eq("default subtracts", cf.chargecharge(d1, d2, p, q), nn(d1, d2, p, q) - tr(d1, p) * tr(d1, q))


def h_spin_r(ctx, n):
    """Restricted <Sz_A Sz_B> from the spin-summed 2-DM of a singlet."""
    d1, d2, aa, ab = singlet(ctx, n)
    p, q = projs(ctx, n, False)
    I = np.eye(n)
    f = lambda a, b: szsz_u((d1 / 2, d1 / 2), (aa, ab, aa), (a, a), (b, b))
    keep = d2.copy()
    ctx.eq("sz", cf.spinspin_z(d1, d2, p, q), f(p, q))
    ctx.eq("sz swapped", cf.spinspin_z(d1, d2, q, p), f(p, q))
    ctx.eq("sz one projector", cf.spinspin_z(d1, d2, p), f(p, p))
    ctx.eq("sz total", cf.spinspin_z(d1, d2), f(I, I))
    ctx.true("no net spin", cf.spin_z(d1) == 0 and cf.spin_z(d1, p) == 0)
    ctx.eq("input untouched", d2, keep)


def usyms(ctx, na, nb):
    aa = ctx.unique("aa", (na,) * 4, [((2, 3, 0, 1), 1), ((0, 3, 2, 1), -1), ((1, 0, 3, 2), 1)])
    bb = ctx.unique("bb", (nb,) * 4, [((2, 3, 0, 1), 1), ((0, 3, 2, 1), -1), ((1, 0, 3, 2), 1)])
    ab = ctx.unique("ab", (na, na, nb, nb), [((1, 0, 3, 2), 1)])
    return (ctx.sym2("da", na), ctx.sym2("db", nb)), (aa, ab, bb)


def h_spin_u(ctx, na, nb, spindep):
    """Unrestricted <Sz_A Sz_B> and <Sz>."""
    d1, d2 = usyms(ctx, na, nb)
    if spindep:
        P = (ctx.sym2("pa", na), ctx.sym2("pb", nb))
        R = (ctx.sym2("qa", na), ctx.sym2("qb", nb))
        pin, qin = P, R
    else:
        p, q = projs(ctx, na, False)
        P, R, pin, qin = (p, p), (q, q), p, q
    ctx.eq("sz", cf.spinspin_z_unrestricted(d1, d2, pin, qin), szsz_u(d1, d2, P, R))
    ctx.eq("sz swapped", cf.spinspin_z_unrestricted(d1, d2, qin, pin), szsz_u(d1, d2, P, R))
    ctx.eq("sz one projector", cf.spinspin_z_unrestricted(d1, d2, pin), szsz_u(d1, d2, P, P))
    I = (np.eye(na), np.eye(nb))
    ctx.eq("sz total", cf.spinspin_z_unrestricted(d1, d2), szsz_u(d1, d2, I, I))
    ctx.eq("net spin", cf.spin_z_unrestricted(d1, pin), (tr(d1[0], P[0]) - tr(d1[1], P[1])) / 2)
    ctx.eq("total spin", cf.spin_z_unrestricted(d1), (np.trace(d1[0]) - np.trace(d1[1])) / 2)


def h_mf(ctx, n):
    """Mean-field variants (no 2-DM) equal the correlated ones with the determinant's 2-DM."""
    da, db = ctx.sym2("da", n), ctx.sym2("db", n)

    def d2s(x, y):
        return np.einsum("ij,kl->ijkl", x, y)

    def ex(x):
        return np.einsum("il,kj->ijkl", x, x)
    d2u = (d2s(da, da) - ex(da), d2s(da, db), d2s(db, db) - ex(db))
    p, q = projs(ctx, n, False)
    P, R = (p, ctx.sym2("pb", n)), (q, ctx.sym2("qb", n))
    for fn in (cf.spinspin_z_mf_unrestricted, lambda d, a=None, b=None: cf.spinspin_z_unrestricted(d, None, a, b)):
        ctx.eq("mf sz", fn((da, db), P, R), szsz_u((da, db), d2u, P, R))
        ctx.eq("mf sz same projectors", fn((da, db), p, q), szsz_u((da, db), d2u, (p, p), (q, q)))
        ctx.eq("mf sz one projector", fn((da, db), p), szsz_u((da, db), d2u, (p, p), (p, p)))
        I = np.eye(n)
        ctx.eq("mf sz total", fn((da, db)), szsz_u((da, db), d2u, (I, I), (I, I)))
    dm = 2 * da
    d2r = d2s(dm, dm) - ex(dm) / 2
    for fn in (cf.chargecharge_mf, lambda d, a=None, b=None, subtract_indep=True: cf.chargecharge(d, None, a, b, subtract_indep=subtract_indep)):
        for sub in (False, True):
            ctx.eq("mf charge", fn(dm, p, q, subtract_indep=sub), nn(dm, d2r, p, q) - (tr(dm, p) * tr(dm, q) if sub else 0))
            ctx.eq("mf charge one projector", fn(dm, p, subtract_indep=sub), nn(dm, d2r, p, p) - (tr(dm, p) ** 2 if sub else 0))
    ud2 = (d2s(da, da) - ex(da), d2s(da, da), d2s(da, da) - ex(da))
    for fn in (cf.spinspin_z_mf, lambda d, a=None, b=None: cf.spinspin_z(d, None, a, b)):
        ctx.eq("mf sz restricted", fn(dm, p, q), szsz_u((da, da), ud2, (p, p), (q, q)))
    u = ctx.orth("u", 2)
    det = 2 * np.outer(u[:, 0], u[:, 0])
    d2 = d2s(det, det) - ex(det) / 2
    I = np.eye(2)
    for sub in (False, True):
        ctx.eq("mf charge total of a determinant", cf.chargecharge_mf(det, subtract_indep=sub), nn(det, d2, I, I) - (np.trace(det) ** 2 if sub else 0))


# ---- embedding level
def mkemb(ctx, n, nocc, spin, proj, nel=2):
    e = types.SimpleNamespace()
    e.spinsym = spin
    e.log = NullLog()
    e.nmo, e.nocc = n, nocc
    e.mol = types.SimpleNamespace(nelectron=nel, natm=len(proj))
    e._get_atom_projectors = lambda atoms, projection, orbital_filter=None: (e.a1, e.a2, proj)
    e.a1 = e.a2 = sorted(proj)
    return e


def noncum(d1, n, nocc):
    """Products of mean-field and correlated 1-DM contained in the restricted 2-DM besides the approximate cumulant."""
    d0 = np.zeros((n, n), dtype=object)
    for i in range(nocc):
        d0[i, i] = 2
    D = d1 - d0 / 2
    a = np.einsum("ij,kl->ijkl", D, d0) + np.einsum("ij,kl->ijkl", d0, D)
    b = np.einsum("il,kj->ijkl", D, d0) + np.einsum("il,kj->ijkl", d0, D)
    return a - b / 2


def h_emb_r(ctx, n, nocc, route):
    """get_corrfunc (restricted): same value as the definition with the full 2-DM, for a 2-DM given with or without the
    1-DM products, or assembled from fragment cumulants with symmetry children."""
    pr = {0: ctx.sym2("p", n), 3: ctx.sym2("q", n)}
    kind = ctx.choice("kind", ["n,n", "dn,dn", "Sz,Sz"])
    e = mkemb(ctx, n, nocc, "restricted", pr)
    e.a1, e.a2 = [0, 3], [3, 0]
    d1 = ctx.sym2("d", n)
    kw = {}
    if route == "full":
        _, d2, aa, ab = singlet(ctx, n)
        full = d2
        res = qcf.get_corrfunc(e, kind, dm1=d1.copy(), dm2=d2.copy(), dm2_with_dm1=True)
    elif route == "cum":
        _, c2, aa, ab = singlet(ctx, n)
        full = c2 + noncum(d1, n, nocc)
        res = qcf.get_corrfunc(e, kind, dm1=d1.copy(), dm2=c2.copy(), dm2_with_dm1=False)
    elif route == "auto":
        # trace N(N-1) for a complete 2-DM, zero for a cumulant: recognised
        isfull = ctx.boolean("isfull")
        g = ctx.eri4("g", n)
        aa = g - g.transpose(0, 3, 2, 1)
        t0 = 2 * sum((aa + g)[i, i, k, k] for i in range(n) for k in range(n))
        nel = 2
        g[0, 0, 0, 0] = g[0, 0, 0, 0] + ((nel * (nel - 1) if isfull else 0) - t0) / 2
        aa = g - g.transpose(0, 3, 2, 1)
        d2 = 2 * (aa + g)
        full = d2 if isfull else d2 + noncum(d1, n, nocc)
        e.make_rdm1 = lambda: d1.copy()
        res = qcf.get_corrfunc(e, kind, dm2=d2.copy())
    else:
        full, frs = fragcum(ctx, e, n, "r")
        full = full + noncum(d1, n, nocc)
        e.make_rdm1 = lambda: d1.copy()
        usym = ctx.boolean("usym")
        e.get_fragments = lambda contributes=None, **k: [f for f in frs if contributes and f.contributes and (f.sym_parent is None or "sym_parent" not in k)]
        res = qcf.get_corrfunc(e, kind, use_symmetry=usym)
    ctx.true("shape", res.shape == (2, 2))
    for a, x in enumerate(e.a1):
        for b, y in enumerate(e.a2):
            if kind == "Sz,Sz":
                # singlet: <aa> - <ab> = 2*aa - dm2/2 with aa the antisymmetrised sixth
                aa_ = (full - full.transpose(0, 3, 2, 1)) / 6
                ab_ = full / 2 - aa_
                w = szsz_u((d1 / 2, d1 / 2), (aa_, ab_, aa_), (pr[x],) * 2, (pr[y],) * 2)
            else:
                w = nn(d1, full, pr[x], pr[y]) - (tr(d1, pr[x]) * tr(d1, pr[y]) if kind == "dn,dn" else 0)
            ctx.eq("correlation function", res[a, b], w)


def fragcum(ctx, e, n, spin):
    """Fragments holding cumulants in their own cluster bases; one has a symmetry child. -> global cumulant, fragments"""
    u = spin == "u"
    e.get_ovlp = lambda: S
    S = np.diag([1, 2] + [1] * (n - 2)) * 1
    C = [ctx.real("C%d" % s, (n, n)) for s in range(2 if u else 1)]
    e.mo_coeff = tuple(C) if u else C[0]
    perm = list(range(n))[::-1]

    def op(a, axis=0):
        return np.take(a, perm, axis=axis)

    class F:
        loop_symmetry_children = qfrag.Fragment.loop_symmetry_children
        contributes = True
        sym_parent = None

        def get_symmetry_tree(self, **k):
            return [(c, []) for c in self.kids]
    frs = []
    tot = None
    for i in range(2):
        f = F()
        co = [ctx.real("X%d_%d" % (i, s), (n, 1)) for s in range(2 if u else 1)]
        f.cluster = types.SimpleNamespace(coeff=tuple(co) if u else co[0])
        if u:
            cum = tuple(np.array([[[[ctx.scalar("cum%d_%s" % (i, t))]]]]) for t in ("aa", "ab", "bb"))
        else:
            cum = np.array([[[[ctx.scalar("cum%d" % i)]]]])
        f.make_fragment_dm2cumulant = (lambda c: (lambda: tuple(x.copy() for x in c) if u else c.copy()))(cum)
        f.kids = []
        frs.append(f)
        members = [(f, co)]
        if i == 0:
            k = F()
            k.sym_parent = f
            k.sym_op = op
            k.kids = []
            kc = [op(c) for c in co]
            k.cluster = types.SimpleNamespace(coeff=tuple(kc) if u else kc[0])
            k.make_fragment_dm2cumulant = f.make_fragment_dm2cumulant
            f.kids = [k]
            frs.append(k)
            members.append((k, kc))
        for m, c in members:
            r = [np.dot(np.dot(C[s].T, S), c[s]) for s in range(len(c))]
            if u:
                t = [np.einsum("xyzw,ix,jy,kz,lw->ijkl", cum[j], r[a], r[a], r[b], r[b]) for j, (a, b) in enumerate(((0, 0), (0, 1), (1, 1)))]
                tot = t if tot is None else [x + y for x, y in zip(tot, t)]
            else:
                t = np.einsum("xyzw,ix,jy,kz,lw->ijkl", cum, r[0], r[0], r[0], r[0])
                tot = t if tot is None else tot + t
    off = F()
    off.contributes = False
    frs.append(off)
    return tot, frs


def h_emb_u(ctx, n, nocc, route):
    """get_corrfunc_unrestricted: same as the definition with the full spin-resolved 2-DM."""
    pr = {a: (ctx.sym2("pa%d" % a, n), ctx.sym2("pb%d" % a, n)) for a in (0, 1)}
    e = mkemb(ctx, n, nocc, "unrestricted", pr)
    e.a1, e.a2 = [0, 1], [1]
    d1 = (ctx.sym2("da", n), ctx.sym2("db", n))
    d0 = [np.diag([1] * nocc[s] + [0] * (n - nocc[s])).astype(object) for s in range(2)]

    def nc(s, t):
        Ds, Dt = d1[s] - d0[s] / 2, d1[t] - d0[t] / 2
        a = np.einsum("ij,kl->ijkl", Ds, d0[t]) + np.einsum("ij,kl->ijkl", d0[s], Dt)
        if s == t:
            a = a - np.einsum("il,kj->ijkl", Ds, d0[s]) - np.einsum("il,kj->ijkl", d0[s], Ds)
        return a
    non = [nc(0, 0), nc(0, 1), nc(1, 1)]
    e.make_rdm1 = lambda: tuple(x.copy() for x in d1)
    if route == "frag":
        tot, frs = fragcum(ctx, e, n, "u")
        full = [a + b for a, b in zip(tot, non)]
        usym = ctx.boolean("usym")
        e.get_fragments = lambda contributes=None, **k: [f for f in frs if contributes and f.contributes and (f.sym_parent is None or "sym_parent" not in k)]
        res = qcf.get_corrfunc_unrestricted(e, "Sz,Sz", use_symmetry=usym)
    else:
        _, d2 = usyms(ctx, n, n)
        full = d2 if route == "full" else [a + b for a, b in zip(d2, non)]
        res = qcf.get_corrfunc_unrestricted(e, "Sz,Sz", dm1=tuple(x.copy() for x in d1), dm2=tuple(x.copy() for x in d2), dm2_with_dm1=route == "full")
    for a, x in enumerate(e.a1):
        for b, y in enumerate(e.a2):
            ctx.eq("correlation function", res[a, b], szsz_u(d1, full, pr[x], pr[y]))
    ctx.raises("unknown kind", lambda: qcf.get_corrfunc_unrestricted(e, "what", dm1=d1, dm2=None), ValueError)


def h_emb_mf(ctx, n, spin):
    """get_corrfunc_mf: the determinant's correlation functions for the default and for a given 1-DM."""
    u = spin == "unrestricted"
    pr = {a: ((ctx.sym2("pa%d" % a, n), ctx.sym2("pb%d" % a, n)) if u else ctx.sym2("p%d" % a, n)) for a in (0, 1)}
    e = mkemb(ctx, n, (1, 2) if u else 1, spin, pr)
    if u:
        e.nmo = (n, n)
        d1 = tuple(np.diag([1] * k + [0] * (n - k)).astype(object) for k in (1, 2))
    else:
        d1 = np.diag([2] + [0] * (n - 1)).astype(object)
    given = ctx.boolean("given")
    if given:
        d1 = (ctx.sym2("da", n), ctx.sym2("db", n)) if u else ctx.sym2("d", n)
    kind = "sz,sz" if u else ctx.choice("kind", ["n,n", "dn,dn", "sz,sz"])
    res = qcf.get_corrfunc_mf(e, kind, dm1=d1 if given else None)
    da, db = d1 if u else (d1 / 2, d1 / 2)
    pp = lambda x: pr[x] if u else (pr[x], pr[x])
    for a in (0, 1):
        for b in (0, 1):
            d2 = []
            for x, y in ((da, da), (da, db), (db, db)):
                t = np.einsum("ij,kl->ijkl", x, y)
                d2.append(t - np.einsum("il,kj->ijkl", x, x) if x is y or (not u and len(d2) != 1) else t)
            if kind == "sz,sz":
                w = szsz_u((da, db), d2, pp(a), pp(b))
            else:
                tot = d2[0] + d2[2] + d2[1] + d2[1].transpose(2, 3, 0, 1)
                if not u:
                    tot = 2 * d2[0] + 2 * np.einsum("ij,kl->ijkl", da, da)
                w = nn(d1, tot, pr[a], pr[b]) - (tr(d1, pr[a]) * tr(d1, pr[b]) if kind == "dn,dn" else 0)
            ctx.eq("mean-field correlation", res[a, b], w)


def h_proj(ctx, u):
    """Atom projectors: C^T S c_A c_A^T S C for each requested atom, atom lists as asked; complete orbital sets give
    projectors that sum to the identity."""
    n = 2
    Cs = [ctx.orth("u%d" % s, n) for s in range(2 if u else 1)]
    lo = ctx.orth("lo", n)
    S = np.eye(n)
    e = types.SimpleNamespace(mol=types.SimpleNamespace(natm=2), kcell=None, log=NullLog(), get_ovlp=lambda: S, mo_coeff=tuple(Cs) if u else Cs[0])
    made = []

    class Fr:
        def __init__(self, emb):
            made.append(self)

        def kernel(self):
            self.ran = True

        def get_atomic_fragment_indices(self, atom, orbital_filter=None):
            return "a", [atom]

        def get_frag_coeff(self, ind):
            return (lo[:, ind], lo[:, ind]) if u else lo[:, ind]
    names = ("SAO_Fragmentation", "IAOPAO_Fragmentation", "IAO_Fragmentation")
    old = [getattr(qemb, k) for k in names]
    try:
        for k in names:
            setattr(qemb, k, type(k, (Fr,), {}))
        proj = ctx.choice("projection", ["sao", "SAO", "iao+pao", "IAO/PAO", "iao"])
        atoms = ctx.choice("atoms", [None, [0, 1], [1], [[0], [0, 1]], "kcell"])
        if atoms == "kcell":
            e.kcell = types.SimpleNamespace(natm=1)
        a1, a2, pr = qemb.Embedding._get_atom_projectors(e, None if atoms == "kcell" else atoms, proj)
        ctx.true("kind of orbitals", type(made[-1]).__name__ == {"sao": names[0], "iao": names[2]}.get(proj.lower(), names[1]) and made[-1].ran)
        ctx.raises("unknown projection", lambda: qemb.Embedding._get_atom_projectors(e, None, "what"), ValueError)
    finally:
        for k, v in zip(names, old):
            setattr(qemb, k, v)
    want = {"None": ([0, 1], [0, 1]), "[0, 1]": ([0, 1], [0, 1]), "[1]": ([1], [1]), "[[0], [0, 1]]": ([0], [0, 1]), "kcell": ([0], [0, 1])}[str(atoms)]
    ctx.true("atom lists", (list(a1), list(a2)) == want and set(pr) == set(want[0]) | set(want[1]))
    for s in range(len(Cs)):
        tot = 0
        for a, p in pr.items():
            p = p[s] if u else p
            r = np.dot(Cs[s].T, lo[:, a])
            ctx.eq("projector", p, np.outer(r, r))
            tot = tot + p
        if len(pr) == 2:
            ctx.eq("complete", tot, np.eye(n))


HARNESSES = [
    Harness("charge", h_charge, dict(n=2), "2 orbitals, any singlet 2-DM, any symmetric projectors"),
    Harness("spin.r", h_spin_r, dict(n=2), "2 orbitals"),
    Harness("spin.u", h_spin_u, dict(na=2, nb=2, spindep=True), "2+2 orbitals, spin-dependent projectors"),
    Harness("spin.u1", h_spin_u, dict(na=2, nb=2, spindep=False), "2+2 orbitals, common projectors"),
    Harness("spin.u3", h_spin_u, dict(na=3, nb=2, spindep=True), "3+2 orbitals", tiers=("thorough",)),
    Harness("charge.3", h_charge, dict(n=3), "3 orbitals", tiers=("thorough",)),
    Harness("spin.r3", h_spin_r, dict(n=3), "3 orbitals", tiers=("thorough",)),
    Harness("mf", h_mf, dict(n=2), "2 orbitals, any 1-DM"),
    Harness("mf.3", h_mf, dict(n=3), "3 orbitals, any 1-DM", tiers=("thorough",)),
    Harness("proj.r", h_proj, dict(u=False), "2 orbitals, any orthonormal orbitals"),
    Harness("proj.u", h_proj, dict(u=True), "2 orbitals, any orthonormal orbitals"),
    Harness("emb.mf.r", h_emb_mf, dict(n=3, spin="restricted"), "3 orbitals"),
    Harness("emb.mf.u", h_emb_mf, dict(n=3, spin="unrestricted"), "3 orbitals"),
] + [Harness("emb.r.%s" % r, h_emb_r, dict(n=2, nocc=1, route=r), "2 orbitals, 2 sites, 1-dimensional clusters with a symmetry child") for r in ("full", "cum", "auto", "frag")] \
  + [Harness("emb.u.%s" % r, h_emb_u, dict(n=2, nocc=(1, 2) if r != "frag" else (1, 1), route=r), "2 orbitals per spin, 2 sites") for r in ("full", "cum", "frag")] \
  + [Harness("emb.r3.%s" % r, h_emb_r, dict(n=3, nocc=1, route=r), "3 orbitals, 2 sites", tiers=("thorough",)) for r in ("full", "cum", "frag")] \
  + [Harness("emb.u3.%s" % r, h_emb_u, dict(n=3, nocc=(1, 2), route=r), "3 orbitals per spin, 2 sites", tiers=("thorough",)) for r in ("full", "cum")]
