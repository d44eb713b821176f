"""C16: one-particle density matrices from fragment wave functions. Every route (global wave function slow/fast with all
options, single-fragment sums, projected Lambda, MP2) runs on a real EWF object with symbolic amplitudes; compared with
the 1-DM of the wave function whose amplitudes are an independent sum over the fragments."""
from vsym.harness import Harness
from checks.ewfsim import *
from checks.c15 import snap, unchanged

META = dict(assumptions=["the embedding object is created without a mean field or solver; MOs, overlap, clusters and amplitudes are given",
                         "singular values of cluster overlaps are exact for the chosen rational cluster rotations and are given to the code through its own SVD call"])


def oracle_r(ctx, b, T, L, with_mf=True, ao=False):
    w = wf.CCSD_WaveFunction(Orbitals(b.mo_coeff, occ=b.nocc), T[0].copy(), T[1].copy(), l1=L[0].copy(), l2=L[1].copy())
    d = w.make_rdm1(with_mf=with_mf)
    return np.dot(np.dot(b.mo_coeff, d), b.mo_coeff.T) if ao else d


def isq(x):
    """exact square root of a rational number, None if irrational"""
    import math
    x = Fraction(x)
    p, q = math.isqrt(x.numerator), math.isqrt(x.denominator)
    return Fraction(p, q) if p * p == x.numerator and q * q == x.denominator else None


def orthrows(a):
    m = a.shape[0]
    return all(sum(x * y for x, y in zip(a[i], a[j])) == 0 for i in range(m) for j in range(i))


def complement(rows, n):
    for k in range(n):
        v = [Fraction(int(i == k)) for i in range(n)]
        for r in rows:
            c = sum(x * y for x, y in zip(v, r))
            v = [x - c * y for x, y in zip(v, r)]
        q = isq(sum(x * x for x in v))
        if q:
            return [x / q for x in v]
    raise RuntimeError("no rational complement")


def exact_svd(a):
    """thin SVD of a rational matrix with orthogonal rows or columns of rational norms"""
    m, n = a.shape
    if m > n or (m == n and not orthrows(a)):
        if orthrows(a.T):
            u, s, vt = exact_svd(a.T)
            return vt.T, s, u.T
    if not orthrows(a):
        r = next((x for x in a if any(x)), None)
        nr = isq(sum(x * x for x in r))
        if nr:
            v = [x / nr for x in r]
            u = [sum(x * y for x, y in zip(q, v)) for q in a]
            nu = isq(sum(x * x for x in u))
            if nu and all(a[i, j] == u[i] * v[j] for i in range(m) for j in range(n)):   # rank one
                us, vs = [[x / nu for x in u]], [v]
                for _ in range(min(m, n) - 1):
                    us.append(complement(us, m))
                    vs.append(complement(vs, n))
                k = min(m, n)
                return np.array(us, dtype=object).T, np.array([nu] + [Fraction(0)] * (k - 1), dtype=object), np.array(vs, dtype=object)
        raise RuntimeError("SVD outside the prepared class: %r" % (a,))
    s = [isq(sum(x * x for x in r)) for r in a]
    o = sorted(range(m), key=lambda i: -s[i])
    u = np.array([[Fraction(int(o[j] == i)) for j in range(m)] for i in range(m)], dtype=object)
    vt = []
    for i in o:
        vt.append([x / s[i] for x in a[i]] if s[i] else complement(vt, n))
    return u, np.array([s[i] for i in o], dtype=object), np.array(vt, dtype=object).reshape(m, n)


COMBOS = [dict(), dict(late_t2_sym=False), dict(svd_tol=None), dict(svd_tol=None, late_t2_sym=False), dict(slow=True),
          dict(svd_tol=0.0), dict(use_sym=False), dict(use_sym=False, late_t2_sym=False, svd_tol=None), dict(ovlp_tol=1e-6, svd_tol=None)]


def h_gwf(ctx, uhf, combos, model, own=None, **kw):
    """dm1 from the global wave function: every algorithm and option gives the 1-DM of the global amplitudes."""
    ctx.exact_svd(exact_svd)
    mk = dict(r=model_r, u=model_u, sym=model_sym, loc=model_loc)[model]
    b, g, data = mk(ctx, **(dict(uhf=uhf) if model in ("sym", "loc") else {}), **kw)
    for i in own or []:
        data[i]["f"].opts.t_as_lambda = True
        data[i]["l"] = data[i]["t"]
    for d in data:
        if d["kind"] == "MP2":
            d["t"] = (tuple(0 * x for x in d["t"][0]) if uhf else 0 * d["t"][0], d["t"][1])
            d["l"] = d["t"]
    before = snap(data)
    tot = utotal if uhf else total
    T, L = tot(data), tot(data, "l")
    k = ctx.choice("combo", list(range(len(combos))))
    c = combos[k]
    tasl, t1 = ctx.boolean("t_as_lambda"), ctx.boolean("with_t1")
    X = T if tasl else L
    if not t1:
        z = (lambda x: tuple(0 * y for y in x)) if uhf else (lambda x: 0 * x)
        T, X = (z(T[0]), T[1]), (z(X[0]), X[1])
    ref = (oracle_u if uhf else oracle_r)(ctx, b, T, X, with_mf=True)
    cmo = b.mo_coeff
    o = (lambda x: list(x)) if uhf else (lambda x: x)
    toao = (lambda x: [np.dot(np.dot(cmo[s], x[s]), cmo[s].T) for s in (0, 1)]) if uhf else (lambda x: np.dot(np.dot(cmo, x), cmo.T))
    mf = (lambda x: [x[s] - fock1(x[s], b.nocc[s], 1) for s in (0, 1)]) if uhf else (lambda x: x - fock1(x, b.nocc, 2))
    got = b._make_rdm1_ccsd_global_wf(t_as_lambda=tasl, with_t1=t1, **c)
    ctx.eq("dm1", o(got), o(ref))
    # the result may be changed by the caller; a repeated call gives a fresh one, with or without mean field, MO or AO
    for x in (got if uhf else [got]):
        x += 1
    ctx.eq("dm1 without mean field", o(b._make_rdm1_ccsd_global_wf(t_as_lambda=tasl, with_t1=t1, with_mf=False, **c)), mf(ref))
    ctx.eq("dm1 in AO basis", o(b._make_rdm1_ccsd_global_wf(t_as_lambda=tasl, with_t1=t1, ao_basis=True, **c)), toao(ref))
    unchanged(ctx, data, before)


def fock1(x, n, f):
    a = np.zeros(x.shape, dtype=int)
    a[np.arange(n), np.arange(n)] = f
    return a


def oracle_u(ctx, b, T, L, with_mf=True):
    w = wf.CCSD_WaveFunction(Orbitals(b.mo_coeff, occ=b.nocc), cpt(T[0]), cpt(T[1]), l1=cpt(L[0]), l2=cpt(L[1]))
    return w.make_rdm1(with_mf=with_mf)


def h_full(ctx, uhf, **kw):
    """Complete clusters: the single-fragment sums and the projected-Lambda route give the 1-DM of the wave function."""
    b, g, data = (model_u if uhf else model_r)(ctx, full=True, **kw)
    before = snap(data)
    orc = oracle_u if uhf else oracle_r
    o = (lambda x: list(x)) if uhf else (lambda x: x)
    cmo = b.mo_coeff
    toao = (lambda x: [np.dot(np.dot(cmo[s], x[s]), cmo[s].T) for s in (0, 1)]) if uhf else (lambda x: np.dot(np.dot(cmo, x), cmo.T))
    tasl = ctx.boolean("t_as_lambda")
    T, L = g[:2], g[2:]
    if kw.get("kinds"):
        z = tuple(0 * x for x in T[0]) if uhf else 0 * T[0]
        T = L = (z, T[1])
    X = T if tasl else L
    ref, refn = orc(ctx, b, T, X), orc(ctx, b, T, X, with_mf=False)
    routes = [("mp2 sums", b._make_rdm1_mp2)] if kw.get("kinds") else [("ccsd sums", b._make_rdm1_ccsd)]
    for lab, fn in routes:
        sym = ctx.boolean("symmetrize")
        ctx.eq(lab, o(fn(t_as_lambda=tasl, symmetrize=sym)), o(ref))
        ctx.eq(lab + " without mean field", o(fn(t_as_lambda=tasl, symmetrize=sym, with_mf=False)), o(refn))
        ctx.eq(lab + " in AO basis", o(fn(t_as_lambda=tasl, symmetrize=sym, ao_basis=True)), toao(ref))
    if not uhf:
        sy = ctx.boolean("sym_t2")
        ctx.eq("projected lambda", b._make_rdm1_ccsd_proj_lambda(t_as_lambda=tasl, sym_t2=sy), ref)
        ctx.eq("projected lambda without mean field", b._make_rdm1_ccsd_proj_lambda(t_as_lambda=tasl, sym_t2=sy, with_mf=False), refn)
        ctx.eq("projected lambda in AO basis", b._make_rdm1_ccsd_proj_lambda(t_as_lambda=tasl, sym_t2=sy, ao_basis=True), toao(ref))
    unchanged(ctx, data, before)


def h_symsum(ctx, uhf, **kw):
    """single-fragment sums with symmetry images equal those with explicit fragments"""
    b, _, d1 = model_sym(ctx, uhf=uhf, **kw)
    e, _, d2 = model_sym(ctx, uhf=uhf, explicit=True, **kw)
    o = (lambda x: list(x)) if uhf else (lambda x: x)
    tasl, sym = ctx.boolean("t_as_lambda"), ctx.boolean("symmetrize")
    ctx.eq("ccsd sums", o(b._make_rdm1_ccsd(t_as_lambda=tasl, symmetrize=sym)), o(e._make_rdm1_ccsd(t_as_lambda=tasl, symmetrize=sym)))
    ctx.eq("mp2 sums", o(b._make_rdm1_mp2(symmetrize=sym)), o(e._make_rdm1_mp2(symmetrize=sym)))
    if not uhf:
        ctx.eq("projected lambda", b._make_rdm1_ccsd_proj_lambda(t_as_lambda=tasl), e._make_rdm1_ccsd_proj_lambda(t_as_lambda=tasl))


def h_default(ctx, uhf, solver):
    """make_rdm1 for the embedding's solver is the 1-DM of the global wave function, whatever the default options say."""
    ctx.exact_svd(exact_svd)
    kinds = [solver] * 2
    tasl = solver == "CCSD" and ctx.boolean("opts.t_as_lambda")
    kw = dict(solver=solver, t_as_lambda=tasl)
    if uhf:
        b, g, data = model_u(ctx, 2, (1, 1), (1, 1), full=True, kinds=kinds, **kw)
    else:
        b, g, data = model_r(ctx, 3, 2, (1, 2), full=True, kinds=kinds, **kw)
    o = (lambda x: list(x)) if uhf else (lambda x: x)
    T, L = g[:2], g[2:]
    if solver == "MP2":
        z = tuple(0 * x for x in T[0]) if uhf else 0 * T[0]
        T = L = (z, T[1])
    if tasl:
        L = T
    ctx.eq("make_rdm1", o(b.make_rdm1()), o((oracle_u if uhf else oracle_r)(ctx, b, T, L)))
    ctx.eq("make_rdm1 again", o(b.make_rdm1()), o((oracle_u if uhf else oracle_r)(ctx, b, T, L)))


LOC = [((0,), ([0, 1], [0])), ((1,), ([0], [0])), ((2, 3), ([1], [1, 0]))]
LOC2 = [((0,), ([0], [0])), ((1,), ([0], [0])), ((2, 3), ([1, 0], [1]))]
HARNESSES = []


def add(name, fn, tiers=("quick", "thorough"), **p):
    HARNESSES.append(Harness(name, fn, params=p, tiers=tiers, bounds=str(p)))


add("global-wf full n=3", h_gwf, uhf=False, combos=COMBOS, model="r", n=3, no=2, split=(1, 2), full=True)
add("global-wf full n=3 no=1", h_gwf, uhf=False, combos=COMBOS, model="r", n=3, no=1, split=(1, 1, 1), full=True)
add("global-wf incomplete clusters", h_gwf, uhf=False, combos=COMBOS, model="loc", clusters=LOC)
add("unrestricted global-wf incomplete clusters", h_gwf, uhf=True, combos=COMBOS[:4], model="loc", clusters=LOC2)
add("unrestricted global-wf incomplete clusters 3", h_gwf, tiers=("thorough",), uhf=True, combos=COMBOS, model="loc", clusters=LOC)
add("global-wf mixed solvers", h_gwf, uhf=False, combos=COMBOS[:5], model="loc", clusters=LOC2, kinds=["MP2", "CCSD", "CCSD"], own=[2])
add("unrestricted global-wf mixed solvers", h_gwf, uhf=True, combos=COMBOS[:4], model="loc", clusters=LOC2, kinds=["MP2", "CCSD", "CCSD"], own=[1])
add("unrestricted global-wf symmetry 3 sites chain", h_gwf, tiers=("thorough",), uhf=True, combos=COMBOS, model="sym", nsite=3, no1=1, nv1=1, chain=True)
add("global-wf symmetry 4 sites", h_gwf, tiers=("thorough",), uhf=False, combos=COMBOS, model="sym", nsite=4, no1=1, nv1=1, chain=False)
add("global-wf full n=4", h_gwf, tiers=("thorough",), uhf=False, combos=COMBOS, model="r", n=4, no=2, split=(2, 2), full=True)
add("full clusters n=4", h_full, tiers=("thorough",), uhf=False, n=4, no=2, split=(2, 1, 1))
add("unrestricted full clusters n=4", h_full, tiers=("thorough",), uhf=True, n=4, no=(2, 2), split=(1, 3))
add("global-wf symmetry 2 sites", h_gwf, uhf=False, combos=COMBOS, model="sym", nsite=2, no1=1, nv1=1, chain=False)
add("global-wf symmetry 3 sites chain", h_gwf, uhf=False, combos=COMBOS[:4], model="sym", nsite=3, no1=1, nv1=1, chain=True)
add("unrestricted global-wf full n=2", h_gwf, uhf=True, combos=COMBOS, model="u", n=2, no=(1, 1), split=(1, 1), full=True)
add("unrestricted global-wf symmetry 2 sites", h_gwf, uhf=True, combos=COMBOS, model="sym", nsite=2, no1=1, nv1=1, chain=False)
add("full clusters", h_full, uhf=False, n=3, no=2, split=(1, 2))
add("full clusters mp2", h_full, uhf=False, n=3, no=2, split=(1, 2), kinds=["MP2", "MP2"])
add("unrestricted full clusters", h_full, uhf=True, n=3, no=(2, 1), split=(1, 2))
add("unrestricted full clusters mp2", h_full, uhf=True, n=3, no=(2, 1), split=(1, 2), kinds=["MP2", "MP2"])
for _u in (False, True):
    for _s in ("CCSD", "MP2"):
        add("default %s %s" % ("unrestricted" if _u else "restricted", _s), h_default, uhf=_u, solver=_s)
add("sums with symmetry", h_symsum, uhf=False, nsite=2, no1=1, nv1=1)
add("unrestricted sums with symmetry", h_symsum, uhf=True, nsite=2, no1=1, nv1=1)
