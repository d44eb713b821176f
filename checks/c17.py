"""C17: two-particle density matrices from fragment wave functions. The global-wave-function route and the sums of
fragment cumulants (all options) run on a real EWF object with symbolic amplitudes; for complete clusters they must be
the 2-DM of the common wave function, for others the stated assembly of fragment contributions; the fragment cumulant
energies must be the contraction with the bare integrals of the cluster Hamiltonian."""
from vsym.harness import Harness
from checks.ewfsim import *
from checks.c15 import snap, unchanged
from checks.c16 import exact_svd
from checks.c06 import RB
import vayesta.solver.hamiltonian as ham

META = dict(assumptions=["the embedding object is created without a mean field or solver; MOs, overlap, clusters and amplitudes are given"])


def wave(b, uhf, T, L):
    c = cpt if uhf else (lambda x: x.copy())
    return wf.CCSD_WaveFunction(Orbitals(b.mo_coeff, occ=b.nocc), c(T[0]), c(T[1]), l1=c(L[0]), l2=c(L[1]))


def full(ctx, uhf, **kw):
    b, g, data = (model_u if uhf else model_r)(ctx, full=True, **kw)
    T, L = g[:2], g[2:]
    if kw.get("kinds") and all(k == "MP2" for k in kw["kinds"]):
        T = L = (tuple(0 * x for x in T[0]) if uhf else 0 * T[0], T[1])
    return b, data, T, L


def tr2(x, c, d):
    return np.einsum("ijkl,pi,qj,rk,sl->pqrs", x, c, c, d, d, optimize=True)


def toao(b, uhf, x):
    if not uhf:
        return tr2(x, b.mo_coeff, b.mo_coeff)
    a, c = b.mo_coeff
    return [tr2(x[0], a, a), tr2(x[1], a, c), tr2(x[2], c, c)]


def herm(x):
    return hlf(x + x.transpose(1, 0, 3, 2))


def h_global(ctx, uhf, model="full", ao=True, **kw):
    """2-DM of the global wave function"""
    if model == "full":
        b, data, T, L = full(ctx, uhf, **kw)
    else:
        b, g, data = dict(loc=model_loc, sym=model_sym)[model](ctx, uhf=uhf, **kw)
        T, L = (utotal if uhf else total)(data), (utotal if uhf else total)(data, "l")
    before = snap(data)
    tasl = ctx.boolean("t_as_lambda")
    w = wave(b, uhf, T, T if tasl else L)
    o = (lambda x: list(x)) if uhf else (lambda x: x)
    for d1 in (True, False):
        ref = w.make_rdm2(with_dm1=d1, approx_cumulant=True)
        kw2 = dict(t_as_lambda=tasl, with_dm1=d1)
        ctx.eq("dm2 with_dm1=%r" % d1, o(b._make_rdm2_ccsd_global_wf(symmetrize=False, **kw2)), o(ref))
        if not uhf:
            ctx.eq("dm2 symmetrized with_dm1=%r" % d1, b._make_rdm2_ccsd_global_wf(**kw2), herm(ref))
            if ao:
                ctx.eq("dm2 in AO basis", b._make_rdm2_ccsd_global_wf(ao_basis=True, **kw2), toao(b, uhf, herm(ref)))
    unchanged(ctx, data, before)


def h_proj(ctx, uhf, opts, ao=True, **kw):
    """complete clusters: the sum of the fragment cumulants is the cumulant of the wave function"""
    ctx.exact_svd(exact_svd)
    b, data, T, L = full(ctx, uhf, **kw)
    before = snap(data)
    mp2 = bool(kw.get("kinds"))
    tasl, kw2 = opts[ctx.choice("opts", list(range(len(opts))))]
    w = wave(b, uhf, T, T if tasl else L)
    o = (lambda x: list(x)) if uhf else (lambda x: x)
    fn = lambda **k: b._make_rdm2_ccsd_proj_lambda(t_as_lambda=tasl, **kw2, **k)
    if mp2 and uhf:
        return mp2u(ctx, b, T, w, fn)
    if mp2:
        w = wf.MP2_WaveFunction(Orbitals(b.mo_coeff, occ=b.nocc), T[1].copy())
    r0 = w.make_rdm2(with_dm1=False, **({} if mp2 else dict(approx_cumulant=kw2.get("approx_cumulant", True))))
    d1 = w.make_rdm1()
    r1 = w.make_rdm2(with_dm1=True)
    ctx.eq("cumulant", o(fn(with_dm1=False)), o(r0))
    d1c = cpt(d1) if uhf else d1.copy()
    ctx.eq("2-DM with given 1-DM", o(fn(with_dm1=d1c)), o(r1))
    ctx.eq("1-DM argument unchanged", o(d1c), o(d1))
    if ao:
        ctx.eq("2-DM in AO basis", o(fn(with_dm1=d1c, ao_basis=True)), toao(b, uhf, r1))
    b.opts.t_as_lambda = tasl
    ctx.eq("2-DM with its own 1-DM", o(fn()), o(r1))
    ctx.eq("make_rdm2", o(b.make_rdm2(**kw2, **({} if mp2 else dict(t_as_lambda=tasl)))), o(r1))
    unchanged(ctx, data, before)


def mp2u(ctx, b, T, w, fn):
    """unrestricted MP2: <ia|jb> amplitudes and their conjugates, plus the mean-field part of the 1-DM"""
    d1 = w.make_rdm1()
    no = b.nocc
    r0, r1 = [], []
    for k, (s, q) in enumerate(((0, 0), (0, 1), (1, 1))):
        n, m = d1[s].shape[0], d1[q].shape[0]
        x = np.zeros((n, n, m, m), dtype=object if ctx.symbolic else float)
        t = T[1][k].transpose(0, 2, 1, 3)
        x[:no[s], no[s]:, :no[q], no[q]:] = t
        x[no[s]:, :no[s], no[q]:, :no[q]] = t.transpose(1, 0, 3, 2)
        r0.append(x)
        a, c = [np.diag([int(i < no[z]) for i in range(d1[z].shape[0])]) for z in (s, q)]
        da, dc = d1[s] - a, d1[q] - c
        pr = lambda u, v: np.einsum("ij,kl->ijkl", u, v)
        y = x + pr(a, dc) + pr(da, c) + pr(a, c)
        if s == q:
            ex = lambda u, v: np.einsum("il,kj->ijkl", u, v)
            y = y - ex(a, dc) - ex(da, c) - ex(a, c)
        r1.append(y)
    ctx.eq("cumulant", list(fn(with_dm1=False)), r0)
    ctx.eq("2-DM", list(fn()), r1)
    ctx.eq("make_rdm2", list(b.make_rdm2()), r1)


def blocks(ctx, c, g):
    """integral getters of one cluster: g in the basis of the active orbitals, blocks found from the coefficients asked for"""
    pair = isinstance(c, tuple)
    cols = [(s, j, x[:, j]) for s, x in enumerate(c if pair else [c]) for j in range(x.shape[1])]

    for s, _, x in cols:
        for s2, _, y in cols:
            if s < s2:   # independent alpha and beta integrals need different alpha and beta orbitals
                k = next(i for i in range(len(x)) if not (isinstance(x[i], (int, Fraction)) and isinstance(y[i], (int, Fraction)) and x[i] == y[i]))
                ctx.assume(x[k] != y[k])

    def find(v):
        for s, j, x in cols:
            if ctx.symbolic and all(p is q for p, q in zip(x, v)):
                return s, j
        for s, j, x in cols:
            if all((p is q or p == q) if ctx.symbolic else abs(p - q) < 1e-10 for p, q in zip(x, v)):
                return s, j
        raise AssertionError("integrals over orbitals outside the cluster requested")

    def get(cs, **kw):
        cs = [cs] * 4 if not isinstance(cs, (tuple, list)) else cs
        ix = [[find(x[:, j]) for j in range(x.shape[1])] for x in cs]
        sp = tuple(i[0][0] if i else 0 for i in ix)
        a = {(0, 0, 0, 0): g[0], (0, 0, 1, 1): g[1], (1, 1, 0, 0): g[1].transpose(2, 3, 0, 1), (1, 1, 1, 1): g[2]}[sp] if pair else g
        return a[np.ix_(*[[j for _, j in i] for i in ix])].copy()

    return get, (lambda cs, **kw: (get([cs[0]] * 4), get([cs[0], cs[0], cs[1], cs[1]]), get([cs[1]] * 4)))


COMB = [dict(t_as_lambda=False, sym_t2=True, approx_cumulant=True), dict(t_as_lambda=True, sym_t2=True, approx_cumulant=False),
        dict(t_as_lambda=True, sym_t2=False, approx_cumulant=True), dict(t_as_lambda=False, sym_t2=False, approx_cumulant=False)]


def h_energy(ctx, uhf, combos, cached, **kw):
    """fragment cumulant energy = contraction of the fragment's cumulant with the bare integrals of its cluster, whether
    or not the integrals are cached and whatever the screening of the Hamiltonian"""
    b, _, data = model_loc(ctx, uhf=uhf, **kw)
    before = snap(data)
    c = combos[ctx.choice("combo", list(range(len(combos))))]
    F = (ctx.sym2("fa", 4), ctx.sym2("fb", 4)) if uhf else ctx.sym2("f", 4)
    b.get_fock = lambda *a, **k: F
    for d in data:
        f = d["f"]
        n = f.cluster.norb_active
        if uhf:
            g = (ctx.eri8("gaa", n[0]), ctx.unique("gab", (n[0], n[0], n[1], n[1]), [((1, 0, 2, 3), 1), ((0, 1, 3, 2), 1)]), ctx.eri8("gbb", n[1]))
        else:
            g = ctx.eri8("g", n)
        b.get_eris_array, b.get_eris_array_uhf = blocks(ctx, f.cluster.c_active, g)
        h = ham.ClusterHamiltonian(f, b.mf, cache_eris=cached)
        if cached:
            h.get_eris_bare()
            h.opts.screening = "mrpa"
            h._seris = (ctx.real("waa", (n[0],) * 4), ctx.real("wab", (n[0], n[0], n[1], n[1])), ctx.real("wbb", (n[1],) * 4)) if uhf else ctx.real("w", (n,) * 4)
        x = f.make_fragment_dm2cumulant(**c)
        e = np.sum(x[0] * g[0]) + 2 * np.sum(x[1] * g[1]) + np.sum(x[2] * g[2]) if uhf else np.sum(x * g)
        ctx.eq("cumulant energy of fragment %d" % f.id, 2 * f.make_fragment_dm2cumulant_energy(hamil=h, **c), e)
        f.hamil = h
        ctx.eq("cumulant energy of fragment %d with its own Hamiltonian" % f.id, 2 * f.make_fragment_dm2cumulant_energy(**c), e)
    unchanged(ctx, data, before)


def h_sum(ctx, uhf, model, combos, **kw):
    """the global 2-DM is the sum of the back-transformed fragment cumulants (symmetry images included)"""
    b, g, data = dict(loc=model_loc, sym=model_sym)[model](ctx, uhf=uhf, **kw)
    before = snap(data)
    c = combos[ctx.choice("combo", list(range(len(combos))))]
    Z = None
    for d in data:
        x = d["f"].make_fragment_dm2cumulant(**c)
        cl = d["f"].cluster.c_active
        z = [tr2(x[0], cl[0], cl[0]), tr2(x[1], cl[0], cl[1]), tr2(x[2], cl[1], cl[1])] if uhf else [tr2(x, cl, cl)]
        Z = z if Z is None else [p + q for p, q in zip(Z, z)]
    k2 = dict(t_as_lambda=c["t_as_lambda"]) if uhf else c
    got = b._make_rdm2_ccsd_proj_lambda(with_dm1=False, ao_basis=True, **k2)
    ctx.eq("global 2-DM", list(got) if uhf else [got], Z)
    unchanged(ctx, data, before)


LOC = [((0,), ([0, 1], [0])), ((1,), ([0], [0])), ((2, 3), ([1], [1, 0]))]
LOC2 = [((0,), ([0], [0])), ((1,), ([0], [0])), ((2, 3), ([1, 0], [1]))]
PAIR = [((0, 1), ([0], [0])), ((2, 3), ([1, 0], [1]))]
HARNESSES = []


def add(name, fn, tiers=("quick", "thorough"), **p):
    HARNESSES.append(Harness(name, fn, params=p, tiers=tiers, bounds=str(p)))


D, NC, NS = dict(), dict(approx_cumulant=False), dict(sym_t2=False)
ALL = [(t, dict(a, **c)) for t in (False, True) for a in (D, NC) for c in (D, NS)]
add("global-wf", h_global, uhf=False, n=3, no=2, split=(1, 2))
add("global-wf no=1", h_global, uhf=False, n=3, no=1, split=(1, 1, 1))
add("unrestricted global-wf", h_global, uhf=True, n=2, no=(1, 1), split=(1, 1))
add("unrestricted global-wf n=3", h_global, tiers=("thorough",), uhf=True, n=3, no=(2, 1), split=(1, 2))
add("global-wf incomplete clusters", h_global, uhf=False, model="loc", ao=False, clusters=PAIR)
add("global-wf incomplete clusters 3", h_global, tiers=("thorough",), uhf=False, model="loc", clusters=LOC2)
add("global-wf symmetry", h_global, uhf=False, model="sym", ao=False, nsite=2, no1=1, nv1=1)
add("fragment sums", h_proj, uhf=False, opts=[(False, D)], ao=False, n=3, no=2, split=(1, 2))
add("fragment sums exact cumulant", h_proj, uhf=False, opts=[(True, NC)], ao=False, n=3, no=2, split=(1, 2))
add("fragment sums no=1", h_proj, uhf=False, opts=[(True, D), (False, NC), (False, NS)], n=3, no=1, split=(2, 1))
add("fragment sums n=2", h_proj, uhf=False, opts=ALL, n=2, no=1, split=(1, 1))
add("fragment sums all options", h_proj, tiers=("thorough",), uhf=False, opts=ALL, n=3, no=2, split=(1, 2))
add("fragment sums mp2", h_proj, uhf=False, opts=[(True, D)], n=3, no=2, split=(1, 2), kinds=["MP2", "MP2"], solver="MP2")
add("unrestricted fragment sums", h_proj, uhf=True, opts=[(False, D), (True, D)], n=2, no=(1, 1), split=(1, 1))
add("unrestricted fragment sums n=3", h_proj, tiers=("thorough",), uhf=True, opts=[(False, D), (True, D)], n=3, no=(2, 1), split=(1, 2))
add("unrestricted fragment sums mp2", h_proj, uhf=True, opts=[(True, D)], n=3, no=(2, 1), split=(1, 2), kinds=["MP2", "MP2"], solver="MP2")
add("cumulant energy", h_energy, uhf=False, combos=COMB, cached=False, clusters=PAIR)
add("cumulant energy cached", h_energy, uhf=False, combos=COMB, cached=True, clusters=PAIR)
add("cumulant energy mixed solvers", h_energy, uhf=False, combos=COMB[:1], cached=True, clusters=LOC2, kinds=["MP2", "CCSD", "MP2"])
add("unrestricted cumulant energy", h_energy, uhf=True, combos=[COMB[0], dict(COMB[0], t_as_lambda=True)], cached=False, clusters=PAIR)
add("unrestricted cumulant energy cached", h_energy, uhf=True, combos=COMB[:1], cached=True, clusters=PAIR)
add("unrestricted cumulant energy mixed solvers", h_energy, uhf=True, combos=COMB[:1], cached=False, clusters=PAIR, kinds=["CCSD", "MP2"])
add("sum of fragments", h_sum, uhf=False, combos=COMB[:2], model="loc", clusters=PAIR)
add("sum of fragments mixed solvers", h_sum, uhf=False, combos=COMB[:1], model="loc", clusters=PAIR, kinds=["CCSD", "MP2"])
add("unrestricted sum of fragments", h_sum, uhf=True, combos=COMB[:1], model="loc", clusters=PAIR)
add("sum of fragments symmetry", h_sum, uhf=False, combos=COMB[:1], model="sym", nsite=2, no1=1, nv1=1)
