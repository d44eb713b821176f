"""C18: energies from fragment wave functions. All energy functionals of a real EWF object run with symbolic amplitudes,
integrals and Fock matrices. For complete clusters they must be the energy expressions of the common wave function; for
incomplete clusters the stated fragment sums, consistent with the democratically partitioned density matrices."""
from vsym.harness import Harness
from checks.ewfsim import *
from checks.c15 import snap, unchanged
from checks.c16 import exact_svd
from checks.c17 import full, wave, LOC, LOC2, PAIR, tr2

META = dict(assumptions=["the embedding object is created without a mean field or solver; MOs, overlap, clusters, amplitudes and integrals are given"])


def sp(x):
    return x if isinstance(x, (tuple, list)) else (x,)


def gab_of(ctx, na, nb):
    return ctx.unique("gab", (na, na, nb, nb), [((1, 0, 2, 3), 1), ((0, 1, 3, 2), 1), ((1, 0, 3, 2), 1)])


class System:
    """integrals in the MO basis (spin-dependent for unrestricted), served in the AO basis or for any orbitals"""

    def __init__(self, ctx, b, uhf, vmf=True, perm=None, exxdiv=False, ncells=1):
        self.ctx, self.b, self.uhf = ctx, b, uhf
        self.C = sp(b.mo_coeff)
        self.S = b.get_ovlp()
        n = self.C[0].shape[1]
        # integrals are variables in the MO basis, or (perm) in the orthonormal AO basis and invariant under powers of perm
        self.SC = [np.dot(self.S, c) for c in self.C] if perm is None else [self.S for c in self.C]
        self.n = n
        self.no = sp(b.nocc)
        q = [list(range(n))]
        while perm is not None and [q[-1][i] for i in perm] != q[0]:
            q.append([q[-1][i] for i in perm])
        inv = lambda x: sum((x[np.ix_(*[p] * x.ndim)] for p in q[1:]), x)
        if uhf:
            self.g = [inv(ctx.eri8("gaa", n)), inv(gab_of(ctx, n, n)), inv(ctx.eri8("gbb", n))]
        else:
            self.g = [inv(ctx.eri8("g", n))]
        hh = inv(ctx.sym2("h", n))      # same core Hamiltonian for both spins, given in the basis of the first orbitals
        self.hao = np.dot(np.dot(self.SC[0], hh), self.SC[0].T)
        self.h = [hh] + [np.dot(np.dot(c.T, self.hao), c) if perm is None else hh for c in self.C[1:]]
        if vmf:
            self.v = self.veff(self.mo(sp(self.mfdm()) if not uhf else self.mfdm()))
        else:
            self.v = [inv(ctx.sym2("v%d" % s, n)) for s in range(len(self.C))]
        self.f = [x + y for x, y in zip(self.h, self.v)]
        self.vao = [np.dot(np.dot(s, x), s.T) for s, x in zip(self.SC, self.v)]
        b._hcore = b._hcore_orig = self.hao
        self.e0 = ctx.scalar("e_nuc")
        mol = b.mf.mol
        mol.energy_nuc = lambda: self.e0
        if ncells > 1:
            b.kpts = [0] * ncells
        if exxdiv:
            b.mf.exxdiv = "ewald"
            b.madelung = ctx.scalar("madelung")
            vx = b.get_exxdiv()[1]
            b._veff = np.stack([x + y for x, y in zip(self.vao, vx)]) if uhf else self.vao[0] + vx
        else:
            b._veff = np.stack(self.vao) if uhf else self.vao[0]
        b._veff_orig = b._veff
        b.mf.energy_tot = self.energy_tot
        b.mf.get_veff = lambda dm=None, **kw: self.get_veff(dm)
        b.mf.make_rdm1 = lambda *a, **k: self.mfdm()
        if uhf:   # the spin of orbitals is recognised from their coefficients
            col = [[x for f in b.fragments for x in f.cluster.c_active[s].T] for s in (0, 1)]
            for x in col[0]:
                for y in col[1]:
                    k = next(i for i in range(len(x)) if not (isinstance(x[i], (int, Fraction)) and isinstance(y[i], (int, Fraction)) and x[i] == y[i]))
                    ctx.assume(x[k] != y[k])
        b.get_eris_array = self.eris
        b.get_eris_array_uhf = self.eris_uhf

    def mfdm(self):
        d = [np.dot(c[:, :o], c[:, :o].T) for c, o in zip(self.C, self.no)]
        return np.stack(d) if self.uhf else 2 * d[0]

    def veff(self, d):
        """Hartree-Fock potential of an MO density matrix"""
        if not self.uhf:
            return [np.einsum("pqrs,rs->pq", self.g[0], d[0]) - hlf(np.einsum("psrq,rs->pq", self.g[0], d[0]))]
        aa, ab, bb = self.g
        return [np.einsum("pqrs,rs->pq", aa, d[0]) + np.einsum("pqrs,rs->pq", ab, d[1]) - np.einsum("psrq,rs->pq", aa, d[0]),
                np.einsum("pqrs,rs->pq", bb, d[1]) + np.einsum("rspq,rs->pq", ab, d[0]) - np.einsum("psrq,rs->pq", bb, d[1])]

    def mo(self, dm):
        return [np.dot(np.dot(s.T, x), s) for s, x in zip(self.SC, dm)]

    def get_veff(self, dm):
        d = self.mo(dm if self.uhf else [dm])
        v = self.veff(d)
        if self.b.has_exxdiv:   # Ewald exchange correction of the density matrix
            v = [x - self.b.madelung * (y if self.uhf else hlf(y)) for x, y in zip(v, d)]
        v = [np.dot(np.dot(s, x), s.T) for s, x in zip(self.SC, v)]
        return np.stack(v) if self.uhf else v[0]

    def energy_tot(self, dm=None, h1e=None, vhf=None):
        d = self.mfdm() if dm is None else dm
        return np.sum(np.asarray(d) * h1e) + hlf(np.asarray(d) * vhf).sum() + self.e0

    def tr(self, cs, ss, g):
        r = [np.dot(self.SC[s].T, c) for s, c in zip(ss, cs)]
        return np.einsum("ijkl,ip,jq,kr,ls->pqrs", g, *r, optimize=True)

    def eris(self, cs, **kw):
        cs = cs if isinstance(cs, (tuple, list)) else [cs] * 4
        if not self.uhf:
            return self.tr(cs, (0,) * 4, self.g[0])
        q = tuple(self.spin(c) for c in cs)
        if q == (1, 1, 0, 0):
            return self.tr([cs[2], cs[3], cs[0], cs[1]], (0, 0, 1, 1), self.g[1]).transpose(2, 3, 0, 1)
        return self.tr(cs, q, self.g[q[0] + q[2]])

    def spin(self, c):
        """alpha or beta: the columns are those of one of the clusters"""
        if c.shape[1] == 0:
            return 0
        for s in (0, 1):
            for f in self.b.fragments:
                for x in f.cluster.c_active[s].T:
                    if all(p is q for p, q in zip(x, c[:, 0])) if self.ctx.symbolic else np.allclose(x, c[:, 0], atol=1e-10):
                        return s
        raise AssertionError("integrals over orbitals outside the clusters requested")

    def eris_uhf(self, cs, mo2=None, **kw):
        d = cs if mo2 is None else mo2
        pr = lambda s, q: [cs[s], d[s], cs[q], d[q]] if mo2 is not None else [cs[s]] * 2 + [cs[q]] * 2
        if isinstance(cs[0], (tuple, list)):
            pr = lambda s, q: [cs[0][s], cs[1][s], cs[2][q], cs[3][q]]
        return tuple(self.tr(pr(s, q), (s, s, q, q), self.g[k]) for k, (s, q) in enumerate(((0, 0), (0, 1), (1, 1))))

    # --- oracles in the MO basis

    def projected(self, T):
        """<0|H|S+D> of a coupled-cluster wave function"""
        o, n = self.no, self.n
        if not self.uhf:
            t1, t2 = T
            c2 = t2 + np.einsum("ia,jb->ijab", t1, t1)
            g = self.g[0][:o[0], o[0]:, :o[0], o[0]:]
            return 2 * np.sum(self.f[0][:o[0], o[0]:] * t1) + 2 * np.einsum("iajb,ijab->", g, c2) - np.einsum("ibja,ijab->", g, c2)
        (a, b), (aa, ab, bb) = T
        e = np.sum(self.f[0][:o[0], o[0]:] * a) + np.sum(self.f[1][:o[1], o[1]:] * b)
        ga, gab, gb = (self.g[k][:o[s], o[s]:, :o[q], o[q]:] for k, (s, q) in enumerate(((0, 0), (0, 1), (1, 1))))
        for g, t1, t2 in ((ga, a, aa), (gb, b, bb)):
            c = t2 + np.einsum("ia,jb->ijab", t1, t1) - np.einsum("ja,ib->ijab", t1, t1)
            e = e + hlf(np.asarray(np.einsum("iajb,ijab->", g, c))).item()
        return e + np.einsum("iajb,ijab->", gab, ab + np.einsum("ia,jb->ijab", a, b))

    def one(self, x, d):
        """sum of one-electron operators times density matrices (MO)"""
        return sum(np.sum(p * q) for p, q in zip(x, sp(d)))

    def two(self, D):
        if not self.uhf:
            return H(np.sum(self.g[0] * D))
        return H(np.sum(self.g[0] * D[0])) + np.sum(self.g[1] * D[1]) + H(np.sum(self.g[2] * D[2]))


def H(x):
    return x * Fraction(1, 2) if not isinstance(x, (float, np.floating)) else x / 2


def setham(ctx, data, cache=False):
    for d in data:
        h = d["f"].get_frag_hamil()
        d["f"].hamil = h


def strip(d):
    d.e_corr = d.e_corr_dm2cumulant = None


def h_wf(ctx, uhf, exxdiv=False, **kw):
    """complete clusters: projected energy of the common wave function, from stored and recomputed fragment energies"""
    b, data, T, L = full(ctx, uhf, **kw)
    s = System(ctx, b, uhf, vmf=False, exxdiv=exxdiv)
    before = snap(data)
    ref = s.projected(T)
    ctx.eq("wave-function correlation energy", b.get_wf_corr_energy(), ref)
    ctx.eq("default functional", b.get_e_corr(), ref)
    ctx.eq("total energy", b.get_wf_energy(), b.e_mf + ref)
    e = 0
    for d in data:
        f = d["f"]
        ci = f.results.wf.as_cisd(c0=1.0)
        p = ci.project(f.get_overlap("frag|cluster-occ"), inplace=False)
        es, ed, ex = f.get_fragment_energy(p.c1, p.c2)
        e += ex
        ctx.eq("singles + doubles", es + ed, ex)
        es2, ed2, ex2 = f.get_fragment_energy(p.c1, p.c2, fock=b.get_fock_for_energy(), hamil=f.hamil)
        ctx.eq("explicit Fock matrix and Hamiltonian", [es2, ed2], [es, ed])
        es3, ed3, ex3 = f.get_fragment_energy(None, p.c2)
        ctx.eq("no singles", [es3, ed3, ex3], [0 * es, ed, ed])
        q = p.restore()
        es4, ed4, ex4 = f.get_fragment_energy(q.c1, q.c2, axis1=None)
        ctx.eq("cluster occupied first axis", [es4, ed4], [es, ed])
        f._results.e_corr = ex
    ctx.eq("sum of fragment energies", e, ref)
    ctx.eq("stored fragment energies", b.get_wf_corr_energy(), ref)
    if not uhf:
        for fw in (True, False):
            ctx.eq("ccsd energy full_wf=%r" % fw, b.get_ccsd_corr_energy(full_wf=fw), ref)
        ctx.eq("ccsd total energy", b.get_ccsd_energy(), b.e_mf + ref)
    unchanged(ctx, data, before)


def tot(s, d1, D2):
    return s.one(s.h, d1) + s.two(D2)


def h_dm(ctx, uhf, exact=False, **kw):
    """complete clusters: correlation energy from (fragment) density matrices"""
    ctx.exact_svd(exact_svd)
    b, data, T, L = full(ctx, uhf, **kw)
    s = System(ctx, b, uhf, vmf=False)
    before = snap(data)
    opt = ctx.boolean("opts.t_as_lambda")
    arg = ctx.choice("t_as_lambda", [None, True, False])
    b.opts.t_as_lambda = opt
    for d in data:
        d["f"].opts.t_as_lambda = opt and arg is not False   # the option of a fragment wins
    tl = opt if arg is None else arg
    w = wave(b, uhf, T, T if tl else L)
    e1 = s.one(s.f, w.make_rdm1(with_mf=False))
    e2 = s.two(w.make_rdm2(with_dm1=False, approx_cumulant=True))
    for m in ("global-wf", "2p1l"):
        ctx.eq("e1 " + m, b.get_dm_corr_energy_e1(dm1=m, t_as_lambda=arg), e1)
    for m in ("global-wf", "projected-lambda"):
        ctx.eq("e2 " + m, b.get_dm_corr_energy_e2(dm2=m, t_as_lambda=arg), e2)
    ctx.eq("dm correlation energy", b.get_dm_corr_energy(t_as_lambda=arg), e1 + e2)
    ctx.eq("dm total energy", b.get_dm_energy(t_as_lambda=arg), b.e_mf + e1 + e2)
    ctx.eq("functional dm", b.get_e_corr(functional="dm", t_as_lambda=arg), e1 + e2)
    if arg:
        ctx.eq("functional dm-t2only", b.get_e_corr(functional="dm-t2only"), e1 + e2)
    if arg is None and not uhf:
        for g1 in (True, False):
            for g2 in (True, False):
                ctx.eq("old functional %r %r" % (g1, g2), b._get_dm_corr_energy_old(global_dm1=g1, global_dm2=g2), e1 + e2)
    unchanged(ctx, data, before)


def h_dmet(ctx, uhf, exxdiv=False, **kw):
    """complete clusters: the DMET energy is the energy of the common density matrices, whatever is partitioned"""
    b, data, T, L = full(ctx, uhf, **kw)
    s = System(ctx, b, uhf, exxdiv=exxdiv)
    before = snap(data)
    w = wave(b, uhf, T, L)
    d1 = w.make_rdm1()
    ref = tot(s, d1, w.make_rdm2())
    ref2 = s.one(s.h, d1)
    for pc, ac in ((True, True), (True, False), (False, True)):
        e = b.get_dmet_elec_energy(part_cumulant=pc, approx_cumulant=ac)
        ctx.eq("DMET energy part_cumulant=%r approx_cumulant=%r" % (pc, ac), e, ref)
    ctx.eq("with nuclear repulsion", b.get_dmet_energy(with_exxdiv=False), ref + s.e0)
    x = b.get_exxdiv()[0] if exxdiv else 0
    ctx.eq("total", b.get_dmet_energy(), ref + s.e0 + x)
    ctx.eq("without nuclear repulsion", b.get_dmet_energy(with_nuc=False), ref + x)
    ctx.eq("functional dmet", b.get_e_corr(functional="dmet"), b.get_dmet_energy() - b.e_mf)
    if exxdiv:
        ctx.eq("exxdiv energy", x, H(s.one([-b.madelung * np.diag([int(i < o) for i in range(s.n)]) for o in s.no], [(1 if uhf else 2) * np.diag([int(i < o) for i in range(s.n)]) for o in s.no])))
        ctx.eq("potential without exxdiv", b.get_veff(with_exxdiv=False), np.stack(s.vao) if uhf else s.vao[0])
        ctx.eq("original potential without exxdiv", b._get_veff_orig(with_exxdiv=False), np.stack(s.vao) if uhf else s.vao[0])
    unchanged(ctx, data, before)


def h_mf(ctx, uhf, **kw):
    """fragment mean-field energies add up; fragment orbital energies are diagonal elements of the Fock matrix"""
    b, data, T, L = full(ctx, uhf, **kw)
    s = System(ctx, b, uhf)
    e = sum(d["f"].get_fragment_mf_energy() for d in data)
    d0 = [(1 if uhf else 2) * np.diag([int(i < o) for i in range(s.n)]) for o in s.no]
    ctx.eq("sum of fragment energies", e + s.e0, s.one([x + hlf(y) for x, y in zip(s.h, s.v)], d0) + s.e0)
    ctx.eq("mean-field energy", b.e_mf, e + s.e0)
    for d in data:
        ca = sp(d["f"].cluster.c_active)
        fa = [np.dot(np.dot(x, y), x.T) for x, y in zip(s.SC, s.f)]
        for x, c, f in zip(sp(d["f"].get_fragment_mo_energy()), ca, fa):
            ctx.eq("orbital energies", x, np.diag(np.dot(np.dot(c.T, f), c)))


def h_demo(ctx, uhf, ao=True, **kw):
    """complete clusters: the partitioned density matrices are those of the common wave function, for all options"""
    ctx.exact_svd(exact_svd)
    b, data, T, L = full(ctx, uhf, **kw)
    b.mf.make_rdm1 = lambda *a, **k: None
    before = snap(data)
    if kw.get("kinds"):
        w = wf.MP2_WaveFunction(Orbitals(b.mo_coeff, occ=b.nocc), T[1])
    else:
        w = wave(b, uhf, T, L)
    o = (lambda x: list(x)) if uhf else (lambda x: [x])
    C = sp(b.mo_coeff)
    for mf in (True, False):
        r = o(w.make_rdm1(with_mf=mf))
        for sy in (True, False):
            ctx.eq("1-DM with_mf=%r symmetrize=%r" % (mf, sy), o(b.make_rdm1_demo(with_mf=mf, symmetrize=sy)), r)
        ctx.eq("1-DM in AO basis with_mf=%r" % mf, o(b.make_rdm1_demo(with_mf=mf, ao_basis=True)), [np.dot(np.dot(c, x), c.T) for c, x in zip(C, r)])
    for d1 in (True, False):
        for ac in (True, False):
            if d1:
                r = o(w.make_rdm2())
            elif not ac and kw.get("kinds"):
                x, y = o(w.make_rdm1()), o(w.make_rdm2())
                pr, ex = lambda p, q: np.einsum("ij,kl->ijkl", p, q), lambda p, q: np.einsum("il,jk->ijkl", p, q)
                r = [y[0] - pr(x[0], x[0]) + ex(x[0], x[0]), y[1] - pr(x[0], x[1]), y[2] - pr(x[1], x[1]) + ex(x[1], x[1])] if uhf else [y[0] - pr(x[0], x[0]) + hlf(ex(x[0], x[0]))]
            else:
                r = o(w.make_rdm2(with_dm1=False, approx_cumulant=ac))
            for pc in (True, False):
                k = dict(with_dm1=d1, part_cumulant=pc, approx_cumulant=ac)
                ctx.eq("2-DM %r" % k, o(b.make_rdm2_demo(symmetrize=False, **k)), r)
                ctx.eq("symmetrized 2-DM %r" % k, o(b.make_rdm2_demo(**k)), [hlf(x + x.transpose(1, 0, 3, 2)) for x in r])
    if ao:
        r = [hlf(x + x.transpose(1, 0, 3, 2)) for x in o(w.make_rdm2())]
        ctx.eq("2-DM in AO basis", o(b.make_rdm2_demo(ao_basis=True)), [tr2(r[0], C[0], C[0]), tr2(r[1], C[0], C[1]), tr2(r[2], C[1], C[1])] if uhf else [tr2(r[0], C[0], C[0])])
    unchanged(ctx, data, before)


def h_sym(ctx, uhf, nsite, no1, nv1, energies, ncells=1, mp2=False, **kw):
    """symmetry-related fragments: energies equal those of the same fragments without symmetry relations"""
    m = no1 + nv1
    perm = [(i - m) % (nsite * m) for i in range(nsite * m)]
    res = []
    k2 = dict(kw, kind="MP2", solver="MP2") if mp2 else kw
    for ex in (False, True):
        b, _, data = model_sym(ctx, nsite, no1, nv1, uhf=uhf, explicit=ex, **k2)
        s = System(ctx, b, uhf, perm=perm, ncells=ncells if not ex else 1)
        ctx.true("symmetry parents", sum(d["f"].sym_parent is None for d in data) == (nsite if ex else 1))
        before = snap(data)
        r = []
        for e in energies:
            r += [("wf", lambda: [b.get_wf_corr_energy()]),
                  ("ccsd", lambda: [b.get_ccsd_corr_energy(full_wf=w) for w in (True, False)]),
                  ("dm2", lambda: [b.get_dm_corr_energy_e2(t_as_lambda=t) for t in (True, False)]),
                  ("dm", lambda: [b.get_dm_corr_energy(dm1="2p1l", t_as_lambda=mp2)]),
                  ("dmet", lambda: [b.get_dmet_energy(part_cumulant=p) for p in (True, False)]),
                  ("dmetx", lambda: [b.get_dmet_energy(approx_cumulant=False)]),
                  ("mf", lambda: [sum(f.symmetry_factor * f.get_fragment_mf_energy() for f in b.get_fragments(sym_parent=None))])][["wf", "ccsd", "dm2", "dm", "dmet", "dmetx", "mf"].index(e)][1]()
        res.append(r)
        unchanged(ctx, data, before)
    k = 1 if ncells == 1 else Fraction(1, ncells) if ctx.symbolic else 1 / ncells
    ctx.eq("energies", res[0], [x * k for x in res[1]] if energies != ["mf"] else res[1])


def h_factor(ctx, uhf, **kw):
    """fragments which do not contribute are left out; symmetry weights scale the fragment energies"""
    b, _, data = model_loc(ctx, uhf=uhf, **kw)
    s = System(ctx, b, uhf)
    F = [lambda: b.get_wf_corr_energy(), lambda: b.get_dm_corr_energy_e2(t_as_lambda=True), lambda: b.get_dmet_elec_energy(part_cumulant=False)]
    fs = [d["f"] for d in data]
    whole = [f() for f in F]
    part = []
    for x in fs:
        for y in fs:
            y.opts.auxiliary = y is not x
        ctx.true("contributing fragments", [f.id for f in b.get_fragments(contributes=True)] == [x.id])
        part.append([f() for f in F])
    ctx.eq("fragment energies add up", [sum(x[i] for x in part) for i in range(len(F))], whole)
    for y in fs:
        y.opts.auxiliary = False
    fs[0].active = False
    ctx.eq("inactive fragment", [f() for f in F], [sum(x[i] for x in part[1:]) for i in range(len(F))])
    fs[0].active = True
    fac = ctx.scalar("sym_factor")
    fs[-1].opts.sym_factor = fs[-1].sym_factor = fac
    ctx.eq("weighted fragment", [f() for f in F], [sum(x[i] for x in part[:-1]) + fac * part[-1][i] for i in range(len(F))])


def h_demoinc(ctx, uhf, part, model="loc", **kw):
    """incomplete clusters: the energies of the partitioned density matrices are the partitioned DMET energies"""
    b, g, data = dict(loc=model_loc, sym=model_sym)[model](ctx, uhf=uhf, **kw)
    s = System(ctx, b, uhf)
    before = snap(data)
    o = (lambda x: list(x)) if uhf else (lambda x: [x])
    pc, ac = part
    d1 = o(b.make_rdm1_demo())
    z = [0 * x for x in d1]
    for d in data:
        x = o(d["f"].results.wf.make_rdm1(with_mf=False))
        for k in range(len(x)):
            cl = sp(d["f"].cluster.c_active)[k]
            r = np.dot(s.SC[k].T, cl)
            p = np.dot(s.SC[k].T, sp(d["f"].c_frag)[k])
            z[k] = z[k] + np.dot(np.dot(p, p.T), np.dot(np.dot(r, x[k]), r.T))
    ctx.eq("1-DM", d1, [hlf(x + x.T) + (1 if uhf else 2) * np.diag([int(i < s.no[k]) for i in range(s.n)]) for k, x in enumerate(z)])
    D2 = b.make_rdm2_demo(part_cumulant=pc, approx_cumulant=ac)
    for x in o(D2):
        ctx.eq("symmetrized 2-DM", x, x.transpose(1, 0, 3, 2))
    e = b.get_dmet_elec_energy(part_cumulant=pc, approx_cumulant=ac)
    ctx.eq("DMET energy of the partitioned density matrices", e, tot(s, tuple(d1) if uhf else d1[0], D2))
    if pc:
        x1 = o(b.make_rdm1_demo(with_mf=False))
        x2 = b.make_rdm2_demo(with_dm1=False, approx_cumulant=ac)
        if ac:
            ctx.eq("from the Fock matrix and cumulant", e, s.energy_tot(h1e=s.hao, vhf=b._veff) - s.e0 + s.one(s.f, x1) + s.two(x2))
        else:
            fc = [x + y for x, y in zip(s.h, s.veff(d1))]
            ctx.eq("from the correlated Fock matrix and cumulant", e, H(s.one([x + y for x, y in zip(s.h, fc)], d1)) + s.two(x2))
    unchanged(ctx, data, before)


class Stub:
    """solver returning a given wave function"""

    def __init__(self, f, w, conv):
        self.hamil, self.wf0, self.converged = f.hamil, w, None
        self.conv, self.calls, self.v_ext = conv, [], None
        self.hole_moments, self.particle_moments = object(), object()

    def optimize_cpt(self, n, c_frag=None, atol=None, rtol=None):
        self.calls.append(("cpt", n, c_frag, atol, rtol))

    def kernel(self, *a, **k):
        self.calls.append("kernel")
        self.wf, self.converged = self.wf0, self.conv


def h_kernel(ctx, uhf, model, cpt=False, **kw):
    """Fragment.kernel: what is stored is the wave function, its projection and the energies the functionals use"""
    b, g, data = dict(full=model_u if uhf else model_r, loc=model_loc)[model](ctx, **(kw if model == "full" else dict(kw, uhf=uhf)))
    s = System(ctx, b, uhf, vmf=False)
    opt = ctx.boolean("opts.t_as_lambda")
    dm = ctx.boolean("calc_e_dm_corr")
    conv = ctx.boolean("converged")
    b.opts.t_as_lambda = opt
    before = snap(data)
    if cpt:
        b.opts.global_frag_chempot = ctx.scalar("mu")
        ctx.assume(b.opts.global_frag_chempot != 0)
    ref = []
    for d in data:
        f = d["f"]
        f.opts.replace(t_as_lambda=opt, calc_e_dm_corr=dm, calc_e_wf_corr=True)
        w, p = f.results.wf, f.results.pwf
        st = Stub(f, w, conv)
        f.get_solver = lambda solver=None, st=st: st
        if cpt and f.id == 0:
            f.opts.nelectron_target = ctx.scalar("target")
            ctx.assume(f.opts.nelectron_target != 0)
        f._results = None
        r = f.kernel()
        ctx.true("solver called", st.calls[-1] == "kernel")
        ctx.true("results returned and stored", r is f.results)
        ctx.true("wave function stored", r.wf is w)
        ctx.true("convergence flag", bool(r.converged) == bool(conv) and r.fid == f.id)
        q = r.pwf
        ctx.eq("projected amplitudes", [x for y in (q.t1, q.t2) for x in sp(y)], [x for y in (p.t1, p.t2) for x in sp(y)])
        if cpt:
            if f.id == 0:
                c = st.calls[0]
                ctx.eq("target electron number", c[1], f.opts.nelectron_target)
                ctx.true("tolerances", c[3] == f.opts.nelectron_target_atol and c[4] == f.opts.nelectron_target_rtol)
                ctx.eq("fragment orbitals", [x for x in sp(c[2])], [x for x in sp(f.c_frag)])
                ctx.true("no chemical potential added", st.v_ext is None)
            else:
                P = [np.dot(np.dot(x.T, np.dot(s.S, y)), np.dot(np.dot(s.S, y).T, x)) for x, y in zip(sp(f.cluster.c_active), sp(f.c_frag))]
                ctx.eq("chemical potential", list(sp(st.v_ext)), [b.opts.global_frag_chempot * x for x in P])
        ref.append((r.e_corr, r.e_corr_dm2cumulant))
        r.e_corr = r.e_corr_dm2cumulant = None
    e, e2 = b.get_wf_corr_energy(), b.get_dm_corr_energy_e2()
    for d, (x, y) in zip(data, ref):
        d["f"].results.e_corr, d["f"].results.e_corr_dm2cumulant = x, y
    ctx.eq("energy from stored fragment energies", b.get_wf_corr_energy(), e)
    ctx.eq("stored fragment energies", sum(x for x, _ in ref), e)
    ctx.true("cumulant energies stored if asked for", all((y is not None) == bool(dm) for _, y in ref))
    ctx.eq("cumulant energy from stored fragment energies", b.get_dm_corr_energy_e2(), e2)
    ctx.eq("cumulant energy of the other kind", b.get_dm_corr_energy_e2(t_as_lambda=not opt), sum(d["f"].make_fragment_dm2cumulant_energy(t_as_lambda=not opt) for d in data))
    unchanged(ctx, data, before)


HARNESSES = []


def add(name, fn, tiers=("quick", "thorough"), **p):
    HARNESSES.append(Harness(name, fn, params=p, tiers=tiers, bounds=str(p)))


add("projected energy", h_wf, uhf=False, n=3, no=2, split=(1, 2))
add("projected energy exxdiv", h_wf, uhf=False, exxdiv=True, n=3, no=1, split=(1, 2))
add("projected energy mp2", h_wf, uhf=False, n=3, no=2, split=(1, 2), kinds=["MP2", "MP2"], solver="MP2")
add("unrestricted projected energy", h_wf, uhf=True, n=3, no=(2, 1), split=(1, 2))
add("dm energy", h_dm, uhf=False, n=2, no=1, split=(1, 1))
add("dm energy n=3", h_dm, tiers=("thorough",), uhf=False, n=3, no=2, split=(1, 2))
add("unrestricted dm energy", h_dm, uhf=True, n=2, no=(1, 1), split=(1, 1))
add("dmet energy", h_dmet, uhf=False, n=2, no=1, split=(1, 1))
add("dmet energy exxdiv", h_dmet, uhf=False, exxdiv=True, n=2, no=1, split=(1, 1))
add("dmet energy n=3", h_dmet, uhf=False, n=3, no=2, split=(1, 2))
add("unrestricted dmet energy", h_dmet, uhf=True, n=2, no=(1, 1), split=(1, 1))
add("unrestricted dmet energy exxdiv", h_dmet, uhf=True, exxdiv=True, n=2, no=(1, 1), split=(1, 1))
add("mean-field energy", h_mf, uhf=False, n=3, no=2, split=(1, 2))
add("unrestricted mean-field energy", h_mf, uhf=True, n=3, no=(2, 1), split=(1, 2))
add("partitioned density matrices", h_demo, uhf=False, n=2, no=1, split=(1, 1))
add("partitioned density matrices n=3", h_demo, uhf=False, ao=False, n=3, no=2, split=(1, 2))
add("partitioned density matrices mp2", h_demo, uhf=False, ao=False, n=3, no=2, split=(1, 2), kinds=["MP2", "MP2"], solver="MP2")
add("unrestricted partitioned density matrices", h_demo, uhf=True, n=2, no=(1, 1), split=(1, 1))
for lab, prt in (("", (True, True)), (" exact cumulant", (True, False)), (" full 2-DM", (False, True))):
    add("incomplete clusters" + lab, h_demoinc, uhf=False, part=prt, clusters=PAIR)
    add("unrestricted incomplete clusters" + lab, h_demoinc, tiers=("thorough",) if prt == (True, False) else ("quick", "thorough"), uhf=True, part=prt, clusters=PAIR)
add("fragment weights", h_factor, uhf=False, clusters=PAIR)
add("unrestricted fragment weights", h_factor, uhf=True, clusters=PAIR)
add("symmetry", h_sym, uhf=False, energies=["wf", "ccsd", "dm2", "dmet", "mf"], nsite=2, no1=1, nv1=1)
add("symmetry cells", h_sym, uhf=False, energies=["wf", "ccsd", "dmet"], ncells=2, nsite=2, no1=1, nv1=1)
add("symmetry dm", h_sym, uhf=False, energies=["dm"], nsite=2, no1=1, nv1=1)
add("symmetry mp2", h_sym, uhf=False, energies=["wf", "dm2", "dm"], nsite=2, no1=1, nv1=1, mp2=True)
add("unrestricted symmetry", h_sym, uhf=True, energies=["wf", "dmet", "mf"], nsite=2, no1=1, nv1=1)
add("unrestricted symmetry dm2", h_sym, tiers=("thorough",), uhf=True, energies=["dm2"], nsite=2, no1=1, nv1=1)
add("symmetry exact cumulant", h_sym, tiers=("thorough",), uhf=False, energies=["dmetx"], nsite=2, no1=1, nv1=1)
add("dmet energy n=3 no=1", h_dmet, tiers=("thorough",), uhf=False, n=3, no=1, split=(1, 1, 1))
add("unrestricted dmet energy n=3", h_dmet, tiers=("thorough",), uhf=True, n=3, no=(2, 1), split=(1, 2))
add("kernel", h_kernel, uhf=False, model="loc", clusters=PAIR)
add("kernel chemical potential", h_kernel, uhf=False, cpt=True, model="full", n=2, no=1, split=(1, 1))
add("unrestricted kernel", h_kernel, uhf=True, model="loc", clusters=PAIR)
add("unrestricted kernel chemical potential", h_kernel, uhf=True, cpt=True, model="full", n=2, no=(1, 1), split=(1, 1))
