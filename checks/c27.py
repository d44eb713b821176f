"""C27: exact diagonalisation of coupled electron-boson systems. The real contraction, density-matrix and response-moment
routines of vayesta.solver.eb_fci, their classes and the solver around them run on symbolic Hamiltonians and symbolic state
vectors. Oracle: second-quantised operators on determinants times truncated boson occupation numbers (vsym.fock)."""
import types
import itertools
from fractions import Fraction as Q
import numpy as np
import pyscf.lib
from vsym import fock
from vsym.sym import Sym
from vsym.harness import Harness
from checks.common import *
from vayesta.solver.eb_fci import ebfci_slow, uebfci_slow, REBFCI, UEBFCI
from vayesta.solver import ebfci as solver_mod
from vayesta.solver.ebfci import EB_EBFCI_Solver, EB_UEBFCI_Solver

META = dict(assumptions=["the Davidson solver returns some energy and vector (any), whose results are then checked; convergence of the iteration is outside"])


class Exact:
    """numpy of the modules under test with exact square roots of integers"""

    def __init__(self, np_):
        self._np = np_

    def __getattr__(self, k):
        return getattr(self._np, k)

    def sqrt(self, x, *a, **kw):
        x = np.asarray(x)
        if x.dtype != object and (x == np.rint(x)).all():
            return np.array([Sym.const(int(v)).sqrt() for v in x.ravel()], dtype=object).reshape(x.shape)
        return self._np.sqrt(x, *a, **kw)


class exact_roots:
    def __init__(self, ctx):
        self.on = ctx.symbolic

    def __enter__(self):
        self.old = [(m, k, getattr(m, k)) for m in (ebfci_slow, uebfci_slow) for k in ("np", "numpy") if hasattr(m, k)]
        if self.on:
            for m, k, v in self.old:
                setattr(m, k, Exact(v))

    def __exit__(self, *a):
        for m, k, v in self.old:
            setattr(m, k, v)


def root(ctx, n):
    return Sym.const(n).sqrt() if ctx.symbolic else n ** 0.5


# ------------------------------------------------------------ oracle: states as {(alpha string, beta string, occupations): value}
class Space:
    def __init__(self, ctx, norb, nelec, nbos, max_occ):
        self.ctx, self.norb, self.nelec, self.nbos, self.max_occ = ctx, norb, nelec, nbos, max_occ
        self.sa, self.sb = fock.strings(norb, nelec[0]), fock.strings(norb, nelec[1])
        self.bos = list(itertools.product(range(max_occ + 1), repeat=nbos))
        self.shape = (len(self.sa), len(self.sb)) + (max_occ + 1,) * nbos
        self.dim = int(np.prod(self.shape))

    def state(self, v):
        v = np.asarray(v).reshape(len(self.sa), len(self.sb), len(self.bos))
        return {(a, b, n): v[i, j, k] for i, a in enumerate(self.sa) for j, b in enumerate(self.sb) for k, n in enumerate(self.bos) if fock.nz(v[i, j, k])}

    def vector(self, st):
        out = np.array([st.get((a, b, n), 0) for a in self.sa for b in self.sb for n in self.bos], dtype=object if self.ctx.symbolic else float)
        return out.reshape(self.shape)

    def exc(self, st, p, q, spin):
        out = {}
        for (a, b, n), v in st.items():
            r = fock.exc(a if spin == 0 else b, p, q)
            if r is None:
                continue
            key = (r[1], b, n) if spin == 0 else (a, r[1], n)
            out[key] = out.get(key, 0) + (v if r[0] > 0 else -v)
        return out

    def cre(self, st, x):
        out = {}
        for (a, b, n), v in st.items():
            if n[x] < self.max_occ:
                m = n[:x] + (n[x] + 1,) + n[x + 1:]
                out[a, b, m] = v * root(self.ctx, n[x] + 1)
        return out

    def des(self, st, x):
        out = {}
        for (a, b, n), v in st.items():
            if n[x]:
                m = n[:x] + (n[x] - 1,) + n[x + 1:]
                out[a, b, m] = v * root(self.ctx, n[x])
        return out

    def ham(self, st, h1, g2, hep, hpp):
        """h1: per spin; g2: (aa, ab, bb) in (pq|rs); hep: per spin; hpp: matrix or diagonal"""
        out = {}
        r = range(self.norb)
        for s in (0, 1):
            for p, q in itertools.product(r, r):
                e = self.exc(st, p, q, s)
                out = fock.add(out, fock.scale(e, h1[s][p, q]))
                for x in range(self.nbos):
                    out = fock.add(out, fock.scale(self.cre(e, x), hep[s][x, p, q]))
                    out = fock.add(out, fock.scale(self.des(self.exc(st, q, p, s), x), hep[s][x, p, q]))
        half = Q(1, 2) if self.ctx.symbolic else 0.5
        for (s1, s2), g in (((0, 0), g2[0]), ((1, 1), g2[2])):
            for t, u in itertools.product(r, r):
                e = self.exc(st, t, u, s2)
                for p, q in itertools.product(r, r):
                    out = fock.add(out, fock.scale(self.exc(e, p, q, s1), g[p, q, t, u] * half))
                    if q == t:
                        out = fock.add(out, fock.scale(self.exc(st, p, u, s1), -g[p, q, t, u] * half))
        for t, u in itertools.product(r, r):
            e = self.exc(st, t, u, 1)
            for p, q in itertools.product(r, r):
                out = fock.add(out, fock.scale(self.exc(e, p, q, 0), g2[1][p, q, t, u]))
        hpp = np.diag(hpp) if np.ndim(hpp) == 1 else hpp
        for x, y in itertools.product(range(self.nbos), repeat=2):
            if fock.nz(hpp[x, y]):
                out = fock.add(out, fock.scale(self.cre(self.des(st, y), x), hpp[x, y]))
        return out

    def dm1(self, st, spin):
        return np.array([[fock.inner(st, self.exc(st, p, q, spin)) for q in range(self.norb)] for p in range(self.norb)], dtype=object if self.ctx.symbolic else float)

    def dm2(self, st, s1, s2):
        """<p^+ r^+ s q>"""
        n = self.norb
        d = np.empty((n,) * 4, dtype=object if self.ctx.symbolic else float)
        E1 = [[self.exc(st, p, q, s1) for q in range(n)] for p in range(n)]
        E2 = [[self.exc(st, p, q, s2) for q in range(n)] for p in range(n)]
        for p, q, r, s in np.ndindex(*d.shape):
            v = fock.inner(E1[q][p], E2[r][s])
            if s1 == s2 and q == r:
                v = v - fock.inner(st, E1[p][s])
            d[p, q, r, s] = v
        return d

    def dmeb(self, st, spin):
        """<b^+ p^+ q>"""
        n = self.norb
        d = np.zeros((n, n, self.nbos), dtype=object if self.ctx.symbolic else float)
        for p, q, x in np.ndindex(*d.shape):
            d[p, q, x] = fock.inner(st, self.cre(self.exc(st, p, q, spin), x))
        return d


def system(ctx, sp, uhf, diag=False):
    n, nb = sp.norb, sp.nbos
    h1 = (ctx.sym2("h", n),) * 2 if not uhf else (ctx.sym2("ha", n), ctx.sym2("hb", n))
    if uhf:
        ab = ctx.eri4("gab", n) if False else pairs(ctx, "gab", n)
        g2 = (ctx.eri8("gaa", n), ab, ctx.eri8("gbb", n))
    else:
        g2 = (ctx.eri8("g", n),) * 3
    v = ctx.real("v", (nb, n, n))
    hep = (v, v) if not uhf else (v, ctx.real("vb", (nb, n, n)))
    hpp = np.diag(ctx.real("om", (nb,), Q(1, 4), 2)) if diag else ctx.sym2("om", nb)
    return h1, g2, hep, hpp


def pairs(ctx, name, n):
    """(pq|rs) symmetric within each pair only"""
    ip = [(p, q) for p in range(n) for q in range(p + 1)]
    x = ctx.real(name, (len(ip), len(ip)))
    g = np.zeros((n,) * 4, dtype=object if ctx.symbolic else float)
    for i, (p, q) in enumerate(ip):
        for j, (r, s) in enumerate(ip):
            for a, b in ((p, q), (q, p)):
                for c, d in ((r, s), (s, r)):
                    g[a, b, c, d] = x[i, j]
    return g


def code_args(uhf, h1, g2, hep):
    return (h1, g2, hep) if uhf else (h1[0], g2[0], hep[0])


def h_ham(ctx, norb, nelec, nbos, max_occ, uhf, diag=False, zero=False, roots=1):
    """the Hamiltonian the solver diagonalises, applied to an arbitrary vector"""
    sp = Space(ctx, norb, nelec, nbos, max_occ)
    m = uebfci_slow if uhf else ebfci_slow
    h1, g2, hep, hpp = system(ctx, sp, uhf, diag)
    a, b, c = code_args(uhf, h1, g2, hep)
    vec = ctx.real("c", (sp.dim,))
    with exact_roots(ctx):
        ctx.true("shape of the vectors", tuple(m.make_shape(norb, nelec, nbos, max_occ)) == sp.shape)
        kernel = m.kernel if roots == 1 else (lambda *x, **k: m.kernel_multiroot(*x, nroots=roots, **k))
        hop, ci0, hdiag = kernel(a, b, c, hpp, norb, nelec, nbos, max_occ, returnhop=True, adj_zero_pho=zero)
        got = hop(vec)
        one = np.zeros(sp.dim, dtype=object if ctx.symbolic else float)
    want = sp.ham(sp.state(vec), h1, g2, hep, hpp)
    if zero:
        # the bosons couple to the deviation of the density from its mean: b^+ + b times -tr(V) n/norb per spin
        st = sp.state(vec)
        for s in (0, 1):
            for x in range(nbos):
                mean = sum(hep[s][x, p, p] for p in range(norb)) * (Q(nelec[s], norb) if ctx.symbolic else nelec[s] / norb)
                for t in (sp.cre(st, x), sp.des(st, x)):
                    want = fock.add(want, fock.scale(t, -mean))
    ctx.eq("Hamiltonian times vector", np.asarray(got).reshape(sp.shape), sp.vector(want))
    # diagonal used for preconditioning
    dg = np.zeros(sp.dim, dtype=object if ctx.symbolic else float)
    z = tuple(0 * x for x in hep)
    for i in range(sp.dim):
        e = one.copy()
        e[i] = 1
        st = sp.state(e)
        dg[i] = fock.inner(st, sp.ham(st, h1, g2, z, hpp))
    ctx.eq("diagonal", hdiag, dg)
    ctx.true("start vector", len(np.ravel(ci0)) == sp.dim)


def h_boson(ctx, norb, nelec, nbos, max_occ, uhf):
    sp = Space(ctx, norb, nelec, nbos, max_occ)
    m = uebfci_slow if uhf else ebfci_slow
    vec = ctx.real("c", sp.shape)
    st = sp.state(vec)
    with exact_roots(ctx):
        d, c = m.apply_bos_annihilation(vec, nbos, max_occ), m.apply_bos_creation(vec, nbos, max_occ)
    for x in range(nbos):
        ctx.eq("annihilation", d[x], sp.vector(sp.des(st, x)))
        ctx.eq("creation", c[x], sp.vector(sp.cre(st, x)))


def h_dm(ctx, norb, nelec, nbos, max_occ, uhf, two=True):
    sp = Space(ctx, norb, nelec, nbos, max_occ)
    m = uebfci_slow if uhf else ebfci_slow
    vec = ctx.real("c", sp.shape)
    st = sp.state(vec)
    with exact_roots(ctx):
        d1 = m.make_rdm1(vec, norb, nelec)
        eb = m.make_eb_rdm(vec, norb, nelec, nbos, max_occ)
    ref1 = [sp.dm1(st, s) for s in (0, 1)]
    if uhf:
        ctx.eq("one-body density matrix (alpha)", d1[0], ref1[0])
        ctx.eq("one-body density matrix (beta)", d1[1], ref1[1])
    else:
        ctx.eq("one-body density matrix", d1, ref1[0] + ref1[1])
    for s in (0, 1):
        ctx.eq("electron-boson density matrix", eb[s], sp.dmeb(st, s))
    if not two:
        return
    ref2 = [sp.dm2(st, *s) for s in ((0, 0), (0, 1), (1, 1))]
    tot = ref2[0] + ref2[1] + ref2[2] + ref2[1].transpose(2, 3, 0, 1)
    if uhf:
        g1, g2 = m.make_rdm12s(vec, norb, nelec)
        ctx.eq("one-body density matrices", [g1[0], g1[1]], ref1)
        for k in range(3):
            ctx.eq("two-body density matrix", g2[k], ref2[k])
    g1, g2 = ebfci_slow.make_rdm12(vec, norb, nelec)
    ctx.eq("one-body density matrix", g1, ref1[0] + ref1[1])
    ctx.eq("two-body density matrix", g2, tot)
    if not uhf and norb <= 2:
        s1, s2, save = ebfci_slow.make_rdm12s(vec, norb, nelec)
        for s in (0, 1):
            ctx.eq("spin-orbital one-body density matrix", s1[s::2, s::2], ref1[s])
        for k, (s, t) in enumerate(((0, 0), (0, 1), (1, 1))):
            ctx.eq("spin-orbital two-body density matrix", s2[s::2, s::2, t::2, t::2], ref2[k])
        ctx.eq("exchange block", s2[0::2, 1::2, 1::2, 0::2], -ref2[1].transpose(0, 3, 2, 1))


class FakeHamil:
    def __init__(self, sp, uhf, h1, g2, hep, om):
        self.ncas = (sp.norb, sp.norb)
        self.nelec = sp.nelec
        self.bos_freqs = om
        self.couplings = hep if uhf else hep[0]
        self.h1, self.g2 = (h1, g2) if uhf else (h1[0], g2[0])
        self.mo = None

    def get_heff(self, eris=None, *a, **k):
        return self.h1

    def get_eris_screened(self, *a, **k):
        return self.g2


class davidson:
    """stand-in for the iterative eigensolver"""

    def __init__(self, e, c):
        self.e, self.c, self.calls = e, c, []

    def __call__(self, hop, x0, precond, **kw):
        self.calls.append((hop, x0, precond, kw))
        return self.e, self.c

    def __enter__(self):
        self.old = pyscf.lib.davidson
        pyscf.lib.davidson = self
        return self

    def __exit__(self, *a):
        pyscf.lib.davidson = self.old


def h_trace(ctx, norb, nelec, nbos, max_occ, uhf, maxmom):
    """response moments of the diagonal of the density operator only"""
    sp = Space(ctx, norb, nelec, nbos, max_occ)
    m = uebfci_slow if uhf else ebfci_slow
    h1, g2, hep, hpp = system(ctx, sp, uhf, True)
    a, b, c = code_args(uhf, h1, g2, hep)
    vec, e = ctx.real("c", sp.shape), ctx.scalar("e")
    st = sp.state(vec)
    d = [sp.dm1(st, x) for x in (0, 1)]
    if not uhf:
        d = [(d[0] + d[1]) / 2] * 2
    with exact_roots(ctx):
        moms = m.calc_dd_resp_mom(vec, e, maxmom, norb, nelec, nbos, a, b, hpp, c, max_occ, tuple(d) if uhf else 2 * d[0], trace=True)
    E = [[sp.exc(st, p, p, s) for p in range(norb)] for s in (0, 1)]
    cur = E
    for k in range(maxmom + 1):
        for i, (s, t) in enumerate(((0, 0), (0, 1), (1, 1))):
            ref = np.array([[fock.inner(E[s][p], cur[t][q]) for q in range(norb)] for p in range(norb)], dtype=object if ctx.symbolic else float)
            if k == 0:
                ref = ref - np.multiply.outer(np.diagonal(d[s]), np.diagonal(d[t]))
            ctx.eq("moment %d" % k, moms[k][i], ref)
        cur = [[fock.add(sp.ham(x, h1, g2, hep, hpp), fock.scale(x, -e)) for x in row] for row in cur]


def h_class(ctx, norb, nelec, nbos, max_occ, uhf, maxmom=2, coeffs=False, trace=False):
    """REBFCI / UEBFCI: kernel, density matrices, response moments"""
    sp = Space(ctx, norb, nelec, nbos, max_occ)
    h1, g2, hep, hpp = system(ctx, sp, uhf, True)
    om = np.diagonal(hpp).copy()
    ham = FakeHamil(sp, uhf, h1, g2, hep, om)
    e, vec = ctx.scalar("e"), ctx.real("c", (sp.dim,))
    with davidson(e, vec) as dav, exact_roots(ctx):
        cls = UEBFCI if uhf else REBFCI
        s = cls(ham, om, ham.couplings, max_boson_occ=max_occ)
        ge, gc = s.kernel()
        probe = ctx.real("y", (sp.dim,))
        ctx.eq("Hamiltonian of the eigenproblem", np.asarray(dav.calls[0][0](probe)).reshape(sp.shape), sp.vector(sp.ham(sp.state(probe), h1, g2, hep, hpp)))
        ctx.eq("energy", ge, e)
        ctx.eq("vector", gc, vec.reshape(sp.shape))
        st = sp.state(vec)
        d = [sp.dm1(st, x) for x in (0, 1)]
        d2 = [sp.dm2(st, *x) for x in ((0, 0), (0, 1), (1, 1))]
        if uhf:
            ctx.eq("density matrix", [x for x in s.make_rdm1()], d)
            g = s.make_rdm2()
            for k in range(3):
                ctx.eq("two-body density matrix", g[k], d2[k])
        else:
            ctx.eq("density matrix", s.make_rdm1(), d[0] + d[1])
            ctx.eq("two-body density matrix", s.make_rdm2(), d2[0] + d2[1] + d2[2] + d2[1].transpose(2, 3, 0, 1))
        g = s.make_rdm_eb()
        for x in (0, 1):
            ctx.eq("electron-boson density matrix", g[x], sp.dmeb(st, x))
        if maxmom is None:
            return
        c = None
        if coeffs:
            c = (ctx.real("ka", (norb, 1)), ctx.real("kb", (norb, 1))) if uhf else ctx.real("ka", (norb, 1))
        moms = s.make_dd_moms(maxmom, coeffs=c)
    moments(ctx, sp, st, moms, e, h1, g2, hep, hpp, c, maxmom, d if uhf else [(d[0] + d[1]) / 2] * 2)


def moments(ctx, sp, st, moms, e, h1, g2, hep, hpp, c, maxmom, d):
    n = sp.norb
    one = np.eye(n, dtype=int).astype(object) if ctx.symbolic else np.eye(n)
    ca, cb = (one, one) if c is None else (c if isinstance(c, tuple) else (c, c))
    # <0| (p^+ q)^+ (H - e)^m r^+ s |0>, minus the disconnected part for m = 0
    E = [[[sp.exc(st, p, q, s) for q in range(n)] for p in range(n)] for s in (0, 1)]
    cur = E
    for m in range(maxmom + 1):
        for k, (s, t) in enumerate(((0, 0), (0, 1), (1, 1))):
            a = np.empty((n,) * 4, dtype=object if ctx.symbolic else float)
            for p, q, x, y in np.ndindex(*a.shape):
                a[p, q, x, y] = fock.inner(E[s][p][q], cur[t][x][y])
            if m == 0:
                a = a - np.multiply.outer(d[s], d[t])
            cs, ct = (ca, cb)[s], (ca, cb)[t]
            a = np.einsum("pqrs,pi,qj,rk,sl->ijkl", a, cs, cs, ct, ct)
            ctx.eq("moment %d" % m, moms[m][k], a)
        if m < maxmom:
            cur = [[[fock.add(sp.ham(x, h1, g2, hep, hpp), fock.scale(x, -e)) for x in row] for row in sp_] for sp_ in cur]


def h_solver(ctx, uhf):
    """EB_EBFCI_Solver: the density matrices of the wave function refer to the original (unshifted) bosons"""
    norb, nelec, nbos, max_occ = 2, (1, 1), 1, 1
    sp = Space(ctx, norb, nelec, nbos, max_occ)
    h1, g2, hep, hpp = system(ctx, sp, uhf, True)
    om = np.diagonal(hpp).copy()
    ham = FakeHamil(sp, uhf, h1, g2, hep, om)
    shift = ctx.boolean("polaritonic_shift")
    sh = ctx.real("shift", (nbos,))
    from vayesta.solver import hamiltonian as hm
    real = hm.EB_UClusterHamiltonian if uhf else hm.EB_RClusterHamiltonian
    h = object.__new__(type("H", (real,), {k: ham.__dict__[k] for k in ("ncas", "nelec", "couplings", "mo")}))
    h.get_heff, h.get_eris_screened = ham.get_heff, ham.get_eris_screened
    h._bos_freqs = om
    h.opts = types.SimpleNamespace(polaritonic_shift=shift)
    h._polaritonic_shift = sh if shift else None
    h.mo = rmo(ctx, 1, 1) if not uhf else umo(ctx, (1, 1), (1, 1))
    sol = object.__new__(EB_UEBFCI_Solver if uhf else EB_EBFCI_Solver)
    sol.hamil = h
    sol.opts = type(sol).Options(max_boson_occ=max_occ)
    sol.log = None
    e, vec = ctx.scalar("e"), ctx.real("c", (sp.dim,))
    st = sp.state(vec)
    d = [sp.dm1(st, x) for x in (0, 1)]
    with davidson(e, vec) as dav, exact_roots(ctx):
        sol.kernel()
        probe = ctx.real("y", (sp.dim,))
        ctx.eq("Hamiltonian of the eigenproblem", np.asarray(dav.calls[0][0](probe)).reshape(sp.shape), sp.vector(sp.ham(sp.state(probe), h1, g2, hep, hpp)))
        ctx.eq("density matrix", list(sol.wf.make_rdm1()) if uhf else sol.wf.make_rdm1(), d if uhf else d[0] + d[1])
        eb = sol.wf.make_rdm_eb()
        d2 = [sp.dm2(st, *x) for x in ((0, 0), (0, 1), (1, 1))]
        g = sol.wf.make_rdm2()
        if uhf:
            for k in range(3):
                ctx.eq("two-body density matrix", g[k], d2[k])
        else:
            ctx.eq("two-body density matrix", g, d2[0] + d2[1] + d2[2] + d2[1].transpose(2, 3, 0, 1))
    dm = d if uhf else [(d[0] + d[1]) / 2] * 2
    for s in (0, 1):
        ref = sp.dmeb(st, s)
        if shift:
            ref = ref - np.multiply.outer(dm[s], sh)
        ctx.eq("electron-boson density matrix", eb[s], ref)


HARNESSES = []
T = ("thorough",)


def add(name, fn, tiers=("quick", "thorough"), **p):
    HARNESSES.append(Harness(name, fn, p, ", ".join("%s=%s" % i for i in p.items()), tiers=tiers))


for u in (0, 1):
    k = "u" if u else "r"
    add("ham_%s" % k, h_ham, norb=2, nelec=(1, 1), nbos=2, max_occ=1, uhf=u)
    add("ham_%s_occ2" % k, h_ham, norb=2, nelec=(1, 1), nbos=1, max_occ=2, uhf=u, diag=True)
    add("ham_%s_10" % k, h_ham, norb=2, nelec=(1, 0), nbos=1, max_occ=3, uhf=u)
    add("ham_%s_31" % k, h_ham, norb=3, nelec=(3, 1), nbos=1, max_occ=1, uhf=u)
    add("ham_%s_3" % k, h_ham, T, norb=3, nelec=(2, 2), nbos=1, max_occ=2, uhf=u)
    add("ham_%s_nobos" % k, h_ham, norb=3, nelec=(1, 1), nbos=0, max_occ=1, uhf=u)
    add("ham_%s_zero" % k, h_ham, norb=2, nelec=(2, 1), nbos=2, max_occ=1, uhf=u, zero=True)
    add("ham_%s_roots" % k, h_ham, norb=2, nelec=(1, 1), nbos=1, max_occ=1, uhf=u, roots=3)
    add("dm_%s_nobos" % k, h_dm, norb=2, nelec=(1, 1), nbos=0, max_occ=1, uhf=u)
    add("trace_%s" % k, h_trace, norb=2, nelec=(1, 1), nbos=1, max_occ=1, uhf=u, maxmom=2)
    add("boson_%s" % k, h_boson, norb=2, nelec=(1, 1), nbos=2, max_occ=3, uhf=u)
    add("dm_%s" % k, h_dm, norb=2, nelec=(1, 1), nbos=2, max_occ=1, uhf=u)
    add("dm_%s_21" % k, h_dm, norb=2, nelec=(2, 1), nbos=1, max_occ=2, uhf=u)
    add("dm_%s_3" % k, h_dm, T, norb=3, nelec=(2, 1), nbos=1, max_occ=1, uhf=u)
    add("class_%s" % k, h_class, norb=2, nelec=(1, 1), nbos=1, max_occ=1, uhf=u, maxmom=1)
    add("class_%s_10" % k, h_class, norb=2, nelec=(1, 0), nbos=2, max_occ=1, uhf=u, maxmom=2)
    add("class_%s_coeffs" % k, h_class, norb=2, nelec=(1, 1), nbos=1, max_occ=1, uhf=u, maxmom=1, coeffs=True)
    add("class_%s_mom3" % k, h_class, T, norb=2, nelec=(1, 1), nbos=1, max_occ=1, uhf=u, maxmom=3)
    add("solver_%s" % k, h_solver, uhf=u)
