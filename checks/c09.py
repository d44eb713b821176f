"""C09: folding from k-points to the Born-von-Karman supercell. The real fold/unfold functions, FoldedRHF/FoldedUHF,
the k-AO to supercell-MO transformation (Python and compiled driver) and the momentum-conservation tables run with
symbolic matrix elements; the phases of the small meshes are exact algebraic numbers. Oracle: Fourier sums over cells."""
import ctypes
import contextlib
import types
import functools
import itertools
from fractions import Fraction as Q
import numpy as np
import pyscf.pbc.gto
import pyscf.pbc.tools
import pyscf.pbc.tools.k2gamma
from vsym import llvm, harness, sym as S
from vsym.sym import Sym, imag_unit
from vsym.harness import Harness
from checks.common import *
from checks import c25
from vayesta.core import foldscf
from vayesta.core.util import ImaginaryPartError, OrthonormalityError
import vayesta.core.ao2mo.kao2gmo as kmod
from vayesta.core.ao2mo import helper
from vayesta.core import eris as erismod
from vayesta.core.qemb import Embedding

META = dict(assumptions=["phases of the meshes are the exact algebraic numbers exp(i k R)/sqrt(n); that get_phase returns them to 1e-12 is checked numerically",
                         "numpy.linalg.eigh/scipy.linalg.eigh return the exact decomposition"])


def root(ctx, x):
    """1/... square root of a rational number, exact in symbolic runs"""
    return Sym.const(Q(x)).sqrt() if ctx.symbolic else float(Q(x)) ** 0.5


def expi(ctx, num, den):
    """exp(2 pi i num/den), den in 1,2,3,4,6,12 divisors used here"""
    f = Q(num, den) % 1
    I = imag_unit() if ctx.symbolic else 1j
    if not ctx.symbolic:
        return complex(np.exp(2j * np.pi * float(f)))
    h = root(ctx, Q(3, 4))
    t = {Q(0): (1, 0), Q(1, 2): (-1, 0), Q(1, 4): (0, 1), Q(3, 4): (0, -1), Q(1, 3): (Q(-1, 2), h), Q(2, 3): (Q(-1, 2), -h),
         Q(1, 6): (Q(1, 2), h), Q(5, 6): (Q(1, 2), -h), Q(1, 12): (h, Q(1, 2)), Q(5, 12): (-h, Q(1, 2)), Q(7, 12): (-h, Q(-1, 2)),
         Q(11, 12): (h, Q(-1, 2))}
    re_, im = t[f]
    return re_ + I * im


class Mesh:
    def __init__(self, ctx, mesh, perm=None, shift=None):
        self.mesh = mesh
        self.n = n = int(np.prod(mesh))
        cell = list(itertools.product(*[range(m) for m in mesh]))
        self.R = cell
        self.k = [cell[i] for i in perm] if perm is not None else list(cell)
        r = root(ctx, Q(1, n))
        self.phase = np.empty((n, n), dtype=object if ctx.symbolic else complex)
        for a, k in enumerate(self.k):
            for b, R in enumerate(cell):
                f = sum(Q(k[d] * R[d], mesh[d]) for d in range(3))
                self.phase[a, b] = expi(ctx, f.numerator, f.denominator) * r
        self.minus = [self.k.index(tuple((-x) % m for x, m in zip(k, mesh))) for k in self.k]
        self.scaled = np.array([[k[d] / mesh[d] for d in range(3)] for k in self.k])

    def conserve(self, i, j):
        return self.k.index(tuple((a - b) % m for a, b, m in zip(self.k[i], self.k[j], self.mesh)))


def trs(ctx, name, M, shape, hermitian=False):
    """time-reversal symmetric k-dependent matrices: a(-k) = a(k)*"""
    a = [None] * M.n
    for k in range(M.n):
        m = M.minus[k]
        if a[k] is not None:
            continue
        if m == k:
            x = ctx.sym2("%s%d" % (name, k), shape[-1]) if hermitian else ctx.real("%s%d" % (name, k), shape)
            a[k] = x if ctx.symbolic else np.asarray(x, dtype=complex)
        else:
            a[k] = c25.herm(ctx, "%s%d" % (name, k), shape[-1]) if hermitian else ctx.cplx("%s%d" % (name, k), shape)
            a[m] = np.conj(a[k])
    return np.asarray(a)


def foldref(M, ak):
    """definition: A[R i, S j] = sum_k exp(ik(R-S)) a(k)_ij / n"""
    n, no = M.n, ak.shape[-1]
    out = np.zeros((n, no, n, no), dtype=object if ak.dtype == object else complex)
    for r in range(n):
        for s in range(n):
            out[r, :, s, :] = sum(M.phase[k, r] * np.conj(M.phase[k, s]) * ak[k] for k in range(n))
    return out.reshape(n * no, n * no)


def h_fold(ctx, mesh, nao, perm=None):
    M = Mesh(ctx, mesh, perm)
    ak = trs(ctx, "a", M, (nao, nao))
    ag = foldscf.k2bvk_2d(ak, M.phase)
    ctx.eq("Fourier sum", ag, foldref(M, ak))
    ctx.true("no imaginary part is returned", not np.iscomplexobj(ag) if not ctx.symbolic else True)
    ctx.eq("imaginary part", np.asarray(ag).imag if not ctx.symbolic else [x.imag if isinstance(x, Sym) else 0 for x in ag.ravel()], np.zeros(ag.shape) if not ctx.symbolic else [0] * ag.size)
    ctx.eq("unfolding is the inverse", foldscf.bvk2k_2d(ag, M.phase), ak)
    ctx.eq("trace per cell", np.trace(ag), sum(np.trace(a) for a in ak))
    hk = trs(ctx, "h", M, (nao, nao), hermitian=True)
    hg = foldscf.k2bvk_2d(hk, M.phase)
    ctx.eq("hermiticity", hg, hg.T)
    # products are preserved, the identity is the identity
    ctx.eq("products", foldscf.k2bvk_2d(np.asarray([np.dot(x, y) for x, y in zip(ak, hk)]), M.phase), np.dot(ag, hg))
    ctx.eq("identity", foldscf.k2bvk_2d(np.asarray([np.eye(nao)] * M.n) + 0 * ak, M.phase), np.eye(nao * M.n))
    # lattice periodicity
    t4 = ag.reshape(M.n, nao, M.n, nao)
    for T in M.R:
        to = [M.R.index(tuple((a + b) % m for a, b, m in zip(R, T, M.mesh))) for R in M.R]
        ctx.eq("translation invariance", t4[to][:, :, to], t4)
    # leading dimensions (spin)
    both = np.asarray([ak, hk])
    ctx.eq("spin channels", foldscf.k2bvk_2d(both, M.phase), np.asarray([ag, hg]))
    ctx.eq("spin channels back", foldscf.bvk2k_2d(np.asarray([ag, hg]), M.phase), both)


def h_unfold(ctx, mesh, nao):
    """any lattice-periodic supercell matrix unfolds and folds to itself"""
    M = Mesh(ctx, mesh)
    blocks = {R: ctx.real("b" + "".join(map(str, R)), (nao, nao)) for R in M.R}
    ag = np.zeros((M.n, nao, M.n, nao), dtype=object if ctx.symbolic else float)
    for r, R in enumerate(M.R):
        for s, T in enumerate(M.R):
            ag[r, :, s, :] = blocks[tuple((a - b) % m for a, b, m in zip(R, T, mesh))]
    ag = ag.reshape(M.n * nao, M.n * nao)
    ak = foldscf.bvk2k_2d(ag, M.phase)
    ctx.eq("folding is the inverse", foldscf.k2bvk_2d(ak, M.phase), ag)
    for k in range(M.n):
        ctx.eq("time reversal", ak[M.minus[k]], np.conj(ak[k]))


def h_imag(ctx, mesh, big):
    """input without time-reversal symmetry: refused if the imaginary part exceeds the tolerance, else returned complex on request"""
    M = Mesh(ctx, mesh)
    x = ctx.scalar("x", Q(1, 1000), 1)
    if not big:
        x = x * Q(1, 10**7)
    I = imag_unit() if ctx.symbolic else 1j
    re_ = ctx.scalar("y")
    base = ctx.choice("place", range(M.n))
    ak = np.asarray([[[re_ + (I * x if k == base else 0)]] for k in range(M.n)])
    if big:
        ctx.raises("imaginary supercell integrals are refused", lambda: foldscf.k2bvk_2d(ak, M.phase), ImaginaryPartError)
        ctx.eq("complex on request", foldscf.k2bvk_2d(ak, M.phase, make_real=False), foldref(M, ak))
    else:
        ag = foldscf.k2bvk_2d(ak, M.phase)
        ref = foldref(M, ak)
        ctx.eq("real part", ag, (ref + np.conj(ref)) / 2)


def h_mesh(ctx):
    """get_phase, kpts_to_kmesh, translation vectors and conservation tables of real cells; the mesh and the lattice are forked"""
    mesh = tuple(ctx.choice("m%d" % d, range(1, 4 if d < 2 else 3)) for d in range(3))
    lat = ctx.choice("lattice", [np.diag([3.0, 4.0, 5.0]), np.array([[3.0, 0, 0], [1.0, 4.0, 0], [0.5, -0.3, 5.0]])])
    wrap = ctx.boolean("wrap")
    cell = cell_of(lat)
    kpts = cell.make_kpts(list(mesh), wrap_around=wrap)
    ctx.true("mesh", foldscf.kpts_to_kmesh(cell, kpts) == list(mesh))
    scell, phase = foldscf.get_phase(cell, kpts)
    R = foldscf.translation_vectors_for_kmesh(cell, mesh)
    n = len(kpts)
    want = np.array([[np.exp(2j * np.pi * sum((i * r) / m for i, r, m in zip(k, t, mesh))) for t in itertools.product(*map(range, mesh))]
                     for k in itertools.product(*map(range, mesh))]) / np.sqrt(n)
    ctx.true("phases", bool(abs(phase - want).max() < 1e-12))
    ctx.true("unitary", bool(abs(phase @ phase.conj().T - np.eye(n)).max() < 1e-12))
    ctx.true("cells of the supercell in the order of the translations",
             bool(np.allclose(scell.atom_coords(), np.concatenate([cell.atom_coords() + t for t in R]), atol=1e-9)))


@functools.lru_cache(None)
def _cell(key):
    c = pyscf.pbc.gto.Cell()
    c.a = np.asarray(key).reshape(3, 3)
    c.unit = "B"
    c.atom = [["He", (0.1, 0.2, 0.3)]]
    c.basis = {"He": [[0, (1.0, 1.0)]]}
    c.mesh = [3, 3, 3]
    c.precision = 1e-3
    c.verbose = 0
    c.build(dump_input=False, parse_arg=False)
    return c


def cell_of(lat):
    return _cell(tuple(np.asarray(lat, dtype=float).ravel()))


class StubCell:
    def __init__(self, lat, nao=1, dimension=3):
        self.a, self.nao, self.dimension = np.asarray(lat, dtype=float), nao, dimension

    def lattice_vectors(self):
        return self.a

    def reciprocal(self):
        return 2 * np.pi * np.linalg.inv(self.a).T


LAT = np.array([[3.0, 0, 0], [1.0, 4.0, 0], [0.5, -0.3, 5.0]])


def h_conserve(ctx, mesh, nk):
    """k-points in any order; for the four-index table also shifted by any vector of the Brillouin zone"""
    n = int(np.prod(mesh))
    perm = ctx.choice("perm", list(itertools.permutations(range(n))) if n <= 3 else [tuple(range(n)), tuple(range(n))[::-1], tuple(np.roll(range(n), 1))])
    M = Mesh(ctx, mesh, perm)
    cell = StubCell(LAT)
    s = np.zeros(3)
    if nk == 3:
        s = ctx.real("s", (3,), 0, 1)
    rec = ctx.const(cell.reciprocal()) if ctx.symbolic else cell.reciprocal()
    kpts = np.dot(M.scaled + s[None, :], rec)
    tab = helper.get_kconserv(cell, kpts, nk=nk)
    ctx.true("shape", tab.shape == (n,) * nk)
    for idx in np.ndindex(*tab.shape):
        tot = [M.k[idx[0]][d] - M.k[idx[1]][d] + (M.k[idx[2]][d] if nk == 3 else 0) - M.k[int(tab[idx])][d] for d in range(3)]
        ctx.true("momentum is conserved", all(t % m == 0 for t, m in zip(tot, mesh)))
    if nk == 3:
        ctx.true("one index", list(helper.get_kconserv(cell, kpts, nk=1)) == list(range(n)))


# ------------------------------------------------------------------ orbitals
def mo_k(ctx, M, nao, nmo):
    """orthonormal k-dependent orbitals with time-reversal symmetry (up to a phase per orbital) and their energies"""
    cs, es = [None] * M.n, [None] * M.n
    I = imag_unit() if ctx.symbolic else 1j
    for k in range(M.n):
        if cs[k] is not None:
            continue
        m = M.minus[k]
        u = ctx.orth("u%d" % k, nao)
        if m != k:
            c, s = ctx.rot2("ph%d" % k)
            u = np.dot(np.diag([c + I * s] + [1] * (nao - 1)), u)
        cs[k], es[k] = u, ctx.real("e%d" % k, (nao,), -1, 1)
        for p in range(nao - 1):
            ctx.assume(es[k][p + 1] - es[k][p] >= Q(1, 20))
        if m != k:
            cs[m], es[m] = np.conj(u), es[k]
    return cs, es


def prepare_pairs(ctx, M, cs, es, ovlp):
    """the decomposition the code needs for pairs of complex orbitals"""
    nao = cs[0].shape[0]
    if any(M.minus[k] != k for k in range(M.n)):
        cols, en = [], []
        r2 = root(ctx, 2)
        for k in range(M.n):
            for p in range(nao):
                c = np.multiply.outer(M.phase[k], cs[k][:, p]).ravel()
                re_, im = real_imag(ctx, c)
                if M.minus[k] == k:
                    cols.append(re_)
                    en.append(None)
                elif k < M.minus[k]:
                    cols += [re_ * r2, im * r2]
                    en += [es[k][p]] * 2
        if ctx.symbolic:
            low = None
            for e in en:
                if e is not None and (low is None or ctx.fork(e < low)):
                    low = e
            vals = [0 if e is None else e + (1 - low) for e in en]
            order = sorted(range(len(vals)), key=functools.cmp_to_key(lambda i, j: -1 if (vals[i] is not vals[j] and ctx.fork(Sym.const(vals[i]) < Sym.const(vals[j]))) else (1 if (vals[i] is not vals[j] and ctx.fork(Sym.const(vals[j]) < Sym.const(vals[i]))) else i - j)))
            V = np.array([cols[i] for i in order], dtype=object).T
            E = np.array([vals[i] for i in order], dtype=object)
            F = np.zeros((M.n * nao,) * 2, dtype=object)
            for i, e in enumerate(E):
                w = np.dot(ovlp, V[:, i])
                F = F + np.multiply.outer(w, w) * e
            ctx.prepare_eigh(F, E, V, b=ovlp)


def check_mos(ctx, M, got, cs, es, occ, ovlp):
    e, c, o = got
    nao = cs[0].shape[0]
    N = M.n * nao
    ctx.true("as many orbitals", np.shape(c) == (N, N) and len(e) == N and len(o) == N)
    ctx.eq("orthonormal", np.dot(c.T, np.dot(ovlp, c)), np.eye(N))
    _, im = real_imag(ctx, np.asarray(c).ravel())
    ctx.eq("real", im, np.zeros(N * N))
    for i in range(N - 1):
        ctx.true("sorted by energy", e[i] <= e[i + 1] + (0 if ctx.symbolic else 1e-9))
    fk = np.asarray([np.dot(cs[k] * es[k], np.conj(cs[k]).T) for k in range(M.n)])
    dk = np.asarray([np.dot(cs[k] * occ[k], np.conj(cs[k]).T) for k in range(M.n)])
    ctx.eq("Fock matrix of the folded orbitals", np.dot(c * e, c.T), foldref(M, fk))
    ctx.eq("density matrix of the folded orbitals", np.dot(c * o, c.T), foldref(M, dk))


def metric(ctx, nao):
    """fixed non-orthogonal basis: returns X with orbitals X u for unitary u, and the overlap (X X^T)^-1"""
    X = [[Q(1, 2)]] if nao == 1 else [[Q(1), Q(1, 2)], [Q(0), Q(2)]]
    Y = [[Q(2)]] if nao == 1 else [[Q(1), Q(-1, 4)], [Q(0), Q(1, 2)]]
    X, Y = (np.array(a, dtype=object) if ctx.symbolic else np.array(a, dtype=float) for a in (X, Y))
    return X, np.dot(Y.T, Y)


def h_mos(ctx, mesh, nao, uhf=False):
    """Orbitals of the folded mean field: real, orthonormal, sorted, spanning the same Fock and density matrices."""
    M = Mesh(ctx, mesh)
    cs, es = mo_k(ctx, M, nao, nao)
    X, S0 = metric(ctx, nao)
    cs = [np.dot(X, c) for c in cs]
    fermi = ctx.scalar("fermi", -1, 1)
    occ = []
    for k in range(M.n):
        o = np.zeros(nao)
        for p in range(nao):
            ctx.assume(S_abs(es[k][p] - fermi) >= Q(1, 50)) if ctx.symbolic else None
            o[p] = 2 if ctx.fork(es[k][p] < fermi) else 0
        occ.append(o)
    # different k-pairs: energies are separated, so that the order of the orbitals is determined
    reps = [k for k in range(M.n) if k <= M.minus[k]]
    for a, b in itertools.combinations(reps, 2):
        for p, q in itertools.product(range(nao), repeat=2):
            ctx.assume(S_abs(es[a][p] - es[b][q]) >= Q(1, 50)) if ctx.symbolic else None
    ovlp = np.kron(np.eye(M.n, dtype=int).astype(object), S0) if ctx.symbolic else np.kron(np.eye(M.n), S0)
    prepare_pairs(ctx, M, cs, es, ovlp)
    check_mos(ctx, M, foldscf.fold_mos(es, cs, occ, M.phase, ovlp), cs, es, occ, ovlp)


def real_imag(ctx, v):
    if not ctx.symbolic:
        v = np.asarray(v)
        return v.real, v.imag
    sp = [Sym.const(x).split() for x in v]
    return np.array([x[0] for x in sp], dtype=object), np.array([x[1] for x in sp], dtype=object)


def S_abs(x):
    return abs(x)


class FakeKMF:
    """k-point mean field whose effective potential is a linear map of the density matrix"""

    def __init__(self, ctx, M, nao, uhf):
        self.ctx, self.M, self.cell, self.mol = ctx, M, types.SimpleNamespace(name="kcell"), None
        self.mol = self.cell
        self.kpts = M.scaled
        self.S = np.asarray([np.eye(nao)] * M.n) + 0 * M.phase[0, 0]
        self.hk = trs(ctx, "h", M, (nao, nao), True)
        self.W = trs(ctx, "w", M, (nao, nao), True)
        self.e_tot = ctx.scalar("etot")
        self.converged, self.exxdiv, self.verbose, self.max_memory, self.conv_tol = True, "ewald", 3, 17, 1e-9
        self.conv_tol_grad, self.stdout = 1e-5, None
        self.dm0 = trs(ctx, "d", M, (nao, nao), True)
        if uhf:
            self.dm0 = np.asarray([self.dm0, trs(ctx, "db", M, (nao, nao), True)])
        self.seen = []

    def get_ovlp(self, *a, **k):
        return self.S

    def get_hcore(self, *a, **k):
        return self.hk

    def get_veff(self, mol=None, dm=None, *a, **k):
        self.seen.append((mol, dm, a, k))
        d = self.dm0 if dm is None else dm
        tot = d if d.ndim == 3 else d[0] + d[1]
        v = np.asarray([np.dot(w, np.dot(x, w)) for w, x in zip(self.W, tot)])
        return v if d.ndim == 3 else np.asarray([v + d[0], v + 2 * d[1]])


def h_scf(ctx, mesh, nao, uhf):
    M = Mesh(ctx, mesh)
    kmf = FakeKMF(ctx, M, nao, uhf)
    # fixed orbitals are enough here: arbitrary ones are examined by the 'mos' harnesses
    bands = []
    num = (lambda a: np.array(a, dtype=object)) if ctx.symbolic else (lambda a: np.array(a, dtype=float))
    for spin in range(1 + uhf):
        eb = [num([Q(min(k, M.minus[k]) + 1 + 5 * spin, 10) + p for p in range(nao)]) for k in range(M.n)]
        ck = [num(np.eye(nao, dtype=int)[:, ::-1 if spin else 1]) + 0 * M.phase[0, 0] for k in range(M.n)]
        ok = [np.array([0.0 if spin else 2.0 - uhf] + [0.0] * (nao - 1)) for k in range(M.n)]
        bands.append((eb, ck, ok))
        prepare_pairs(ctx, M, ck, eb, np.eye(M.n * nao))
    kmf.mo_energy, kmf.mo_coeff, kmf.mo_occ = zip(*bands) if uhf else bands[0]
    scell = types.SimpleNamespace(name="supercell", verbose=0, stdout=None, max_memory=1, build=None, nelectron=2)
    old = foldscf.get_phase, foldscf.kpts_to_kmesh, foldscf.pyscf
    foldscf.get_phase, foldscf.kpts_to_kmesh = lambda c, k: (scell, M.phase), lambda c, k: list(mesh)
    fft = pyscf.pbc.df.FFTDF
    pyscf.pbc.df.FFTDF = lambda cell: types.SimpleNamespace(cell=cell)
    before = dict(kmf.__dict__)
    try:
        mf = (foldscf.FoldedUHF if uhf else foldscf.FoldedRHF)(kmf)
    finally:
        foldscf.get_phase, foldscf.kpts_to_kmesh = old[:2]
        pyscf.pbc.df.FFTDF = fft
    ctx.true("the supercell is the molecule", mf.mol is scell and mf.cell is scell and mf.kcell is kmf.mol)
    ctx.true("mesh and number of cells", mf.subcellmesh == list(mesh) and mf.ncells == M.n)
    ctx.eq("energy of the supercell", mf.e_tot, M.n * kmf.e_tot)
    for spin, (eb, ck, ok) in enumerate(bands):
        check_mos(ctx, M, (mf.mo_energy[spin], mf.mo_coeff[spin], mf.mo_occ[spin]) if uhf else (mf.mo_energy, mf.mo_coeff, mf.mo_occ), ck, eb, ok,
                  np.eye(M.n * nao))
    ctx.eq("overlap", mf.get_ovlp(), foldref(M, kmf.S))
    ctx.eq("core Hamiltonian", mf.get_hcore(), foldref(M, kmf.hk))
    fold = (lambda a: foldref(M, a)) if not uhf else (lambda a: np.asarray([foldref(M, x) for x in a]))
    dk = trs(ctx, "x", M, (nao, nao), True)
    if uhf:
        dk = np.asarray([dk, trs(ctx, "y", M, (nao, nao), True)])
    ref = kmf.get_veff(None, dk)
    ref0 = kmf.get_veff(None, None)
    kmf.seen.clear()
    ctx.eq("potential of a given density matrix", mf.get_veff(dm=fold(dk)), fold(ref))
    ctx.true("the primitive cell is passed on", all(s[0] is kmf.mol for s in mf.kmf.seen))
    ctx.eq("potential of the stored density matrix", mf.get_veff(scell), fold(ref0))
    for name in ("converged", "exxdiv", "verbose", "max_memory", "conv_tol", "conv_tol_grad"):
        ctx.true("attribute %s" % name, getattr(mf, name) == getattr(kmf, name))
    mf.conv_tol, mf.exxdiv, mf.converged = 1e-3, None, False
    ctx.true("attributes are set on the copy", mf.conv_tol == 1e-3 and mf.exxdiv is None and mf.converged is False
             and mf.kmf.conv_tol == 1e-3 and mf.kmf.exxdiv is None)
    mf.e_tot = M.n * ctx.scalar("enew")
    ctx.eq("setting the energy", mf.kmf.e_tot, ctx.scalar("enew"))
    ctx.eq("setting the energy", mf.e_tot, M.n * ctx.scalar("enew"))
    ctx.true("the original mean field is unchanged", all(kmf.__dict__[k] is v for k, v in before.items()))
    ctx.raises("unknown attributes are refused", lambda: mf.no_such_attribute, AttributeError)


# ------------------------------------------------------------------ three-center integrals
class StubGDF:
    def __init__(self, ctx, M, nao, naux, dimension=3, kpts=None, neg=None, lab=None):
        self.cell = StubCell(LAT, nao, dimension)
        self.auxcell = types.SimpleNamespace(nao_nr=lambda: naux)
        self.kpts = np.dot(M.scaled, self.cell.reciprocal())
        self.ctx, self.M, self.lab, self.neg, self.nao = ctx, M, lab, neg, nao
        self.calls = []

    def index(self, k):
        return int(np.argmin([abs(k - x).max() for x in self.kpts]))

    def sr_loop(self, kpts_ij, compact=True, blksize=None, max_memory=None):
        i, j = self.index(kpts_ij[0]), self.index(kpts_ij[1])
        self.calls.append((i, j))
        assert compact is False
        L = self.lab[i, j]
        for l0 in range(0, len(L), int(blksize)):
            b = L[l0:l0 + int(blksize)].reshape(-1, self.nao**2)
            yield self.parts(b) + (1,)
        if self.neg is not None and i == j:
            yield self.parts(self.neg[i].reshape(-1, self.nao**2)) + (-1,)

    def parts(self, b):
        re_, im = real_imag(self.ctx, b.ravel())
        return re_.reshape(b.shape), im.reshape(b.shape)


def three_center(ctx, M, nao, naux):
    """(L|ki a,kj b) with the hermiticity and time-reversal symmetry of density-fitted integrals"""
    lab = np.empty((M.n, M.n, naux, nao, nao), dtype=object if ctx.symbolic else complex)
    done = set()
    for i, j in itertools.product(range(M.n), repeat=2):
        if (i, j) in done:
            continue
        mi, mj = M.minus[i], M.minus[j]
        images = [((i, j), lambda x: x), ((j, i), lambda x: np.conj(x.transpose(0, 2, 1))), ((mi, mj), np.conj), ((mj, mi), lambda x: x.transpose(0, 2, 1))]
        x = ctx.cplx("c%d%d" % (i, j), (naux, nao, nao))
        stab = [f for p, f in images if p == (i, j)]
        x = sum(f(x) for f in stab) / len(stab)
        for p, f in images:
            lab[p] = f(x)
            done.add(p)
    return lab


def call_machine(ctx):
    """Stand-in for libcore.ao2mo_cderi: executes the kernel's LLVM IR on the memory the Python driver passes."""
    def f(nao, n1, n2, naux, p1, p2, p3, pout):
        nao, n1, n2, naux = (int(x.value) for x in (nao, n1, n2, naux))

        def grab(p, n):
            return (ctypes.py_object * n).from_address(p.value)
        arrs = [list(grab(p, n)) for p, n in ((p1, nao * n1), (p2, nao * n2), (p3, naux * nao * nao), (pout, naux * n1 * n2))]
        mach = llvm.Machine(c25.module(), threads=1)
        bufs = [mach.cbuf(a, "argument %d" % k) for k, a in enumerate(arrs)]
        ierr = mach.call("ao2mo_cderi", nao, n1, n2, naux, *bufs)
        harness._TRACE.update("libs/core/src: %s (LLVM IR)" % x for x in mach.called)
        out = mach.cread(bufs[3], (naux * n1 * n2,), True)
        tgt = grab(pout, len(out))
        for k, v in enumerate(out):
            ctypes.pythonapi.Py_IncRef(ctypes.py_object(v))
            tgt[k] = v
        return ierr
    return types.SimpleNamespace(ao2mo_cderi=f)


class ExactRoots:
    """numpy of the module under test, with exact square roots of integers (the number of k-points)"""

    def __init__(self, np_):
        self._np = np_

    def __getattr__(self, name):
        return getattr(self._np, name)

    def sqrt(self, x, *args, **kw):
        if isinstance(x, (int, np.integer)):
            return Sym.const(int(x)).sqrt()
        return self._np.sqrt(x, *args, **kw)


@contextlib.contextmanager
def kao2gmo_env(ctx, M):
    old = pyscf.pbc.tools.k2gamma.get_phase, kmod.libcore, kmod.np
    pyscf.pbc.tools.k2gamma.get_phase = lambda cell, kpts: (None, M.phase.T)
    if ctx.symbolic:
        kmod.libcore, kmod.np = call_machine(ctx), ExactRoots(kmod.np)
    try:
        yield
    finally:
        pyscf.pbc.tools.k2gamma.get_phase, kmod.libcore, kmod.np = old


def run_kao2gmo(ctx, gdf, M, mo, **kw):
    with kao2gmo_env(ctx, M):
        return kmod.kao2gmo_cderi(gdf, mo, **kw)


def h_kao2gmo(ctx, mesh, nao, naux, nmo, driver, blksize, perm=None, dim=3, single=False):
    M = Mesh(ctx, mesh, perm)
    lab = three_center(ctx, M, nao, naux if dim == 3 else naux - 1)
    neg = None
    if dim < 3:
        neg = np.asarray([c25.herm(ctx, "n%d" % min(k, M.minus[k]), nao) if M.minus[k] != k else ctx.sym2("n%d" % k, nao) + 0 * M.phase[0, 0] for k in range(M.n)])
        neg = np.asarray([np.conj(neg[k]) if k > M.minus[k] else neg[k] for k in range(M.n)])
    gdf = StubGDF(ctx, M, nao, naux, dimension=dim, lab=lab, neg=neg)
    c1 = ctx.real("x", (M.n * nao, nmo[0]))
    c2 = c1 if single else ctx.real("y", (M.n * nao, nmo[1]))
    n1, n2 = c1.shape[1], c2.shape[1]
    tril = ctx.boolean("tril")
    got, gneg = run_kao2gmo(ctx, gdf, M, c1 if single else (c1, c2), driver=driver, blksize=blksize, tril_kij=tril)
    # definition, cell by cell: (R,L| R1 a, R2 b) = sum_ki,kj exp(i(kk.R + ki.R1 - kj.R2)) ...
    k1 = np.asarray([sum(np.conj(M.phase[k, r]) * c1.reshape(M.n, nao, n1)[r] for r in range(M.n)) for k in range(M.n)])
    k2 = np.asarray([sum(np.conj(M.phase[k, r]) * c2.reshape(M.n, nao, n2)[r] for r in range(M.n)) for k in range(M.n)])
    z = np.zeros((M.n, naux, n1, n2), dtype=object if ctx.symbolic else complex)
    rn = root(ctx, Q(1, M.n))
    for i, j in itertools.product(range(M.n), repeat=2):
        kk = M.conserve(i, j)
        z[kk, :lab.shape[2]] = z[kk, :lab.shape[2]] + np.einsum("lab,ai,bj->lij", lab[i, j], np.conj(k1[i]), k2[j]) * rn
    # real integrals: any unitary mixing of k keeps the electron-repulsion integrals
    eri = np.einsum("klij,klpq->ijpq", np.conj(z), z)
    _, im = real_imag(ctx, np.asarray(got).ravel())
    ctx.eq("real", im, np.zeros(np.size(got)))
    ctx.true("shape", np.shape(got) == (M.n * naux, n1, n2))
    ref = np.asarray([sum(M.phase[k, r] * z[k] for k in range(M.n)) for r in range(M.n)]).reshape(M.n * naux, n1, n2)
    ctx.eq("three-center integrals", got, ref)
    if n1 * n2 <= 2:
        ctx.eq("electron-repulsion integrals", np.einsum("lij,lpq->ijpq", got, got), eri)
    gk, _ = run_kao2gmo(ctx, gdf, M, c1 if single else (c1, c2), driver=driver, blksize=blksize, tril_kij=tril, make_real=False)
    ctx.eq("without Fourier transformation", gk, z.reshape(M.n * naux, n1, n2))
    if dim == 3:
        ctx.true("no negative part in three dimensions", gneg is None)
    else:
        rneg = sum(np.einsum("ab,ai,bj->ij", neg[i], np.conj(k1[i]), k2[i]) for i in range(M.n))[None] * rn
        ctx.eq("negative part", gneg, rneg)


def h_empty(ctx):
    M = Mesh(ctx, (2, 1, 1))
    gdf = StubGDF(ctx, M, 1, 2, lab=three_center(ctx, M, 1, 2))
    for sh in ((0, 1), (1, 0), (0, 0)):
        got, neg = run_kao2gmo(ctx, gdf, M, (ctx.real("x", (2, sh[0])), ctx.real("y", (2, sh[1]))))
        ctx.true("empty orbital set", np.shape(got) == (4,) + sh and neg is None)


def h_eris(ctx, mesh, nao, naux, dim):
    """get_eris_array of an embedding with k-point density fitting: sum over all three-center integrals, minus the negative part"""
    M = Mesh(ctx, mesh)
    lab = three_center(ctx, M, nao, naux if dim == 3 else naux - 1)
    neg = None
    if dim < 3:
        neg = np.asarray([ctx.sym2("n%d" % k, nao) + 0 * M.phase[0, 0] for k in range(M.n)])
    gdf = StubGDF(ctx, M, nao, naux, dimension=dim, lab=lab, neg=neg)
    emb = types.SimpleNamespace(kdf=gdf)
    kind = ctx.choice("orbitals", ["one", "pair", "four"])
    cs = [ctx.real("c%s" % x, (M.n * nao, 1)) for x in "abcd"]
    mo = {"one": [cs[0]] * 4, "pair": [cs[0], cs[1], cs[0], cs[1]], "four": cs}[kind]
    with kao2gmo_env(ctx, M):
        got = erismod.get_eris_array(emb, cs[0] if kind == "one" else mo)
        cd, cn = erismod.get_cderi(emb, tuple(mo[:2]))
    a, an = run_kao2gmo(ctx, gdf, M, (mo[0], mo[1]), driver="python")
    b, bn = run_kao2gmo(ctx, gdf, M, (mo[2], mo[3]), driver="python")
    ctx.eq("three-center integrals", cd, a)
    ref = np.einsum("lij,lpq->ijpq", a, b)
    if dim < 3:
        ref = ref - np.einsum("lij,lpq->ijpq", an, bn)
        ctx.eq("negative part", cn, an)
    ctx.eq("integrals", got, ref)


def h_power(ctx, mesh):
    """powers of the supercell overlap from the k-point overlaps"""
    M = Mesh(ctx, mesh)
    p = ctx.choice("power", [-1, 2, 1, 3])
    nao = 2
    # spectra and eigenvectors of S(k) given, so that matrix powers are explicit
    I = imag_unit() if ctx.symbolic else 1j
    ek, vk, sk = [None] * M.n, [None] * M.n, [None] * M.n
    for k in range(M.n):
        m = M.minus[k]
        if sk[k] is not None:
            continue
        v, e = ctx.orth("v%d" % k, nao), np.array([ctx.scalar("e%d_%d" % (k, i), Q(1, 2) + i, 1 + i) for i in range(nao)])
        if m != k:
            c, s = ctx.rot2("ph%d" % k)
            v = np.dot(np.diag([c + I * s] + [1] * (nao - 1)), v)
        for x, w in ((k, v), (m, np.conj(v))):
            ek[x], vk[x], sk[x] = e, w, np.dot(w * e, np.conj(w).T)
    sk = np.asarray(sk)
    for k in range(M.n):
        ctx.prepare_eigh(sk[k], ek[k], vk[k])
    seen = []

    def intor(name, **kw):
        seen.append((name, kw.get("hermi"), kw["kpts"]))
        return sk

    def supercell(cell, kpts, a, **kw):
        r = foldref(M, np.asarray(a))
        return real_imag(ctx, r.ravel())[0].reshape(r.shape)
    emb = object.__new__(Embedding)
    emb.kcell = StubCell(LAT, nao)
    emb.kcell.pbc_intor = intor
    kpts = M.scaled
    emb.__dict__["get_ovlp"] = lambda: foldref(M, sk)
    cls = type("E", (Embedding,), {"kpts": kpts})
    emb.__class__ = cls
    old = pyscf.pbc.tools.k2gamma.to_supercell_ao_integrals
    pyscf.pbc.tools.k2gamma.to_supercell_ao_integrals = supercell
    try:
        got = emb.get_ovlp_power(p)
    finally:
        pyscf.pbc.tools.k2gamma.to_supercell_ao_integrals = old
    S1 = foldref(M, sk)
    one = np.eye(M.n * nao)
    ctx.eq("power of the supercell overlap", np.dot(got, S1) if p == -1 else got, {-1: one, 1: S1, 2: np.dot(S1, S1), 3: np.dot(S1, np.dot(S1, S1))}[p])
    ctx.true("overlap at the k-points", all(x[0] == "int1e_ovlp" and x[2] is kpts for x in seen))


HARNESSES = []
T = ("thorough",)


def add(name, fn, tiers=("quick", "thorough"), maxpaths=4000, **p):
    HARNESSES.append(Harness(name, fn, p, ", ".join("%s=%s" % i for i in p.items()), tiers=tiers, maxpaths=maxpaths))


add("fold_1", h_fold, mesh=(1, 1, 1), nao=2)
add("fold_2", h_fold, mesh=(2, 1, 1), nao=2)
add("fold_3", h_fold, mesh=(1, 3, 1), nao=2)
add("fold_3_permuted", h_fold, mesh=(3, 1, 1), nao=1, perm=(2, 0, 1))
add("fold_22", h_fold, mesh=(2, 1, 2), nao=1)
add("fold_4", h_fold, mesh=(1, 1, 4), nao=1)
add("fold_23", h_fold, T, mesh=(2, 3, 1), nao=1)
add("fold_222", h_fold, T, mesh=(2, 2, 2), nao=1)
add("fold_4_nao2", h_fold, T, mesh=(4, 1, 1), nao=2)
add("unfold_2", h_unfold, mesh=(2, 1, 1), nao=2)
add("unfold_3", h_unfold, mesh=(3, 1, 1), nao=2)
add("unfold_22", h_unfold, mesh=(2, 2, 1), nao=1)
add("unfold_23", h_unfold, T, mesh=(2, 3, 1), nao=1)
for big in (0, 1):
    add("imaginary_%d" % big, h_imag, mesh=(3, 1, 1), big=big)
add("mesh", h_mesh)
for nk in (2, 3):
    add("conserve_%d_3" % nk, h_conserve, mesh=(1, 3, 1), nk=nk)
    add("conserve_%d_22" % nk, h_conserve, mesh=(2, 1, 2), nk=nk)
    add("conserve_%d_23" % nk, h_conserve, T, mesh=(2, 3, 1), nk=nk)
add("mos_2", h_mos, mesh=(2, 1, 1), nao=2)
add("mos_3", h_mos, mesh=(3, 1, 1), nao=1)
add("mos_22", h_mos, mesh=(2, 2, 1), nao=1)
add("mos_3_nao2", h_mos, mesh=(3, 1, 1), nao=2)
add("mos_4", h_mos, T, mesh=(4, 1, 1), nao=1)
for u in (False, True):
    add("scf_%s_2" % ("u" if u else "r"), h_scf, mesh=(2, 1, 1), nao=2, uhf=u)
    add("scf_%s_3" % ("u" if u else "r"), h_scf, mesh=(3, 1, 1), nao=2, uhf=u)
for drv in ("python", "c"):
    add("kao2gmo_2_%s" % drv, h_kao2gmo, mesh=(2, 1, 1), nao=2, naux=2, nmo=(1, 2), driver=drv, blksize=1)
    add("kao2gmo_3_%s" % drv, h_kao2gmo, mesh=(3, 1, 1), nao=1, naux=3, nmo=(2, 1), driver=drv, blksize=2)
    add("kao2gmo_2d_%s" % drv, h_kao2gmo, mesh=(2, 1, 1), nao=2, naux=2, nmo=(1, 1), driver=drv, blksize=5, dim=2)
add("kao2gmo_perm", h_kao2gmo, mesh=(3, 1, 1), nao=1, naux=1, nmo=(1, 1), driver="python", blksize=2, perm=(2, 0, 1))
add("kao2gmo_22", h_kao2gmo, mesh=(2, 2, 1), nao=1, naux=1, nmo=(1, 2), driver=None, blksize=None)
add("kao2gmo_single", h_kao2gmo, mesh=(2, 1, 1), nao=1, naux=1, nmo=(2, 2), driver=None, blksize=1, single=True)
add("kao2gmo_3_nao2", h_kao2gmo, T, mesh=(3, 1, 1), nao=2, naux=2, nmo=(1, 1), driver="c", blksize=1)
add("kao2gmo_4", h_kao2gmo, T, mesh=(4, 1, 1), nao=1, naux=2, nmo=(1, 1), driver="c", blksize=1)
add("kao2gmo_empty", h_empty)
add("eris", h_eris, mesh=(2, 1, 1), nao=1, naux=2, dim=3)
add("eris_2d", h_eris, mesh=(2, 1, 1), nao=1, naux=2, dim=2)
add("overlap_power_2", h_power, mesh=(2, 1, 1))
add("overlap_power_3", h_power, mesh=(3, 1, 1))
