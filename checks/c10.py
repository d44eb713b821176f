"""C10: fragment and environment orbitals partition the orbital space. The real fragmentation classes and the real
completeness tests of the embedding run on arbitrary orthonormal local orbitals (arbitrary rotation angles, arbitrary
metric), arbitrary selections of atoms and orbitals, and arbitrary occupations."""
import itertools
import types
from vsym.harness import Harness
from vsym.sym import Sym
from checks.ewfsim import *
from checks.c13 import NullLog
from checks.c18 import sp
from checks.c22 import rmetric
import pyscf
import vayesta.core.fragmentation as fgm
import vayesta.core.fragmentation.fragmentation as fmod
import vayesta.core.fragmentation.iao as iaomod
import vayesta.core.fragmentation.iaopao as paomod
import vayesta.core.fragmentation.sao as saomod
import vayesta.core.fragmentation.cas as casmod

META = dict(assumptions=["reference intrinsic orbitals, orbital labels and the list of Rydberg functions come from PySCF and are given values here",
                         "eigen-decompositions answered from prepared ones"])


def emb(ctx, S, C, no, uhf, **kw):
    b = base(ctx, S, C, no, uhf=uhf)
    b.symmetry = types.SimpleNamespace(translation=None)
    n = S.shape[0]
    b.mf.get_ovlp = lambda *a: S
    b.mf.mol = b.mol_ = types.SimpleNamespace(nao_nr=lambda: n, nao=n, natm=n, verbose=0, stdout=None, max_memory=4000)
    ne = (no[0], no[1]) if uhf else 2 * no
    b.mf.mol.atom_symbol = lambda i: "H"
    b.mf.make_rdm1 = lambda *a, **k: np.stack([np.dot(c[:, :o], c[:, :o].T) for c, o in zip(C, no)]) if uhf else 2 * np.dot(C[:, :no], C[:, :no].T)
    b.mf.mol.nelec = ne if uhf else (no, no)
    b.mf.mol.nelectron = sum(ne) if uhf else ne
    b.kcell = None
    return b


LABELS = [(0, "H", "1s", ""), (0, "H", "2s", ""), (1, "He", "1s", ""), (2, "H", "1s", ""), (2, "H", "2p", "x")]


class Given(fmod.Fragmentation):
    name = "given"

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.log = NullLog()

    def kernel(self):
        self.coeff, self.labels = self.given

    def search_labels(self, labels):
        lab = [labels] if isinstance(labels, str) else labels
        return [i for i, l in enumerate(self.labels) if any(" ".join(x.split()) in ("%d %s %s%s" % tuple(l), "%d %s %s" % tuple(l[:3]), l[2]) for x in lab)]


class GivenU(fgm.SAO_Fragmentation_UHF.__mro__[1], Given):
    pass


def h_select(ctx, uhf, kind):
    """any selection of atoms or orbitals: fragment = selected orbitals, environment = all others"""
    n = 5
    S, _ = rmetric(ctx, n)
    x = lowinvT(S) if ctx.symbolic else np.linalg.inv(np.linalg.cholesky(S)).T
    def loc(s):
        U = np.array(rotc(ctx, n, s))
        U[:, :2] = np.dot(U[:, :2], ctx.orth("u%d" % s, 2))
        return np.dot(x, U)
    C = (loc(0), loc(1)) if uhf else loc(0)
    b = emb(ctx, S, C, (2, 1) if uhf else 2, uhf)
    lab = LABELS
    b.mf.mol.natm = 3
    b.mf.mol.atom_symbol = lambda i: ["H", "He", "H"][i]
    cls = GivenU if uhf else Given
    cls.given = (C, lab)
    atom_of = [l[0] for l in lab]
    if kind == "atoms":
        sel = ctx.choice("atoms", [0, 1, [2], [0, 1], [1, 2], [0, 1, 2], "H", "He", ["H", "He"], np.int64(1)])
        flt = ctx.choice("filter", [None, "1s", ["2s", "2p"]])
        ats = {"H": [0, 2], "He": [1]}
        al = [sel] if np.ndim(sel) == 0 else list(sel)
        al = sorted(set(sum((ats[a] if isinstance(a, str) else [int(a)] for a in al), [])))
        want = [i for i in range(n) if atom_of[i] in al and (flt is None or lab[i][2] in ([flt] if isinstance(flt, str) else flt))]
        call = lambda fr: fr.add_atomic_fragment(sel, orbital_filter=flt)
    elif kind == "shells":
        sel, sh = ctx.choice("atoms", [0, [0], [2, 0], "H"]), ctx.choice("shells", [["1s"], ["1s", "2s"]])
        al = [0, 2] if sel == "H" else ([sel] if np.ndim(sel) == 0 else sel)
        sh = sh if al == [0] else ["1s"]
        want = sorted(i for i in range(n) if atom_of[i] in al and lab[i][2] in sh)
        call = lambda fr: fr.add_atomshell_fragment(sel, sh)
    else:
        sel = ctx.choice("orbitals", [0, [4], [0, 3], [1, 2, 4], [3, 0], list(range(5)), "2 H 2px", ["0 H 1s", "2 H 1s"], np.int64(2)])
        f = lambda l: [i for i in range(n) if "%d %s %s%s" % lab[i] == l]
        al = [sel] if np.ndim(sel) == 0 else list(sel)
        want = sum(([int(a)] if not isinstance(a, str) else f(a) for a in al), [])
        call = lambda fr: fr.add_orbital_fragment(sel)
    if not want:
        ctx.raises("empty fragment", lambda: call(enter(cls, b)), ValueError)
        return
    with cls(b) as fr:
        f = call(fr)
    ctx.true("registered once", len(b.fragments) == 1 and b.fragments[0] is f)
    rest = [i for i in range(n) if i not in want]
    for s in range(2 if uhf else 1):
        c = sp(C)[s]
        cf, ce = sp(f.c_frag)[s], sp(f.c_env)[s]
        ctx.eq("fragment orbitals", cf, c[:, want])
        ctx.eq("environment orbitals", ce, c[:, rest])
        a = np.hstack((cf, ce))
        ctx.eq("partition", np.dot(np.dot(a.T, S), a), np.eye(n, dtype=int))
        ctx.true("own storage", not np.shares_memory(cf, c) and not np.shares_memory(ce, c))
    if kind != "orbitals":
        ctx.true("atoms", sorted(int(a) for a in f.atoms) == sorted(al))


def enter(cls, b):
    fr = cls(b)
    fr.__enter__()
    return fr


def h_all(ctx, uhf, kcell):
    """one fragment per atom: disjoint, complete, reported as complete"""
    n = 5
    S, _ = rmetric(ctx, n)
    x = lowinvT(S) if ctx.symbolic else np.linalg.inv(np.linalg.cholesky(S)).T
    C = tuple(np.dot(x, rotc(ctx, n, s)) for s in range(2))
    M = tuple(np.dot(c, rotc(ctx, n, 2)) for c in C)
    if not uhf:
        C, M = C[0], M[0]
    b = emb(ctx, S, M, (2, 1) if uhf else 2, uhf)
    b.mf.make_rdm1 = lambda *a, **k: np.stack([np.dot(m[:, :o], m[:, :o].T) for m, o in zip(M, (2, 1))]) if uhf else 2 * np.dot(M[:, :2], M[:, :2].T)
    b.mf.mol.natm = 3
    b.mf.mol.atom_symbol = lambda i: ["H", "He", "H"][i]
    cls = GivenU if uhf else Given
    cls.given = (C, LABELS)
    full = ctx.boolean("single fragment")
    upto = 3
    if kcell:
        upto = ctx.int("atoms in the unit cell", 1, 3)
        b.kcell = types.SimpleNamespace(natm=upto)
    with cls(b) as fr:
        fs = [fr.add_full_system()] if full else fr.add_all_atomic_fragments()
    if full:
        upto = 3
    ctx.true("fragments", b.fragments == fs and len(fs) == (1 if full else upto))
    tot = 0
    for s in range(2 if uhf else 1):
        a = np.hstack([sp(f.c_frag)[s] for f in fs])
        k = a.shape[1]
        ctx.eq("disjoint", np.dot(np.dot(a.T, S), a), np.eye(k, dtype=int))
        ctx.true("all orbitals of these atoms", k == sum(1 for l in LABELS if l[0] < upto))
    ctx.true("names", len(set(f.id for f in fs)) == len(fs))
    ctx.true("orthonormal", b.has_orthonormal_fragmentation() is True)
    ctx.true("complete", b.has_complete_fragmentation() is (upto == 3))


def h_complete(ctx, uhf, sizes):
    """reported completeness: true exactly if the fragments are orthonormal and exhaust the occupied / virtual space.
    Local orbitals: pairs mixing one occupied and one virtual orbital by any angle plus unmixed ones."""
    nmix, o1, v1 = sizes
    n = 2 * nmix + o1 + v1
    no = nmix + o1
    S, _ = rmetric(ctx, n)
    x = lowinvT(S) if ctx.symbolic else np.linalg.inv(np.linalg.cholesky(S)).T
    M = np.dot(x, rotc(ctx, n, 1))
    nb = 1 if uhf else no
    loc, cover = [], []
    for i in range(nmix):
        c, s = ctx.rot2("a%d" % i)
        t = num(ctx, Fraction(1, 10))
        ctx.assume(s * s >= t)
        ctx.assume(s * s <= 1 - t)
        o, v = M[:, i], M[:, no + i]
        loc += [c * o + s * v, -s * o + c * v]
        cover += [("m", i), ("m", i)]
    loc += [M[:, nmix + i] for i in range(o1)] + [M[:, no + nmix + i] for i in range(v1)]
    cover += [("o", i) for i in range(o1)] + [("v", i) for i in range(v1)]
    mo = (M, np.dot(x, rotc(ctx, n, 2))) if uhf else M
    b = emb(ctx, S, mo, (no, nb) if uhf else no, uhf)
    b.mf.make_rdm1 = lambda *a, **k: np.stack([np.dot(m[:, :o], m[:, :o].T) for m, o in zip(mo, (no, nb))]) if uhf else 2 * np.dot(M[:, :no], M[:, :no].T)
    pick = [ctx.int("frag%d" % k, 0, 2) for k in range(n)]     # 0: in no fragment, 1, 2: fragment
    twice = ctx.boolean("one orbital twice") if pick[0] else False
    sec = ctx.boolean("secondary and auxiliary fragments") if not twice else False
    cols = lambda k: np.stack([loc[i] for i in range(n) if pick[i] == k], axis=1) if k in pick else None
    for k in (1, 2):
        c = cols(k)
        if c is not None:
            frag(b, (c, mo[1]) if uhf and k == 1 else ((c, mo[1][:, :0]) if uhf else c))
    if uhf and 1 not in pick:
        frag(b, (np.zeros((n, 0)), mo[1]))
    if twice:
        frag(b, (loc[0][:, None], mo[1][:, :0]) if uhf else loc[0][:, None])
    if sec:
        frag(b, (M, mo[1]) if uhf else M, flags=dict(is_secfrag=True))
        frag(b, (M, mo[1]) if uhf else M, auxiliary=True)
    got = [g() for g in (b.has_orthonormal_fragmentation, b.has_complete_fragmentation, b.has_complete_occupied_fragmentation, b.has_complete_virtual_fragmentation)]
    if not any(pick) and not uhf and not twice:
        ctx.true("nothing covered", got == [False] * 4)
        return
    orth = not twice
    inn = [bool(p) for p in pick]
    allo = all(i for i, c in zip(inn, cover) if c[0] in "mo")
    allv = all(i for i, c in zip(inn, cover) if c[0] in "mv")
    # a pair counts for the occupied space only with both members
    ctx.true("orthonormal", bool(got[0]) == orth)
    ctx.true("complete", bool(got[1]) == (orth and all(inn)))
    ctx.true("occupied complete", bool(got[2]) == (orth and allo))
    ctx.true("virtual complete", bool(got[3]) == (orth and allv))


def num(ctx, x):
    return x if ctx.symbolic else float(x)


def h_lowdin(ctx, n, nao, uhf=False, sao=False):
    """symmetric orthogonalisation: orthonormal orbitals spanning the given space"""
    e = ctx.real("e", (n,))
    for i in range(n):
        ctx.assume(e[i] >= num(ctx, Fraction(1, 10)))
        if i:
            ctx.assume(e[i - 1] <= e[i])
    V = ctx.orth("V", n) if n == 2 else rotc(ctx, n, 1) if n > 2 else np.ones((1, 1), dtype=int)
    m = np.dot(V * (e * e)[None, :], V.T)
    ctx.prepare_eigh(m, e * e, V)
    if sao:
        ctx.assume(e[0] * e[0] <= num(ctx, Fraction(99, 100)))     # an overlap matrix within 1e-5 of unity is taken as unity
    b = emb(ctx, np.eye(nao, dtype=int).astype(object) if ctx.symbolic else np.eye(nao), np.eye(nao, dtype=int), (1, 1) if uhf else 1, uhf)
    if sao:
        b.mf.get_ovlp = lambda *a: m
        fr = (fgm.SAO_Fragmentation if not ctx.boolean("site") else fgm.Site_Fragmentation)(b)
        x = fr.get_coeff()
        ctx.true("channels", isinstance(x, tuple) == uhf)
        for y in (x if uhf else (x,)):
            ctx.eq("orthonormal", np.dot(np.dot(y.T, m), y), np.eye(n, dtype=int))
        return
    fr = Given(b)
    # orbitals with overlap m: C = Q sqrt(m), Q orthonormal columns in the metric
    S, _ = rmetric(ctx, nao)
    x0 = lowinvT(S) if ctx.symbolic else np.linalg.inv(np.linalg.cholesky(S)).T
    C = np.dot(np.dot(x0, rotc(ctx, nao, 2))[:, :n], np.dot(V * e[None, :], V.T))
    x, emin = fr.symmetric_orth(C, S)
    o = np.dot(C, x)
    ctx.eq("orthonormal", np.dot(np.dot(o.T, S), o), np.eye(n, dtype=int))
    ctx.eq("smallest eigenvalue", emin, e[0] * e[0])
    P = np.dot(V / e[None, :], V.T)
    sgn = np.dot(np.linalg.inv(P) if not ctx.symbolic else np.dot(V * e[None, :], V.T), x)
    ctx.eq("closest orbitals up to sign", sgn * sgn, np.eye(n, dtype=int))


class RefMol:
    def __init__(self, labels, natm, coords):
        self.labels, self.natm, self.coords, self.nao = labels, natm, coords, len(labels)

    def ao_labels(self, fmt=None):
        return list(self.labels)

    def atom_coord(self, i):
        return np.asarray(self.coords[i])

    def search_ao_label(self, lab):
        return [i for i, l in enumerate(self.labels) if l[2] in ([lab] if isinstance(lab, str) else lab)]


def h_iao(ctx, uhf, no, niao, nmo, pao=False, ghost=False, linind=0):
    """intrinsic orbitals plus remaining virtuals (or projected atomic orbitals): orthonormal basis of the space, occupied
    space inside the intrinsic orbitals; labels refer to the atoms of the molecule"""
    nsp = 2 if uhf else 1
    nao = nmo + linind
    S, _ = rmetric(ctx, nao)
    x = lowinvT(S) if ctx.symbolic else np.linalg.inv(np.linalg.cholesky(S)).T
    nos = no if uhf else (no,)
    M, raw, spaces = [], [], []
    for s in range(nsp):
        m = np.dot(x, rotc(ctx, nao, 1 + s))[:, :nmo]
        M.append(m)
        # intrinsic space: occupied plus rotated virtuals
        U = np.array(np.eye(nmo, dtype=int).astype(object) if ctx.symbolic else np.eye(nmo))
        o = nos[s]
        if nmo - o >= 2 and not pao and (not uhf or s == 1):
            U[o:, o:][:, [niao - o - 1, niao - o]] = np.dot(U[o:, o:][:, [niao - o - 1, niao - o]], ctx.orth("v%d" % s, 2))
        q = np.dot(m, U)
        spaces.append((U, q))
        # non-orthogonal reference orbitals with overlap V e^2 V^T
        V = ctx.orth("w%d" % s, 2) if niao == 2 and s == 0 else rotc(ctx, niao, s) if niao > 1 else np.ones((1, 1), dtype=int)
        e = ctx.real("e%d" % s, (niao,))
        for i in range(niao):
            ctx.assume(e[i] >= num(ctx, Fraction(1, 10)))
            if i:
                ctx.assume(e[i - 1] <= e[i])
        ctx.prepare_eigh(np.dot(V * (e * e)[None, :], V.T), e * e, V)
        raw.append(np.dot(q[:, :niao], np.dot(V * e[None, :], V.T)))
        k = nmo - niao
        pr = np.dot(U[:, niao:], U[:, niao:].T)
        if ctx.symbolic and not pao:
            ctx.prepare_eigh(pr, np.array([0] * niao + [1] * k, dtype=object), U)
    pk = (lambda y: tuple(y)) if uhf else (lambda y: y[0])
    b = emb(ctx, S, pk(M), no, uhf)
    b.mf.mo_occ = pk([np.array([1 if uhf else 2] * nos[s] + [0] * (nmo - nos[s])) for s in range(nsp)])
    mol = b.mf.mol
    mol.nao = nao
    mol.nao_nr = lambda: nao
    mol.basis = "sto-3g"
    lab = [(i, "H", "1s", "") for i in range(niao)]
    coords = [[float(i), 0, 0] for i in range(niao + 1)]
    mol.natm = niao + (1 if ghost else 0)
    # ghost atom first: atom numbers of molecule and reference differ
    sh = 1 if ghost else 0
    mol.atom_coord = lambda i: np.asarray(coords[i])
    ref = RefMol(lab, niao, [coords[i + sh] for i in range(niao)])
    old = pyscf.lo.iao.reference_mol, pyscf.lo.iao.iao, pyscf.lo.nao._core_val_ryd_list
    calls = []
    def iao(m_, occ, minao=None, **k):
        s = len(calls) % nsp
        for t in range(nsp):
            if occ.shape[1] == nos[t] and (nsp == 1 or np.array_equal(to_f(ctx, occ), to_f(ctx, M[t][:, :nos[t]]))):
                s = t
        calls.append(s)
        return raw[s]
    pyscf.lo.iao.reference_mol = lambda m_, minao=None: ref
    pyscf.lo.iao.iao = iao
    ryd = list(range(niao, nmo))
    labels = [(i + sh, "H", "1s", "") for i in range(niao)] + [(i % max(niao, 1), "H", "2s", "") for i in range(nmo - niao)]
    order = [0] if nmo == 1 else [nmo - 1] + list(range(nmo - 1)) if nmo - niao else list(range(nmo))
    mol.ao_labels = lambda fmt=None: [labels[i] for i in order]
    pyscf.lo.nao._core_val_ryd_list = lambda m_: ([], [i for i, j in enumerate(order) if j < niao], [i for i, j in enumerate(order) if j >= niao])
    try:
        if pao:
            fr = fgm.IAOPAO_Fragmentation(b)
            mats = []
            for s in range(nsp):
                P = np.eye(nao, dtype=int) - np.dot(np.dot(spaces[s][1][:, :niao], spaces[s][1][:, :niao].T), S)
                a = P[:, [i for i, j in enumerate(order) if j >= niao]]
                mats.append(np.dot(np.dot(a.T, S), a))
            if nmo - niao == 1:
                for m_ in mats:
                    ctx.assume(m_[0, 0] >= num(ctx, Fraction(1, 1000)))
        else:
            fr = fgm.IAO_Fragmentation(b, minao=ctx.choice("minao", ["auto", "sto-3g"]))
        fr.kernel()
    finally:
        pyscf.lo.iao.reference_mol, pyscf.lo.iao.iao, pyscf.lo.nao._core_val_ryd_list = old
    for s in range(nsp):
        c = fr.coeff[s] if uhf else fr.coeff
        ctx.true("size", c.shape == (nao, nmo))
        ctx.eq("orthonormal", np.dot(np.dot(c.T, S), c), np.eye(nmo, dtype=int))
        ii = [order.index(i) for i in range(niao)] if pao else list(range(niao))
        q = np.dot(np.dot(c[:, ii].T, S), M[s][:, :nos[s]])
        ctx.eq("occupied orbitals inside the intrinsic ones", np.dot(q.T, q), np.eye(nos[s], dtype=int))
        r = np.dot(np.dot(c[:, ii].T, S), spaces[s][1][:, :niao])
        ctx.eq("intrinsic space kept", np.dot(r.T, r), np.eye(niao, dtype=int))
    if pao:
        ctx.true("labels", fr.labels == mol.ao_labels())
    else:
        ctx.true("labels refer to the atoms of the molecule", [tuple(l) for l in fr.labels] == labels[:niao])
    # a fragment of one atom
    f = fr.add_atomic_fragment(0 + sh) if False else None
    name, idx = fr.get_atomic_fragment_indices([sh]) if not pao else (None, None)
    if not pao:
        ctx.true("orbitals of the first real atom", list(idx) == [0])


def to_f(ctx, a):
    return np.array([float(x) if not ctx.symbolic else str(Sym.const(x)) for x in np.asarray(a).flat])


def h_cas(ctx, n, uhf):
    """complete active space around the Fermi level: the requested number of orbitals and electrons, or an error"""
    if uhf:
        na = ctx.int("na", 1, n)
        nb = ctx.int("nb", 0, 1) if False else max(na - ctx.int("unpaired", 0, 1), 0)
        occ = (np.array([1] * na + [0] * (n - na)), np.array([1] * nb + [0] * (n - nb)))
        tot = occ[0] + occ[1]
    else:
        nd = ctx.int("doubly", 0, n)
        ns = ctx.int("singly", 0, 1) if nd < n else 0
        occ = np.array([2] * nd + [1] * ns + [0] * (n - nd - ns))
        tot = occ
        if nd + ns == 0:
            return
    e = ctx.real("e", (n,))
    for i in range(n - 1):
        ctx.assume(e[i] <= e[i + 1])
    I = np.eye(n, dtype=int).astype(object) if ctx.symbolic else np.eye(n)
    b = emb(ctx, I, (I, I.copy()) if uhf else I, (1, 1) if uhf else 1, uhf)
    b.mf.mo_occ = occ
    b.mf.mo_energy = (e, e + 0) if uhf else e
    b._mo_coeff = b.mf.mo_coeff
    fr = fgm.CAS_Fragmentation(b)
    fr.kernel()
    ncas, nel = ctx.int("ncas", 1, n), ctx.int("nelec", 1, 2 * n)
    tol = num(ctx, Fraction(1, 100))
    # oracle: lowest orbital p such that the occupied orbitals from p up hold the electrons
    ok, p = False, None
    for q in range(n):
        if sum(tot[q:]) == nel and tot[q] > 0 and sum(1 for t in tot[q:] if t) <= ncas and q + ncas <= n:
            ok, p = True, q
    deg = False
    if ok:
        deg = (p > 0 and bool(e[p] - e[p - 1] < tol)) or (p + ncas < n and bool(e[p + ncas] - e[p + ncas - 1] < tol))
    try:
        f = fr.add_cas_fragment(ncas, nel, degen_tol=tol)
    except (ValueError, AssertionError, IndexError):
        ctx.true("refused although possible", not ok or deg)
        return
    ctx.true("accepted although impossible or splitting degenerate orbitals", ok and not deg)
    if not ok or deg:
        return
    for s in range(2 if uhf else 1):
        ctx.eq("active orbitals", sp(f.c_frag)[s], I[:, p:p + ncas])
        ctx.eq("environment", sp(f.c_env)[s], np.hstack((I[:, :p], I[:, p + ncas:])))


def h_secondary(ctx, uhf):
    """secondary fragments: one with the requested threshold and one cancelling the original, for each primary fragment"""
    n = 5
    I = np.eye(n, dtype=int).astype(object) if ctx.symbolic else np.eye(n)
    C = (I, I.copy()) if uhf else I
    b = emb(ctx, I, C, (2, 1) if uhf else 2, uhf)
    b.mf.make_rdm1 = lambda *a, **k: np.stack([I, I]) if uhf else I
    b.mf.mol.natm = 3
    b.mf.mol.atom_symbol = lambda i: ["H", "He", "H"][i]
    t, to, tv = (ctx.choice(k, v) for k, v in (("threshold", [None, 1e-3]), ("threshold_occ", [None, 1e-4]), ("threshold_vir", [None, 1e-5])))
    b.opts.bath_options = dict(b.opts.bath_options, bathtype="mp2", threshold=t, threshold_occ=to, threshold_vir=tv)
    given, fac = ctx.choice("given", [None, 1e-6]), ctx.choice("factor", [0.1, 0.5])
    wff = ctx.choice("weight", [None, 2])
    cls = GivenU if uhf else Given
    cls.given = (C, LABELS)
    with cls(b) as fr:
        outside = fr.add_atomic_fragment(2)
        with fr.secondary_fragments(bno_threshold=given, bno_threshold_factor=fac):
            p = fr.add_atomic_fragment(0, wf_factor=wff)
            q = fr.add_atomic_fragment(1)
    ctx.true("number of fragments", len(b.fragments) == 7 and b.fragments[:3] == [outside, p, q])
    ctx.true("identifiers", len({f.id for f in b.fragments}) == 7)
    ctx.true("fragments outside have no secondaries", outside.flags.is_envelop and not outside.flags.is_secfrag)
    for k, par in enumerate((p, q)):
        plus, minus = b.fragments[3 + 2 * k], b.fragments[4 + 2 * k]
        w = par.opts.wf_factor or 1
        ctx.true("weights cancel", (plus.opts.wf_factor or 1) == w and minus.opts.wf_factor == -w)
        ctx.true("envelop", plus.flags.is_envelop and not minus.flags.is_envelop and not par.flags.is_envelop)
        for x in (plus, minus):
            ctx.true("secondary", x.flags.is_secfrag and x.flags.bath_parent_fragment_id == par.id and x.solver == "MP2")
            ctx.true("same orbitals", all(np.array_equal(u, v) for u, v in zip(sp(x.c_frag) + sp(x.c_env), sp(par.c_frag) + sp(par.c_env))) if isinstance(sp(x.c_frag), list) else
                     all(np.array_equal(u, v) for u, v in zip(list(sp(x.c_frag)) + list(sp(x.c_env)), list(sp(par.c_frag)) + list(sp(par.c_env)))))
            ctx.true("same atoms", list(x.atoms) == list(par.atoms))
        for ot in ("occupied", "virtual"):
            old = par._get_bath_option("threshold", ot)
            ctx.true("cancelling fragment keeps the threshold", minus._get_bath_option("threshold", ot) == old)
            want = given if given is not None else (old * fac if old is not None else None)
            ctx.true("threshold of the secondary fragment", plus._get_bath_option("threshold", ot) == want)
            ctx.true("threshold of the primary fragment", old == ((to if ot == "occupied" else tv) or t))


HARNESSES = []


def add(name, fn, tiers=("quick", "thorough"), **p):
    k = sum(h.name.rsplit(" #", 1)[0] == name for h in HARNESSES)
    name += " #%d" % (k + 1) if k else ""
    HARNESSES.append(Harness(name, fn, params=p, tiers=tiers, bounds=str(p), maxpaths=20000, extra=["vayesta.core.fragmentation"]))


T = ("thorough",)
for uhf in (False, True):
    for kind in ("atoms", "shells", "orbitals"):
        add("select", h_select, uhf=uhf, kind=kind)
    add("all atoms", h_all, uhf=uhf, kcell=False)
    add("secondary", h_secondary, uhf=uhf)
    add("cas", h_cas, uhf=uhf, n=3)
    add("cas", h_cas, uhf=uhf, n=4, tiers=T)
    add("sao", h_lowdin, n=2, nao=2, uhf=uhf, sao=True)
    add("iao", h_iao, uhf=uhf, no=(1, 1) if uhf else 1, niao=2, nmo=3)
    add("iaopao", h_iao, uhf=uhf, no=(1, 1) if uhf else 1, niao=2, nmo=3, pao=True)
add("all atoms", h_all, uhf=False, kcell=True)
add("complete", h_complete, uhf=False, sizes=(1, 1, 1))
add("complete", h_complete, uhf=True, sizes=(1, 1, 1))
add("complete", h_complete, uhf=False, sizes=(2, 1, 0), tiers=T)
add("lowdin", h_lowdin, n=2, nao=3)
add("lowdin", h_lowdin, n=1, nao=2)
add("lowdin", h_lowdin, n=3, nao=3, tiers=T)
add("iao ghost", h_iao, uhf=False, no=1, niao=2, nmo=3, ghost=True)
add("iao linear dependent", h_iao, uhf=False, no=1, niao=2, nmo=3, linind=1)
add("iao minimal", h_iao, uhf=False, no=1, niao=2, nmo=2)
