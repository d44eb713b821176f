"""C20: lattice models. The real Hubbard1D/Hubbard2D/HubbardDF/LatticeRHF/LatticeUHF classes are instantiated with
symbolic hopping t, interaction U, neighbour interaction V and symbolic (forked) shapes, boundaries, orders and tiles.
Oracle: the textbook definition over site positions, where the position of a site is what the model itself reports
(atom_coords), neighbours are sites one lattice spacing apart modulo the lattice vectors."""
import types
import itertools
from fractions import Fraction as Q
import numpy as np
from vsym.harness import Harness
from checks.common import *
from vayesta.lattmod import latt, bethe
from vayesta.core.symmetry.group import SymmetryGroup
from vayesta.core.symmetry.operation import SymmetryTranslation
from pyscf.lib.parameters import BOHR

META = dict(assumptions=["extent at least 3 in a periodic or antiperiodic direction (for extent 2 both directions reach the same site, which the "
                         "1D and 2D classes treat differently)",
                         "scipy.integrate.quad / Bessel functions / exp stand for themselves (uninterpreted) in the Bethe-ansatz integrands"])


def positions(mol):
    c = np.asarray(mol.atom_coords(), dtype=float) * BOHR
    return [tuple(int(round(x)) for x in r) for r in c], c


def model(mol, dims, bfac, t):
    """Hopping matrix from the reported positions."""
    pos, raw = positions(mol)
    n = len(pos)
    h = np.zeros((n, n), dtype=object)
    for p, q in itertools.product(range(n), repeat=2):
        for d in range(len(dims)):
            for s in (1, -1):
                x = list(pos[p])
                x[d] += s
                f = 1
                if not 0 <= x[d] < dims[d]:
                    x[d] %= dims[d]
                    f = bfac[d]
                if tuple(x) == pos[q]:
                    h[p, q] += -f * t
    return h


def check_pos(ctx, mol, dims):
    pos, raw = positions(mol)
    ctx.true("positions are all lattice points once", sorted(pos) == sorted(itertools.product(*[range(d) for d in dims], *([[0]] * (3 - len(dims))))))
    ctx.true("integer positions", bool(np.allclose(raw, np.round(raw), atol=1e-9)))
    lv = np.asarray(mol.lattice_vectors(), dtype=float) * BOHR
    want = np.diag(list(dims) + [1] * (3 - len(dims)))
    ctx.true("lattice vectors", bool(np.allclose(lv, want, atol=1e-9)))


def h_1d(ctx, nmin, nmax, ordered):
    """1D chain: hopping, positions, index wrap-around, interactions; site order a symbolic permutation."""
    n = ctx.int("n", nmin, nmax)
    t, u, v = ctx.scalar("t"), ctx.scalar("u"), ctx.scalar("v")
    b = ctx.choice("b", ["PBC", "APBC", "pbc", "auto"])
    if b == "auto" and n % 2:
        ctx.raises("odd chains need an explicit boundary", lambda: latt.Hubbard1D(n, boundary="auto"), ValueError)
        return
    order = None
    if ordered:
        left = list(range(n))
        order = [left.pop(ctx.int("o%d" % i, 0, len(left) - 1)) for i in range(n)]
    ne = ctx.choice("ne", [None, 2])
    mol = latt.Hubbard1D(n, nelectron=ne, hubbard_t=t, hubbard_u=u, boundary=b, order=order)
    bf = {"PBC": 1, "pbc": 1, "APBC": -1, "auto": 1 if n % 4 == 2 else -1}[b]
    ctx.true("electrons", mol.nelectron == (n if ne is None else ne) and mol.nao_nr() == n and mol.natm == n)
    check_pos(ctx, mol, (n,))
    if order is not None:
        ctx.true("order permutes", [p[0] for p in positions(mol)[0]] == list(order))
    ctx.eq("hopping", mol.h1e, model(mol, (n,), [bf], t))
    ctx.eq("symmetric", mol.h1e, mol.h1e.T)
    for i in range(-n, 2 * n):
        idx, f = mol.get_index(i)
        ctx.true("index wraps", idx == i % n)
        ctx.true("phase of wrapped index", f == (bf if i % n != i else 1))
    eri = mol.get_eri(v_nn=v) if ctx.boolean("vnn") else mol.get_eri()
    vv = v if eri_v(ctx) else 0
    pos = [p[0] for p in positions(mol)[0]]
    want = np.zeros((n,) * 4, dtype=object)
    for p in range(n):
        want[p, p, p, p] = u
        for q in range(n):
            if (pos[p] - pos[q]) % n in (1, n - 1) and p != q:
                want[p, p, q, q] = vv
    ctx.eq("interaction", eri, want)


def eri_v(ctx):
    return ctx.boolean("vnn")


def h_2d(ctx, shapes, tiled):
    """2D lattice: hopping with per-direction boundary sign, positions, index wrap-around, tiling."""
    nx, ny = ctx.choice("shape", shapes)
    t, u = ctx.scalar("t"), ctx.scalar("u")
    opts = ["PBC", "APBC", "open"]
    bx, by = ctx.choice("bx", opts if not tiled else opts[:2]), ctx.choice("by", opts if not tiled else opts[:2])
    f = dict(PBC=1, APBC=-1, open=0)
    if (nx < 3 and f[bx]) or (ny < 3 and f[by]):
        return
    tiles = (1, 1)
    if tiled:
        tiles = ctx.choice("tiles", [(a, b) for a in range(1, nx + 1) for b in range(1, ny + 1) if nx % a == 0 and ny % b == 0])
    mol = latt.Hubbard2D((nx, ny), nelectron=2, hubbard_t=t, hubbard_u=u, boundary=(bx, by), tiles=tiles)
    check_pos(ctx, mol, (nx, ny))
    pos = positions(mol)[0]
    ctx.eq("hopping", mol.h1e, model(mol, (nx, ny), [f[bx], f[by]], t))
    for i in range(-1, nx + 1):
        for j in range(-1, ny + 1):
            idx, fac = mol.get_index(i, j)
            flat = latt.Hubbard2D((nx, ny), nelectron=2, boundary=(bx, by))
            ctx.true("index wraps", positions(flat)[0][idx][:2] == (i % nx, j % ny))
            ctx.true("phase of wrapped index", fac == (f[bx] if i % nx != i else 1) * (f[by] if j % ny != j else 1))
            break
    ts = tiles[0] * tiles[1]
    for k in range(nx * ny // ts):
        xs = [p[0] for p in pos[k * ts:(k + 1) * ts]]
        ys = [p[1] for p in pos[k * ts:(k + 1) * ts]]
        ctx.true("consecutive sites form tiles", max(xs) - min(xs) == tiles[0] - 1 and max(ys) - min(ys) == tiles[1] - 1
                 and min(xs) % tiles[0] == 0 and min(ys) % tiles[1] == 0 and len(set(zip(xs, ys))) == ts)
    eri = mol.get_eri()
    n = nx * ny
    idx = np.arange(n)
    ctx.eq("on-site interaction", eri[idx, idx, idx, idx], np.array([u] * n, dtype=object))
    e2 = np.array(eri, dtype=object).copy()
    e2[idx, idx, idx, idx] = 0
    ctx.true("no other interaction", bool(np.all(e2 == 0)))
    sl = np.asarray(mol.aoslice_by_atom())
    ctx.true("one orbital per site", sl.shape == (n, 4) and bool(np.all(sl[:, 0] == idx) and np.all(sl[:, 1] == idx + 1)
             and np.all(sl[:, 2] == idx) and np.all(sl[:, 3] == idx + 1)))


def h_auto2d(ctx):
    """Automatic boundaries give the lattice of the boundaries they report, and are refused where undecided."""
    nx, ny = ctx.int("nx", 1, 8), ctx.int("ny", 1, 8)
    ne = ctx.choice("ne", ["half", "none", "other"])
    n = nx * ny

    def mk():
        return latt.Hubbard2D((nx, ny), nelectron=dict(half=n, none=None, other=n + 2)[ne], boundary="auto")
    if ne != "half" or nx % 2 or ny % 2:
        ctx.raises("undecided boundaries are refused", mk, NotImplementedError)
        return
    mol = mk()
    mol2 = latt.Hubbard2D((nx, ny), nelectron=n, boundary=mol.boundary)
    ctx.eq("same as explicit boundaries", mol.h1e, mol2.h1e)


def h_trans(ctx, dims):
    """Every lattice translation (as represented by the library's symmetry operation) leaves the hopping matrix and
    the interaction unchanged."""
    t, u = ctx.scalar("t"), ctx.scalar("u")
    bs = [ctx.choice("b%d" % d, ["PBC", "APBC"]) for d in range(len(dims))]
    if len(dims) == 1:
        mol = latt.Hubbard1D(dims[0], nelectron=2, hubbard_t=t, hubbard_u=u, boundary=bs[0])
    else:
        tiles = ctx.choice("tiles", [(1, 1), (dims[0], 1), (1, dims[1])])
        mol = latt.Hubbard2D(dims, nelectron=2, hubbard_t=t, hubbard_u=u, boundary=tuple(bs), tiles=tiles)
    v = [ctx.int("v%d" % d, 0, dims[d] - 1) for d in range(len(dims))] + [0] * (3 - len(dims))
    op = SymmetryTranslation(SymmetryGroup(mol), [x / n for x, n in zip(v, list(dims) + [1] * (3 - len(dims)))])
    ctx.eq("hopping translation invariant", op(mol.h1e, axis=(0, 1)), mol.h1e)


def h_ints(ctx, n, kind):
    """Integral routes: get_eri, mol.ao2mo (one or four coefficient sets), density-fitted loop, get_jk of the lattice
    mean fields and the reported overlap/core Hamiltonian agree."""
    t, u = ctx.scalar("t"), ctx.scalar("u", 0, 4)
    if kind == "1d":
        mol = latt.Hubbard1D(n, nelectron=2, hubbard_t=t, hubbard_u=u, boundary="PBC")
    else:
        mol = latt.Hubbard2D((n, 1), nelectron=2, hubbard_t=t, hubbard_u=u, boundary=("PBC", "open"))
    eri = np.array(mol.get_eri(), dtype=object)
    c = [ctx.real("c%d" % k, (n, 1 + (k < 2))) for k in range(4)]
    want = np.einsum("pqrs,pi,qj,rk,sl->ijkl", eri, *c, optimize=True)
    ctx.eq("ao2mo four sets", mol.ao2mo(c), want.reshape(4, 1))
    ctx.eq("ao2mo tuple", mol.ao2mo(tuple(c)), want.reshape(4, 1))
    want1 = np.einsum("pqrs,pi,qj,rk,sl->ijkl", eri, c[0], c[0], c[0], c[0], optimize=True)
    ctx.eq("ao2mo one set", mol.ao2mo(c[0]), want1.reshape(4, 4))
    df = latt.HubbardDF(mol)
    ctx.eq("df ao2mo", df.ao2mo(c), want.reshape(4, 1))
    blocks = list(df.loop())
    cd = np.concatenate([np.asarray(x, dtype=object) for x in blocks])
    ctx.true("naux", len(cd) == df.get_naoaux() == n)
    il = np.tril_indices(n)
    ctx.eq("density-fitted integrals", np.dot(cd.T, cd), eri[il[0], il[1]][:, il[0], il[1]])
    # mean fields
    dm = ctx.sym2("d", n)
    rhf = latt.LatticeRHF.__new__(latt.LatticeRHF)
    rhf.mol = mol
    j, k = rhf.get_jk(dm=dm)
    ctx.eq("rhf J", j, np.einsum("pqrs,rs->pq", eri, dm))
    ctx.eq("rhf K", k, np.einsum("prsq,rs->pq", eri, dm))
    j, k = rhf.get_jk(mol, dm)
    ctx.eq("rhf J (mol)", j, np.einsum("pqrs,rs->pq", eri, dm))
    ctx.eq("ovlp", rhf.get_ovlp(), np.eye(n))
    ctx.eq("hcore", rhf.get_hcore(), mol.h1e)
    dmb = ctx.sym2("e", n)
    uhf = latt.LatticeUHF.__new__(latt.LatticeUHF)
    uhf.mol = mol
    (ja, jb), (ka, kb) = uhf.get_jk(dm=(dm, dmb))
    for lab, x, d, ein in (("Ja", ja, dm, "pqrs,rs->pq"), ("Jb", jb, dmb, "pqrs,rs->pq"), ("Ka", ka, dm, "prsq,rs->pq"), ("Kb", kb, dmb, "prsq,rs->pq")):
        ctx.eq("uhf " + lab, x, np.einsum(ein, eri, d))


def h_refuse(ctx):
    """Neighbour interactions are refused by every route that cannot represent them."""
    u, v = ctx.scalar("u"), ctx.scalar("v", 1, 2)
    m = latt.Hubbard1D(4, hubbard_u=u, v_nn=v, boundary="PBC")
    ctx.raises("ao2mo", lambda: m.ao2mo(np.eye(4)), NotImplementedError)
    ctx.raises("df", lambda: latt.HubbardDF(m), NotImplementedError)
    ctx.raises("2d eri", lambda: latt.Hubbard2D((3, 3), boundary="PBC", v_nn=v).get_eri(), NotImplementedError)
    for cls in (latt.LatticeRHF, latt.LatticeUHF):
        mf = cls.__new__(cls)
        mf.mol = m
        ctx.raises("jk", lambda: mf.get_jk(dm=np.zeros((2, 4, 4) if cls is latt.LatticeUHF else (4, 4))), NotImplementedError)
    ctx.raises("compact", lambda: latt.Hubbard1D(4, boundary="PBC").ao2mo(np.eye(4), compact=True), NotImplementedError)
    ctx.raises("unknown 2D boundary", lambda: latt.Hubbard2D((3, 3), boundary=("PBC", "what")), ValueError)
    ctx.raises("tiles must divide the lattice", lambda: latt.Hubbard2D((4, 3), boundary="PBC", tiles=(2, 2)), AssertionError)


class BStub:
    """scipy stand-in: jv(n, x) and the integral become symbols, the integrand is kept."""

    def __init__(self, ctx):
        self.j = [ctx.scalar("j0"), ctx.scalar("j1")]
        self.x = ctx.scalar("x", Q(1, 2), 3)
        self.special = types.SimpleNamespace(jv=lambda n, x: self.j[n])
        self.calls = []

        def quad(f, *interval, **kw):
            self.calls.append((interval, kw))
            return f(self.x), 0.0
        self.integrate = types.SimpleNamespace(quad=quad)


class NpStub:
    def __init__(self, ctx, arg):
        self.e, self.arg, self.ctx, self.pi = ctx.scalar("E", Q(1, 4), 8), arg, ctx, np.pi

    def exp(self, z):
        # only exp(+-x u / 2t) occur: decide which by sign of z against the known argument
        d = z - self.arg
        s = z + self.arg
        if is0(d):
            return self.e
        if is0(s):
            return 1 / self.e
        raise AssertionError("unexpected exponent")


def is0(x):
    return abs(float(x)) < 1e-12 if isinstance(x, (int, float)) else (not getattr(x, "d", {1: 1}))


def h_bethe(ctx):
    """Bethe-ansatz integrands: the double occupancy is the U-derivative of the energy integrand, energy per site
    -4t int J0 J1 / (x (1 + exp(xU/2t)))."""
    t, u = Q(3, 4) if ctx.symbolic else 0.75, ctx.scalar("u", Q(1, 2), 4)
    st = BStub(ctx)
    nst = NpStub(ctx, st.x * u / (2 * t))
    sp, npp = bethe.scipy, bethe.np
    bethe.scipy, bethe.np = st, nst
    try:
        e = bethe.hubbard1d_bethe_energy(t, u, interval=(0, 1))
        d = bethe.hubbard1d_bethe_docc(t, u, interval=(0, 1))
    finally:
        bethe.scipy, bethe.np = sp, npp
    E, j, x = nst.e, st.j, st.x
    ctx.eq("energy integrand", e * (x * (1 + E)), -4 * t * j[0] * j[1])
    # d/dU: dE/dU = x/(2t) E
    ctx.eq("docc integrand", d * (1 + E) * (1 + E), 4 * t * j[0] * j[1] / x * (x / (2 * t)) * E)


def h_numdiff(ctx):
    """Numerical differentiation is exact for polynomials of degree 2 (order 1) and 4 (order 2)."""
    c = ctx.real("c", (5,))
    u = ctx.scalar("u")
    du = Q(1, 8) if ctx.symbolic else 0.125
    old = bethe.hubbard1d_bethe_energy
    try:
        bethe.hubbard1d_bethe_energy = lambda t, v, **k: sum(c[i] * v**i for i in range(5))
        ctx.eq("order 2", bethe.hubbard1d_bethe_docc_numdiff(1, u, du=du, order=2), sum(i * c[i] * u ** (i - 1) for i in range(1, 5)), tol=1e-6)
        bethe.hubbard1d_bethe_energy = lambda t, v, **k: sum(c[i] * v**i for i in range(3))
        ctx.eq("order 1", bethe.hubbard1d_bethe_docc_numdiff(1, u, du=du, order=1), sum(i * c[i] * u ** (i - 1) for i in range(1, 3)), tol=1e-6)
    finally:
        bethe.hubbard1d_bethe_energy = old
    ctx.raises("order 3", lambda: bethe.hubbard1d_bethe_docc_numdiff(1, 1, order=3), NotImplementedError)


SH = [(3, 3), (3, 4), (4, 3), (3, 5), (2, 3), (3, 2), (1, 3), (2, 4), (1, 1)]
HARNESSES = [
    Harness("1d", h_1d, dict(nmin=3, nmax=8, ordered=False), "3-8 sites, all boundaries, any t, U, V"),
    Harness("1d.order", h_1d, dict(nmin=3, nmax=4, ordered=True), "3-4 sites, every site order"),
    Harness("1d.long", h_1d, dict(nmin=9, nmax=12, ordered=False), "9-12 sites", tiers=("thorough",)),
    Harness("2d", h_2d, dict(shapes=SH, tiled=False), "9 shapes up to 3x5, all boundary pairs incl. open"),
    Harness("2d.tiles", h_2d, dict(shapes=[(4, 3), (3, 4), (4, 4), (3, 6)], tiled=True), "shapes 4x3, 3x4, 4x4, 3x6, every tiling"),
    Harness("2d.big", h_2d, dict(shapes=[(5, 6), (6, 4), (6, 6)], tiled=True), "shapes to 6x6, every tiling", tiers=("thorough",)),
    Harness("2d.auto", h_auto2d, {}, "all shapes to 8x8"),
    Harness("trans.1d", h_trans, dict(dims=(5,)), "5 sites, every translation"),
    Harness("trans.2d", h_trans, dict(dims=(3, 4)), "3x4, every translation and boundary pair"),
    Harness("trans.2db", h_trans, dict(dims=(4, 4)), "4x4, every translation and boundary pair", tiers=("thorough",)),
    Harness("ints.1d", h_ints, dict(n=3, kind="1d"), "3 sites, any density and coefficients, U in [0,4]"),
    Harness("ints.2d", h_ints, dict(n=3, kind="2d"), "3x1 sites", tiers=("thorough",)),
    Harness("refuse", h_refuse, {}, "any U, V"),
    Harness("bethe", h_bethe, {}, "t=3/4, any U, x; exp, Bessel functions uninterpreted"),
    Harness("numdiff", h_numdiff, {}, "any polynomial of degree 4"),
]
