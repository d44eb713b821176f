"""C08: symmetry operations on orbital coefficients. Real SymmetryTranslation/Inversion/Reflection/Rotation, SymmetryGroup and
the tsymmetry helpers run on lattices (stand-in cell objects) and real pyscf molecules with symbolic orbital coefficients and
symbolic (forked) meshes, site orders, boundaries, vectors, axes. Oracle for translations: a field on the infinite lattice that is
quasi-periodic over the supercell; oracle for point operations: the orbital as a function of space, phi'(g r) = phi(r)."""
import types
import itertools
import numpy as np
from vsym.harness import Harness
from checks.common import *
from checks.c26 import mkbase, mkfrag
from vayesta.core.symmetry.group import SymmetryGroup
from vayesta.core.symmetry import operation as OPN
from vayesta.core.symmetry.operation import SymmetryTranslation, SymmetryInversion, SymmetryReflection, SymmetryRotation, SymmetryIdentity
from vayesta.core.symmetry import tsymmetry as TS
from pyscf.lib.parameters import BOHR
import pyscf.gto

META = dict(assumptions=["translation vectors are whole fractions of the supercell and smaller than it in absolute value (plus the full vector)",
                         "atomic-orbital values and spherical-harmonic rotation matrices come from pyscf; comparison to 1e-7",
                         "'open' boundaries are not translation symmetric and are not asked for"])

LAT = {"ortho": np.diag([2.0, 3.0, 5.0]), "hex": np.array([[2.0, 0, 0], [-1.0, 1.75, 0], [0, 0, 4.0]]), "tric": np.array([[2.0, 0.25, 0], [0.5, 2.5, 0.25], [-0.25, 0.5, 3.0]])}


class Cell:
    """Supercell of `mesh` primitive cells with the basis atoms `kinds` = [(element, nao, offset)], atoms listed in `order`."""
    def __init__(self, lat, mesh, kinds, order=None, dimension=3, boundary=None, syms=None):
        self.a = LAT[lat]
        self.mesh = mesh
        self.sites = [(x, k) for x in itertools.product(*[range(m) for m in mesh]) for k in range(len(kinds))]
        if order is not None:
            self.sites = [self.sites[i] for i in order]
        self.kinds = kinds
        self.natm = len(self.sites)
        self.dimension = dimension
        self.syms = syms
        if boundary is not None:
            self.boundary = boundary
        self.nao = sum(kinds[k][1] for _, k in self.sites)
        self._basis = {s: "basis-" + s for s in ["H", "He", "Li", "H1", "H2"]}
        off = np.cumsum([0] + [kinds[k][1] for _, k in self.sites])
        self.off = off

    def nao_nr(self):
        return self.nao

    def lattice_vectors(self):
        return np.asarray([self.a[d] * self.mesh[d] for d in range(3)])

    def atom_coords(self):
        return np.asarray([np.dot(np.asarray(x) + self.kinds[k][2], self.a) for x, k in self.sites])

    def aoslice_by_atom(self):
        return np.asarray([[0, 0, self.off[i], self.off[i + 1]] for i in range(self.natm)])

    def atom_symbol(self, i):
        return self.syms[i] if self.syms is not None else self.kinds[self.sites[i][1]][0]

    def atom_pure_symbol(self, i):
        return self.atom_symbol(i).rstrip("0123456789")

    def phase(self, x, fac):
        """image of lattice point x in the cell and the factor it carries"""
        f = 1
        for d in range(3):
            if (x[d] // self.mesh[d]) % 2:
                f *= fac[d]
        return tuple(x[d] % self.mesh[d] for d in range(3)), f

    def moved(self, c, t, fac):
        """coefficients of the field translated by t primitive vectors"""
        out = np.empty_like(c)
        ind = {s: i for i, s in enumerate(self.sites)}
        for i, (x, k) in enumerate(self.sites):
            y, f = self.phase([x[d] - t[d] for d in range(3)], fac)
            j = ind[(y, k)]
            for a in range(self.kinds[k][1]):
                out[self.off[i] + a] = f * c[self.off[j] + a]
        return out


K1 = [("H", 1, np.zeros(3))]
K2 = [("H", 2, np.array([0.125, 0, 0.25])), ("He", 1, np.array([0.5, 0.25, 0.375]))]
K3 = [("H", 2, np.array([0.125, 0.25, 0.0])), ("He", 3, np.array([0.5, 0.375, 0.25])), ("H", 1, np.array([0.625, 0.875, 0.5]))]
FAC = {"PBC": 1, "APBC": -1, "pbc": 1, "apbc": -1}


def bnd(ctx, opts=("PBC", "APBC")):
    b = [ctx.choice("b%d" % d, opts) for d in range(3)]
    return b, [FAC[x] for x in b]


def perm(ctx, n):
    return ctx.choice("order", [None, tuple(reversed(range(n))), tuple(i for i in range(0, n, 2)) + tuple(i for i in range(1, n, 2))])


def vec(ctx, name, mesh, neg=True, dim=3):
    return tuple(ctx.choice("%s%d" % (name, d), list(range(-mesh[d] + 1 if neg else 0, mesh[d] + 1)) if d < dim else [0]) for d in range(3))


def setup(ctx, lat, mesh, kinds, dim, neg=True):
    n = int(np.prod(mesh)) * len(kinds)
    b, fac = bnd(ctx) if dim == 3 else ([ctx.choice("b%d" % d, ("PBC", "APBC")) if d < dim else "PBC" for d in range(3)],) * 2
    fac = [FAC[x] for x in b]
    cell = Cell(lat, mesh, kinds, perm(ctx, n), dim, boundary=None)
    return cell, b, fac


def h_trans(ctx, lat, mesh, kinds, dim=3):
    """A translation moves every coefficient to the translated atom, with the factor of the boundary it crosses."""
    cell, b, fac = setup(ctx, lat, mesh, kinds, dim)
    t = vec(ctx, "t", mesh, dim=dim)
    form = ctx.choice("form", ["argument", "cell", "short"]) if dim < 3 else ctx.choice("form", ["argument", "cell"])
    bb = b if form != "short" else b[:2]
    bb = list(bb)
    if form == "cell":
        cell.boundary = bb
    g = SymmetryGroup(cell)
    op = SymmetryTranslation(g, [t[d] / mesh[d] for d in range(3)], boundary=None if form == "cell" else bb)
    c = ctx.real("c", (cell.nao, 2))
    want = cell.moved(c, t, fac)
    got = op(c)
    ctx.eq("moved orbitals", got, want)
    ctx.eq("vector input", op(c[:, 0]), want[:, 0])
    ctx.eq("last axis", op(c.T, axis=1), want.T)
    r = op((c, c[:, :1]))
    ctx.true("tuple of arrays", isinstance(r, tuple) and len(r) == 2)
    ctx.eq("spin channels", r[0], want)
    m = ctx.real("m", (cell.nao, cell.nao))
    ctx.eq("two axes", op(m, axis=(0, 1)), cell.moved(cell.moved(m, t, fac).T, t, fac).T)
    ctx.true("caller's boundary untouched", list(bb) == (b if form != "short" else b[:2]))
    ctx.eq("overlaps kept", np.dot(got.T, got), np.dot(c.T, c))
    v = np.zeros(3)
    for d in range(3):
        v = v + t[d] * cell.a[d]
    ctx.eq("real-space vector", op.vector_xyz, v)
    inv = op.inverse()
    ctx.eq("inverse undoes", inv(got), c)
    ctx.eq("inverse first", op(inv(c)), c)
    ctx.true("identity", SymmetryIdentity(g)(c) is c)


def h_compose(ctx, lat, mesh, kinds, dim=3):
    """Translations compose additively."""
    cell, b, fac = setup(ctx, lat, mesh, kinds, dim)
    g = SymmetryGroup(cell)
    t1, t2 = vec(ctx, "s", mesh, neg=False, dim=dim), vec(ctx, "t", mesh, neg=False, dim=dim)
    t12 = tuple(x + y for x, y in zip(t1, t2))
    if any(t12[d] > mesh[d] for d in range(3)):
        return
    f = lambda t: SymmetryTranslation(g, [t[d] / mesh[d] for d in range(3)], boundary=b)
    c = ctx.real("c", (cell.nao, 1))
    ctx.eq("T(a)T(b) = T(a+b)", f(t1)(f(t2)(c)), f(t12)(c))
    ctx.eq("translations commute", f(t1)(f(t2)(c)), f(t2)(f(t1)(c)))
    full = tuple(mesh[d] if d < dim else 0 for d in range(3))
    fx = 1
    for d in range(dim):
        fx *= fac[d]
    ctx.eq("full supercell vector", f(full)(c), fx * c)


def h_kinds(ctx, mesh, check_basis, check_label):
    """A translation is accepted exactly when it maps equal atoms onto each other."""
    n = int(np.prod(mesh))
    syms = [ctx.choice("e%d" % i, ["H1", "H2", "He"]) for i in range(n)]
    cell = Cell("ortho", mesh, [("H", 1, np.zeros(3))], syms=syms)
    same = ctx.boolean("same_basis")
    if same:
        cell._basis["H2"] = cell._basis["H1"]
    g = SymmetryGroup(cell, check_basis=check_basis, check_label=check_label)
    t = vec(ctx, "t", mesh)

    def eq(a, b):
        if check_label and a != b:
            return False
        if a.rstrip("12") != b.rstrip("12"):
            return False
        return (not check_basis) or cell._basis[a] == cell._basis[b]
    ind = {s: i for i, s in enumerate(cell.sites)}
    ok = all(eq(syms[i], syms[ind[(cell.phase([x[d] + t[d] for d in range(3)], [1] * 3)[0], 0)]]) for i, (x, _) in enumerate(cell.sites))
    try:
        SymmetryTranslation(g, [t[d] / mesh[d] for d in range(3)])
        got = True
    except (AssertionError, RuntimeError):
        got = False
    ctx.true("accepted iff a symmetry", got == ok)


def h_tsym(ctx, lat, mesh, kinds, dim=3):
    """Stand-alone helpers: reordering, images, meshes and equivalent atoms."""
    cell, b, fac = setup(ctx, lat, mesh, kinds, dim)
    t = vec(ctx, "t", mesh, dim=dim)
    v = sum((t[d] * cell.a[d] for d in range(3)), np.zeros(3))
    unit = ctx.choice("unit", ["Ang", "Bohr"])
    arg = v * (BOHR if unit == "Ang" else 1)
    keep = arg.copy()
    bb = list(b)
    re, inv, ph = TS.reorder_atoms(cell, arg, boundary=bb, unit=unit)
    ctx.true("caller's boundary untouched", bb == b)
    ctx.true("caller's vector untouched", bool(np.all(arg == keep)))
    re2 = TS.reorder_atoms(cell, arg, boundary=bb, unit=unit)
    ctx.true("repeatable", all(np.array_equal(x, y) for x, y in zip((re, inv, ph), re2)))
    cell.boundary = list(b)
    op = TS.get_tsymmetry_op(cell, arg, unit=unit)
    c = ctx.real("c", (cell.nao, 2))
    want = cell.moved(c, t, fac)
    ctx.eq("moved orbitals", op(c), want)
    ctx.eq("second axis", op(c.T, axis=1), want.T)
    ctx.true("inverse ordering", all(re[inv[i]] == i for i in range(cell.natm)))


def h_mesh(ctx, lat, mesh):
    """Translation vectors given as counts or as vectors describe the same mesh; the origin is optional."""
    cell = Cell(lat, mesh, K1)
    unit = ctx.choice("unit", ["Ang", "Bohr"])
    conv = BOHR if unit == "Ang" else 1
    m0, tv0 = TS.get_mesh_tvecs(cell, list(mesh))
    ctx.true("mesh from counts", list(m0) == list(mesh))
    ctx.eq("vectors from counts", np.asarray(tv0), cell.a)
    zero = [ctx.boolean("z%d" % d) for d in range(3)]
    arg = np.array([np.zeros(3) if zero[d] else cell.a[d] for d in range(3)]) * conv
    if any(zero[d] and mesh[d] != 1 for d in range(3)):
        pass
    want = [1 if zero[d] else mesh[d] for d in range(3)]
    keep = arg.copy()
    m1, tv1 = TS.get_mesh_tvecs(cell, arg, unit)
    ctx.true("mesh from vectors", list(m1) == want)
    ctx.true("caller's vectors untouched", bool(np.all(arg == keep)))
    lv = cell.lattice_vectors()
    ctx.eq("mesh times vectors", np.asarray([m1[d] * tv1[d] for d in range(3)]), lv)
    bad = np.array(cell.a) * conv
    bad[0] = lv[0] * conv / 1.5
    ctx.raises("incommensurate vectors", lambda: TS.get_mesh_tvecs(cell, bad, unit), ValueError)
    inc = ctx.boolean("origin")
    got = list(TS.loop_tvecs(cell, list(mesh), include_origin=inc))
    pts = [p for p in itertools.product(*[range(m) for m in mesh]) if inc or any(p)]
    ctx.true("loops over every image once", sorted(tuple(p) for p, _ in got) == pts)
    for p, v in got:
        ctx.eq("image vector", v, sum((p[d] * cell.a[d] for d in range(3)), np.zeros(3)))


def h_equiv(ctx, mesh, nsym=1):
    """Translationally equivalent atoms share the lowest equivalent index."""
    kinds = [("H", 1, np.array([0.125, 0.25, 0.0])), ("H", 1, np.array([0.625, 0.5, 0.25]))]
    n = int(np.prod(mesh)) * 2
    syms = [ctx.choice("e%d" % i, ["H1", "H2", "He"] if i < 3 else ["H1", "He"][:nsym]) for i in range(n)]
    lat = ctx.choice("lat", list(LAT))
    cell = Cell(lat, mesh, kinds, perm(ctx, n), syms=syms)
    ce, cb = ctx.boolean("check_element"), ctx.boolean("check_basis")
    unit = ctx.choice("unit", ["Ang", "Bohr"])
    arg = cell.a * (BOHR if unit == "Ang" else 1)
    got = TS.tsymmetric_atoms(cell, arg, unit=unit, check_element=ce, check_basis=cb)

    def eq(i, j):
        if cell.sites[i][1] != cell.sites[j][1]:
            return False
        if ce and syms[i].rstrip("12") != syms[j].rstrip("12"):
            return False
        return (not cb) or syms[i] == syms[j]
    want = [next(j for j in range(i + 1) if eq(i, j)) for i in range(n)]
    ctx.true("lowest equivalent atom", list(got) == want)


# ---------------------------------------------------------------- point operations
def _ring(n, r=1.1, z=0.0, phi0=0.0):
    return [(r * np.cos(phi0 + 2 * np.pi * k / n), r * np.sin(phi0 + 2 * np.pi * k / n), z) for k in range(n)]


_MOLS = {}
BAS = {"spd": {"He": [[0, [1.1, 1]], [1, [0.9, 1]], [2, [0.7, 1]]]},
       "gc": {"He": [[0, [1.1, 0.4, 0.1], [0.3, 0.2, 0.9]], [1, [0.9, 0.5, 0.2], [0.4, 0.3, 0.8]], [3, [0.8, 1.0]]]},
       "mixed": {"He": [[0, [1.1, 1]], [1, [0.8, 1]]], "Li": [[1, [0.6, 1]], [0, [0.5, 1]], [2, [0.4, 1]]]}}


def molecule(kind, bas, shift):
    key = (kind, bas, shift)
    if key not in _MOLS:
        if kind == "square":
            at = [("He", x) for x in _ring(4)]
        elif kind == "tri":
            at = [("He", x) for x in _ring(3)]
        elif kind == "hexa":
            at = [("He", x) for x in _ring(6)]
        elif kind == "pair":
            at = [("He", (0.4, 0.3, 0.8)), ("He", (-0.4, -0.3, -0.8))]
        elif kind == "cube":
            at = [("He", p) for p in itertools.product((-0.9, 0.9), repeat=3)]
        if bas == "mixed":
            at.append(("Li", (0.0, 0.0, 0.0)))
        at = [(s, tuple(np.asarray(x) + np.asarray(shift))) for s, x in at]
        m = pyscf.gto.Mole()
        m.atom, m.basis, m.unit, m.verbose, m.spin = at, BAS[bas], "Bohr", 0, len([1 for s, _ in at if s == "Li"]) % 2
        m.build()
        _MOLS[key] = m
    return _MOLS[key]


R = np.array([[0.31, -0.42, 0.77], [1.3, 0.2, -0.4], [-0.7, 0.9, 0.25], [0.05, -1.2, 0.6], [0.6, 0.65, -0.9]])


def values(mol, pts):
    return mol.eval_gto("GTOval_sph", pts)


def check_op(ctx, mol, op, gmat, center, order, shift):
    """phi'(g r) = phi(r) for every orbital; order-fold repetition is the identity; overlaps are kept."""
    c = ctx.real("c", (mol.nao, 1))
    got = op(c)
    pts = R + np.asarray(shift)
    img = np.dot(pts - center, gmat.T) + center
    for p, q in zip(pts, img):
        ctx.eq("image point", op.apply_to_point(p), q, tol=1e-9)
    a, b = values(mol, pts), values(mol, img)
    ctx.eq("orbital moved with the atoms", np.dot(b, got), np.dot(a, c))
    d = c
    for k in range(order):
        d = op(d)
    ctx.eq("repetition is the identity", d, c)
    s = mol.intor("int1e_ovlp")
    ctx.eq("overlap unchanged", op(op(s), axis=1), s)
    ctx.eq("input untouched", c, ctx.real("c", (mol.nao, 1)))
    two = op((c, c))
    ctx.eq("spin channels", two[1], got)


def h_rot(ctx, kind, bas, cases, shifted):
    shift = (0.3, -0.2, 0.5) if shifted else (0, 0, 0)
    mol = molecule(kind, bas, shift)
    what, arg, order = ctx.choice("case", cases)
    g = SymmetryGroup(mol, xtol=1e-6)
    cen = np.asarray(shift, dtype=float)
    if what == "rot":
        axis, n = np.asarray(arg[0], dtype=float), arg[1]
        axis = axis / np.linalg.norm(axis)
        ang = 2 * np.pi / n
        k = np.array([[0, -axis[2], axis[1]], [axis[2], 0, -axis[0]], [-axis[1], axis[0], 0]])
        gm = np.eye(3) + np.sin(ang) * k + (1 - np.cos(ang)) * np.dot(k, k)
        op = SymmetryRotation(g, ang * axis, center=cen)
        ctx.eq("rotation matrix", op.as_matrix(), gm)
    elif what == "mirror":
        axis = np.asarray(arg, dtype=float)
        gm = np.eye(3) - 2 * np.outer(axis, axis) / np.dot(axis, axis)
        op = SymmetryReflection(g, axis, center=cen)
        ctx.eq("mirror matrix", op.as_matrix(), gm)
    else:
        gm = -np.eye(3)
        op = SymmetryInversion(g, center=cen)
    check_op(ctx, mol, op, gm, cen, order, shift)


def h_reject(ctx):
    """Inversion of two atoms on a line is accepted exactly when the centre is their midpoint within the tolerance."""
    x0, x1, cen = ctx.scalar("x0", -2, 2), ctx.scalar("x1", -2, 2), ctx.scalar("cen", -2, 2)
    xtol = 0.125
    ctx.assume((x1 - x0) > 1)
    obj = object if ctx.symbolic else float
    co = np.array([[x0, 0, 0], [x1, 0, 0]], dtype=obj)
    mol = types.SimpleNamespace(natm=2, nao=2, dimension=0, atom_coords=lambda: co, atom_pure_symbol=lambda i: "H", atom_symbol=lambda i: "H",
                                _basis={"H": 0}, aoslice_by_atom=lambda: np.array([[0, 0, 0, 1], [0, 0, 1, 2]]), ao_loc=np.array([0, 1, 2]), bas_angular=lambda b: 0)
    g = SymmetryGroup(mol, xtol=xtol)

    def inv(self):
        return None
    try:
        o = SymmetryInversion.__new__(SymmetryInversion)
        o.center = np.array([cen, 0, 0], dtype=obj)
        o.group = g
        o.atom_reorder = o.get_atom_reorder()[0]
        ok = o.atom_reorder is not None
    except AssertionError:
        ok = False
    d = 2 * cen - x0 - x1
    mid = (d <= xtol) & (d >= -xtol)
    ctx.true("accepted only around the midpoint" if ok else "rejected away from the midpoint", mid if ok else ~mid)
    if ok:
        ctx.true("atoms exchanged", list(o.atom_reorder) == [1, 0])


class RecOp:
    """Stands for a symmetry operation class; keeps the arguments it was created with."""
    made = None

    def __init__(self, group, *args, **kw):
        self.args, self.kw = args, kw
        RecOp.made.append(self)

    def __call__(self, a, axis=0):
        return np.zeros_like(a)


def h_create(ctx, what):
    """Symmetry requests reach the operations with the documented meaning of axis, centre, unit, order and supercell."""
    lat = ctx.choice("lat", list(LAT) + ["fcc"])
    LATS = dict(LAT, fcc=np.array([[0, 2.0, 2.0], [2.0, 0, 2.0], [2.0, 2.0, 0]]))
    mesh = ctx.choice("mesh", [None, (1, 1, 1), (3, 1, 2)])
    unit = ctx.choice("unit", ["Ang", "ANGSTROM", "Bohr", "latvec"])
    b = mkbase("EWF")
    ak = LATS[lat]
    a = ak if mesh is None else np.asarray(mesh)[:, None] * ak
    b.mf = types.SimpleNamespace(mol=types.SimpleNamespace(lattice_vectors=lambda: a), mo_coeff=np.eye(3))
    b.kcell = None if mesh is None else types.SimpleNamespace(lattice_vectors=lambda: ak)
    b.get_ovlp = lambda *x: np.eye(3)
    b.symmetry = "group"
    f = mkfrag(b)
    f.c_frag, f.c_env = np.eye(3)[:, :1], np.eye(3)[:, 1:]
    cen = ctx.real("c", (3,))
    import vayesta.core.qemb.qemb as Q
    old = {n: getattr(Q, n) for n in ("SymmetryInversion", "SymmetryReflection", "SymmetryRotation")}
    RecOp.made = []
    ax = ctx.choice("axis", ["x", "Y", "z", (1.0, 2.0, -2.0)]) if what != "inv" else None
    order = ctx.choice("order", [2, 3, 4]) if what == "rot" else None
    try:
        for n in old:
            setattr(Q, n, type("Rec" + n, (RecOp,), {}))
        if what == "inv":
            new = b.create_invsym_fragments(cen, fragments=[f], unit=unit, check_mf=False)
        elif what == "mirror":
            new = b.create_mirrorsym_fragments(ax, cen, fragments=[f], unit=unit, check_mf=False)
        else:
            new = b.create_rotsym_fragments(order, ax, cen, fragments=[f], unit=unit, check_mf=False)
    finally:
        for n in old:
            setattr(Q, n, old[n])
    conv = lambda v: np.dot(v, ak) if unit == "latvec" else (np.asarray(v) / BOHR if unit.lower().startswith("ang") else np.asarray(v))
    want = conv(cen)
    if mesh is not None:
        want = want + np.dot((np.asarray(mesh) - 1) / 2, ak)
    made = RecOp.made
    kind = dict(inv="SymmetryInversion", mirror="SymmetryReflection", rot="SymmetryRotation")[what]
    ctx.true("one operation per image", len(made) == (order - 1 if what == "rot" else 1) and all(type(o).__name__ == "Rec" + kind for o in made))
    ctx.true("one fragment per operation", [x.sym_op for x in new] == made and all(x.sym_parent is f for x in new))
    if what != "inv":
        v = {"x": (1, 0, 0), "Y": (0, 1, 0), "z": (0, 0, 1)}.get(ax, ax) if isinstance(ax, str) else ax
        v = conv(np.asarray(v, dtype=float))
        v = v / np.sqrt(np.dot(v, v))
    for k, o in enumerate(made):
        ctx.eq("centre", o.kw["center"], want, tol=1e-7)
        if what == "mirror":
            n = o.kw["axis"] if "axis" in o.kw else o.args[0]
            ctx.eq("mirror axis", n / np.sqrt(np.dot(n, n)), v, tol=1e-9)
        elif what == "rot":
            ctx.eq("rotation vector", o.args[0], 2 * np.pi * (k + 1) / order * v, tol=1e-9)


T = ("thorough",)
SQ = [("rot", ((0, 0, 1), 4), 4), ("rot", ((0, 0, 1), 2), 2), ("rot", ((1, 0, 0), 2), 2), ("rot", ((1, 1, 0), 2), 2), ("mirror", (0, 0, 1), 2), ("mirror", (1, 0, 0), 2), ("mirror", (0, 2, 0), 2),
      ("mirror", (1, -1, 0), 2), ("inv", None, 2)]
CU = [("rot", ((1, 1, 1), 3), 3), ("rot", ((1, -1, 1), 3), 3), ("rot", ((0, 1, 0), 4), 4), ("rot", ((1, 0, 1), 2), 2), ("mirror", (0, 1, 1), 2), ("mirror", (1, 0, 0), 2), ("inv", None, 2)]
HEX = [("rot", ((0, 0, 1), 6), 6), ("rot", ((0, 0, -1), 3), 3), ("rot", ((0, 1, 0), 2), 2), ("mirror", (0, 1, 0), 2), ("inv", None, 2)]
TRI = [("rot", ((0, 0, 1), 3), 3), ("rot", ((1, 0, 0), 2), 2), ("mirror", (0, 1, 0), 2), ("mirror", (0, 0, 1), 2)]
HARNESSES = [
    Harness("trans[2x2x1 ortho]", h_trans, dict(lat="ortho", mesh=(2, 2, 1), kinds=K1), "2x2x1 cells, every vector, boundary and 3 atom orders", maxpaths=20000, tiers=T),
    Harness("trans[3x1x1 two atoms]", h_trans, dict(lat="tric", mesh=(3, 1, 1), kinds=K2, dim=1), "3 triclinic cells, 2 atoms (2+1 orbitals), 1D", maxpaths=20000),
    Harness("trans[2x2x1 hex 2D]", h_trans, dict(lat="hex", mesh=(2, 2, 1), kinds=K1, dim=2), "2x2 hexagonal cells, 2D", maxpaths=20000),
    Harness("trans[1x1x3]", h_trans, dict(lat="tric", mesh=(1, 1, 3), kinds=K1), "3 cells along the third vector", maxpaths=20000),
    Harness("trans[4x1x1 three atoms]", h_trans, dict(lat="hex", mesh=(4, 1, 1), kinds=K3, dim=1), "4 cells, 3 atoms", maxpaths=20000, tiers=T),
    Harness("trans[2x2x2]", h_trans, dict(lat="tric", mesh=(2, 2, 2), kinds=K1), "2x2x2 cells, every vector and boundary", maxpaths=20000, tiers=T, budget=700),
    Harness("compose[3x1x1]", h_compose, dict(lat="tric", mesh=(3, 1, 1), kinds=K2, dim=1), "3 cells, every pair of vectors", maxpaths=20000),
    Harness("compose[2x2x1]", h_compose, dict(lat="hex", mesh=(2, 2, 1), kinds=K1, dim=2), "2x2 cells, every pair of vectors", maxpaths=20000),
    Harness("kinds[3]", h_kinds, dict(mesh=(3, 1, 1), check_basis=True, check_label=False), "3 sites, any elements", maxpaths=20000),
    Harness("kinds[3 label]", h_kinds, dict(mesh=(3, 1, 1), check_basis=True, check_label=True), "3 sites, any labels", maxpaths=20000),
    Harness("kinds[2x2 nobasis]", h_kinds, dict(mesh=(2, 2, 1), check_basis=False, check_label=False), "4 sites, any elements", T, maxpaths=20000),
    Harness("tsym[3x1x1]", h_tsym, dict(lat="tric", mesh=(3, 1, 1), kinds=K2, dim=1), "3 cells, 2 atoms", maxpaths=20000),
    Harness("tsym[2x2x1]", h_tsym, dict(lat="hex", mesh=(2, 2, 1), kinds=K1, dim=2), "2x2 cells", maxpaths=20000),
    Harness("mesh[2x3x1]", h_mesh, dict(lat="tric", mesh=(2, 3, 1)), "2x3x1 mesh"),
    Harness("mesh[3x1x2]", h_mesh, dict(lat="ortho", mesh=(3, 1, 2)), "3x1x2 mesh"),
    Harness("equivalent[2]", h_equiv, dict(mesh=(2, 1, 1)), "2 cells of 2 atoms, any elements for three of them", maxpaths=20000),
    Harness("equivalent[3]", h_equiv, dict(mesh=(1, 3, 1), nsym=2), "3 cells of 2 atoms", T, maxpaths=20000, budget=700),
    Harness("point[square spd]", h_rot, dict(kind="square", bas="spd", cases=SQ, shifted=True), "4 atoms with s, p, d shells, shifted origin"),
    Harness("point[square mixed]", h_rot, dict(kind="square", bas="mixed", cases=SQ, shifted=False), "4+1 atoms with different shells"),
    Harness("point[cube gc]", h_rot, dict(kind="cube", bas="gc", cases=CU, shifted=True), "8 atoms with general contractions and f shells", T),
    Harness("point[hexa]", h_rot, dict(kind="hexa", bas="mixed", cases=HEX, shifted=True), "6+1 atoms", T),
    Harness("point[tri]", h_rot, dict(kind="tri", bas="gc", cases=TRI, shifted=True), "3 atoms with contractions and f shells"),
    Harness("point[pair]", h_rot, dict(kind="pair", bas="spd", cases=[("inv", None, 2), ("rot", ((3, -4, 0), 2), 2)], shifted=True), "2 atoms in general position"),
    Harness("reject", h_reject, {}, "2 atoms on a line, any positions and centre"),
    Harness("create[inversion]", h_create, dict(what="inv"), "any centre; 4 lattices, 3 supercells, 4 units"),
    Harness("create[mirror]", h_create, dict(what="mirror"), "any centre; 4 axes, 4 lattices, 3 supercells, 4 units"),
    Harness("create[rotation]", h_create, dict(what="rot"), "any centre; 3 orders, 4 axes, 4 lattices, 3 supercells, 4 units"),
]
