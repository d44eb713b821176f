"""C04: packing/unpacking and copying preserve objects exactly."""
import numpy as np
from vsym.harness import Harness
from vsym.npproxy import PArr
from checks.common import *
from vayesta.core.helper import pack_arrays, unpack_arrays
from vayesta.core.types.bosonic_orbitals import BosonicOrbitals, QuasiBosonOrbitals
from vayesta.core.types import Cluster

META = dict(assumptions=["float64 buffers are modelled as arrays of opaque elements: byte reinterpretation (numpy view) keeps the elements; integer metadata travel as the float with the same bits"])


def pk(ctx, a):
    """An array that can be packed: plain float array, or the symbolic stand-in for one."""
    if a is None:
        return None
    if isinstance(a, tuple):
        return tuple(pk(ctx, x) for x in a)
    return np.array(a, dtype=object).view(PArr) if ctx.symbolic else a


def flat(x):
    if x is None or isinstance(x, np.ndarray):
        return [x]
    return [z for y in x for z in flat(y)]


def eqs(ctx, lab, a, b):
    fa, fb = flat(a), flat(b)
    ctx.true(lab + " members", len(fa) == len(fb))
    for i, (x, y) in enumerate(zip(fa, fb)):
        if x is None or y is None:
            ctx.true(lab + " presence", x is None and y is None)
            continue
        ctx.true(lab + " shape", np.shape(x) == np.shape(y))
        ctx.eq("%s %d" % (lab, i), x, y)


def shares(a, b):
    return any(np.shares_memory(x, y) for x in flat(a) for y in flat(b)
               if x is not None and y is not None and x.size and y.size)


def h_arrays(ctx, nmax, cplx=False):
    """A list of up to nmax arrays (missing, scalar-shaped, empty, 1-3 dimensional)."""
    shapes = [None, (), (0,), (2,), (1, 2), (2, 0), (2, 1, 2)]
    n = ctx.int("n", 1, nmax)
    arrs = []
    for k in range(n):
        s = shapes[ctx.int("s%d" % k, 0, len(shapes) - 1)]
        if s is None:
            arrs.append(None)
            continue
        f = ctx.cplx if cplx and k % 2 == 0 else ctx.real
        a = np.asarray(f("a%d" % k, s), dtype=object if ctx.symbolic else None)
        arrs.append(pk(ctx, a))
    before = [None if a is None else np.array(a) for a in arrs]
    buf = pack_arrays(*arrs)
    ctx.true("one flat buffer", np.ndim(buf) == 1)
    out = unpack_arrays(buf)
    eqs(ctx, "roundtrip", out, before)
    eqs(ctx, "input unchanged", arrs, before)


def h_order(ctx):
    """Non-contiguous and Fortran-ordered members arrive in logical index order."""
    a = ctx.real("a", (2, 3))
    b = ctx.real("b", (2, 2, 2))
    A, B = pk(ctx, a), pk(ctx, b)
    out = unpack_arrays(pack_arrays(A.T, B.transpose(2, 0, 1), A[:, ::2], B[:, 1]))
    eqs(ctx, "order", out, [a.T, b.transpose(2, 0, 1), a[:, ::2], b[:, 1]])


def h_dtype(ctx):
    """Integer members keep their type (metadata path; contents solver-chosen)."""
    k = ctx.int("k", -2, 3)
    a = np.array([[k, 2], [3, -k]])
    out = unpack_arrays(pack_arrays(a, None, np.array([0.5, k])))
    ctx.true("dtype", out[0].dtype == a.dtype and out[2].dtype == np.dtype(float))
    ctx.true("int content", bool(np.all(out[0] == a)) and out[0].shape == a.shape and out[1] is None and out[2][1] == k)
    z = np.array([1j * k, 2.0])
    o, = unpack_arrays(pack_arrays(z))
    ctx.true("complex", o.dtype == z.dtype and bool(np.all(o == z)))


def mo_r(ctx, tag, no, nv, energy=True, occ=True):
    n = no + nv
    return SpatialOrbitals(pk(ctx, ctx.real("C" + tag, (n, n))), energy=pk(ctx, ctx.real("e" + tag, (n,))) if energy else None,
                           occ=pk(ctx, ctx.const(np.array([2.0] * no + [0.0] * nv))) if occ else None)


def mo_u(ctx, no, nv, energy=True, occ=True):
    n = [no[s] + nv[s] for s in (0, 1)]
    return SpinOrbitals(tuple(pk(ctx, ctx.real("C%d" % s, (n[s] + 1, n[s]))) for s in (0, 1)),
                        energy=tuple(pk(ctx, ctx.real("e%d" % s, (n[s],))) for s in (0, 1)) if energy else None,
                        occ=tuple(pk(ctx, ctx.const(np.array([1.0] * no[s] + [0.0] * nv[s]))) for s in (0, 1)) if occ else None)


def mo_fields(m):
    return [m.coeff, m.energy, m.occ]


def arrs(x):
    """deep plain copies"""
    if x is None:
        return None
    if isinstance(x, np.ndarray):
        return np.array(np.asarray(x))
    if isinstance(x, (tuple, list)):
        return [arrs(y) for y in x]
    return x


def h_orb(ctx, u):
    en, oc = ctx.boolean("energy"), ctx.boolean("occ")
    m = mo_u(ctx, (1, 2), (1, 1), en, oc) if u else mo_r(ctx, "", 1, 2, en, oc)
    ref = arrs(mo_fields(m))
    m2 = type(m).unpack(m.pack())
    eqs(ctx, "pack", mo_fields(m2), ref)
    if oc:
        ctx.true("counts", m2.nocc == m.nocc and m2.nvir == m.nvir and m2.norb == m.norb)
    m3 = m.copy()
    eqs(ctx, "copy", mo_fields(m3), ref)
    ctx.true("independent", not shares(mo_fields(m3), mo_fields(m)))
    ctx.true("maxocc", m3.maxocc == m.maxocc)
    mutate(ctx, mo_fields(m3))
    eqs(ctx, "original", mo_fields(m), ref)


def mutate(ctx, fields):
    d = ctx.scalar("delta", 1, 2)
    for x in flat(fields):
        if x is not None and x.size:
            x[...] = x + d


def h_orbcopy(ctx):
    C = ctx.real("C", (3, 3))
    lab = [ctx.choice("lab", ["a", "b"]), "x", "y"]
    m = SpatialOrbitals(C.copy(), energy=ctx.real("e", (3,)), occ=1, labels=lab, maxocc=1)
    c = m.copy()
    ctx.true("labels", c.labels == lab and c.labels is not m.labels)
    ctx.true("maxocc", c.maxocc == 1 and c.nelec == 1)
    s = SpinOrbitals((C.copy(), C.copy()), occ=(1, 2), labels=(lab, lab[::-1]), maxocc=(1, 1))
    c = s.copy()
    ctx.true("labels u", list(c.labels[0]) == lab and list(c.labels[1]) == lab[::-1])
    ctx.true("occ u", c.nocc == (1, 2) and c.nelec == (1, 2))


def wf_check(ctx, w, names, pack=True):
    get = lambda x: [getattr(x, n) for n in names] + [x.projector] + mo_fields(x.mo)
    ref = arrs(get(w))
    if pack:
        p = w.pack()
        ctx.true("flat", np.ndim(p) == 1)
        x = type(w).unpack(p)
        ctx.true("type", type(x) is type(w))
        eqs(ctx, "pack", get(x), ref)
    c = w.copy()
    ctx.true("copy type", type(c) is type(w))
    eqs(ctx, "copy", get(c), ref)
    ctx.true("independent", not shares(get(c), get(w)))
    mutate(ctx, get(c))
    eqs(ctx, "original", get(w), ref)


def opt(ctx, name, x):
    return x if ctx.boolean(name) else None


def h_rwf(ctx, kind, no, nv, pack=True):
    mo = mo_r(ctx, "", no, nv, ctx.boolean("energy"))
    P = lambda *a: pk(ctx, ctx.real(*a))
    pr = opt(ctx, "proj", P("p", (1, no)))
    o = 1 if pr is not None else no
    t1, t2 = P("t1", (o, nv)), P("t2", (o, no, nv, nv))
    if kind == "ccsd":
        w = wf.CCSD_WaveFunction(mo, t1, t2, l1=opt(ctx, "l1?", P("l1", (o, nv))), l2=opt(ctx, "l2?", P("l2", (o, no, nv, nv))), projector=pr)
        names = ["t1", "t2", "l1", "l2"]
    elif kind == "mp2":
        w, names = wf.MP2_WaveFunction(mo, t2, projector=pr), ["t2"]
    elif kind == "cisd":
        w, names = wf.CISD_WaveFunction(mo, ctx.scalar("c0"), t1, t2, projector=pr), ["c1", "c2"]
        ctx.eq("c0", w.copy().c0, w.c0)
    elif kind == "fci":
        w, names = wf.FCI_WaveFunction(mo, P("ci", (3, 3)), projector=pr), ["ci"]
    elif kind == "rdm":
        n = no + nv
        w, names = wf.RDM_WaveFunction(mo, P("dm1", (n, n)), P("dm2", (n,) * 4), projector=pr), ["dm1", "dm2"]
    wf_check(ctx, w, names, pack)


def h_uwf(ctx, kind, no, nv, pack=True):
    mo = mo_u(ctx, no, nv, ctx.boolean("energy"))
    P = lambda *a: pk(ctx, ctx.real(*a))
    pr = opt(ctx, "proj", (P("pa", (1, no[0])), P("pb", (1, no[1]))))
    o = (1, 1) if pr is not None else no
    n4 = pr is not None

    def amp(t):
        a1 = tuple(P("%s1%d" % (t, s), (o[s], nv[s])) for s in (0, 1))
        sp = [(0, 0), (0, 1), (1, 0), (1, 1)] if n4 else [(0, 0), (0, 1), (1, 1)]
        return a1, tuple(P("%s2%d%d" % (t, s, q), (o[s], no[q], nv[s], nv[q])) for s, q in sp)
    t1, t2 = amp("t")
    if kind == "ccsd":
        l1, l2 = amp("l")
        lam = ctx.boolean("lam")
        w = wf.CCSD_WaveFunction(mo, t1, t2, l1=l1 if lam else None, l2=l2 if lam else None, projector=pr)
        names = ["t1", "t2", "l1", "l2"]
    elif kind == "mp2":
        w, names = wf.MP2_WaveFunction(mo, t2, projector=pr), ["t2"]
    elif kind == "cisd":
        w, names = wf.CISD_WaveFunction(mo, ctx.scalar("c0"), t1, t2, projector=pr), ["c1", "c2"]
        ctx.eq("c0", w.copy().c0, w.c0)
    elif kind == "fci":
        w, names = wf.FCI_WaveFunction(mo, P("ci", (3, 3)), projector=pr), ["ci"]
    elif kind == "rdm":
        n = [no[s] + nv[s] for s in (0, 1)]
        w = wf.RDM_WaveFunction(mo, tuple(P("d%d" % s, (n[s],) * 2) for s in (0, 1)),
                                tuple(P("g%d%d" % (s, q), (n[s], n[s], n[q], n[q])) for s, q in ((0, 0), (0, 1), (1, 1))), projector=pr)
        names = ["dm1", "dm2"]
    wf_check(ctx, w, names, pack)


def h_cluster(ctx):
    a, f = ctx.real("a", (4, 2)), ctx.real("f", (4, 2))
    cl = Cluster.from_coeffs(a[:, :1].copy(), a[:, 1:].copy(), f[:, :1].copy(), f[:, 1:].copy())
    b = opt(ctx, "bosons", BosonicOrbitals(ctx.real("bx", (2, 3)), coeff_dex=opt(ctx, "dex", ctx.real("bd", (2, 3))), energy=ctx.real("be", (2,))))
    cl = type(cl)(cl.active_orbitals, cl.frozen_orbitals, bosons=b)
    get = lambda c: [c.c_active, c.c_frozen] + ([] if c.bosons is None else [c.bosons.coeff_ex, c.bosons.coeff_dex, c.bosons.energy])
    ctx.true("bosons kept", cl.bosons is b and cl.inc_bosons == (b is not None))
    ref = arrs(get(cl))
    c = cl.copy()
    eqs(ctx, "copy", get(c), ref)
    ctx.true("independent", not shares(get(c), get(cl)))
    mutate(ctx, get(c))
    eqs(ctx, "original", get(cl), ref)
    # quasi-bosons: own fermionic orbitals, spin resolved
    mo = SpinOrbitals((ctx.real("Ca", (3, 2)), ctx.real("Cb", (3, 2))), occ=(1, 1))
    q = QuasiBosonOrbitals(mo, ctx.real("q", (2, 2)), coeff_dex=opt(ctx, "dexq", ctx.real("qd", (2, 2))))
    gq = lambda x: [x.forbitals.coeff, x.coeff_ex, x.coeff_dex]
    ref = arrs(gq(q))
    qc = q.copy()
    eqs(ctx, "quasi copy", gq(qc), ref)
    ctx.true("quasi independent", not shares(gq(qc), gq(q)))
    Ma, Mb = ctx.real("Ma", (2, 3)), ctx.real("Mb", (2, 3))
    qt = q.fbasis_transform((lambda x: np.dot(Ma, x), lambda x: np.dot(Mb, x)))
    eqs(ctx, "quasi transform", [qt.forbitals.coeff], [[np.dot(Ma, ref[0][0]), np.dot(Mb, ref[0][1])]])
    eqs(ctx, "quasi source", gq(q), ref)


def h_uhf_cluster(ctx):
    A = [ctx.real("a%d" % s, (4, 2 + s)) for s in (0, 1)]
    F = [ctx.real("f%d" % s, (4, 2 - s)) for s in (0, 1)]
    cl = Cluster.from_coeffs(tuple(x[:, :1].copy() for x in A), tuple(x[:, 1:].copy() for x in A),
                             tuple(x[:, :1].copy() for x in F), tuple(x[:, 1:].copy() for x in F))
    get = lambda c: [c.c_active, c.c_frozen]
    ref = arrs(get(cl))
    eqs(ctx, "build", ref, [A, F])
    c = cl.copy()
    eqs(ctx, "copy", get(c), ref)
    ctx.true("independent", not shares(get(c), get(cl)))
    ctx.true("counts", c.nocc_active == (1, 1) and c.nvir_active == (1, 2) and c.norb_frozen == (2, 1) and c.norb_total == (4, 4))
    ctx.eq("slices", list(np.hstack((c.c_frozen_occ[1], c.c_active[1], c.c_frozen_vir[1]))), list(np.hstack((F[1][:, :1], A[1], F[1][:, 1:]))))


Q, T = ("quick", "thorough"), ("thorough",)
HARNESSES = [
    Harness("arrays_2", h_arrays, dict(nmax=2), "1-2 members, 7 shapes/missing each, contents symbolic"),
    Harness("arrays_cplx", h_arrays, dict(nmax=2, cplx=True), "1-2 members, complex contents"),
    Harness("arrays_3", h_arrays, dict(nmax=3), "1-3 members", T, budget=600),
    Harness("order", h_order, {}, "non-contiguous members"),
    Harness("dtype", h_dtype, {}, "integer/complex members, one solver-chosen integer", concrete_np=True),
    Harness("orb_r", h_orb, dict(u=False), "3 orbitals, optional energies/occupations"),
    Harness("orb_u", h_orb, dict(u=True), "(2,3) orbitals, optional energies/occupations"),
    Harness("orb_copy", h_orbcopy, {}, "labels and maximum occupation"),
    Harness("cluster_r", h_cluster, {}, "2 active, 2 frozen, optional bosons"),
    Harness("cluster_u", h_uhf_cluster, {}, "different alpha/beta sizes"),
]
for k in ("ccsd", "mp2", "cisd", "fci", "rdm"):
    HARNESSES.append(Harness("r" + k, h_rwf, dict(kind=k, no=2, nv=1, pack=k in ("ccsd", "mp2", "rdm")), "nocc=2 nvir=1, every pattern of optional members"))
    HARNESSES.append(Harness("u" + k, h_uwf, dict(kind=k, no=(2, 1), nv=(1, 2), pack=k in ("ccsd", "mp2")), "nocc=(2,1) nvir=(1,2), every pattern of optional members"))
