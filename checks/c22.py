"""C22: self-consistency updates. The real Update/MixUpdate/DIISUpdate, perform_SDP_fit, DMET.update_vcorr,
DMET.kernel (self-consistent), SCMF.kernel/check_convergence, p-DMET and Brueckner orbital updates run on symbolic
densities, potentials and orbitals. cvxpy is replaced by a recorder whose variables hold arbitrary symbolic values, so the
assembled problem is decided for every feasible and infeasible point; DIIS by an arbitrary affine combination."""
import types
import numpy as np
from fractions import Fraction as Q
from vsym.harness import Harness
from checks.common import *
from checks.c13 import NullLog
from checks.c05 import ratC
import vayesta.dmet
from vayesta.dmet import updates, sdp_sc, dmet as dmetmod, udmet as udmetmod
from vayesta.dmet.fragment import DMETFragment
from vayesta.dmet.ufragment import UDMETFragment
from vayesta.core.scmf import scmf as scmfmod, pdmet, brueckner
from vayesta.core import util

META = dict(assumptions=["cvxpy replaced by a recorder: its variables take arbitrary (symbolic) values, its solver is not modelled",
                         "pyscf's DIIS replaced by an arbitrary affine combination of the inputs it was given",
                         "eigen-decompositions answered from prepared ones (V diag(e) V^T with arbitrary V from a bounded family, arbitrary ordered e); column signs are a gauge"])


# ------------------------------------------------------------------ updates
SHAPES = dict(r=[(2, 2), (1, 1)], u=[((2, 2), (1, 1)), ((1, 1), (2, 2))], mix=[(2, 2), ((1, 1), (2, 1)), [(1, 2)]], single=[(2, 2)],
              deep=[[(1, 1), ((2, 1), (1, 2))], (1, 1)])


def fill(ctx, name, shapes, seq=list):
    out = []
    for i, s in enumerate(shapes):
        nm = "%s_%d" % (name, i)
        out.append(ctx.real(nm, s) if isinstance(s[0], int) else fill(ctx, nm, s, type(s)))
    return seq(out)


def leaves(x):
    return [x] if isinstance(x, np.ndarray) else [y for z in x for y in leaves(z)]


def struct(x):
    return x.shape if isinstance(x, np.ndarray) else [struct(y) for y in x]


class AffDIIS:
    """arbitrary affine combinations of everything seen; exact for the first vector and whenever all vectors agree"""

    def __init__(self, ctx, incore=True):
        self.ctx, self.seen = ctx, []

    def update(self, x, xerr=None):
        self.seen.append(np.array(x))
        k = len(self.seen)
        w = [self.ctx.scalar("w%d_%d" % (k, i)) for i in range(k - 1)]
        r = self.seen[-1] * (1 - sum(w, 0))
        for wi, v in zip(w, self.seen):
            r = r + v * wi
        return r


def fold(w, vs):
    r = vs[0] * w[0]
    for a, v in zip(w[1:], vs[1:]):
        r = r + a * v
    return r


def h_update(ctx, kind, shape, n):
    shapes = SHAPES[shape]
    old = updates.diis
    made = []

    def mk(*a, **kw):
        made.append(AffDIIS(ctx))
        return made[-1]
    updates.diis = types.SimpleNamespace(DIIS=mk)
    try:
        if kind == "mix":
            al = ctx.scalar("alpha", 0, 1)
            u = updates.MixUpdate(al)
        else:
            u = updates.DIISUpdate()
    finally:
        updates.diis = old
    seq = [fill(ctx, "x%d" % k, shapes) for k in range(n)]
    keep = [[np.array(y) for y in leaves(x)] for x in seq]
    for k in range(n):
        new, diff = u.update(seq[k])
        ctx.true("structure kept", struct(new) == struct(seq[k]))
        for q, (a, b) in enumerate(zip(leaves(new), keep[k])):
            if k == 0:
                ctx.eq("first update returns its input", a, b)
            elif kind == "mix":
                ctx.eq("mixed", a, al * b + (1 - al) * keep[k - 1][q])
            else:
                w = [ctx.scalar("w%d_%d" % (k + 1, i)) for i in range(k)]
                ctx.eq("extrapolated", a, fold(w + [1 - sum(w, 0)], [keep[i][q] for i in range(k + 1)]))
        prev = [0 * y for y in keep[0]] if k == 0 else keep[k - 1]
        d2 = sum(((b - p) * (b - p)).sum() for b, p in zip(keep[k], prev))
        ctx.eq("reported change", diff * diff, d2)
        for a, b in zip(leaves(seq[k]), keep[k]):
            ctx.eq("input not modified", a, b)
    again, diff = u.update(fill(ctx, "x%d" % (n - 1), shapes))
    if kind == "mix":
        ctx.eq("no change reported", diff, 0)
        for a, b in zip(leaves(again), keep[-1]):
            ctx.eq("fixed point", a, b)


def h_fixed(ctx, kind, shape):
    """The same densities again and again are returned unchanged; electron number is kept."""
    old = updates.diis
    updates.diis = types.SimpleNamespace(DIIS=lambda **kw: AffDIIS(ctx))
    u = updates.MixUpdate(ctx.scalar("alpha", 0, 1)) if kind == "mix" else updates.DIISUpdate()
    updates.diis = old
    x = fill(ctx, "x", SHAPES[shape])
    for k in range(3):
        new, diff = u.update(x)
        for a, b in zip(leaves(new), leaves(x)):
            ctx.eq("fixed point", a, b)
        if k:
            ctx.eq("no change", diff, 0)


# ------------------------------------------------------------------ semidefinite fit
class Expr:
    __array_ufunc__ = None

    def __init__(self, v):
        self.v = np.asarray(v, dtype=object)

    @staticmethod
    def val(x):
        return x.v if isinstance(x, Expr) else np.asarray(x, dtype=object)

    @property
    def value(self):
        return self.v

    @property
    def shape(self):
        return self.v.shape

    @property
    def T(self):
        return Expr(self.v.T)

    def _op(f):
        return lambda self, o: Expr(f(self.v, Expr.val(o)))

    def _rop(f):
        return lambda self, o: Expr(f(Expr.val(o), self.v))
    __add__ = _op(lambda a, b: a + b)
    __radd__ = _rop(lambda a, b: a + b)
    __sub__ = _op(lambda a, b: a - b)
    __rsub__ = _rop(lambda a, b: a - b)
    __mul__ = _op(lambda a, b: a * b)
    __rmul__ = _rop(lambda a, b: a * b)
    __matmul__ = _op(lambda a, b: np.dot(a, b))
    __rmatmul__ = _rop(lambda a, b: np.dot(a, b))
    __neg__ = lambda self: Expr(-self.v)
    __rshift__ = lambda self, o: ("psd", self.v - Expr.val(o))
    __lshift__ = lambda self, o: ("psd", Expr.val(o) - self.v)
    __eq__ = lambda self, o: ("eq", self.v - Expr.val(o))
    __ge__ = lambda self, o: ("ge", self.v - Expr.val(o))
    __le__ = lambda self, o: ("ge", Expr.val(o) - self.v)
    __hash__ = None


class FakeCP:
    OPTIMAL, OPTIMAL_INACCURATE, SCS = "optimal", "optimal_inaccurate", "SCS"

    def __init__(self, ctx):
        self.ctx, self.vars, self.problems = ctx, [], []

    def Variable(self, shape=(), PSD=False, symmetric=False, **kw):
        k = len(self.vars)
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        v = self.ctx.sym2("var%d" % k, shape[0]) if PSD or symmetric else self.ctx.real("var%d" % k, shape)
        self.vars.append((Expr(v), PSD, shape))
        return self.vars[-1][0]

    @staticmethod
    def matmul(a, b):
        return Expr(np.dot(Expr.val(a), Expr.val(b)))

    @staticmethod
    def trace(a):
        return Expr(np.trace(Expr.val(a)))

    @staticmethod
    def sum(a):
        return Expr(np.sum(Expr.val(a)))

    @staticmethod
    def Minimize(e):
        return ("min", e.v)

    @staticmethod
    def Maximize(e):
        return ("min", -e.v)

    def Problem(self, obj, cons):
        p = types.SimpleNamespace(obj=obj, cons=list(cons), status="optimal", value=0)
        p.solve = lambda **kw: p.__dict__.setdefault("solved", True)
        self.problems.append(p)
        return p


def rmetric(ctx, n):
    """overlap S = L L^T with fixed rational L, and S-orthonormal orbitals L^-T R (R rational orthogonal, one angle)"""
    L = np.eye(n, dtype=int).astype(object)
    for i in range(n):
        L[i, i] = Q([2, 1, 3, 1][i % 4])
        for j in range(i):
            L[i, j] = Q([1, -1, 2][(i + j) % 3], 2)
    Li = np.eye(n, dtype=int).astype(object)
    for i in range(n):
        for j in range(i + 1):
            if i == j:
                Li[i, i] = 1 / Q(L[i, i])
            else:
                Li[i, j] = -sum(L[i, k] * Li[k, j] for k in range(j, i)) / L[i, i]
    S = np.dot(L, L.T)
    R = ctx.orth("R", n)
    if not ctx.symbolic:
        S, Li = S.astype(float), Li.astype(float)
    return S, np.dot(Li.T, R)


def h_sdp(ctx, classes, n):
    """perform_SDP_fit: whatever the solver returns, the potential is sum_f S C_f u C_f^T S with the same symmetric block
    on symmetry-equivalent fragments and nothing between or outside fragments; the problem posed is min E with
    E = sum_f tr(dm_f u_f) - alpha N + tr(z S^-1), z >= 0, F + u + z - alpha S >= 0."""
    S, C = rmetric(ctx, n)
    F = ctx.sym2("F", n)
    proj, k = [], 0
    for size, mult in classes:
        proj.append([C[:, k + i * size:k + (i + 1) * size] for i in range(mult)])
        k += size * mult
    dms = [ctx.sym2("dm%d" % i, size) for i, (size, _) in enumerate(classes)]
    cp = FakeCP(ctx)
    old = sdp_sc.cp
    sdp_sc.cp = cp
    nel = 2
    try:
        u = sdp_sc.perform_SDP_fit(nel, F, proj, dms, S, NullLog())
    finally:
        sdp_sc.cp = old
    ctx.true("one problem, solved", len(cp.problems) == 1 and cp.problems[0].__dict__.get("solved"))
    p = cp.problems[0]
    u = np.asarray(u)
    ctx.eq("potential symmetric", u, u.T)
    blocks = np.dot(C.T, np.dot(u, C))
    zs = [v for v, psd, _ in cp.vars if psd]
    ctx.true("one positive semidefinite slack", len(zs) == 1)
    z = zs[0].v
    psd = [c for t, c in p.cons if t == "psd"]
    ctx.true("one matrix inequality", len(psd) == 1 and len(p.cons) == 2)
    al = [v.v.reshape(-1)[0] for v, q, s in cp.vars if s in ((1,), ()) and not q][:1]
    ctx.true("scalar multiplier", len(al) == 1)
    al = al[0]
    ctx.eq("matrix inequality", psd[0], F + u + z - al * S)
    k, tot, tru, us = 0, 0, 0, []
    mask = np.zeros((n, n), dtype=bool)
    for (size, mult), dm in zip(classes, dms):
        first = None
        for i in range(mult):
            sl = slice(k, k + size)
            mask[sl, sl] = True
            blk = blocks[sl, sl]
            if first is None:
                first = blk
                us.append(blk)
            ctx.eq("equivalent fragments carry the same block", blk, first)
            tot = tot + sum(dm[a, b] * blk[b, a] for a in range(size) for b in range(size))
            k += size
    for i in range(n):
        for j in range(n):
            if not mask[i, j]:
                ctx.eq("nothing outside the fragment blocks", blocks[i, j], 0)
    zC = np.dot(C.T, np.dot(z, C))
    full = [x for x in [np.dot(C, C.T)]]
    obj = np.asarray(p.obj[1]).reshape(-1)
    ctx.true("scalar objective", p.obj[0] == "min" and obj.size == 1)
    ctx.eq("objective", obj[0], tot - al * nel + sum(full[0][a, b] * z[b, a] for a in range(n) for b in range(n)))
    lin = [np.asarray(c).reshape(-1)[0] for t, c in p.cons if t == "eq"]
    ctx.true("one linear constraint", len(lin) == 1)
    ctx.eq("it fixes the overall shift of the potential", lin[0], sum(np.trace(b) for b in us))


class F0:
    pass


def h_vcorr(ctx, spin, n):
    """update_vcorr: the fit is posed per spin channel with that channel's electron number, Fock matrix, fragment orbitals
    (all symmetry images) and spin density matrices."""
    u = spin == "u"
    cls = vayesta.dmet.UDMET if u else vayesta.dmet.RDMET
    S = ctx.sym2("S", n)
    fock = np.array([ctx.sym2("F%d" % s, n) for s in range(2)]) if u else ctx.sym2("F", n)
    c = lambda nm: tuple(ctx.real(nm + "%d" % s, (n, 1)) for s in range(2)) if u else ctx.real(nm, (n, 1))
    par = [types.SimpleNamespace(c_frag=c("p%d" % i)) for i in range(2)]
    ch = [[types.SimpleNamespace(c_frag=c("c%d" % i))] if i == 0 else [] for i in range(2)]
    dms = [tuple(ctx.sym2("d%d_%d" % (i, s), 1) for s in range(2)) if u else ctx.sym2("d%d" % i, 1) for i in range(2)]
    calls = []

    def fit(nelec, f, proj, rdms, ovlp, log):
        k = len(calls)
        calls.append((nelec, f, proj, rdms, ovlp))
        return ctx.sym2("res%d" % k, n)
    d = types.SimpleNamespace(log=NullLog(), mol=types.SimpleNamespace(nelec=(3, 2) if u else (2, 2)), get_ovlp=lambda: S,
                              get_symmetry_parent_fragments=lambda *a: par, get_symmetry_child_fragments=lambda *a: ch)
    d.get_impurity_coeffs = lambda: cls.get_impurity_coeffs(d)
    mod = udmetmod if u else dmetmod
    old = mod.perform_SDP_fit
    mod.perform_SDP_fit = fit
    try:
        v = cls.update_vcorr(d, fock, dms)
    finally:
        mod.perform_SDP_fit = old
    ns = 2 if u else 1
    ctx.true("one fit per spin channel", len(calls) == ns)
    for s in range(ns):
        ne, f, proj, rd, ov = calls[s]
        ctx.true("electrons of the channel", ne == (3, 2)[s] if u else ne == 2)
        ctx.eq("Fock matrix", f, fock[s] if u else fock)
        ctx.eq("overlap", ov, S)
        for i in range(2):
            orb = [par[i]] + ch[i]
            ctx.true("all images", len(proj[i]) == len(orb))
            for q, o in enumerate(orb):
                ctx.eq("orbitals", proj[i][q], o.c_frag[s] if u else o.c_frag)
            ctx.eq("spin density matrix", rd[i], dms[i][s] if u else dms[i] / 2)
        ctx.eq("result", v[s] if u else v, ctx.sym2("res%d" % s, n))


def h_hldm(ctx, spin, n, nc):
    """The high-level density matrix of a fragment is the cluster density matrix projected on the fragment orbitals."""
    u = spin == "u"
    ns = 2 if u else 1
    cf = [ctx.real("cf%d" % s, (n, 1 + s)) for s in range(ns)]
    ca = [ctx.real("ca%d" % s, (n, nc)) for s in range(ns)]
    D = [ctx.sym2("D%d" % s, nc) for s in range(ns)]
    S = ctx.sym2("S", n)
    f = types.SimpleNamespace(c_frag=tuple(cf) if u else cf[0], cluster=types.SimpleNamespace(c_active=tuple(ca) if u else ca[0]),
                              results=types.SimpleNamespace(dm1=tuple(D) if u else D[0]), mf=types.SimpleNamespace(get_ovlp=lambda: S))
    cls = UDMETFragment if u else DMETFragment
    f.get_frag_hl_dm = lambda: cls.get_frag_hl_dm(f)
    dm = f.get_frag_hl_dm()
    ne = 0
    for s in range(ns):
        r = np.dot(cf[s].T, np.dot(S, ca[s]))
        ex = np.dot(r, np.dot(D[s], r.T))
        ctx.eq("projected", dm[s] if u else dm, ex)
        ne = ne + np.trace(ex)
    ctx.eq("electrons", cls.get_nelectron_hl(f), ne)


def h_dmet(ctx, spin, charge, maxit):
    """Self-consistent DMET.kernel: every iteration after the first runs in the mean field of Fock + potential with the
    potential of the previous iteration, converged is set exactly when the potential changed by less than the tolerance."""
    u = spin == "u"
    cls = vayesta.dmet.UDMET if u else vayesta.dmet.RDMET
    n = 1
    tol = Q(1, 16) if ctx.symbolic else 1 / 16
    d = cls.__new__(cls)
    d.log = NullLog()
    mix = ctx.boolean("mixing")
    d.opts = cls.Options(maxiter=maxit, charge_consistent=charge, diis=not mix, conv_tol=tol, max_elec_err=1)
    d.vcorr = None
    d.solver = "FCI"
    d.cluster_results = {}
    hist = []
    shape = (2, n, n) if u else (n, n)
    S = ctx.sym2("S", n)

    class Frag:
        id = 0

        def make_bath(self):
            hist.append(("bath",))
        make_cluster = lambda self: None

        def kernel(self, construct_bath=True, chempot=None):
            self.results = types.SimpleNamespace(e1=0, e2=0)
            return self.results
        get_nelectron_hl = lambda self: 2
        get_fragment_mf_energy = lambda self: 0

        def get_frag_hl_dm(self):
            k = sum(1 for h in hist if h[0] == "dm")
            x = ctx.real("hl%d" % k, shape)
            hist.append(("dm", x))
            return x
    fr = [Frag()]
    nf = [0]

    def get_fock(*a):
        x = ctx.real("fock%d" % nf[0], shape)
        nf[0] += 1
        hist.append(("fock", x))
        return x

    def eig(h, s):
        k = sum(1 for q in hist if q[0] == "eig")
        ctx.eq("overlap of the mean field", s, S)
        hist.append(("eig", np.array(h)))
        return "e%d" % k, "c%d" % k

    def update_vcorr(self, fock, rdms):
        k = sum(1 for q in hist if q[0] == "v")
        v = ctx.real("v%d" % k, shape)
        hist.append(("v", v, np.array(fock), rdms))
        return v
    over = dict(nfrag=1, get_fock=get_fock, get_symmetry_parent_fragments=lambda *a: fr,
                get_symmetry_child_fragments=lambda *a: [[]], _check_fragment_nelectron=lambda *a: (1, 1) if u else 2,
                get_fragments=lambda *a, **k: fr, build_screened_eris=lambda *a: None, print_results=lambda *a: None,
                e_tot=0.0, mf=types.SimpleNamespace(eig=eig), nao=n, get_ovlp=lambda *a: S,
                reset=lambda *a, **kw: hist.append(("reset",)), update_mf=lambda c, e=None, **kw: hist.append(("mf", c, e)))
    sub = type("Sub", (cls,), {k: (property(lambda self, v=v: v) if not callable(v) else (lambda self, *a, v=v, **kw: v(*a, **kw))) for k, v in over.items()})
    sub.update_vcorr = update_vcorr
    d.__class__ = sub
    old = updates.diis
    updates.diis = types.SimpleNamespace(DIIS=lambda **kw: AffDIIS(ctx))
    try:
        d.kernel()
    finally:
        updates.diis = old
    vs = [h for h in hist if h[0] == "v"]
    eigs = [h[1] for h in hist if h[0] == "eig"]
    focks = [h[1] for h in hist if h[0] == "fock"]
    dms = [h[1] for h in hist if h[0] == "dm"]
    it = len(vs)
    ctx.true("iterations", it == d.iteration and it <= maxit and len(eigs) == it - 1 and len(dms) == it)
    prev = 0 * focks[0]
    for k in range(it):
        if k:
            # with charge consistency the Fock matrix is that of the mean field of the previous iteration
            ctx.eq("mean field of iteration", eigs[k - 1], focks[(k - 1) if charge else 0] + prev)
        ctx.eq("fit uses the current Fock matrix", vs[k][2], focks[k if charge else 0])
        if k == 0:
            ctx.eq("first fit uses the densities themselves", vs[0][3][0], dms[0])
        elif mix:
            ctx.eq("mixed densities", vs[k][3][0], (dms[k] + dms[k - 1]) / 2)
        d2 = ((vs[k][1] - prev) * (vs[k][1] - prev)).sum()
        if k < it - 1:
            ctx.true("not converged yet", d2 >= tol * tol)
            prev = vs[k][1]
    ctx.true("converged flag", d2 < tol * tol if d.converged else d2 >= tol * tol)
    if not d.converged:
        ctx.true("all iterations used", it == maxit)
    order = [h[0] for h in hist if h[0] in ("reset", "mf", "bath", "v")]
    ctx.true("order", order == (["bath", "v"] + ["reset", "mf", "bath", "v"] * (it - 1)))
    ctx.true("orbitals of the diagonalisation", [h[1:] for h in hist if h[0] == "mf"] == [("c%d" % k, "e%d" % k) for k in range(it - 1)])


# ------------------------------------------------------------------ self-consistent mean fields
def nosign(c, inplace=True):
    return c, None


def emb0(S, **kw):
    return types.SimpleNamespace(get_ovlp=lambda *a: S, log=NullLog(), kernel=None, mf=types.SimpleNamespace(mo_coeff=None), **kw)


def desc(ctx, name, n):
    o = [ctx.scalar("%s_%d" % (name, i), Q(i, 8 * n) if ctx.symbolic else i / (8 * n), Q(2 * i + 1, 16 * n) + 1 if ctx.symbolic else (2 * i + 1) / (16 * n) + 1) for i in range(n)]
    return o


def h_pdmet(ctx, spin, n, nocc, diis):
    """p-DMET: the new orbitals are orthonormal natural orbitals of the global density matrix, the occupied ones those of
    largest occupation; extrapolation happens in the basis of the initial orbitals."""
    u = spin == "u"
    ns = 2 if u else 1
    S, C0 = rmetric(ctx, n)
    c0 = [C0 for s in range(ns)]
    R = [ctx.orth("M%d" % s, n) for s in range(ns)]
    cur = [np.dot(c, r) for c, r in zip(c0, R)]
    V = [ctx.orth("V%d" % s, n) for s in range(ns)]
    dm0, dms, occs = [], [], []
    for s in range(ns):
        e = [ctx.scalar("e%d_%d" % (s, i), 0, 2) for i in range(n)]
        if ctx.symbolic:
            for i in range(n - 1):
                ctx.assume(e[i + 1] - e[i] >= Q(1, 1024))
        else:
            e = [e[0] + 2 * i for i in range(n)] if any(e[i + 1] - e[i] < 1e-3 for i in range(n - 1)) else e
        e = np.array(e)
        d = np.dot(V[s] * e, V[s].T)     # in the initial orbitals
        ctx.prepare_eigh(d, e, V[s])
        occs.append(e)
        dm0.append(d)
    seen = []

    class D:
        def __init__(self, s):
            self.s = s

        def update(self, x):
            seen.append((self.s, x))
            return dm0[self.s]
    for s in range(ns):
        src = ctx.sym2("raw%d" % s, n) if diis else dm0[s]
        dms.append((src, np.dot(R[s].T, np.dot(src, R[s]))))
    cls = pdmet.PDMET_UHF if u else pdmet.PDMET_RHF
    o = cls(emb0(S), diis=diis)
    old = pdmet.fix_orbital_sign
    pdmet.fix_orbital_sign = nosign
    mo = np.array([1] * nocc + [0] * (n - nocc))
    try:
        if u:
            new = o.update_mo_coeff(tuple(cur), (mo, mo), diis=(D(0), D(1)) if diis else None, dm1=tuple(x[1] for x in dms), mo_orig=tuple(c0))
        else:
            new = [o.update_mo_coeff(cur[0], 2 * mo, diis=D(0) if diis else None, dm1=dms[0][1], mo_orig=c0[0])]
    finally:
        pdmet.fix_orbital_sign = old
    for s in range(ns):
        if diis:
            ctx.true("own extrapolation", seen[s][0] == s)
            ctx.eq("extrapolated in the initial orbitals", seen[s][1], dms[s][0])
        c = np.asarray(new[s])
        ctx.eq("orthonormal", np.dot(c.T, np.dot(S, c)), np.eye(n))
        W = np.dot(V[s], np.eye(n)[:, n - nocc:].astype(int))
        P = np.dot(c0[s], np.dot(W, np.dot(W.T, c0[s].T)))
        ctx.eq("occupied space has the largest occupations", np.dot(c[:, :nocc], c[:, :nocc].T), P)


def h_brueckner(ctx, spin, no, nv, diis):
    """Brueckner: the new occupied space is the span of C_occ + (1-damping) C_vir t1^T, orbitals are orthonormal."""
    u = spin == "u"
    ns = 2 if u else 1
    n = no + nv
    S, C0 = rmetric(ctx, n)
    damp = ctx.choice("damp", [0, Q(1, 2) if ctx.symbolic else 0.5])
    k = min(no, nv)
    t1s, Ps, cur = [], [], []
    sub = []
    for s in range(ns):
        R = ctx.orth("M%d" % s, n)
        C = np.dot(C0, R)
        cur.append(C)
        U, W = ctx.orth("U%d" % s, no), ctx.orth("W%d" % s, nv)
        U, W = np.asarray(U, dtype=object), np.asarray(W, dtype=object)
        T = np.zeros((no, nv), dtype=object)
        ev, X = [], []
        for i in range(no):
            if i < k:
                co, si = ctx.rot2("th%d_%d" % (s, i))
                ctx.assume(co >= Q(1, 4))
                T[i, i] = si / co / (1 - damp)
            else:
                co, si = 1, 0
            x = np.dot(C[:, :no], U[:, i]) * co
            if i < k:
                x = x + np.dot(C[:, no:], W[:, i]) * si
            X.append(x)
            ev.append(1 / (co * co))
        t1 = np.dot(U, np.dot(T, W.T))
        X = np.array(X).T
        # virtual complement
        Y = []
        for a in range(nv):
            if a < k:
                co, si = ctx.rot2("th%d_%d" % (s, a))
                Y.append(np.dot(C[:, no:], W[:, a]) * co - np.dot(C[:, :no], U[:, a]) * si)
            else:
                Y.append(np.dot(C[:, no:], W[:, a]))
        Y = np.array(Y).T
        b = C[:, :no] + (1 - damp) * np.dot(C[:, no:], t1.T)
        full = np.concatenate([Y, X], axis=1)
        ctx.prepare_eigh(np.dot(b, b.T), np.array([0] * nv + ev, dtype=object), full, b=S, typ=2)
        r = np.dot(C.T, np.dot(S, full))
        ctx.prepare_eigh(np.dot(r[:, nv:], r[:, nv:].T), np.array([0] * nv + [1] * no, dtype=object), r)
        if diis == "dm1":
            r0 = np.dot(C0.T, np.dot(S, full))
            ctx.prepare_eigh(np.dot(r0[:, nv:], r0[:, nv:].T), np.array([0] * nv + [1] * no, dtype=object), r0)
        t1s.append(t1 if ctx.symbolic else t1.astype(float))
        Ps.append(np.dot(X, X.T))
    seen = []

    class D:
        def __init__(self, s):
            self.s = s

        def update(self, x, xerr=None):
            seen.append((self.s, np.array(x)))
            return x
    cls = brueckner.Brueckner_UHF if u else brueckner.Brueckner_RHF
    o = cls(emb0(S), diis=bool(diis), damping=damp, diis_obj=diis or "dm1")
    old = brueckner.fix_orbital_sign
    brueckner.fix_orbital_sign = nosign
    try:
        if u:
            new = o.update_mo_coeff(tuple(cur), (None, None), diis=(D(0), D(1)) if diis else None, t1=tuple(t1s), mo_orig=(C0, C0))
        else:
            new = [o.update_mo_coeff(cur[0], None, diis=D(0) if diis else None, t1=t1s[0], mo_orig=C0)]
    finally:
        brueckner.fix_orbital_sign = old
    for s in range(ns):
        c = np.asarray(new[s])
        ctx.eq("orthonormal", np.dot(c.T, np.dot(S, c)), np.eye(n))
        ctx.eq("occupied space", np.dot(c[:, :no], c[:, :no].T), Ps[s])
        if diis == "dm1":
            q = np.dot(C0.T, S)
            ctx.true("own extrapolation", seen[s][0] == s)
            ctx.eq("extrapolated density in the initial orbitals", seen[s][1], np.dot(q, np.dot(Ps[s], q.T)))


def h_sign(ctx, n, m, spin=False):
    """fix_orbital_sign only flips columns, so that their largest element is positive."""
    C = [ctx.real("C%d" % s, (n, m)) for s in range(2 if spin else 1)]
    ref = [np.array(c) for c in C]
    out, sg = util.fix_orbital_sign(tuple(C) if spin else C[0])
    for s in range(len(C)):
        o, g = (out[s], sg[s]) if spin else (out, sg)
        for j in range(m):
            ctx.true("sign", g[j] in (1, -1))
            ctx.eq("column", o[:, j], int(g[j]) * ref[s][:, j])
            mx = ctx.fork(o[0, j] < 0)
            for i in range(n):
                ctx.true("largest element not negative", max(o[:, j].tolist(), key=lambda x: x) >= -o[i, j])


def h_conv(ctx, rhf):
    """SCMF.check_convergence: converged only if energy and density both changed by less than their (tightened) tolerance."""
    n = 2
    damp = ctx.choice("damp", [0, Q(1, 2) if ctx.symbolic else 0.5])
    o = scmfmod.SCMF(emb0(None, is_rhf=rhf), etol=Q(1, 4) if ctx.symbolic else 0.25, dtol=Q(1, 8) if ctx.symbolic else 0.125, damping=damp)
    first = ctx.boolean("first")
    shape = (n, 1) if rhf else (2, n, 1)
    d1, d0 = ctx.real("d1", shape), ctx.real("d0", shape)
    e1, e0 = ctx.scalar("e1"), ctx.scalar("e0")
    over = ctx.boolean("over")
    kw = dict(etol=1, dtol=2) if over else {}
    if first:
        c, de, dd = o.check_convergence(e1, d1)
        ctx.true("first iteration never converges", c is False)
        return
    c, de, dd = o.check_convergence(e1, d1, e0, d0, **kw)
    et, dt = kw.get("etol", o.etol) * (1 - damp), kw.get("dtol", o.dtol) * (1 - damp)
    ctx.eq("energy change", de, e1 - e0)
    f = 2 if rhf else 1
    small = [abs(a - b) < dt * f for a, b in zip(np.asarray(d1).ravel(), np.asarray(d0).ravel())]
    if c:
        ctx.true("energy converged", abs(e1 - e0) < et)
        for x in small:
            ctx.true("density converged", x)
    elif ctx.fork(abs(e1 - e0) < et):
        ctx.true("some density element not converged", not all(bool(x) for x in small))


def h_scmf(ctx, maxit):
    """SCMF.kernel: each iteration resets the embedding (but the first), runs it on the current orbitals, installs the new
    orbitals, and reports the last embedding's result; converged iff consecutive iterations agree."""
    hist = []
    res = []

    class Emb:
        log = NullLog()
        is_rhf = True

        def kernel(self, *a, **kw):
            hist.append("kernel")
            ctx.true("arguments passed on", a == (5,) and kw == dict(x=6))
            res.append(object())
            return res[-1]

        def reset(self, *a):
            hist.append("reset")

        def get_e_corr(self):
            return ctx.scalar("ec%d" % len(res))

        def update_mf(self, c, *a, **kw):
            hist.append("mf")
            self.mf.mo_coeff = c
            self.mf.e_tot = ctx.scalar("emf%d" % len(res))

        def check_fragment_symmetry(self, dm):
            ctx.true("density of the new orbitals", dm[0, 0] is self.mf.mo_coeff)
            if bad == len(res):
                raise util.SymmetryError
    e = Emb()
    bad = ctx.int("bad", 0, maxit)
    dmv = lambda: ctx.scalar("dm%d" % len(res))

    class MF:
        mo_coeff, mo_occ, e_tot = "c0", "occ", ctx.scalar("emf0")

        def make_rdm1(self):
            return np.array([[self.mo_coeff]], dtype=object)
    e.mf = MF()
    old = []

    class M(scmfmod.SCMF):
        def update_mo_coeff(self, c, occ, diis=None):
            ctx.true("called with the current orbitals", c is e.mf.mo_coeff and occ == "occ")
            old.append(diis)
            return dmv()
    usediis = ctx.boolean("diis")
    m = M(e, etol=Q(1, 4) if ctx.symbolic else 0.25, dtol=Q(1, 8) if ctx.symbolic else 0.125, maxiter=maxit, diis=usediis, diis_space=4, diis_min_space=2)
    r = m.kernel(5, x=6)
    it = len(res)
    ctx.true("result of the last embedding", r is res[-1])
    ctx.true("order", hist == ["kernel", "mf"] + ["reset", "kernel", "mf"] * (it - 1))
    ctx.true("energies", len(m.energies) == it)
    for k in range(it):
        ctx.eq("energy", m.energies[k], ctx.scalar("ec%d" % (k + 1)) + ctx.scalar("emf%d" % k))
    if it:
        ctx.eq("total energy", m.e_tot, m.energies[-1])
        ctx.eq("one-shot energy", m.e_tot_oneshot, m.energies[0])
    ctx.true("one extrapolation object", all(x is old[0] for x in old) and (old[0] is not None) == usediis)
    if usediis:
        ctx.true("extrapolation space", old[0].space == 4 and old[0].min_space == 2)
    if m.converged:
        ctx.true("consecutive iterations agree", abs(m.energies[-1] - m.energies[-2]) < m.etol)
        ctx.true("consecutive densities agree", abs(ctx.scalar("dm%d" % it) - ctx.scalar("dm%d" % (it - 1))) / 2 < m.dtol)
    else:
        ctx.true("stopped by symmetry breaking or iteration limit", it == maxit or bad == it)


HARNESSES = [
    Harness("mix.r", h_update, dict(kind="mix", shape="r", n=3), "fragment blocks 2x2 and 1x1, three updates, any mixing parameter"),
    Harness("mix.u", h_update, dict(kind="mix", shape="u", n=2), "pairs of spin blocks, two updates"),
    Harness("mix.nested", h_update, dict(kind="mix", shape="deep", n=2), "nested lists and tuples, two updates"),
    Harness("diis.r", h_update, dict(kind="diis", shape="r", n=3), "fragment blocks 2x2 and 1x1, three updates, any affine extrapolation"),
    Harness("diis.mixed", h_update, dict(kind="diis", shape="mix", n=2), "mixed nesting, two updates"),
    Harness("fixed.mix", h_fixed, dict(kind="mix", shape="u"), "three equal updates"),
    Harness("fixed.diis", h_fixed, dict(kind="diis", shape="r"), "three equal updates"),
    Harness("sdp.1", h_sdp, dict(classes=[(1, 2), (1, 1)], n=3), "3 basis functions, classes of 2 and 1 one-orbital fragments, any solver answer"),
    Harness("sdp.2", h_sdp, dict(classes=[(2, 1), (1, 1)], n=3), "3 basis functions, 2- and 1-orbital fragments"),
    Harness("sdp.part", h_sdp, dict(classes=[(1, 2)], n=3), "3 basis functions, fragments that do not span the space"),
    Harness("sdp.22", h_sdp, dict(classes=[(2, 2)], n=4), "4 basis functions, two equivalent 2-orbital fragments", tiers=("thorough",)),
    Harness("vcorr.r", h_vcorr, dict(spin="r", n=2), "2 fragment classes"),
    Harness("vcorr.u", h_vcorr, dict(spin="u", n=2), "2 fragment classes, different electron numbers per spin"),
    Harness("hldm.r", h_hldm, dict(spin="r", n=2, nc=3), "2 basis functions, 3 cluster orbitals"),
    Harness("hldm.u", h_hldm, dict(spin="u", n=2, nc=2), "2 basis functions, 2 cluster orbitals per spin"),
    Harness("dmet.r", h_dmet, dict(spin="r", charge=True, maxit=3), "up to 3 iterations, any fit result"),
    Harness("dmet.rfix", h_dmet, dict(spin="r", charge=False, maxit=2), "up to 2 iterations, fixed Fock matrix"),
    Harness("dmet.u", h_dmet, dict(spin="u", charge=True, maxit=2), "up to 2 iterations"),
    Harness("pdmet.r2", h_pdmet, dict(spin="r", n=2, nocc=1, diis=False), "2 orbitals, any distinct occupations"),
    Harness("pdmet.r3", h_pdmet, dict(spin="r", n=3, nocc=2, diis=True), "3 orbitals, any extrapolated density"),
    Harness("pdmet.u2", h_pdmet, dict(spin="u", n=2, nocc=1, diis=True), "2 orbitals per spin"),
    Harness("brueckner.11", h_brueckner, dict(spin="r", no=1, nv=1, diis=None), "1+1 orbitals, damping 0 and 1/2"),
    Harness("brueckner.21", h_brueckner, dict(spin="r", no=2, nv=1, diis="dm1"), "2+1 orbitals, density extrapolation"),
    Harness("brueckner.12", h_brueckner, dict(spin="r", no=1, nv=2, diis="t1"), "1+2 orbitals, amplitude extrapolation"),
    Harness("brueckner.u", h_brueckner, dict(spin="u", no=1, nv=1, diis="dm1"), "1+1 orbitals per spin"),
    Harness("sign", h_sign, dict(n=2, m=2), "2x2 coefficients"),
    Harness("sign.u", h_sign, dict(n=2, m=1, spin=True), "2x1 coefficients per spin"),
    Harness("convergence.r", h_conv, dict(rhf=True), "2-element densities"),
    Harness("convergence.u", h_conv, dict(rhf=False), "2-element densities per spin"),
    Harness("scmf", h_scmf, dict(maxit=3), "up to 3 iterations, any energies and densities, symmetry failure at any iteration"),
]
