"""Shared fixture of C15-C18: a real REWF/UEWF object with real fragments, clusters and (projected) wave functions,
created without running a mean field or a solver; everything the code under test reads is a symbolic or exact value."""
import types
from fractions import Fraction
import numpy as np
from checks.common import *
from checks.c13 import NullLog
from vayesta.core.qemb.register import FragmentRegister
from vayesta.core.types.cluster import Cluster
import vayesta.ewf

R35 = np.array([[Fraction(3, 5), Fraction(-4, 5)], [Fraction(4, 5), Fraction(3, 5)]], dtype=object)
R817 = np.array([[Fraction(15, 17), Fraction(8, 17)], [Fraction(-8, 17), Fraction(15, 17)]], dtype=object)


def num(ctx, a):
    """exact matrix: rational constants in the symbolic run, floats in the replay"""
    a = np.array(a, dtype=object)
    if not ctx.symbolic:
        return a.astype(float)
    return a


def rotc(ctx, n, k=0):
    """fixed rational orthogonal n x n matrix, different for each k"""
    r = np.zeros((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            r[i, j] = Fraction(int(i == j))
    for i in range(n - 1):
        g = [R35, R817, R35.T][(k + i) % 3]
        r[:, i:i + 2] = np.dot(r[:, i:i + 2], g)
    return num(ctx, r)


def base(ctx, S, C, no, uhf=False, solver="CCSD", **opts):
    """C: MO coefficients (pair for uhf), no: number of occupied MOs (pair for uhf)"""
    cls = vayesta.ewf.UEWF if uhf else vayesta.ewf.REWF
    b = cls.__new__(cls)
    b.log = NullLog()
    b.opts = cls.Options().replace(**opts)
    b.solver = solver
    b.kcell = b.kpts = b.kdf = None
    b._ovlp = b._ovlp_orig = S
    occ = lambda n, o, f: np.array([f] * o + [0] * (n - o))
    n = S.shape[0]
    mocc = (occ(n, no[0], 1), occ(n, no[1], 1)) if uhf else occ(n, no, 2)
    b.mf = types.SimpleNamespace(mo_coeff=C, mo_occ=mocc, mo_energy=None, max_memory=4000, stdout=None, verbose=0,
                                 mol=types.SimpleNamespace(nao_nr=lambda: n, natm=2, verbose=0, stdout=None, max_memory=4000))
    b._mo_coeff = C
    b.register = FragmentRegister()
    b.fragments = []
    b.converged = True
    cls._make_rdm1_ccsd_global_wf_cached.cache_clear()
    b.Fragment.get_overlap.cache_clear()
    return b


class Perm:
    """Symmetry operation permuting basis functions"""

    def __init__(self, p):
        self.p = list(p)

    def __call__(self, a, axis=0):
        if isinstance(a, (tuple, list)):
            return tuple(self(x, axis=axis) for x in a)
        return np.take(a, self.p, axis=axis)




def frag(b, c_frag, c_env=None, parent=None, op=None, solver=None, **kw):
    f = b.Fragment(b, b.register.get_next_id(), "f%d" % len(b.fragments), c_frag, c_env, sym_parent=parent, sym_op=op, solver=solver, **kw)
    b.fragments.append(f)
    return f


def image(b, parent, op):
    return frag(b, op(parent.c_frag), None, parent=parent, op=op, solver=parent.solver)


def set_cluster(f, cao, cav, cfo, cfv):
    f._cluster = Cluster.from_coeffs(cao, cav, cfo, cfv)
    return f._cluster


def amp1(t, ro, rv):
    return np.einsum("ia,ij,ab->jb", t, ro, rv)


def amp2(t, ro, rv, ro2=None, rv2=None):
    ro2, rv2 = (ro, rv) if ro2 is None else (ro2, rv2)
    return np.einsum("ijab,ik,jl,ac,bd->klcd", t, ro, ro2, rv, rv2, optimize=True)




def solve_r(ctx, f, kind, t1, t2, l1=None, l2=None):
    """store cluster wave function and its projection as Fragment.kernel does"""
    mo = f.cluster.active_orbitals
    if kind == "MP2":
        w = wf.MP2_WaveFunction(mo, t2)
    else:
        w = wf.CCSD_WaveFunction(mo, t1, t2, l1=l1, l2=l2)
    px = f.get_overlap("proj|cluster-occ")
    f._results = f.Results(fid=f.id, converged=True, wf=w, pwf=w.project(px, inplace=False))
    return w


def model_r(ctx, n, no, split, full=True, S=None, lam=True, kinds=None, C=None, C0=None, sizes=None, **opts):
    """Fragments split an S-orthonormal basis C0; the MOs are another one. full: every cluster spans the whole space and
    holds the same wave function in a rotated basis; otherwise clusters are subspaces with independent amplitudes.
    -> embedding, data(t1, t2, l1, l2 of the common state or None), list of per-fragment dictionaries"""
    from checks.c22 import rmetric
    nv = n - no
    if S is None:
        S, C = rmetric(ctx, n)
        C0 = np.linalg.inv(np.linalg.cholesky(S)).T if not ctx.symbolic else lowinvT(S)
    b = base(ctx, S, C, no, **opts)
    g = None
    if full:
        g = (ctx.real("t1", (no, nv)), ctx.t2("t2", no, nv)) + ((ctx.real("l1", (no, nv)), ctx.t2("l2", no, nv)) if lam else (None, None))
    data = []
    start = 0
    for k, w in enumerate(split):
        kind = (kinds or ["CCSD"] * len(split))[k]
        cf = C0[:, start:start + w]
        f = frag(b, cf, np.hstack((C0[:, :start], C0[:, start + w:])), solver=kind)
        start += w
        uo, uv = rotc(ctx, no, k), rotc(ctx, nv, k + 1)
        mo_, mv = (no, nv) if full else sizes[k]
        co, cv = np.dot(C[:, :no], uo), np.dot(C[:, no:], uv)
        set_cluster(f, co[:, :mo_], cv[:, :mv], co[:, mo_:], cv[:, mv:])
        if full:
            t1, l1 = (x if x is None else amp1(x, uo, uv) for x in (g[0], g[2]))
            t2, l2 = (x if x is None else amp2(x, uo, uv) for x in (g[1], g[3]))
        else:
            t1, t2 = ctx.real("t1_%d" % k, (mo_, mv)), ctx.t2("t2_%d" % k, mo_, mv)
            l1, l2 = (ctx.real("l1_%d" % k, (mo_, mv)), ctx.t2("l2_%d" % k, mo_, mv)) if lam else (None, None)
        solve_r(ctx, f, kind, t1.copy(), t2.copy(), *(x if x is None else x.copy() for x in (l1, l2)))
        P = np.dot(cf, cf.T)
        data.append(dict(f=f, kind=kind, t=(t1, t2), l=(l1, l2), ro=uo[:, :mo_], rv=uv[:, :mv], P=np.dot(np.dot(np.dot(co[:, :mo_].T, S), P), np.dot(S, co[:, :mo_]))))
    return b, g, data


def lowinvT(S):
    """C0 = L^-T for S = L L^T with rational L (the factor rmetric uses)"""
    n = S.shape[0]
    L = np.zeros((n, n), dtype=object)
    for i in range(n):
        L[i, i] = Fraction([2, 1, 3, 1][i % 4])
        for j in range(i):
            L[i, j] = Fraction([1, -1, 2][(i + j) % 3], 2)
    Li = np.zeros((n, n), dtype=object)
    for i in range(n):
        Li[i, i] = 1 / L[i, i]
        for j in range(i):
            Li[i, j] = -sum(L[i, k] * Li[k, j] for k in range(j, i)) / L[i, i]
    return Li.T


def hlf(x):
    return x * Fraction(1, 2) if x.dtype == object else x / 2


def restored(d, sym=True, which="t"):
    """democratically partitioned amplitudes of one fragment in its cluster basis (first occupied index projected)"""
    a1, a2 = d[which]
    x1 = np.dot(d["P"], a1)
    x2 = np.einsum("ik,kjab->ijab", d["P"], a2)
    if sym:
        x2 = hlf(x2 + x2.transpose(1, 0, 3, 2))
    return x1, x2


def to_global(d, x1, x2):
    return amp1(x1, d["ro"].T, d["rv"].T), amp2(x2, d["ro"].T, d["rv"].T)


def total(data, which="t", per=None):
    """global amplitudes: sum over fragments of the restored, back-transformed amplitudes"""
    T1 = T2 = 0
    for d in data:
        x1, x2 = to_global(d, *restored(d, True, per(d) if per else which))
        T1, T2 = T1 + x1, T2 + x2
    return T1, T2


# --- unrestricted -----------------------------------------------------------------------------------------------------

def u1(t, ro, rv):
    return tuple(amp1(t[s], ro[s], rv[s]) for s in (0, 1))


def u2(t, ro, rv):
    return (amp2(t[0], ro[0], rv[0]), amp2(t[1], ro[0], rv[0], ro[1], rv[1]), amp2(t[2], ro[1], rv[1]))


def uget(ctx, p, no, nv):
    t1 = (ctx.real(p + "1a", (no[0], nv[0])), ctx.real(p + "1b", (no[1], nv[1])))
    t2 = (ctx.t2aa(p + "2aa", no[0], nv[0]), ctx.real(p + "2ab", (no[0], no[1], nv[0], nv[1])), ctx.t2aa(p + "2bb", no[1], nv[1]))
    return t1, t2


def cpt(t):
    return None if t is None else tuple(x.copy() for x in t)


def model_u(ctx, n, no, split, full=True, lam=True, kinds=None, sizes=None, samefrag=True, **opts):
    """As model_r with separate alpha and beta MOs, clusters and fragments (same number of basis functions)."""
    from checks.c22 import rmetric
    S, Ca = rmetric(ctx, n)
    C0 = np.linalg.inv(np.linalg.cholesky(S)).T if not ctx.symbolic else lowinvT(S)
    Cb = np.dot(C0, rotc(ctx, n, 2))
    C = (Ca, Cb)
    nv = (n - no[0], n - no[1])
    b = base(ctx, S, C, no, uhf=True, **opts)
    g = None
    if full:
        g = uget(ctx, "t", no, nv) + (uget(ctx, "l", no, nv) if lam else (None, None))
    D0 = (C0, C0 if samefrag else np.dot(C0, rotc(ctx, n, 1)))
    data = []
    start = 0
    for k, w in enumerate(split):
        kind = (kinds or ["CCSD"] * len(split))[k]
        cf = tuple(d[:, start:start + w] for d in D0)
        f = frag(b, cf, tuple(np.hstack((d[:, :start], d[:, start + w:])) for d in D0), solver=kind)
        start += w
        m = [(no[s], nv[s]) for s in (0, 1)] if full else sizes[k]
        uo = [rotc(ctx, no[s], k + s) for s in (0, 1)]
        uv = [rotc(ctx, nv[s], k + 2 * s + 1) for s in (0, 1)]
        co = [np.dot(C[s][:, :no[s]], uo[s]) for s in (0, 1)]
        cv = [np.dot(C[s][:, no[s]:], uv[s]) for s in (0, 1)]
        set_cluster(f, tuple(co[s][:, :m[s][0]] for s in (0, 1)), tuple(cv[s][:, :m[s][1]] for s in (0, 1)),
                    tuple(co[s][:, m[s][0]:] for s in (0, 1)), tuple(cv[s][:, m[s][1]:] for s in (0, 1)))
        if full:
            t1, l1 = (None if x is None else u1(x, uo, uv) for x in (g[0], g[2]))
            t2, l2 = (None if x is None else u2(x, uo, uv) for x in (g[1], g[3]))
        else:
            mo_, mv = [m[s][0] for s in (0, 1)], [m[s][1] for s in (0, 1)]
            t1, t2 = uget(ctx, "t%d_" % k, mo_, mv)
            l1, l2 = uget(ctx, "l%d_" % k, mo_, mv) if lam else (None, None)
        solve_r(ctx, f, kind, cpt(t1), cpt(t2), cpt(l1), cpt(l2))
        P = []
        for s in (0, 1):
            x = np.dot(np.dot(co[s][:, :m[s][0]].T, S), cf[s])
            P.append(np.dot(x, x.T))
        data.append(dict(f=f, kind=kind, t=(t1, t2), l=(l1, l2), ro=[uo[s][:, :m[s][0]] for s in (0, 1)], rv=[uv[s][:, :m[s][1]] for s in (0, 1)], P=P))
    return b, g, data


def urestored(d, which="t", sym=True):
    a1, (aa, ab, bb) = d[which]
    P = d["P"]
    x1 = tuple(np.dot(P[s], a1[s]) for s in (0, 1))
    left = lambda p, x: np.einsum("ik,kjab->ijab", p, x)
    right = lambda p, x: np.einsum("jk,ikab->ijab", p, x)
    if sym:
        return x1, (hlf(left(P[0], aa) + right(P[0], aa)), hlf(left(P[0], ab) + right(P[1], ab)), hlf(left(P[1], bb) + right(P[1], bb)))
    return x1, (left(P[0], aa), left(P[0], ab), left(P[1], bb))


def utotal(data, which="t", per=None):
    T1 = T2 = None
    add = lambda x, y: y if x is None else tuple(p + q for p, q in zip(x, y))
    for d in data:
        x1, x2 = urestored(d, per(d) if per else which)
        ro, rv = [r.T for r in d["ro"]], [r.T for r in d["rv"]]
        T1, T2 = add(T1, u1(x1, ro, rv)), add(T2, u2(x2, ro, rv))
    return T1, T2


# --- symmetry ---------------------------------------------------------------------------------------------------------

def model_sym(ctx, nsite, no1, nv1, uhf=False, chain=False, partial=True, lam=True, kind="CCSD", explicit=False, **opts):
    """nsite equivalent sites with no1 occupied and nv1 virtual orbitals each; fragment 0 is the parent, the others are
    its images under the cyclic permutation of the sites (chain: image of the previous image). explicit: the same
    fragments without symmetry relations. Site orbitals mix by a symbolic angle; MOs are rotations of site orbitals."""
    m = no1 + nv1
    n = nsite * m
    S = np.eye(n, dtype=int).astype(object) if ctx.symbolic else np.eye(n)
    sp = (0, 1) if uhf else (0,)
    L = [ctx.orth("R%d" % s, m) if s == 0 else rotc(ctx, m, 1) for s in sp]
    loc = []
    for s in sp:
        a = np.zeros((n, n), dtype=object)
        for i in range(nsite):
            a[i * m:(i + 1) * m, i * no1:(i + 1) * no1] = L[s][:, :no1]
            a[i * m:(i + 1) * m, nsite * no1 + i * nv1:nsite * no1 + (i + 1) * nv1] = L[s][:, no1:]
        loc.append(a if ctx.symbolic else a.astype(float))
    no, nv = nsite * no1, nsite * nv1
    W = [np.array(np.block([[rotc(ctx, no, s), np.zeros((no, nv), dtype=int)], [np.zeros((nv, no), dtype=int), rotc(ctx, nv, s + 1)]])) for s in sp]
    C = [np.dot(loc[s], W[s]) for s in sp]
    if uhf:
        b = base(ctx, S, tuple(C), (no, no), uhf=True, **opts)
    else:
        b = base(ctx, S, C[0], no, **opts)
    perm = [(i - m) % n for i in range(n)]   # image of site i is site i + 1
    data = []
    # parent cluster: own site and the occupied orbitals of the next site
    ks = [list(range(no1)) + list(range(no1, 2 * no1)) if partial and nsite > 1 else list(range(no if not partial else no1))]
    ko, kv = ks[0], list(range(nv1)) if partial else list(range(nv))
    mo_, mv = len(ko), len(kv)
    us = [rotc(ctx, mo_, s + 1) for s in sp]
    if uhf:
        t = uget(ctx, "t", (mo_, mo_), (mv, mv)), uget(ctx, "l", (mo_, mo_), (mv, mv))
        if not lam:
            t = t[0], (None, None)
    else:
        t = (ctx.real("t1", (mo_, mv)), ctx.t2("t2", mo_, mv)), (ctx.real("l1", (mo_, mv)), ctx.t2("l2", mo_, mv)) if lam else (None, None)
    prev = None
    P1 = np.zeros((n, n), dtype=int)
    for r in range(nsite):
        q = list(range(n))
        for _ in range(r):
            q = [q[i] for i in perm]
        rows = list(range(m))
        eye = np.eye(n, dtype=int)
        up = lambda a: np.take(a, q, axis=0)
        cf = up(eye[:, :m].astype(object) if ctx.symbolic else eye[:, :m].astype(float))
        ce = up(eye[:, m:].astype(object) if ctx.symbolic else eye[:, m:].astype(float))
        cao = [up(np.dot(loc[s][:, ko], us[s])) for s in sp]
        cav = [up(loc[s][:, [no + j for j in kv]]) for s in sp]
        cfo = [up(loc[s][:, [j for j in range(no) if j not in ko]]) for s in sp]
        cfv = [up(loc[s][:, [no + j for j in range(nv) if j not in kv]]) for s in sp]
        pk = (lambda x: tuple(x)) if uhf else (lambda x: x[0])
        if r == 0 or explicit:
            f = frag(b, (cf, cf) if uhf else cf, (ce, ce) if uhf else ce, solver=kind)
            set_cluster(f, pk(cao), pk(cav), pk(cfo), pk(cfv))
            c = (lambda x: None if x is None else cpt(x)) if uhf else (lambda x: None if x is None else x.copy())
            solve_r(ctx, f, kind, c(t[0][0]), c(t[0][1]), c(t[1][0]), c(t[1][1]))
            first = f if r == 0 else first
        else:
            parent = prev if chain else first
            op = Perm(perm if chain else q)
            f = frag(b, op((cf0, cf0)) if uhf and False else ((op(parent.c_frag)) if not uhf else tuple(op(x) for x in parent.c_frag)),
                     None, parent=parent, op=op, solver=kind)
        prev = f
        ro = [np.dot(cao[s].T, C[s][:, :no]).T for s in sp]
        rv = [np.dot(cav[s].T, C[s][:, no:]).T for s in sp]
        P = [np.dot(np.dot(cao[s].T, cf), np.dot(cf.T, cao[s])) for s in sp]
        data.append(dict(f=f, kind=kind, t=t[0], l=t[1], ro=ro if uhf else ro[0], rv=rv if uhf else rv[0], P=P if uhf else P[0]))
    return b, None, data


def model_loc(ctx, clusters, uhf=False, lam=True, kinds=None, **opts):
    """Two sites, each with one occupied and one virtual local orbital (mixed by a symbolic angle to two site orbitals).
    clusters: per fragment (site orbitals, (local occupied, local virtual orbitals of the cluster)); every cluster
    contains the occupied and virtual part of its fragment, as the DMET bath guarantees. Independent amplitudes."""
    n, no, nv = 4, 2, 2
    sp = (0, 1) if uhf else (0,)
    S = np.eye(n, dtype=int).astype(object) if ctx.symbolic else np.eye(n)
    Ls = []
    for s in sp:
        a = np.zeros((n, n), dtype=object)
        r0, r1 = (ctx.orth("q", 2), R817 if ctx.symbolic else R817.astype(float)) if s == 0 else (rotc(ctx, 2, 1), rotc(ctx, 2, 0))
        for i, r in enumerate((r0, r1)):
            a[2 * i:2 * i + 2, i] = r[:, 0]
            a[2 * i:2 * i + 2, 2 + i] = r[:, 1]
        Ls.append(a if ctx.symbolic else a.astype(float))
    C = [np.hstack((np.dot(Ls[s][:, :2], rotc(ctx, 2, s)), np.dot(Ls[s][:, 2:], rotc(ctx, 2, s + 1)))) for s in sp]
    b = base(ctx, S, tuple(C) if uhf else C[0], (no, no) if uhf else no, uhf=uhf, **opts)
    eye = np.eye(n, dtype=int).astype(object) if ctx.symbolic else np.eye(n)
    pk = (lambda x: tuple(x)) if uhf else (lambda x: x[0])
    data = []
    for k, (orb, (ko, kv)) in enumerate(clusters):
        kind = (kinds or ["CCSD"] * len(clusters))[k]
        cf, ce = eye[:, list(orb)], eye[:, [i for i in range(n) if i not in orb]]
        f = frag(b, (cf, cf) if uhf else cf, (ce, ce) if uhf else ce, solver=kind)
        m, v = len(ko), len(kv)
        cao = [np.dot(Ls[s][:, list(ko)], rotc(ctx, m, k + s)) for s in sp]
        cav = [np.dot(Ls[s][:, [2 + j for j in kv]], rotc(ctx, v, k + s + 1)) for s in sp]
        set_cluster(f, pk(cao), pk(cav), pk([Ls[s][:, [j for j in range(2) if j not in ko]] for s in sp]),
                    pk([Ls[s][:, [2 + j for j in range(2) if j not in kv]] for s in sp]))
        if uhf:
            t, l = uget(ctx, "t%d_" % k, (m, m), (v, v)), uget(ctx, "l%d_" % k, (m, m), (v, v)) if lam else (None, None)
            solve_r(ctx, f, kind, *(cpt(x) for x in t + l))
        else:
            t = (ctx.real("t1_%d" % k, (m, v)), ctx.t2("t2_%d" % k, m, v))
            l = (ctx.real("l1_%d" % k, (m, v)), ctx.t2("l2_%d" % k, m, v)) if lam else (None, None)
            solve_r(ctx, f, kind, *(x if x is None else x.copy() for x in t + l))
        data.append(dict(f=f, kind=kind, t=t, l=l, ro=pk([np.dot(C[s][:, :no].T, cao[s]) for s in sp]), rv=pk([np.dot(C[s][:, no:].T, cav[s]) for s in sp]),
                         P=pk([np.dot(np.dot(cao[s].T, cf), np.dot(cf.T, cao[s])) for s in sp])))
    return b, None, data
