"""C28: tailored and externally corrected coupled cluster. The corrections to the singles and doubles equations from triples and
quadruples, their assembly from several fragments and the tailoring of amplitudes run on symbolic amplitudes, integrals and
(orthogonal) orbital overlaps. Oracle: the projected Schroedinger equation <D| H exp(T) |0>_connected on determinants."""
import types
import itertools
from fractions import Fraction as Q
import numpy as np
from vsym import fock
from vsym.harness import Harness
from checks.common import *
from checks.c01 import perm_sym, spin_t
from checks.c27 import pairs
from vayesta.core.types import Orbitals, Cluster
from vayesta.core.types.wf.ccsdtq import RCCSDTQ_WaveFunction, UCCSDTQ_WaveFunction
from vayesta.solver import ccsdtq, coupling, ext_ccsd, tccsd

META = dict(assumptions=["the CCSD iterations (pyscf) call the callback once per update; their convergence is outside"])


class NormFree:
    """numpy of the modules under test, without norms (which are only printed)"""

    def __init__(self, np_):
        self._np = np_
        self.linalg = types.SimpleNamespace(norm=lambda x: 0.0)

    def __getattr__(self, k):
        return getattr(self._np, k)


class quiet_norms:
    def __enter__(self):
        self.old = [(m, m.np) for m in (ccsdtq, coupling, tccsd)]
        for m, v in self.old:
            m.np = NormFree(v)

    def __exit__(self, *a):
        for m, v in self.old:
            m.np = v


class NullLog:
    def __getattr__(self, k):
        return lambda *a, **kw: None


# ------------------------------------------------------------------------------------------------ Slater-Condon matrix elements

def bits(s):
    return [i for i in range(s.bit_length()) if (s >> i) & 1]


class Ham:
    def __init__(self, ctx, n, no, uhf):
        """Fock matrix f (all blocks free) and interaction; one-body part h = f - v_hf"""
        self.n, self.no, self.uhf = n, no, uhf
        if uhf:
            self.f = [ctx.sym2("fa", n), ctx.sym2("fb", n)]
            self.g = [ctx.eri8("gaa", n), pairs(ctx, "gab", n), ctx.eri8("gbb", n)]
        else:
            f, g = ctx.sym2("f", n), ctx.eri8("g", n)
            self.f, self.g = [f, f], [g, g, g]
        oa, ob = slice(0, no[0]), slice(0, no[1])
        gaa, gab, gbb = self.g
        va = np.einsum("iipq->pq", gaa[oa, oa]) - np.einsum("ipqi->pq", gaa[oa, :, :, oa]) + np.einsum("pqii->pq", gab[:, :, ob, ob])
        vb = np.einsum("iipq->pq", gbb[ob, ob]) - np.einsum("ipqi->pq", gbb[ob, :, :, ob]) + np.einsum("iipq->pq", gab[oa, oa])
        self.h = [self.f[0] - va, self.f[1] - vb]

    def bare(self):
        return self.g[0] if not self.uhf else tuple(self.g)

    def two(self, s, t, p, q, r, u):
        """(pq|ru), pq of spin s, ru of spin t"""
        if s == t:
            return self.g[0 if s == 0 else 2][p, q, r, u]
        return self.g[1][p, q, r, u] if s == 0 else self.g[1][r, u, p, q]

    def element(self, D, X):
        """<D|H|X>"""
        holes = [[i for i in bits(X[s]) if not (D[s] >> i) & 1] for s in (0, 1)]
        parts = [[i for i in bits(D[s]) if not (X[s] >> i) & 1] for s in (0, 1)]
        k = len(holes[0]) + len(holes[1])
        if k > 2 or len(holes[0]) != len(parts[0]):
            return None
        sign, cur = 1, [X[0], X[1]]
        for s in (0, 1):
            for p, q in zip(parts[s], holes[s]):
                r = fock.exc(cur[s], p, q)
                sign, cur[s] = sign * r[0], r[1]
        if k == 0:
            raise AssertionError("diagonal elements are never needed")
        pr = [(s, p, q) for s in (0, 1) for p, q in zip(parts[s], holes[s])]
        if k == 1:
            s, p, q = pr[0]
            v = self.h[s][p, q]
            for t in (0, 1):
                for i in bits(X[t]):
                    if t == s and i == q:
                        continue
                    v = v + self.two(s, t, p, q, i, i)
                    if s == t:
                        v = v - self.two(s, s, p, i, i, q)
        else:
            (s, p, q), (t, r, u) = pr
            v = self.two(s, t, p, q, r, u)
            if s == t:
                v = v - self.two(s, s, p, u, r, q)
        return v if sign > 0 else -v

    def project(self, D, state):
        v = 0
        for X, c in state.items():
            e = self.element(D, X) if fock.nz(c) else None
            if e is not None:
                v = v + e * c
        return v


def doubles(no, n, s, t):
    """determinants E_ai E_bj |0>: {(i, j, a, b): (sign, det)}"""
    ref = fock.reference(no)
    out = {}
    for i, j in itertools.product(range(no[s]), range(no[t])):
        for a, b in itertools.product(range(no[s], n), range(no[t], n)):
            st = fock.apply_exc(fock.apply_exc(ref, b, j, t), a, i, s)
            if st:
                (d, sg), = st.items()
                out[i, j, a - no[s], b - no[t]] = (sg, d)
    return out


def residual(ctx, H, amps, parts=("f", "t3v", "t4", "t1t3")):
    """connected contributions of triples and quadruples to the singles and doubles equations"""
    no, n = H.no, H.n
    t1, t3, t4 = amps
    ref = fock.reference(no)
    op = lambda k, t: fock.ops_uhf(*[(t if i == k else (None,) * 5) for i in (1, 2)], no, *[(t if i == k else (None,) * 5) for i in (3, 4)])
    s3 = fock.apply_T(ref, op(3, t3))
    s4 = fock.apply_T(ref, op(4, t4))
    o1 = op(1, t1)
    s13 = fock.apply_T(s3, o1)
    full = fock.add(fock.add(s3, s4), s13)
    d1 = []
    for s in (0, 1):
        r = np.zeros((no[s], n - no[s]), dtype=object)
        for i, a in np.ndindex(*r.shape):
            (d, sg), = fock.apply_exc(ref, no[s] + a, i, s).items()
            r[i, a] = H.project(d, s3) * sg
        d1.append(r)
    # <D| T1 H T3 |0>
    d2 = []
    for s, t in ((0, 0), (0, 1), (1, 1)):
        r = np.zeros((no[s], no[t], n - no[s], n - no[t]), dtype=object)
        for k, (sg, d) in doubles(no, n, s, t).items():
            v = H.project(d, full)
            i, j, a, b = k
            # T1 acting last: D reached from the singles with the residual of T3
            if s == t:
                w = [(t1[s][i, a], d1[s][j, b]), (t1[s][j, b], d1[s][i, a]), (-t1[s][i, b], d1[s][j, a]), (-t1[s][j, a], d1[s][i, b])]
            else:
                w = [(t1[s][i, a], d1[t][j, b]), (t1[t][j, b], d1[s][i, a])]
            for x, y in w:
                v = v - x * y * sg
            r[k] = v * sg
        d2.append(r)
    if not ctx.symbolic:
        d1, d2 = [x.astype(float) for x in d1], [x.astype(float) for x in d2]
    return d1, d2


def anti(ctx, name, sp, no, nv):
    """unrestricted amplitudes of spin signature sp, antisymmetric within each spin"""
    n = len(sp)
    shape = tuple(no["ab".index(x)] for x in sp) + tuple(nv["ab".index(x)] for x in sp)
    pos = [[k for k in range(n) if sp[k] == x] for x in "ab"]
    out = np.zeros(shape, dtype=object)

    def canon(idx):
        idx, sign = list(idx), 1
        for p in pos:
            v = [idx[k] for k in p]
            if len(set(v)) < len(v):
                return None, 0
            sign *= (-1) ** sum(v[i] > v[j] for i in range(len(v)) for j in range(i + 1, len(v)))
            for k, x in zip(p, sorted(v)):
                idx[k] = x
        return tuple(idx), sign

    both = [[(I,) + canon(I) for I in np.ndindex(*shape[k * n:(k + 1) * n])] for k in (0, 1)]
    val = {}
    for I, ci, si in both[0]:
        for A, ca, sa in both[1]:
            if si * sa:
                if (ci, ca) not in val:
                    val[ci, ca] = ctx.scalar("%s_%d" % (name, len(val)))
                out[I + A] = val[ci, ca] if si * sa > 0 else -val[ci, ca]
    return out if ctx.symbolic else out.astype(float)


def amplitudes(ctx, no, n, uhf, ranks):
    """(amplitudes as the wave function stores them, spin-resolved ones)"""
    if uhf:
        nv = (n - no[0], n - no[1])
        sp = [["a", "b"], ["aa", "ab", "bb"], ["aaa", "aba", "bab", "bbb"], ["aaaa", "aaab", "abab", "abbb", "bbbb"]]
        T = [tuple(anti(ctx, "t" + s, s, no, nv) if k + 1 in ranks else np.zeros(tuple(no["ab".index(x)] for x in s) + tuple(nv["ab".index(x)] for x in s), dtype=int) for s in row)
             for k, row in enumerate(sp)]
        return T, T
    o, v = no[0], n - no[0]
    t1, t2 = ctx.real("t1", (o, v)), ctx.t2("t2", o, v)
    t3, t4 = perm_sym(ctx, "t3", o, v, 3), perm_sym(ctx, "t4", o, v, 4)
    t1, t2, t3, t4 = [t if k in ranks else t * 0 for k, t in ((1, t1), (2, t2), (3, t3), (4, t4))]
    aba = spin_t(t3, [[0, 2], [1]])
    aaa = spin_t(t3, [[0, 1, 2]])
    s4 = lambda *p: spin_t(t4, [list(x) for x in p])
    T = [t1, t2, aba, (s4((0, 2, 3), (1,)), s4((0, 2), (1, 3)))]
    S = [(t1, t1), None, (aaa, aba, aba, aaa), (s4((0, 1, 2, 3)), s4((0, 1, 2), (3,)), s4((0, 2), (1, 3)), s4((1, 2, 3), (0,)), s4((0, 1, 2, 3)))]
    return T, S


def wavefunction(ctx, no, n, uhf, T):
    nv = (n - no[0], n - no[1])
    if uhf:
        return UCCSDTQ_WaveFunction(umo(ctx, no, nv), *T)
    return RCCSDTQ_WaveFunction(rmo(ctx, no[0], nv[0]), *T)


def cluster(c, no, uhf):
    if uhf:
        return Cluster(Orbitals(tuple(c), occ=tuple(no)), None)
    return Cluster(Orbitals(c[0], occ=no[0]), None)


class Base:
    def __init__(self, uhf, fock=None, nao=None):
        self.spinsym = "unrestricted" if uhf else "restricted"
        self.fock, self.nao = fock, nao
        self.fragments = []

    def get_ovlp(self):
        return np.eye(self.nao, dtype=int)

    def get_fock(self, with_exxdiv=True):
        assert with_exxdiv is False
        return self.fock

    def get_fragment_overlap_norm(self, fragments=None, **kw):
        return np.ones((1, len(fragments[1])))

    def get_fragments(self, id=None):
        return [f for f in self.fragments if f.id in id]


class Hamil:
    def __init__(self, eris):
        self.eris = eris

    def get_eris_screened(self):
        return self.eris


def h_residual(ctx, no, n, uhf, ranks=(1, 3, 4), t3v=True):
    """corrections of one fragment"""
    no = tuple(no)
    H = Ham(ctx, n, no, uhf)
    T, S = amplitudes(ctx, no, n, uhf, ranks)
    one = np.eye(n, dtype=int)
    fr = types.SimpleNamespace(id=0, base=Base(uhf), cluster=cluster((one, one), no, uhf), hamil=Hamil(H.bare()))
    fr.results = types.SimpleNamespace(wf=wavefunction(ctx, no, n, uhf, T))
    f = H.f[0] if not uhf else H.f
    with quiet_norms():
        d1, d2 = coupling._get_delta_t_for_extcorr(fr, f, types.SimpleNamespace(log=NullLog()), include_t3v=True)
        e1, e2 = coupling._get_delta_t_for_extcorr(fr, f, types.SimpleNamespace(log=NullLog()), include_t3v=False)
    r1, r2 = residual(ctx, H, (S[0], S[2], S[3]))
    x, y = (lambda z: [z]) if not uhf else list, (lambda z: z) if uhf else (lambda z: [z[1] if len(z) == 3 else z[0]])
    ctx.eq("singles", x(d1), y(r1))
    ctx.eq("doubles", x(d2), y(r2))
    ctx.eq("singles (parent interaction)", x(e1), y(r1))
    # without the triples-interaction term: what remains is independent of the one-internal-index integrals
    lin = [a - b for a, b in zip(x(d2), x(e2))]
    G = Ham.__new__(Ham)
    G.n, G.no, G.uhf, G.f, G.h = n, no, uhf, H.f, None
    ctx.eq("triples-interaction term", lin, t3v_terms(ctx, H, S[2], uhf))


def t3v_terms(ctx, H, t3, uhf):
    """<D| V |T3> with exactly one open index on V, from the antisymmetrised spin-orbital expression"""
    no, n = H.no, H.n
    z = [x * 0 for x in H.f]
    K = Ham.__new__(Ham)
    K.n, K.no, K.uhf, K.f = n, no, uhf, z
    K.g = []
    for k, (s, t) in enumerate(((0, 0), (0, 1), (1, 1))):
        g = H.g[k].copy()
        for idx in np.ndindex(*g.shape):
            nvir = sum(i >= no[s] for i in idx[:2]) + sum(i >= no[t] for i in idx[2:])
            if nvir not in (1, 3):
                g[idx] = 0
        K.g.append(g)
    oa, ob = slice(0, no[0]), slice(0, no[1])
    va = np.einsum("iipq->pq", K.g[0][oa, oa]) - np.einsum("ipqi->pq", K.g[0][oa, :, :, oa]) + np.einsum("pqii->pq", K.g[1][:, :, ob, ob])
    vb = np.einsum("iipq->pq", K.g[2][ob, ob]) - np.einsum("ipqi->pq", K.g[2][ob, :, :, ob]) + np.einsum("iipq->pq", K.g[1][oa, oa])
    K.h = [z[0] - va, z[1] - vb]
    zero = tuple(np.zeros((no[s], n - no[s]), dtype=int) for s in (0, 1))
    s3 = fock.apply_T(fock.reference(no), fock.ops_uhf(None, None, no, t3))
    out = []
    for s, t in ((0, 0), (0, 1), (1, 1)):
        r = np.zeros((no[s], no[t], n - no[s], n - no[t]), dtype=object)
        for k, (sg, d) in doubles(no, n, s, t).items():
            r[k] = K.project(d, s3) * sg
        out.append(r if ctx.symbolic else r.astype(float))
    return out if uhf else [out[1]]


# ------------------------------------------------------------------------------------------------ several fragments

def fixed(shape, seed):
    """generic rational matrix"""
    r = np.random.RandomState(seed)
    return np.array([Q(int(x), 8) for x in r.randint(-9, 10, size=int(np.prod(shape)))], dtype=object).reshape(shape)


def coeffs(ctx, shape, seed, free, name):
    if free:
        return ctx.real(name, shape)
    c = fixed(shape, seed)
    return c if ctx.symbolic else c.astype(float)


class Child:
    """a solved fragment: cluster orbitals, fragment orbitals and a wave function with arbitrary amplitudes"""

    def __init__(self, ctx, k, uhf, nox, nao, noy, nvy, nf, free=True):
        self.id, self.ctx, self.uhf = k, ctx, uhf
        sp = (0, 1) if uhf else (0,)
        # occupied (virtual) orbitals of the child within the occupied (virtual) space of the system
        self.ro = [coeffs(ctx, (nox[s], noy[s]), 10 * k + s, free, "o%d%d" % (k, s)) for s in sp]
        self.rv = [coeffs(ctx, (nao - nox[s], nvy[s]), 10 * k + s + 100, free, "v%d%d" % (k, s)) for s in sp]
        self.fo = [coeffs(ctx, (nox[s], nf), 10 * k + s + 200, free, "f%d%d" % (k, s)) for s in sp]
        z = lambda a, b: np.zeros((a, b), dtype=int)
        co = [np.concatenate([x, z(nao - nox[s], noy[s])]) for s, x in enumerate(self.ro)]
        cv = [np.concatenate([z(nox[s], nvy[s]), x]) for s, x in enumerate(self.rv)]
        self.c = [np.concatenate([a, b], axis=1) for a, b in zip(co, cv)]
        self.cf = [np.concatenate([x, z(nao - nox[s], nf)]) for s, x in enumerate(self.fo)]
        self.cluster = cluster(self.c, noy, uhf)
        self.c_frag = self.un(self.cf)
        self.co = co
        self.solver = "FCI"
        self.noy, self.nvy = noy, nvy
        self.p = [x.T @ y for x, y in zip(self.fo, self.ro)]          # (fragment|child occupied)
        self.po = [x.T @ x for x in self.p]
        # projector in the basis of the parent's occupied orbitals
        self.px = [x @ x.T for x in self.fo]
        self.results = types.SimpleNamespace(wf=self)

    def un(self, x):
        return tuple(x) if self.uhf else x[0]

    def get_overlap(self, key):
        assert key == "frag|cluster-occ"
        return self.un(self.p)

    def amps(self, name):
        ctx, o, v = self.ctx, self.noy, self.nvy
        if self.uhf:
            t1 = (ctx.real(name + "1a", (o[0], v[0])), ctx.real(name + "1b", (o[1], v[1])))
            t2 = tuple(anti(ctx, name + q, q, o, v) for q in ("aa", "ab", "bb"))
            return t1, t2
        return ctx.real(name + "1", (o[0], v[0])), ctx.t2(name + "2", o[0], v[0])


def rot1(t, ro, rv):
    """amplitudes from the child into the parent"""
    if isinstance(t, tuple):
        return tuple(ro[s] @ x @ rv[s].T for s, x in enumerate(t))
    return ro[0] @ t @ rv[0].T


SP = ((0, 0), (0, 1), (1, 1))


def rot2(t, ro, rv):
    f = lambda x, s, q: np.einsum("ijab,Ii,Jj,Aa,Bb->IJAB", x, ro[s], ro[q], rv[s], rv[q])
    if isinstance(t, tuple):
        return tuple(f(x, *sq) for x, sq in zip(t, SP))
    return f(t, 0, 0)


def proj1(t, p):
    return tuple(p[s] @ x for s, x in enumerate(t)) if isinstance(t, tuple) else p[0] @ t


def proj2(t, p, k):
    def f(x, s, q):
        a = lambda y: np.einsum("Ii,ijab->Ijab", p[s], y)
        b = lambda y: np.einsum("Jj,ijab->iJab", p[q], y)
        return x if k == 0 else (a(x) + b(x)) / 2 if k == 1 else a(b(x))
    return tuple(f(x, *sq) for x, sq in zip(t, SP)) if isinstance(t, tuple) else f(t, 0, 0)


def comb(x, y, f):
    return tuple(f(a, b) for a, b in zip(x, y)) if isinstance(x, tuple) else f(x, y)


def plus(x, y):
    return comb(x, y, lambda a, b: a + b)


def minus(x, y):
    return comb(x, y, lambda a, b: a - b)


def lst(x):
    return list(x) if isinstance(x, tuple) else [x]


def parent(ctx, uhf, no, nao, H=None, en=None):
    one = np.eye(nao, dtype=int)
    cl = cluster((one, one), no, uhf)
    base = Base(uhf, fock=(tuple(H.f) if uhf else H.f[0]) if H is not None else None, nao=nao)
    fx = types.SimpleNamespace(id=0, base=base, cluster=cl)
    hamil = types.SimpleNamespace(_fragment=fx, cluster=cl)

    def block(key):
        lab = key.lower()
        sl = [slice(0, no[0 if c.islower() else 1]) if c in "oO" else slice(no[0 if c.islower() else 1], nao) for c in key]
        low = [c.islower() for c in key]
        ctx.true("block", low in ([True] * 4, [True, True, False, False], [False] * 4))
        g = H.g[{4: 0, 2: 1, 0: 2}[sum(low)]]
        return g[tuple(sl)]

    hamil.get_eris_bare = block
    hamil.get_clus_mf_info = lambda with_exxdiv=None, **k: (None, None, (tuple(en) if uhf else en[0]), None, None)
    return types.SimpleNamespace(hamil=hamil, log=NullLog(), fragment=fx, opts=None)


def h_tailor(ctx, uhf, no, nao, noy, nvy, free=False):
    """amplitudes of other fragments replace (the projected part of) the own ones"""
    no = tuple(no)
    kids = [Child(ctx, k + 1, uhf, no, nao, o, v, 1, free) for k, (o, v) in enumerate(zip(noy, nvy))]
    sol = parent(ctx, uhf, no, nao)
    proj = ctx.choice("projectors", [0, 1, 2])
    nv = (nao - no[0], nao - no[1])
    if uhf:
        t1 = (ctx.real("t1a", (no[0], nv[0])), ctx.real("t1b", (no[1], nv[1])))
        t2 = tuple(anti(ctx, "t2" + q, q, no, nv) for q in ("aa", "ab", "bb"))
    else:
        t1, t2 = ctx.real("t1", (no[0], nv[0])), ctx.t2("t2", no[0], nv[0])
    r1, r2 = t1, t2
    for k in kids:
        k.t = k.amps("y%d" % k.id)
        k.as_ccsd = lambda k=k: types.SimpleNamespace(t1=k.t[0], t2=k.t[1])
        back = lambda z: [x.T for x in z]
        d1 = minus(k.t[0], rot1(t1, back(k.ro), back(k.rv)))
        d2 = minus(k.t[1], rot2(t2, back(k.ro), back(k.rv)))
        if proj:
            d1, d2 = proj1(d1, k.po), proj2(d2, k.po, proj)
        r1, r2 = plus(r1, rot1(d1, k.ro, k.rv)), plus(r2, rot2(d2, k.ro, k.rv))
    cp = lambda t: tuple(x.copy() for x in t) if uhf else t.copy()
    n1, n2 = cp(t1), cp(t2)
    with quiet_norms():
        # chosen by the solver
        cls = ext_ccsd.extUCCSD_Solver if uhf else ext_ccsd.extRCCSD_Solver
        s = object.__new__(cls)
        s.hamil, s.log = sol.hamil, sol.log
        sol.fragment.base.fragments = kids
        s.opts = cls.Options(external_corrections=[(k.id, "tailor", proj, True) for k in kids])
        cb = s.get_callback()
        cb(dict(t1new=n1, t2new=n2))
    ctx.eq("singles", lst(n1), lst(r1))
    ctx.eq("doubles", lst(n2), lst(r2))


def h_common(ctx, uhf, proj, sym=True):
    """fragments whose wave functions are restrictions of one wave function: tailoring reproduces it"""
    no, nao = (2, 2), 4
    sp = (0, 1) if uhf else (0,)
    nv = (2, 2)
    sol = parent(ctx, uhf, no, nao)
    if uhf:
        T = ((ctx.real("ta", (2, 2)), ctx.real("tb", (2, 2))), tuple(anti(ctx, "t" + q, q, no, nv) for q in ("aa", "ab", "bb")))
        t = ((ctx.real("sa", (2, 2)), ctx.real("sb", (2, 2))), tuple(anti(ctx, "s" + q, q, no, nv) for q in ("aa", "ab", "bb")))
    else:
        T = (ctx.real("t1", (2, 2)), ctx.t2("t2", 2, 2))
        t = (ctx.real("s1", (2, 2)), ctx.t2("s2", 2, 2))
    c, s = Q(3, 5), Q(4, 5)
    R = np.array([[c, -s], [s, c]], dtype=object)
    R2 = np.array([[Q(5, 13), Q(12, 13)], [-Q(12, 13), Q(5, 13)]], dtype=object)
    if not ctx.symbolic:
        R, R2 = R.astype(float), R2.astype(float)
    kids = []
    for k in (0, 1):
        y = Child(ctx, k + 1, uhf, no, nao, no, nv, 1, False)
        y.ro, y.rv = [R if (k + q) % 2 else R2 for q in sp], [R2 if (k + q) % 2 else R for q in sp]
        y.fo = [R2[:, k:k + 1] if q else R[:, k:k + 1] for q in sp]
        z = np.zeros((2, 2), dtype=int)
        y.c = [np.block([[a, z], [z, b]]) for a, b in zip(y.ro, y.rv)]
        y.cluster = cluster(y.c, no, uhf)
        y.p = [a.T @ b for a, b in zip(y.fo, y.ro)]
        back = lambda q: [x.T for x in q]
        w = (rot1(T[0], back(y.ro), back(y.rv)), rot2(T[1], back(y.ro), back(y.rv)))
        y.as_ccsd = lambda w=w: types.SimpleNamespace(t1=w[0], t2=w[1])
        kids.append(y)
    if proj == 0:
        kids = kids[:1]
    cp = lambda q: tuple(x.copy() for x in q) if uhf else q.copy()
    n1, n2 = cp(t[0]), cp(t[1])
    with quiet_norms():
        coupling.tailor_with_fragments(sol, kids, project=proj)(dict(t1new=n1, t2new=n2))
    ctx.eq("singles", lst(n1), lst(T[0]))
    ctx.eq("doubles", lst(n2), lst(T[1]))


def h_external(ctx, uhf, no, nao, noy, nvy, types_, t3=True):
    """corrections of several fragments of either type are assembled in the parent cluster"""
    no = tuple(no)
    H = Ham(ctx, nao, no, uhf)
    sp = (0, 1) if uhf else (0,)
    en = [np.array([ctx.scalar("e%d%d" % (s, i), -3, -1) for i in range(no[s])] + [ctx.scalar("u%d%d" % (s, i), 1, 3) for i in range(nao - no[s])], dtype=object if ctx.symbolic else float) for s in sp]
    sol = parent(ctx, uhf, no, nao, H, en)
    kids = [Child(ctx, k + 1, uhf, no, nao, o, v, 1, k == 0) for k, (o, v) in enumerate(zip(noy, nvy))]
    proj = ctx.choice("projectors", [0, 1, 2])
    low = ctx.boolean("low_level_coul")
    d1 = d2 = None
    calls = []
    for k, ty in zip(kids, types_):
        k.base = sol.fragment.base
        k.t = k.amps("y%d" % k.id)
        a1, a2 = k.t
        if proj:
            a1, a2 = proj1(a1, k.po), proj2(a2, k.po, proj)
        a1, a2 = rot1(a1, k.ro, k.rv), rot2(a2, k.ro, k.rv)
        if ty == "external" and low:
            if uhf:
                w = tuple(anti(ctx, "w%d" % k.id + q, q, k.noy, k.nvy) for q in ("aaa", "aba", "bab", "bbb"))
                k.t3, full = w, w
                spins = ((0, 0, 0), (0, 1, 0), (1, 0, 1), (1, 1, 1))
            else:
                w = perm_sym(ctx, "w%d" % k.id, k.noy[0], k.nvy[0], 3)
                k.t3 = spin_t(w, [[0, 2], [1]])
                full = (spin_t(w, [[0, 1, 2]]), k.t3, k.t3, spin_t(w, [[0, 1, 2]]))
                spins = ((0, 0, 0),) * 4
            k.as_ccsdtq = lambda k=k: k
            ro, rv = k.ro, k.rv
            rot = [np.einsum("ijkabc,Ii,Jj,Kk,Aa,Bb,Cc->IJKABC", x, ro[q[0]], ro[q[1]], ro[q[2]], rv[q[0]], rv[q[1]], rv[q[2]]) for x, q in zip(full, spins)]
            tv = t3v_terms(ctx, H, rot, uhf)
            tv = proj2(tuple(tv) if uhf else tv[0], k.px, proj)
            a2 = plus(a2, tv)
        if ty == "external":
            e1 = [e[:no[s], None] - e[None, no[s]:] for s, e in enumerate(en)]
            e2 = [e1[s][:, None, :, None] + e1[q][None, :, None, :] for s, q in (SP if uhf else ((0, 0),))]
            un = lambda z: tuple(z) if uhf else z[0]
            a1, a2 = comb(a1, un(e1), lambda x, y: x / y), comb(a2, un(e2), lambda x, y: x / y)
        d1, d2 = (a1, a2) if d1 is None else (plus(d1, a1), plus(d2, a2))
    old = coupling._get_delta_t_for_extcorr, coupling._get_delta_t_for_delta_tailor

    def ext(f, fk, s, include_t3v=None):
        calls.append((f.id, "external", include_t3v, fk is sol.fragment.base.fock))
        return f.t

    def dlt(f):
        calls.append((f.id, "delta-tailor", None, True))
        return f.t

    nv = (nao - no[0], nao - no[1])
    if uhf:
        t1 = (ctx.real("t1a", (no[0], nv[0])), ctx.real("t1b", (no[1], nv[1])))
        t2 = tuple(anti(ctx, "t2" + q, q, no, nv) for q in ("aa", "ab", "bb"))
    else:
        t1, t2 = ctx.real("t1", (no[0], nv[0])), ctx.t2("t2", no[0], nv[0])
    cp = lambda q: tuple(x.copy() for x in q) if uhf else q.copy()
    n1, n2 = cp(t1), cp(t2)
    sol.fragment.base.fragments = kids
    try:
        coupling._get_delta_t_for_extcorr, coupling._get_delta_t_for_delta_tailor = ext, dlt
        with quiet_norms():
            cls = ext_ccsd.extUCCSD_Solver if uhf else ext_ccsd.extRCCSD_Solver
            s = object.__new__(cls)
            s.hamil, s.log = sol.hamil, sol.log
            s.opts = cls.Options(external_corrections=[(k.id, ty, proj, low) for k, ty in zip(kids, types_)])
            cb = s.get_callback()
            cb(dict(t1new=n1, t2new=n2))
    finally:
        coupling._get_delta_t_for_extcorr, coupling._get_delta_t_for_delta_tailor = old
    ctx.true("corrections requested", calls == [(k.id, ty, (not low) if ty == "external" else None, True) for k, ty in zip(kids, types_)])
    ctx.eq("singles", lst(n1), lst(plus(t1, d1)))
    ctx.eq("doubles", lst(n2), lst(plus(t2, d2)))


def h_delta(ctx, uhf):
    """delta-tailoring: difference between the fragment's wave function and CCSD for the same cluster"""
    mk = lambda nm: ((ctx.real(nm + "a", (1, 1)), ctx.real(nm + "b", (1, 1))), tuple(ctx.real(nm + q, (1, 1, 1, 1)) for q in "xyz")) if uhf else (ctx.real(nm, (1, 2)), ctx.t2(nm + "2", 1, 2))
    a, b = mk("p"), mk("q")
    log = []
    sol = types.SimpleNamespace(opts=types.SimpleNamespace(solve_lambda=True), converged=False)

    def kernel():
        log.append(sol.opts.solve_lambda)
        sol.converged = True
        sol.wf = types.SimpleNamespace(t1=b[0], t2=b[1])
    sol.kernel = kernel
    fr = types.SimpleNamespace(get_solver=lambda s: (log.append(s), sol)[1], results=types.SimpleNamespace(wf=types.SimpleNamespace(as_ccsd=lambda: types.SimpleNamespace(t1=a[0], t2=a[1]))))
    d1, d2 = coupling._get_delta_t_for_delta_tailor(fr)
    ctx.true("CCSD without lambda equations", log == ["CCSD", False])
    ctx.eq("singles", lst(d1), lst(minus(a[0], b[0])))
    ctx.eq("doubles", lst(d2), lst(minus(a[1], b[1])))


def h_tccsd(ctx, no, nao, oc, vc):
    """tailoring of restricted CCSD with FCI in an active space of the cluster"""
    nv = nao - no
    ro, rv = ctx.real("ro", (no, oc)), ctx.real("rv", (nv, vc))
    one = np.eye(nao, dtype=int)
    cl = cluster((one, one), (no, no), False)
    z = lambda a, b: np.zeros((a, b), dtype=int)
    co, cv = np.concatenate([ro, z(nv, oc)]), np.concatenate([z(no, vc), rv])
    v = ctx.sym2("v", nao) if ctx.boolean("v_ext") else None
    w1, w2 = ctx.real("w1", (oc, vc)), ctx.t2("w2", oc, vc)
    seen = []

    class FCI:
        def __init__(self, ham, **kw):
            self.ham, self.kw, self.v_ext, self.converged = ham, kw, None, True
            seen.append(self)

        def kernel(self):
            self.wf = types.SimpleNamespace(as_ccsd=lambda: types.SimpleNamespace(t1=w1, t2=w2))
    ham = types.SimpleNamespace(cluster=cl, v_ext=v, orig_mf=types.SimpleNamespace(get_ovlp=lambda: one), with_new_cluster=lambda c: c)
    s = object.__new__(tccsd.TRCCSD_Solver)
    s.hamil, s.log = ham, NullLog()
    s.opts = s.Options(c_cas_occ=co, c_cas_vir=cv, fci_opts=dict(conv_tol=1e-9))
    t1, t2 = ctx.real("t1", (no, nv)), ctx.t2("t2", no, nv)
    n1, n2 = t1.copy(), t2.copy()
    old = tccsd.FCI_Solver
    cc = types.SimpleNamespace()
    try:
        tccsd.FCI_Solver = FCI
        with quiet_norms():
            s.get_callback()(dict(mycc=cc, t1new=n1, t2new=n2))
    finally:
        tccsd.FCI_Solver = old
    f = seen[0]
    ctx.true("options of the FCI calculation", f.kw == dict(conv_tol=1e-9))
    ctx.eq("occupied active space", f.ham.c_active_occ, co)
    ctx.eq("virtual active space", f.ham.c_active_vir, cv)
    if v is None:
        ctx.true("no external potential", f.v_ext is None)
    else:
        c = np.concatenate([co, cv], axis=1)
        ctx.eq("external potential", f.v_ext, c.T @ v @ c)
    b = lambda x: [x.T]
    ctx.eq("singles", n1, t1 + rot1(w1 - rot1(t1, b(ro), b(rv)), [ro], [rv]))
    ctx.eq("doubles", n2, t2 + rot2(w2 - rot2(t2, b(ro), b(rv)), [ro], [rv]))


def h_select(ctx):
    """which callback the solver chooses"""
    a, b = ctx.choice("first", ["tailor", "delta-tailor", "external", None]), ctx.choice("second", ["tailor", "delta-tailor", "external", None])
    pa, pb = ctx.choice("pa", [1, 2]), ctx.choice("pb", [1, 2])
    corr = [(k, x, p, True) for k, x, p in ((1, a, pa), (2, b, pb)) if x]
    s = object.__new__(ext_ccsd.extRCCSD_Solver)
    got = []
    fr = [types.SimpleNamespace(id=1), types.SimpleNamespace(id=2), types.SimpleNamespace(id=3)]
    base = Base(False)
    base.fragments = fr
    s.hamil, s.log = types.SimpleNamespace(_fragment=types.SimpleNamespace(base=base)), NullLog()
    s.opts = s.Options(external_corrections=corr)
    old = ext_ccsd.tailor_with_fragments, ext_ccsd.externally_correct
    try:
        ext_ccsd.tailor_with_fragments = lambda *x, **k: ("tailor", x, k)
        ext_ccsd.externally_correct = lambda *x, **k: ("external", x, k)
        kinds = [x[1] for x in corr]
        if "tailor" in kinds and set(kinds) != {"tailor"}:
            ctx.raises("mixed", lambda: s.get_callback(), NotImplementedError)
            return
        if "tailor" in kinds and len(set(x[2] for x in corr)) > 1:
            ctx.raises("different projections", lambda: s.get_callback(), NotImplementedError)
            return
        r = s.get_callback()
    finally:
        ext_ccsd.tailor_with_fragments, ext_ccsd.externally_correct = old
    if not corr:
        ctx.true("nothing to correct", r is None)
    elif kinds[0] == "tailor":
        ctx.true("tailored by the given fragments", r[0] == "tailor" and r[1][0] is s and [x.id for x in r[1][1]] == [x[0] for x in corr] and r[2] == dict(project=corr[0][2]))
    else:
        ctx.true("corrected by the given fragments", r[0] == "external" and r[1][0] is s and list(r[1][1]) == corr and r[2] == dict(hamil=s.hamil))


HARNESSES = []
THO = ("thorough",)


def add(name, fn, tiers=("quick", "thorough"), **p):
    HARNESSES.append(Harness(name, fn, p, ", ".join("%s=%s" % i for i in p.items()), tiers=tiers))


add("res_r22", h_residual, no=(2, 2), n=4, uhf=0)
add("res_r33", h_residual, no=(3, 3), n=6, uhf=0, ranks=(4,))
add("res_r32", h_residual, no=(3, 3), n=5, uhf=0, ranks=(1, 3))
add("res_u22", h_residual, no=(2, 2), n=4, uhf=1)
add("res_u21", h_residual, no=(2, 1), n=4, uhf=1)
add("res_u32", h_residual, no=(3, 1), n=6, uhf=1, ranks=(1, 3, 4))
add("res_u40", h_residual, no=(4, 0), n=8, uhf=1, ranks=(4,))
add("res_u04", h_residual, no=(0, 4), n=8, uhf=1, ranks=(4,))
add("res_u41", h_residual, THO, no=(4, 1), n=8, uhf=1, ranks=(4,))

add("tailor_r", h_tailor, uhf=0, no=(2, 2), nao=4, noy=((1, 1), (2, 2)), nvy=((2, 2), (1, 1)))
add("tailor_u", h_tailor, uhf=1, no=(2, 1), nao=4, noy=((1, 1), (2, 1)), nvy=((2, 2), (1, 2)))
for k in (0, 1, 2):
    if k < 2:
        add("common_r%d" % k, h_common, uhf=0, proj=k)
        add("common_u%d" % k, h_common, uhf=1, proj=k)
for u in (0, 1):
    k = "ru"[u]
    no, noy, nvy = ((2, 2), ((2, 2), (1, 1)), ((2, 2), (1, 1))) if not u else ((2, 1), ((2, 1), (1, 1)), ((1, 2), (2, 1)))
    for a in ("external", "delta-tailor"):
        for b in ("external", "delta-tailor"):
            add("ext_%s_%s%s" % (k, a[0], b[0]), h_external, ("quick", "thorough") if a[0] == "e" else THO, uhf=u, no=no, nao=4, noy=noy, nvy=nvy, types_=(a, b))
    add("delta_%s" % k, h_delta, uhf=u)
add("tccsd", h_tccsd, no=2, nao=4, oc=1, vc=2)
add("select", h_select)
