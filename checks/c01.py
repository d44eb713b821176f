"""C01: changing the representation of a wave function (amplitudes <-> CI coefficients,
restricted <-> unrestricted, FCI -> truncated) preserves its content."""
import itertools
import numpy as np
from vsym.harness import Harness
from vsym import fock
from checks.common import *

META = dict(assumptions=["reference coefficient c0 nonzero (documented precondition of intermediate normalisation)",
                         "oracle: exp(T)|0> evaluated with second-quantised operators on determinants (vsym/fock.py)"])


def outer(a, b):
    return np.einsum("ia,jb->ijab", a, b)


def c0var(ctx):
    c0 = ctx.scalar("c0", None, None)
    if not ctx.symbolic and abs(c0) < 1e-3:
        c0 = 0.37
    return c0


def h_rcc(ctx, no, nv):
    mo = rmo(ctx, no, nv)
    t1, t2 = ctx.real("t1", (no, nv)), ctx.t2("t2", no, nv)
    c0 = c0var(ctx)
    w = wf.CCSD_WaveFunction(mo, t1.copy(), t2.copy())
    ci = w.as_cisd(c0=c0)
    ctx.eq("c0", ci.c0, c0)
    ctx.eq("c1", ci.c1, c0 * t1)
    ctx.eq("c2", ci.c2, c0 * (t2 + outer(t1, t1)))
    back = ci.as_ccsd()
    ctx.eq("t1", back.t1, t1)
    ctx.eq("t2", back.t2, t2)
    ctx.eq("l1", back.l1, t1)
    ctx.eq("l2", back.l2, t2)
    d0 = ctx.scalar("d0", None, None)
    ci2 = ci.as_cisd(c0=d0)
    ctx.eq("renorm c0", ci2.c0, d0)
    ctx.eq("renorm c1", ci2.c1, d0 * t1)
    ctx.eq("renorm c2", ci2.c2, d0 * (t2 + outer(t1, t1)))
    ci1 = w.as_cisd()
    ctx.eq("default norm", ci1.c2, t2 + outer(t1, t1))
    ctx.eq("t1 untouched", w.t1, t1)
    ctx.eq("t2 untouched", w.t2, t2)
    # CI state -> amplitudes with general CI coefficients
    c1, c2 = ctx.real("c1", (no, nv)), ctx.t2("c2", no, nv)
    cc = wf.CISD_WaveFunction(mo, c0, c1.copy(), c2.copy()).as_ccsd()
    ctx.eq("ci->t1", c0 * cc.t1, c1)
    ctx.eq("ci->t2", c0 * (cc.t2 + outer(cc.t1, cc.t1)), c2)


def h_rproj(ctx, no, nv, m):
    """Conversions of projected wave functions agree with restore -> convert -> project."""
    mo = rmo(ctx, no, nv)
    c0 = c0var(ctx)
    c1, c2 = ctx.real("c1", (no, nv)), ctx.t2("c2", no, nv)
    u = ctx.orth("u", no)
    p = u[:, :m].T.copy()
    w = wf.CISD_WaveFunction(mo, c0, c1.copy(), c2.copy()).project(p)
    a = w.as_ccsd()
    ctx.true("still projected", a.projector is not None and a.projector.shape == p.shape)
    P = np.dot(p.T, p)
    r1, r2 = np.dot(P, c1), np.tensordot(P, c2, axes=1)
    r2 = (r2 + r2.transpose(1, 0, 3, 2)) / 2
    t2 = r2 * c0 - outer(r1, r1)      # times c0^2
    for nm, x1, x2 in (("t", a.t1, a.t2), ("l", a.l1, a.l2)):
        ctx.eq(nm + "1", c0 * x1, np.dot(p, r1))
        ctx.eq(nm + "2", c0 * c0 * x2, np.tensordot(p, t2, axes=1))
    ctx.eq("source c1", w.c1, np.dot(p, c1))
    ctx.eq("source c2", w.c2, np.tensordot(p, c2, axes=1))
    d0 = ctx.scalar("d0", None, None)
    n = w.as_cisd(c0=d0)
    ctx.true("renorm projected", n.projector is not None)
    ctx.eq("renorm c0", n.c0, d0)
    ctx.eq("renorm c1", c0 * n.c1, d0 * np.dot(p, c1))
    ctx.eq("renorm c2", c0 * n.c2, d0 * np.tensordot(p, c2, axes=1))
    m2 = wf.MP2_WaveFunction(mo, c2.copy()).project(p)
    for nm, x, t, f in (("mp2 cisd", m2.as_cisd(c0=d0), "c", d0), ("mp2 ccsd", m2.as_ccsd(), "t", 1)):
        ctx.true(nm + " projected", x.projector is not None)
        ctx.eq(nm + " doubles", getattr(x, t + "2"), f * np.tensordot(p, c2, axes=1))
        ctx.eq(nm + " singles", getattr(x, t + "1"), np.zeros((m, nv)))


def h_uproj(ctx, no, nv, m):
    mo = umo(ctx, no, nv)
    c0 = c0var(ctx)
    c1, c2 = u_amps(ctx, "c", no, nv)
    p = [ctx.orth("u%d" % s, no[s])[:, :m[s]].T.copy() for s in (0, 1)]
    w = wf.CISD_WaveFunction(mo, c0, tuple(x.copy() for x in c1), tuple(x.copy() for x in c2)).project(p)
    a = w.as_ccsd()
    ctx.true("still projected", a.projector is not None)
    P = [np.dot(x.T, x) for x in p]
    tr = lambda x: x.transpose(1, 0, 3, 2)
    r1 = [np.dot(P[s], c1[s]) for s in (0, 1)]
    raa, rbb = [np.tensordot(P[s], x, axes=1) for s, x in ((0, c2[0]), (1, c2[-1]))]
    rab = (np.tensordot(P[0], c2[1], axes=1) + tr(np.tensordot(P[1], tr(c2[1]), axes=1))) / 2
    raa, rbb = (raa + tr(raa)) / 2, (rbb + tr(rbb)) / 2
    taa, tbb = raa * c0 - asym(r1[0], r1[0]), rbb * c0 - asym(r1[1], r1[1])
    tab = rab * c0 - outer(r1[0], r1[1])
    exp = [np.tensordot(p[0], taa, axes=1), np.tensordot(p[0], tab, axes=1), np.tensordot(p[1], tr(tab), axes=1), np.tensordot(p[1], tbb, axes=1)]
    ctx.eq("t1", [c0 * x for x in a.t1], [np.dot(p[s], r1[s]) for s in (0, 1)])
    ctx.eq("t2", [c0 * c0 * x for x in (a.t2aa, a.t2ab, a.t2ba, a.t2bb)], exp)


def u_amps(ctx, p, no, nv, n4=False):
    t1 = (ctx.real(p + "1a", (no[0], nv[0])), ctx.real(p + "1b", (no[1], nv[1])))
    aa, bb = ctx.t2aa(p + "2aa", no[0], nv[0]), ctx.t2aa(p + "2bb", no[1], nv[1])
    ab = ctx.real(p + "2ab", (no[0], no[1], nv[0], nv[1]))
    if n4:
        return t1, (aa, ab, ab.transpose(1, 0, 3, 2).copy(), bb)
    return t1, (aa, ab, bb)


def asym(a, b):
    return outer(a, b) - np.einsum("ib,ja->ijab", a, b)


def h_ucc(ctx, no, nv, n4):
    mo = umo(ctx, no, nv)
    t1, t2 = u_amps(ctx, "t", no, nv, n4)
    c0 = c0var(ctx)
    w = wf.CCSD_WaveFunction(mo, tuple(x.copy() for x in t1), tuple(x.copy() for x in t2))
    ci = w.as_cisd(c0=c0)
    ctx.eq("c0", ci.c0, c0)
    ctx.eq("c1", tuple(ci.c1), tuple(c0 * x for x in t1))
    full = [t2[0] + asym(t1[0], t1[0]), t2[1] + outer(t1[0], t1[1]), t2[-1] + asym(t1[1], t1[1])]
    if n4:
        full.insert(2, t2[2] + outer(t1[1], t1[0]))
    ctx.eq("c2", list(ci.c2), [c0 * x for x in full])
    back = ci.as_ccsd()
    ctx.eq("t1", list(back.t1), list(t1))
    ctx.eq("t2", list(back.t2), list(t2))
    d0 = ctx.scalar("d0", None, None)
    ci2 = ci.as_cisd(c0=d0)
    ctx.eq("renorm c1", list(ci2.c1), [d0 * x for x in t1])
    ctx.eq("renorm c2", list(ci2.c2), [d0 * x for x in full])
    ctx.eq("untouched", list(w.t2), list(t2))
    ctx.eq("mixed block", w.t2ba, t2[1].transpose(1, 0, 3, 2))
    ctx.eq("mixed block ci", ci.c2ba, ci.c2ab.transpose(1, 0, 3, 2))


def h_mp2(ctx, no, nv):
    mo = rmo(ctx, no, nv)
    t2 = ctx.t2("t2", no, nv)
    c0 = c0var(ctx)
    w = wf.MP2_WaveFunction(mo, t2.copy())
    ci = w.as_cisd(c0=c0)
    ctx.eq("c0", ci.c0, c0)
    ctx.eq("c1", ci.c1, 0 * ctx.real("z", (no, nv)))
    ctx.eq("c2", ci.c2, c0 * t2)
    cc = w.as_ccsd()
    ctx.eq("t1", cc.t1, np.zeros((no, nv)))
    ctx.eq("t2", cc.t2, t2)
    ctx.eq("back", ci.as_ccsd().t2, t2)


def h_ump2(ctx, no, nv):
    mo = umo(ctx, no, nv)
    _, t2 = u_amps(ctx, "t", no, nv)
    c0 = c0var(ctx)
    w = wf.MP2_WaveFunction(mo, tuple(x.copy() for x in t2))
    ci = w.as_cisd(c0=c0)
    ctx.eq("c2", list(ci.c2), [c0 * x for x in t2])
    ctx.eq("c0", ci.c0, c0)
    cc = w.as_ccsd()
    ctx.eq("t2", list(cc.t2), list(t2))
    ctx.eq("t1", list(cc.t1), [np.zeros((no[s], nv[s])) for s in (0, 1)])
    ctx.eq("back", list(ci.as_ccsd().t2), list(t2))


def h_r2u(ctx, no, nv):
    """Restricted -> unrestricted: same determinantal expansion."""
    n = no + nv
    mo = rmo(ctx, no, nv)
    t1, t2 = ctx.real("t1", (no, nv)), ctx.t2("t2", no, nv)
    l1, l2 = ctx.real("l1", (no, nv)), ctx.t2("l2", no, nv)
    w = wf.CCSD_WaveFunction(mo, t1.copy(), t2.copy(), l1=l1.copy(), l2=l2.copy())
    u = w.as_unrestricted()
    ctx.true("orbital counts", tuple(u.mo.nocc) == (no, no) and tuple(u.mo.norb) == (n, n))
    for nm, (x1, x2), (y1, y2) in (("t", (t1, t2), (u.t1, u.t2)), ("l", (l1, l2), (u.l1, u.l2))):
        ctx.eq(nm + "1", list(y1), [x1, x1])
        ctx.eq(nm + "2ab", y2[1], x2)
        ctx.eq(nm + "2aa", y2[0], x2 - x2.transpose(0, 1, 3, 2))
        ctx.eq(nm + "2bb", y2[-1], x2 - x2.transpose(0, 1, 3, 2))
    m = wf.MP2_WaveFunction(mo, t2.copy()).as_unrestricted()
    ctx.eq("mp2 ab", m.t2[1], t2)
    ctx.eq("mp2 aa", m.t2[0], t2 - t2.transpose(0, 1, 3, 2))
    ctx.eq("mp2 bb", m.t2[-1], t2 - t2.transpose(0, 1, 3, 2))
    ci = np.empty((1,), dtype=object)
    nd = len(fock.strings(n, no))
    fci = ctx.sym2("ci", nd)
    ctx.eq("fci", wf.FCI_WaveFunction(mo, fci.copy()).as_unrestricted().ci, fci)
    # the two exponential expansions agree
    if no * nv <= 4:
        sr = fock.exp_T(fock.reference((no, no)), fock.ops_rhf(t1, t2, no), 4)
        su = fock.exp_T(fock.reference((no, no)), fock.ops_uhf(list(u.t1), [u.t2[0], u.t2[1], u.t2[-1]], (no, no)), 4)
        ctx.eq("same state", fock.to_ci(su, n, (no, no), ctx.symbolic), fock.to_ci(sr, n, (no, no), ctx.symbolic))


def h_fci_cisd(ctx, no, nv):
    """Any FCI vector with c0 != 0: CISD coefficients are the overlaps with excited determinants."""
    n = no + nv
    nd = len(fock.strings(n, no))
    ci = ctx.sym2("ci", nd)
    if not ctx.symbolic and abs(ci[0, 0]) < 1e-2:
        ci[0, 0] = 0.71
    mo = rmo(ctx, no, nv)
    w = wf.FCI_WaveFunction(mo, ci.copy())
    if ctx.symbolic:
        ctx.assume((ci[0, 0] >= 0.2))
    c = w.as_cisd()
    st = fock.ci_state(ci, n, (no, no))
    ref = fock.reference((no, no))
    c1 = np.empty((no, nv), dtype=object)
    c2 = np.empty((no, no, nv, nv), dtype=object)
    for i, a in np.ndindex(no, nv):
        c1[i, a] = fock.inner(fock.apply_exc(ref, no + a, i, 1), st)
        for j, b in np.ndindex(no, nv):
            c2[i, j, a, b] = fock.inner(fock.apply_exc(fock.apply_exc(ref, no + b, j, 1), no + a, i, 0), st)
    ctx.eq("c0", c.c0, ci[0, 0])
    ctx.eq("c1", c.c1, c1)
    ctx.eq("c2", c.c2, c2)
    d0 = ctx.scalar("d0", 0.2, 3)
    cn = w.as_cisd(c0=d0)
    ctx.eq("c0n", cn.c0, d0)
    ctx.eq("c1n", cn.c1 * ci[0, 0], c1 * d0)
    ctx.eq("c2n", cn.c2 * ci[0, 0], c2 * d0)
    cc = w.as_ccsd()
    ctx.eq("t1", cc.t1 * ci[0, 0], c1)
    ctx.eq("t2", (cc.t2 + outer(cc.t1, cc.t1)) * ci[0, 0], c2)


def h_ufci_cisd(ctx, no, n):
    nv = (n - no[0], n - no[1])
    na, nb = len(fock.strings(n, no[0])), len(fock.strings(n, no[1]))
    ci = ctx.real("ci", (na, nb))
    if ctx.symbolic:
        ctx.assume((ci[0, 0] >= 0.2))
    elif abs(ci[0, 0]) < 1e-2:
        ci[0, 0] = 0.71
    mo = umo(ctx, no, nv)
    w = wf.FCI_WaveFunction(mo, ci.copy())
    st = fock.ci_state(ci, n, no)
    ref = fock.reference(no)

    def c1_(s):
        c = np.empty((no[s], nv[s]), dtype=object)
        for i, a in np.ndindex(no[s], nv[s]):
            c[i, a] = fock.inner(fock.apply_exc(ref, no[s] + a, i, s), st)
        return c

    def c2_(s, t):
        c = np.empty((no[s], no[t], nv[s], nv[t]), dtype=object)
        for i, j, a, b in np.ndindex(*c.shape):
            c[i, j, a, b] = fock.inner(fock.apply_exc(fock.apply_exc(ref, no[t] + b, j, t), no[s] + a, i, s), st)
        return c

    c1 = [c1_(0), c1_(1)]
    c2 = [c2_(0, 0), c2_(0, 1), c2_(1, 1)]
    for d0 in (None, ctx.scalar("d0", 0.2, 3)):
        c = w.as_cisd(c0=d0)
        f0 = 1 if d0 is None else d0
        g0 = 1 if d0 is None else ci[0, 0]
        ctx.eq("c0", c.c0, ci[0, 0] if d0 is None else d0)
        ctx.eq("c1", [x * g0 for x in c.c1], [x * f0 for x in c1])
        ctx.eq("c2", [x * g0 for x in c.c2], [x * f0 for x in c2])
    cc = w.as_ccsd()
    ctx.eq("t2ab", (cc.t2[1] + outer(cc.t1[0], cc.t1[1])) * ci[0, 0], c2[1])
    ctx.eq("t2aa", (cc.t2[0] + asym(cc.t1[0], cc.t1[0])) * ci[0, 0], c2[0])
    ctx.eq("t2bb", (cc.t2[-1] + asym(cc.t1[1], cc.t1[1])) * ci[0, 0], c2[2])


def h_cisd_fci(ctx, no, nv):
    """CISD -> FCI vector -> CISD."""
    mo = rmo(ctx, no, nv)
    c0 = ctx.scalar("c0", 0.2, 3)
    c1, c2 = ctx.real("c1", (no, nv)), ctx.t2("c2", no, nv)
    w = wf.CISD_WaveFunction(mo, c0, c1.copy(), c2.copy())
    f = w.as_fci()
    b = f.as_cisd()
    ctx.eq("c0", b.c0, c0)
    ctx.eq("c1", b.c1, c1)
    ctx.eq("c2", b.c2, c2)


def h_ucisd_fci(ctx, no, nv):
    mo = umo(ctx, no, nv)
    c0 = ctx.scalar("c0", 0.2, 3)
    c1, c2 = u_amps(ctx, "c", no, nv)
    w = wf.CISD_WaveFunction(mo, c0, tuple(x.copy() for x in c1), tuple(x.copy() for x in c2))
    b = w.as_fci().as_cisd()
    ctx.eq("c0", b.c0, c0)
    ctx.eq("c1", list(b.c1), list(c1))
    ctx.eq("c2", list(b.c2), list(c2))


def perm_sym(ctx, name, no, nv, n):
    """Spin-adapted amplitude: invariant under simultaneous permutation of index pairs."""
    gens = []
    for k in range(n - 1):
        p = list(range(n))
        p[k], p[k + 1] = p[k + 1], p[k]
        gens.append((tuple(p + [n + x for x in p]), 1))
    return ctx.unique(name, (no,) * n + (nv,) * n, gens)


def spin_t(t, pos):
    """Spin-orbital amplitude from a spin-adapted one: antisymmetrise the virtuals over the
    positions of equal spin; pos: list of lists of positions."""
    n = t.ndim // 2
    out = 0
    for perms in itertools.product(*[list(itertools.permutations(range(len(p)))) for p in pos]):
        ax = list(range(n))
        sg = 1
        for p, pm in zip(pos, perms):
            for k, x in enumerate(pm):
                ax[p[k]] = p[x]
            sg *= (-1) ** sum(1 for i in range(len(pm)) for j in range(i) if pm[j] > pm[i])
        out = out + sg * t.transpose(list(range(n)) + [n + x for x in ax])
    return out


def h_rccsdtq(ctx, no, nv, ranks=(1, 2, 3, 4)):
    """exp(T1+T2+T3+T4)|0> as an FCI vector -> amplitudes returned unchanged."""
    n = no + nv
    t1, t2 = ctx.real("t1", (no, nv)), ctx.t2("t2", no, nv)
    t3, t4 = perm_sym(ctx, "t3", no, nv, 3), perm_sym(ctx, "t4", no, nv, 4)
    t1, t2, t3, t4 = [t if k in ranks else t * 0 for k, t in ((1, t1), (2, t2), (3, t3), (4, t4))]
    s = fock.exp_T(fock.reference((no, no)), fock.ops_rhf(t1, t2, no, t3, t4), 4)
    ci = fock.to_ci(s, n, (no, no), ctx.symbolic)
    c0 = ctx.scalar("c0", 0.2, 2)
    mo = rmo(ctx, no, nv)
    w = wf.FCI_WaveFunction(mo, ci * c0)
    q = w.as_cisdtq()
    ctx.eq("c0", q.c0, c0)
    cc = q.as_ccsdtq()
    ctx.eq("t1", cc.t1, t1)
    ctx.eq("t2", cc.t2, t2)
    ctx.eq("t3", cc.t3, spin_t(t3, [[0, 2], [1]]))
    ctx.eq("t4 abaa", cc.t4[0], spin_t(t4, [[0, 2, 3], [1]]))
    ctx.eq("t4 abab", cc.t4[1], spin_t(t4, [[0, 2], [1, 3]]))
    d0 = ctx.scalar("d0", 0.2, 2)
    q2 = w.as_cisdtq(c0=d0)
    for nm in ("c1", "c2", "c3"):
        ctx.eq("norm " + nm, getattr(q2, nm) * c0, getattr(q, nm) * d0)
    ctx.eq("norm c4", [x * c0 for x in q2.c4], [x * d0 for x in q.c4])
    sd = cc.as_ccsd()
    ctx.eq("sd t1", sd.t1, t1)
    ctx.eq("sd t2", sd.t2, t2)
    sc = cc.as_cisd(c0=d0)
    ctx.eq("sd c0", sc.c0, d0)
    ctx.eq("sd c1", sc.c1, d0 * t1)
    ctx.eq("sd c2", sc.c2, d0 * (t2 + outer(t1, t1)))


def anti(ctx, name, sp, no, nv):
    """Unrestricted amplitude with spin signature sp, antisymmetric within each spin."""
    n = len(sp)
    gens = []
    for s in "ab":
        p = [k for k in range(n) if sp[k] == s]
        for x, y in zip(p, p[1:]):
            g = list(range(2 * n))
            g[x], g[y] = g[y], g[x]
            gens.append((tuple(g), -1))
            g = list(range(2 * n))
            g[n + x], g[n + y] = g[n + y], g[n + x]
            gens.append((tuple(g), -1))
    o = dict(a=no[0], b=no[1])
    v = dict(a=nv[0], b=nv[1])
    shape = tuple(o[s] for s in sp) + tuple(v[s] for s in sp)
    if not gens:
        return ctx.real(name, shape)
    return ctx.unique(name, shape, gens)


def h_uccsdtq(ctx, no, n, ranks=(1, 2, 3, 4)):
    nv = (n - no[0], n - no[1])
    sp = [["a", "b"], ["aa", "ab", "bb"], ["aaa", "aba", "bab", "bbb"], ["aaaa", "aaab", "abab", "abbb", "bbbb"]]
    T = [tuple(anti(ctx, "t" + s, s, no, nv) for s in row) for row in sp]
    T = [tuple(x if k + 1 in ranks else x * 0 for x in t) for k, t in enumerate(T)]
    s = fock.exp_T(fock.reference(no), fock.ops_uhf(T[0], T[1], no, T[2], T[3]), 4)
    ci = fock.to_ci(s, n, no, ctx.symbolic)
    c0 = ctx.scalar("c0", 0.2, 2)
    w = wf.FCI_WaveFunction(umo(ctx, no, nv), ci * c0)
    q = w.as_cisdtq()
    cc = q.as_ccsdtq()
    ctx.eq("c0", q.c0, c0)
    for k, x in enumerate((cc.t1, cc.t2, cc.t3, cc.t4)):
        for lab, a, b in zip(sp[k], x, T[k]):
            ctx.eq("t" + lab, a, b)
    d0 = ctx.scalar("d0", 0.2, 2)
    q2 = w.as_cisdtq(c0=d0)
    ctx.eq("norm c0", q2.c0, d0)
    for nm in ("c1", "c2", "c3", "c4"):
        ctx.eq("norm " + nm, [x * c0 for x in getattr(q2, nm)], [x * d0 for x in getattr(q, nm)])


Q, T = ("quick", "thorough"), ("thorough",)
HARNESSES = []
for no, nv in ((1, 1), (1, 2), (2, 1), (2, 2), (2, 3)):
    HARNESSES.append(Harness("rccsd_cisd_%d%d" % (no, nv), h_rcc, dict(no=no, nv=nv), "nocc=%d nvir=%d, all amplitudes and c0 symbolic" % (no, nv)))
for no, nv in (((1, 1), (1, 1)), ((2, 1), (1, 2)), ((2, 2), (2, 2)), ((1, 2), (3, 2))):
    for n4 in (False, True):
        HARNESSES.append(Harness("uccsd_cisd_%d%d_%d%d_%s" % (no + nv + ("4" if n4 else "3",)), h_ucc, dict(no=no, nv=nv, n4=n4),
                                 "nocc=%s nvir=%s" % (no, nv)))
HARNESSES += [
    Harness("rproj_22", h_rproj, dict(no=2, nv=2, m=1), "nocc=2 nvir=2, one fragment orbital with symbolic direction"),
    Harness("rproj_31", h_rproj, dict(no=3, nv=1, m=2), "nocc=3 nvir=1, two fragment orbitals"),
    Harness("uproj_22", h_uproj, dict(no=(2, 2), nv=(1, 2), m=(1, 1)), "nocc=(2,2) nvir=(1,2), one fragment orbital per spin"),
    Harness("rmp2_22", h_mp2, dict(no=2, nv=2), "nocc=2 nvir=2"),
    Harness("rmp2_12", h_mp2, dict(no=1, nv=2), "nocc=1 nvir=2"),
    Harness("ump2_21_12", h_ump2, dict(no=(2, 1), nv=(1, 2)), "nocc=(2,1) nvir=(1,2)"),
    Harness("ump2_22_32", h_ump2, dict(no=(2, 2), nv=(3, 2)), "nocc=(2,2) nvir=(3,2)"),
    Harness("r2u_11", h_r2u, dict(no=1, nv=1), "nocc=1 nvir=1"),
    Harness("r2u_12", h_r2u, dict(no=1, nv=2), "nocc=1 nvir=2"),
    Harness("r2u_22", h_r2u, dict(no=2, nv=2), "nocc=2 nvir=2"),
    Harness("fci_cisd_12", h_fci_cisd, dict(no=1, nv=2), "2 electrons in 3 orbitals"),
    Harness("fci_cisd_22", h_fci_cisd, dict(no=2, nv=2), "4 electrons in 4 orbitals"),
    Harness("fci_cisd_31", h_fci_cisd, dict(no=3, nv=1), "6 electrons in 4 orbitals"),
    Harness("ufci_cisd_21_4", h_ufci_cisd, dict(no=(2, 1), n=4), "3 electrons in 4 orbitals"),
    Harness("ufci_cisd_22_4", h_ufci_cisd, dict(no=(2, 2), n=4), "4 electrons in 4 orbitals"),
    Harness("ufci_cisd_32_4", h_ufci_cisd, dict(no=(3, 2), n=4), "5 electrons in 4 orbitals"),
    Harness("cisd_fci_22", h_cisd_fci, dict(no=2, nv=2), "nocc=2 nvir=2"),
    Harness("cisd_fci_12", h_cisd_fci, dict(no=1, nv=2), "nocc=1 nvir=2"),
    Harness("ucisd_fci_22", h_ucisd_fci, dict(no=(2, 2), nv=(2, 2)), "nocc=(2,2) nvir=(2,2)"),
    Harness("ucisd_fci_21", h_ucisd_fci, dict(no=(2, 1), nv=(2, 3)), "nocc=(2,1) nvir=(2,3)"),
    Harness("rccsdtq_22", h_rccsdtq, dict(no=2, nv=2), "nocc=2 nvir=2"),
    Harness("uccsdtq_22_4", h_uccsdtq, dict(no=(2, 2), n=4), "nocc=(2,2), 4 orbitals"),
    Harness("uccsdtq_21_4", h_uccsdtq, dict(no=(2, 1), n=4), "nocc=(2,1), 4 orbitals"),
    Harness("rccsdtq_33_13", h_rccsdtq, dict(no=3, nv=3, ranks=(1, 3)), "nocc=3 nvir=3, T1 and T3", Q, budget=300),
    Harness("rccsdtq_33_24", h_rccsdtq, dict(no=3, nv=3, ranks=(2, 4)), "nocc=3 nvir=3, T2 and T4", T, budget=800),
    Harness("rccsdtq_33_12", h_rccsdtq, dict(no=3, nv=3, ranks=(1, 2)), "nocc=3 nvir=3, T1 and T2", Q, budget=300),
    Harness("uccsdtq_33_5", h_uccsdtq, dict(no=(3, 2), n=6, ranks=(1, 3)), "nocc=(3,2), 6 orbitals, T1 and T3", Q, budget=300),
]
