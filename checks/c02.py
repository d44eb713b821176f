"""C02: projecting a wave function onto a complete set of fragments is an exact partition."""
import numpy as np
from vsym.harness import Harness
from vsym import fock
from checks.common import *

META = dict(assumptions=["fragment orbitals: columns of an orthogonal rotation of the occupied space (one symbolic angle per plane listed in the bounds, composed with a fixed rational rotation for 3 orbitals)",
                         "FCI projection: reference coefficient nonzero"])


def frags(ctx, name, n, split, square):
    """Projectors of a complete set of fragments of an n-dimensional occupied space."""
    u = ctx.orth(name, n)
    out, k = [], 0
    for m in split:
        c = u[:, k:k + m]
        k += m
        out.append(np.dot(c, c.T) if square else c.T)
    return out


def same(ctx, lab, objs, before):
    for i, (a, b) in enumerate(zip(objs, before)):
        ctx.eq("%s unchanged %d" % (lab, i), a, b)


def tosum(xs):
    s = xs[0]
    for x in xs[1:]:
        s = s + x
    return s


def h_r(ctx, kind, no, nv, split, square, lam=True):
    mo = rmo(ctx, no, nv)
    c1, c2 = ctx.real("c1", (no, nv)), ctx.t2("c2", no, nv)
    l1, l2 = (ctx.real("l1", (no, nv)), ctx.t2("l2", no, nv)) if lam else (None, None)
    ps = frags(ctx, "u", no, split, square)
    if kind == "ccsd":
        w = wf.CCSD_WaveFunction(mo, c1.copy(), c2.copy(), l1=None if l1 is None else l1.copy(), l2=None if l2 is None else l2.copy())
        names = ["t1", "t2"] + (["l1", "l2"] if lam else [])
        ref = [c1, c2] + ([l1, l2] if lam else [])
    elif kind == "cisd":
        w = wf.CISD_WaveFunction(mo, ctx.scalar("c0"), c1.copy(), c2.copy())
        names, ref = ["c1", "c2"], [c1, c2]
    else:
        w = wf.MP2_WaveFunction(mo, c2.copy())
        names, ref = ["t2"], [c2]
    get = lambda x: [getattr(x, n) for n in names]
    before = [x.copy() for x in ref]
    acc, accu = None, None
    for k, p in enumerate(ps):
        x = w.project(p)
        for nm, r, y in zip(names, ref, get(x)):
            ctx.eq("project %s" % nm, y, np.tensordot(p, r, axes=1))
        ctx.true("projector stored", x.projector is not None)
        same(ctx, "project", get(w), before)
        mid = [y.copy() for y in get(x)]
        y = x.restore()
        ctx.true("projector cleared", y.projector is None)
        same(ctx, "restore", get(x), mid)
        P = np.dot(p.T, p)
        for nm, r, v in zip(names, ref, get(y)):
            e = np.tensordot(P, r, axes=1)
            if e.ndim == 4:
                e = (e + e.transpose(1, 0, 3, 2)) / 2
            ctx.eq("restore %s" % nm, v, e)
        acc = get(y) if acc is None else [a + b for a, b in zip(acc, get(y))]
        z = x.restore(sym=False)
        ctx.true("projector cleared without symmetrisation", z.projector is None)
        accu = get(z) if accu is None else [a + b for a, b in zip(accu, get(z))]
        z2 = w.project(p).restore(projector=p)
        for nm, a, b in zip(names, get(z2), get(y)):
            ctx.eq("explicit projector %s" % nm, a, b)
        # in place
        wc = w.copy()
        r1 = wc.project(p, inplace=True)
        ctx.true("inplace object", r1 is wc)
        for nm, a, b in zip(names, get(wc), mid):
            ctx.eq("inplace project %s" % nm, a, b)
        same(ctx, "copy+inplace", get(w), before)
        r2 = wc.restore(inplace=True)
        ctx.true("inplace restore object", r2 is wc)
        for nm, a, b in zip(names, get(wc), get(y)):
            ctx.eq("inplace restore %s" % nm, a, b)
    for nm, r, a, b in zip(names, ref, acc, accu):
        ctx.eq("sum %s" % nm, a, r)
        ctx.eq("sum unsym %s" % nm, b, r)
    if kind == "cisd":
        ctx.eq("c0", w.project(ps[0]).c0, w.c0)
    if kind == "ccsd":
        f = ctx.scalar("f")
        wm = w.copy()
        wm.multiply(f)
        for nm, r, a in zip(names, ref, get(wm)):
            ctx.eq("multiply %s" % nm, a, f * r)
        same(ctx, "multiply", get(w), before)


def uamps(ctx, p, no, nv):
    return ((ctx.real(p + "1a", (no[0], nv[0])), ctx.real(p + "1b", (no[1], nv[1]))),
            (ctx.t2aa(p + "2aa", no[0], nv[0]), ctx.real(p + "2ab", (no[0], no[1], nv[0], nv[1])), ctx.t2aa(p + "2bb", no[1], nv[1])))


def cp(t):
    return tuple(x.copy() for x in t)


def h_u(ctx, kind, no, nv, split, square, lam=True):
    mo = umo(ctx, no, nv)
    c1, c2 = uamps(ctx, "c", no, nv)
    l1, l2 = uamps(ctx, "l", no, nv) if lam else (None, None)
    pa, pb = frags(ctx, "ua", no[0], split[0], square), frags(ctx, "ub", no[1], split[1], square)
    if kind == "ccsd":
        w = wf.CCSD_WaveFunction(mo, cp(c1), cp(c2), l1=cp(l1) if lam else None, l2=cp(l2) if lam else None)
        names = ["t1", "t2"] + (["l1", "l2"] if lam else [])
        ref = [c1, c2] + ([l1, l2] if lam else [])
    elif kind == "cisd":
        w = wf.CISD_WaveFunction(mo, ctx.scalar("c0"), cp(c1), cp(c2))
        names, ref = ["c1", "c2"], [c1, c2]
    else:
        w = wf.MP2_WaveFunction(mo, cp(c2))
        names, ref = ["t2"], [c2]
    get = lambda x: [getattr(x, n) for n in names]
    full4 = lambda r: (r[0], r[1], r[1].transpose(1, 0, 3, 2), r[2])
    acc, accu = None, None
    for p in zip(pa, pb):
        x = w.project(p)
        for nm, r, y in zip(names, ref, get(x)):
            if len(r) == 2:
                e = [np.tensordot(p[s], r[s], axes=1) for s in (0, 1)]
            else:
                e = [np.tensordot(p[s], b, axes=1) for s, b in zip((0, 0, 1, 1), full4(r))]
            ctx.eq("project %s" % nm, list(y), e)
        for nm, r, y in zip(names, ref, get(w)):
            ctx.eq("project unchanged %s" % nm, list(y), list(r))
        mid = [cp(y) for y in get(x)]
        y = x.restore()
        for nm, a, b in zip(names, get(x), mid):
            ctx.eq("restore unchanged %s" % nm, list(a), list(b))
        ctx.true("projector cleared", y.projector is None)
        P = [np.dot(q.T, q) for q in p]
        for nm, r, v in zip(names, ref, get(y)):
            if len(r) == 2:
                e = [np.dot(P[s], r[s]) for s in (0, 1)]
            else:
                f = [np.tensordot(P[s], b, axes=1) for s, b in zip((0, 0, 1, 1), full4(r))]
                t = lambda q: q.transpose(1, 0, 3, 2)
                e = [(f[0] + t(f[0])) / 2, (f[1] + t(f[2])) / 2, (f[3] + t(f[3])) / 2]
                v = [v[0], v[1], v[-1]]
            ctx.eq("restore %s" % nm, list(v), e)
        red = lambda q: [[b[0], b[1], b[-1]] if len(b) > 2 else list(b) for b in get(q)]
        acc = red(y) if acc is None else [[a + b for a, b in zip(s, t)] for s, t in zip(acc, red(y))]
        z = x.restore(sym=False)
        ctx.true("projector cleared without symmetrisation", z.projector is None)
        z = [list(b) for b in get(z)]
        accu = z if accu is None else [[a + b for a, b in zip(s, t)] for s, t in zip(accu, z)]
        wc = w.copy()
        ctx.true("inplace object", wc.project(p, inplace=True) is wc)
        for nm, a, b in zip(names, get(wc), mid):
            ctx.eq("inplace project %s" % nm, list(a), list(b))
        for nm, r, yy in zip(names, ref, get(w)):
            ctx.eq("copy unchanged %s" % nm, list(yy), list(r))
    for nm, r, a, b in zip(names, ref, acc, accu):
        ctx.eq("sum %s" % nm, a, list(r))
        ctx.eq("sum unsym %s" % nm, b, list(r) if len(r) == 2 else list(full4(r)))
    if kind == "cisd":
        ctx.eq("c0", w.project((pa[0], pb[0])).c0, w.c0)
    if kind == "ccsd":
        f = ctx.scalar("f")
        wm = w.copy()
        wm.multiply(f)
        for nm, r, a in zip(names, ref, get(wm)):
            ctx.eq("multiply %s" % nm, list(a), [f * q for q in r])


def cidx(ctx, no, n, st, lev, spins):
    pass


def h_fci(ctx, no, nv, split):
    n = no + nv
    nd = len(fock.strings(n, no))
    ci = ctx.sym2("ci", nd)
    ci[0, 0] = ctx.scalar("cref", 0.2, 1)
    c0 = ci[0, 0]
    w = wf.FCI_WaveFunction(rmo(ctx, no, nv), ci.copy())
    ps = frags(ctx, "u", no, split, True)
    full = w.as_cisd()
    acc = None
    for P in ps:
        x = w.project_occ(P)
        ctx.eq("unchanged", w.ci, ci)
        c = x.as_cisd()
        ctx.eq("c0", c.c0, 0)
        ctx.eq("c1", c.c1 * c0, np.dot(P, full.c1))
        e = np.tensordot(P, full.c2, axes=1)
        ctx.eq("c2", c.c2 * c0, (e + e.transpose(1, 0, 3, 2)) / 2)
        acc = x.ci if acc is None else acc + x.ci
    exp = ci.copy()
    exp[0, 0] = 0
    ctx.eq("sum", acc * c0, exp)


def h_ufci(ctx, no, n, split):
    na, nb = len(fock.strings(n, no[0])), len(fock.strings(n, no[1]))
    ci = ctx.real("ci", (na, nb))
    ci[0, 0] = ctx.scalar("cref", 0.2, 1)
    c0 = ci[0, 0]
    nv = (n - no[0], n - no[1])
    w = wf.FCI_WaveFunction(umo(ctx, no, nv), ci.copy())
    pa, pb = frags(ctx, "ua", no[0], split[0], True), frags(ctx, "ub", no[1], split[1], True)
    full = w.as_cisd()
    acc = None
    for P in zip(pa, pb):
        x = w.project_occ(P)
        ctx.eq("unchanged", w.ci, ci)
        c = x.as_cisd()
        ctx.eq("c0", c.c0, 0)
        ctx.eq("c1", [y * c0 for y in c.c1], [np.dot(P[s], full.c1[s]) for s in (0, 1)])
        t = lambda q: q.transpose(1, 0, 3, 2)
        aa = np.tensordot(P[0], full.c2[0], axes=1)
        bb = np.tensordot(P[1], full.c2[-1], axes=1)
        ab = np.tensordot(P[0], full.c2[1], axes=1) + t(np.tensordot(P[1], t(full.c2[1]), axes=1))
        ctx.eq("c2", [y * c0 for y in (c.c2[0], c.c2[1], c.c2[-1])], [(aa + t(aa)) / 2, ab / 2, (bb + t(bb)) / 2])
        acc = x.ci if acc is None else acc + x.ci
    exp = ci.copy()
    exp[0, 0] = 0
    ctx.eq("sum", acc * c0, exp)


Q, T = ("quick", "thorough"), ("thorough",)
HARNESSES = []
for kind in ("ccsd", "cisd", "mp2"):
    for no, nv, split in ((2, 2, (1, 1)), (3, 1, (2, 1)), (2, 1, (2,))):
        for sq in (False, True):
            HARNESSES.append(Harness("r%s_%d%d_%s%s" % (kind, no, nv, "+".join(map(str, split)), "_sq" if sq else ""), h_r,
                                     dict(kind=kind, no=no, nv=nv, split=split, square=sq),
                                     "nocc=%d nvir=%d fragments %s, %s projectors" % (no, nv, split, "square" if sq else "rectangular")))
    for no, nv, split in (((2, 2), (1, 2), ((1, 1), (1, 1))), ((3, 2), (1, 2), ((2, 1), (1, 1)))):
        for sq in (False, True):
            HARNESSES.append(Harness("u%s_%d%d_%d%d%s" % ((kind,) + no + nv + ("_sq" if sq else "",)), h_u,
                                     dict(kind=kind, no=no, nv=nv, split=split, square=sq),
                                     "nocc=%s nvir=%s fragments %s, independent alpha/beta rotations" % (no, nv, split)))
HARNESSES += [
    Harness("rccsd_nolambda", h_r, dict(kind="ccsd", no=2, nv=2, split=(1, 1), square=False, lam=False), "nocc=2 nvir=2, no lambda"),
    Harness("uccsd_nolambda", h_u, dict(kind="ccsd", no=(2, 1), nv=(1, 2), split=((1, 1), (1, 0)), square=False, lam=False), "nocc=(2,1), empty beta fragment, no lambda"),
    Harness("rfci_12", h_fci, dict(no=1, nv=2, split=(1,)), "2 electrons in 3 orbitals"),
    Harness("rfci_22", h_fci, dict(no=2, nv=2, split=(1, 1)), "4 electrons in 4 orbitals, symbolic rotation"),
    Harness("ufci_21_4", h_ufci, dict(no=(2, 1), n=4, split=((1, 1), (1, 0))), "3 electrons in 4 orbitals"),
    Harness("ufci_22_4", h_ufci, dict(no=(2, 2), n=4, split=((1, 1), (1, 1))), "4 electrons in 4 orbitals"),
    Harness("rccsd_33", h_r, dict(kind="ccsd", no=3, nv=2, split=(1, 1, 1), square=False), "nocc=3 nvir=2, three fragments", T),
    Harness("rfci_31", h_fci, dict(no=3, nv=1, split=(2, 1)), "6 electrons in 4 orbitals", T),
]
