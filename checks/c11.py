"""C11: fragment selection and symmetry bookkeeping. Real Embedding.get_fragments, Fragment.get_symmetry_* /
loop_symmetry_children, Embedding.get_symmetry_child_fragments, create_symmetric_fragments and the fragmentation
contexts run with symbolic attribute/option/flag values, symbolic parent relations and symbolic orbitals."""
import types
import itertools
import numpy as np
from vsym.harness import Harness
from checks.common import *
from checks.c13 import NullLog
from checks.c26 import mkbase, mkfrag, EMB
from vayesta.core.symmetry.group import SymmetryGroup
from vayesta.core.symmetry.operation import SymmetryTranslation, SymmetryIdentity
from vayesta.core.qemb.fragment import Fragment as RFragment
from vayesta.lattmod import latt

META = dict(assumptions=["embedding objects are created without running a mean field; selection and symmetry bookkeeping are the real code",
                         "mean field of the translation harnesses is a stand-in that returns a symbolic density matrix"])

ATTR = {"mpi_rank": ("filters", "int"), "id": ("filters", "id"), "active": ("filters", "bool"), "contributes": ("filters", "contr"),
        "sym_parent": ("filters", "par"), "name": ("filters", "str"), "auxiliary": ("options", "bool"), "sym_factor": ("options", "real"),
        "wf_factor": ("options", "optreal"), "screening": ("options", "optstr"), "is_envelop": ("flags", "bool"), "is_secfrag": ("flags", "bool"),
        "bath_parent_fragment_id": ("flags", "optint")}


def oall(ctx, xs):
    r = True
    for x in xs:
        r = x & r if not isinstance(x, (bool, np.bool_)) else (r if x else False)
        if r is False:
            return False
    return r


def assign(ctx, f, key, kind, tag):
    """Give fragment f a symbolic value of the attribute; returns it."""
    if kind == "int":
        v = ctx.integer(tag, 0, 2)
    elif kind == "bool":
        v = ctx.boolean(tag)
    elif kind == "real":
        v = ctx.scalar(tag, 0, 2)
    elif kind == "optreal":
        v = ctx.scalar(tag, 0, 2) if ctx.boolean(tag + "_set") else None
    elif kind == "optint":
        v = ctx.integer(tag, 0, 2) if ctx.boolean(tag + "_set") else None
    elif kind == "optstr":
        v = ctx.choice(tag, [None, "mrpa", "crpa"])
    elif kind == "str":
        v = ctx.choice(tag, ["A", "B"])
    elif kind == "contr":
        f.active, aux = ctx.boolean(tag + "_act"), ctx.boolean(tag + "_aux")
        f.opts.auxiliary = aux
        return f.active and not aux
    elif kind == "id":
        return f.id
    elif kind == "par":
        v = f.base.fragments[0] if (f is not f.base.fragments[0] and ctx.boolean(tag)) else None
        f.sym_parent = v
        return v
    where = ATTR[key][0]
    tgt = {"filters": f, "options": f.opts, "flags": f.flags}[where]
    if where == "options":
        f.opts.__dict__[key] = v
    else:
        setattr(tgt, key, v)
    return v


def require(ctx, b, key, kind, tag, forms=("value", "list", "callable")):
    """A requirement in every documented form -> (argument, predicate)."""
    form = ctx.choice(tag + "_form", forms)
    if kind in ("int", "optint"):
        pool = [0, 2] if form == "list" else 1
    elif kind in ("real", "optreal"):
        pool = [0.5, 1] if form == "list" else 1.0
    elif kind in ("bool", "contr"):
        pool = [True, False] if form == "list" else ctx.boolean(tag + "_v")
    elif kind == "str":
        pool = ["B", "C"] if form == "list" else "B"
    elif kind == "optstr":
        pool = [None, "crpa"] if form == "list" else ctx.choice(tag + "_v", [None, "mrpa"])
    elif kind == "id":
        pool = [0, 2, 7] if form == "list" else 1
    elif kind == "par":
        pool = [None, b.fragments[1]] if form == "list" else ctx.choice(tag + "_v", [None, b.fragments[0]])
    if kind in ("optint", "optreal") and form == "value" and ctx.boolean(tag + "_none"):
        pool = None
    vals = pool if isinstance(pool, list) else [pool]

    def ok(x):
        r = False
        for v in vals:
            if x is None or v is None or isinstance(v, (str, RFragment)):
                if x is v or (isinstance(v, str) and x == v):
                    return True
                continue
            e = x == v
            if isinstance(e, (bool, np.bool_)):
                if e:
                    return True
                continue
            r = e if r is False else (r | e)
        return r
    if form == "callable":
        return (lambda x: bool(ok(x))), ok
    return pool, ok


def h_filter(ctx, keys, nf, subset=False, forms=("value", "list", "callable")):
    """All and only the fragments meeting every requirement, in order, whatever the combination of requirements."""
    b = mkbase("EWF")
    fs = [mkfrag(b) for i in range(nf)]
    vals = [{k: assign(ctx, f, k, ATTR[k][1], "%s%d" % (k, i)) for k in keys} for i, f in enumerate(fs)]
    kw = dict(options={}, flags={})
    preds = {}
    for k in keys:
        arg, preds[k] = require(ctx, b, k, ATTR[k][1], k, forms)
        if ATTR[k][0] == "filters":
            kw[k] = arg
        else:
            kw[ATTR[k][0]][k] = arg
    pool = fs
    if subset:
        pool = [fs[i] for i in ctx.choice("order", [(2, 0), (1, 2, 0), (0,), ()])]
        kw["fragments"] = pool
    got = b.get_fragments(**kw)
    ctx.true("a subset of the pool", all(any(g is f for f in pool) for g in got))
    pos = [[g is f for f in pool].index(True) for g in got]
    ctx.true("registration order, no repeats", all(x < y for x, y in zip(pos, pos[1:])))
    for f in pool:
        want = oall(ctx, [preds[k](vals[fs.index(f)][k]) for k in keys])
        sel = any(g is f for g in got)
        if isinstance(want, (bool, np.bool_)):
            ctx.true("selected iff all requirements hold", sel == bool(want))
        else:
            ctx.true("selected iff all requirements hold", want if sel else ~want)
    ctx.true("no requirement selects everything", [f.id for f in b.get_fragments()] == [f.id for f in fs])
    ctx.true("requirement objects untouched", set(kw["options"]) == {k for k in keys if ATTR[k][0] == "options"})


class Op:
    """Linear operation on the orbital axis given by a (symbolic) matrix."""
    def __init__(self, m):
        self.m = m

    def __call__(self, a, axis=0, **kw):
        if isinstance(a, (tuple, list)):
            return tuple(self(x, axis=axis) for x in a)
        return np.moveaxis(np.tensordot(self.m, a, axes=(1, axis)), 0, axis)


def forest(ctx, n, shuffle=False):
    b = mkbase("EWF")
    fs = [mkfrag(b) for i in range(n)]
    par = [None]
    ops = [None]
    m = [[[ctx.scalar("m%d%d%d" % (i, p, q)) for q in range(2)] for p in range(2)] for i in range(n)]
    for i in range(1, n):
        p = ctx.choice("p%d" % i, [None] + list(range(i)))
        par.append(p)
        if p is not None:
            fs[i].sym_parent = fs[p]
            fs[i].sym_op = Op(np.array(m[i], dtype=object if ctx.symbolic else float))
    if shuffle:
        b.fragments[:] = [fs[i] for i in ctx.choice("shuffle", [tuple(range(n)), tuple(reversed(range(n))), tuple(range(1, n)) + (0,)])]
    return b, fs, par


def desc(par, i):
    """generations below i"""
    gens, last = [], [i]
    while True:
        new = [j for j in range(len(par)) if par[j] in last]
        if not new:
            return gens
        gens.append(new)
        last = new


def root(par, i):
    while par[i] is not None:
        i = par[i]
    return i


def h_tree(ctx, n, shuffle=False):
    """Parents, children, generations, trees and weights of every forest of symmetry-derived fragments."""
    b, fs, par = forest(ctx, n, shuffle)
    reg = {f.id: k for k, f in enumerate(b.fragments)}
    idx = {f.id: i for i, f in enumerate(fs)}
    for i, f in enumerate(fs):
        ctx.true("parent is the root", f.get_symmetry_parent() is fs[root(par, i)])
        gens = desc(par, i)
        every = sorted(j for g in gens for j in g)
        kids = f.get_symmetry_children()
        ctx.true("children are all descendants once", sorted(idx[k.id] for k in kids) == every)
        ctx.true("weight counts descendants", f.n_symmetry_children == len(every) and f.symmetry_factor == len(every) + 1)
        for mg in range(0, n + 1):
            got = f.get_symmetry_generations(maxgen=mg)
            ctx.true("generations", [sorted(idx[k.id] for k in g) for g in got if g] == [sorted(g) for g in gens[:mg]])
            tree = f.get_symmetry_tree(maxgen=mg)

            def walk(t, parent, left):
                ctx.true("tree stops at depth", left > 0 or not t)
                ctx.true("tree nodes are the children in order", [x.id for x, _ in t] == sorted(
                    [fs[j].id for j in range(n) if par[j] == parent] if left > 0 else [], key=lambda k: reg[k]))
                for x, sub in t:
                    walk(sub, idx[x.id], left - 1)
            walk(tree, i, mg)
        ctx.true("results shared with the root", f.results is fs[root(par, i)].results)
    roots = [f for f in b.fragments if par[idx[f.id]] is None]
    got = b.get_symmetry_parent_fragments()
    ctx.true("parent list", [f.id for f in got] == [f.id for f in roots])
    ctx.true("weights cover every fragment", sum(f.symmetry_factor for f in got) == n)
    for inc in (False, True):
        groups = b.get_symmetry_child_fragments(include_parents=inc)
        ctx.true("one group per parent", len(groups) == len(roots))
        for r, g in zip(roots, groups):
            want = [f.id for f in b.fragments if root(par, idx[f.id]) == idx[r.id] and f is not r]
            ctx.true("group content in order", [f.id for f in g] == ([r.id] if inc else []) + want)
    for i, f in enumerate(fs):
        if par[i] is not None:
            def setc(f=f):
                f.cluster = None

            def setr(f=f):
                f.results = None
            ctx.raises("derived fragment rejects a cluster", setc, RuntimeError)
            ctx.raises("derived fragment rejects results", setr, RuntimeError)


def h_loop(ctx, n, narr, maxgens=(None,)):
    """Looping over symmetry images applies the composed operations to every array along its own axis, once per image."""
    b, fs, par = forest(ctx, n)
    shapes = [(2,), (3, 2)][:narr]
    axes = [0, 1][:narr]
    arrs = [ctx.real("a%d" % k, s) for k, s in enumerate(shapes)]
    mg = ctx.choice("maxgen", list(maxgens))
    inc = ctx.boolean("include_self")

    def image(i, top, k):
        chain = []
        while i != top:
            chain.append(i)
            i = par[i]
        a = arrs[k]
        for j in reversed(chain):
            m = fs[j].sym_op.m
            a = np.einsum("ij,j->i", m, a) if axes[k] == 0 else np.einsum("ij,kj->ki", m, a)
        return a
    for i, f in enumerate(fs):
        gens = desc(par, i)
        want = [j for g in gens[:mg if mg is not None else n] for j in g]
        got = []
        for y in f.loop_symmetry_children(arrs if narr else None, axes=axes if narr else None, maxgen=mg, include_self=inc):
            if narr == 0:
                x, out = y, []
            elif narr == 1:
                x, out = y[0], [y[1]]
            else:
                x, out = y
            j = [x is g for g in fs].index(True)
            got.append(j)
            for k in range(narr):
                ctx.eq("image of array %d" % k, out[k], image(j, i, k))
        ctx.true("every image once", sorted(got) == sorted(want + ([i] if inc else [])))
        ctx.true("parents come first", all(par[j] not in got or got.index(par[j]) < k for k, j in enumerate(got) if j != i))
        ctx.true("itself first", not inc or got[0] == i)
    for i, f in enumerate(fs):
        f.c_env = None if par[i] is not None else ctx.real("env%d" % i, (2, 1))
    for i, f in enumerate(fs):
        e = fs[root(par, i)].c_env
        ch = []
        j = i
        while par[j] is not None:
            ch.append(j)
            j = par[j]
        for j in reversed(ch):
            e = np.dot(fs[j].sym_op.m, e)
        ctx.eq("environment orbitals of an image", f.get_coeff_env(), e)


def latbase(ctx, n, kind="EWF", boundary="PBC", dm=None):
    b = mkbase(kind)
    mol = latt.Hubbard1D(n, nelectron=2, boundary=boundary)
    b.mf = types.SimpleNamespace(mol=mol, mo_coeff=np.eye(n), get_ovlp=lambda *a: np.eye(n), make_rdm1=lambda *a: dm)
    b.kcell = None
    b.get_ovlp = lambda *a: np.eye(n)
    b.symmetry = SymmetryGroup(mol)
    b._mo_coeff = np.eye(n)
    b.spinsym = "restricted"
    return b, mol


def h_trans(ctx, n, images, dmkind, api):
    """Translation-derived fragments: one per image and fragment, orbitals moved, everything else inherited."""
    step = n // images
    if dmkind == "sym":
        vals = [ctx.scalar("d%d" % k) for k in range(n)]
        dm = np.empty((n, n), dtype=object)
        for i, j in itertools.product(range(n), repeat=2):
            dm[i, j] = vals[min((i - j) % n, (j - i) % n)]
    else:
        dm = ctx.sym2("dm", n)
    if not ctx.symbolic:
        dm = dm.astype(float)
    b, mol = latbase(ctx, n, dm=dm)
    fs = []
    cs = []
    for i in range(step):
        c = np.zeros((n, 1), dtype=object if ctx.symbolic else float)
        c[i, 0] = 1
        e = np.eye(n)[:, [k for k in range(n) if k != i]]
        fid, rank = b.register.get_next()
        fl = dict(is_envelop=(i == 0), is_secfrag=(i == 1), bath_parent_fragment_id=i)
        f = b.Fragment(b, fid, "F%d" % i, c, e, solver="MP2" if i else "CCSD", mpi_rank=3 + i, flags=fl, sym_factor=1.0, auxiliary=bool(i),
                       bath_options=dict(threshold=10.0 ** -(i + 3)))
        fs.append(f)
        b.fragments.append(f)
    err = None
    tol = b.opts.symmetry_mf_tol if api == "emb" else 1e-6
    try:
        if api == "emb":
            new = b.create_transsym_fragments([images, 1, 1], fragments=None if ctx.boolean("default") else fs)
        else:
            new = []
            for f in fs:
                new += f.add_tsymmetric_fragments([images, 1, 1])
    except RuntimeError as e:
        err = e
    if dmkind != "sym":
        # accepted exactly when the density is invariant (for the first translation) within the tolerance
        p = [(i + step) % n for i in range(n)]
        bad = False
        for f in range(step):
            for i, j in itertools.product(range(n), repeat=2):
                d = dm[p[i], p[j]] - dm[i, j]
                e = (d > tol) | (d < -tol)
                bad = e if bad is False else (bad | e)
        ctx.true("asymmetric mean field rejected" if err else "accepted mean field is symmetric", bad if err else (~bad if not isinstance(bad, (bool, np.bool_)) else not bad))
        if err:
            return
    ctx.true("no error for a symmetric mean field", err is None)
    ctx.true("number of images", len(new) == step * (images - 1))
    if api == "emb":
        ctx.true("embedding's list untouched until registered", len(b.fragments) == step)
    else:
        ctx.true("registered", [f.id for f in b.fragments] == [f.id for f in fs + new])
    seen = []
    for f in new:
        p = f.sym_parent
        i = [p is g for g in fs].index(True)
        k = [bool(abs(f.sym_op.vector[0] * images - m) < 1e-9) for m in range(images)].index(True)
        seen.append((i, k))
        want = np.zeros((n, 1))
        want[(i + k * step) % n, 0] = 1
        ctx.eq("moved orbitals", f.c_frag, want)
        ctx.eq("projected on its own orbitals", f.c_proj, want)
        ctx.eq("environment", np.dot(f.get_coeff_env(), f.get_coeff_env().T), np.eye(n) - np.dot(want, want.T))
        ctx.true("inherits mpi rank", f.mpi_rank == p.mpi_rank)
        ctx.true("inherits options", {k: v for k, v in f.opts.asdict().items()} == p.opts.asdict())
        ctx.true("own option objects", f.opts is not p.opts and f.opts.bath_options is not p.opts.bath_options)
        ctx.true("inherits solver", f.solver == p.solver)
        ctx.true("inherits flags", f.flags.__dict__ == p.flags.__dict__ and f.flags is not p.flags)
        ctx.true("weight", f.symmetry_factor == 1)
    ctx.true("every image once", sorted(seen) == sorted(itertools.product(range(step), range(1, images))))
    ctx.true("unique ids", len({f.id for f in fs + new}) == len(fs) + len(new))
    ctx.true("distinct names", len({f.name for f in fs + new}) == len(fs) + len(new))


def h_overlap(ctx):
    """A fragment that is not orthogonal to its own image is refused."""
    n = 4
    b, mol = latbase(ctx, n, dm=np.eye(n))
    x, y = ctx.scalar("x"), ctx.scalar("y")
    c = np.zeros((n, 1), dtype=object if ctx.symbolic else float)
    c[0, 0], c[2, 0] = x, y
    f = mkfrag(b)
    f.c_frag, f.c_env = c, np.eye(n)[:, 1:]
    try:
        b.create_transsym_fragments([2, 1, 1], fragments=[f], check_mf=False)
        ok = True
    except RuntimeError:
        ok = False
    ov = 2 * x * y
    bad = (ov > 1e-6) | (ov < -1e-6)
    ctx.true("overlapping image refused" if not ok else "accepted image is orthogonal", bad if not ok else ~bad)


def h_copy(ctx):
    """Copies of a fragment keep everything that is not overridden, and nothing is shared with the original."""
    b = mkbase("EWF")
    f = mkfrag(b, solver="MP2", atoms=[0, 1], aos=[2], active=ctx.boolean("act"), mpi_rank=ctx.integer("r", 0, 3),
               flags=dict(is_envelop=ctx.boolean("env"), is_secfrag=ctx.boolean("sec"), bath_parent_fragment_id=ctx.choice("bp", [None, 0])))
    g = f.copy()
    for a in ["solver", "atoms", "aos", "active", "sym_parent", "sym_op"]:
        ctx.true("copy keeps " + a, getattr(g, a) == getattr(f, a))
    ctx.eq("copy keeps rank", g.mpi_rank, f.mpi_rank)
    ctx.true("copy keeps flags", g.flags.__dict__ == f.flags.__dict__)
    ctx.true("flags not shared", g.flags is not f.flags)
    ctx.true("new id", g.id != f.id and g.id == 1)
    ctx.true("not registered", len(b.fragments) == 1)
    h = f.copy(name="x", solver="CCSD", active=True, flags=dict(is_envelop=False))
    ctx.true("overrides", h.name == "x" and h.solver == "CCSD" and h.active and h.flags.is_envelop is False)


def _hs():
    hs = []
    combos = [("mpi_rank", "active"), ("contributes", "sym_parent"), ("auxiliary", "is_envelop"), ("sym_factor", "is_secfrag"), ("screening", "bath_parent_fragment_id"),
              ("mpi_rank", "auxiliary", "is_envelop"), ("sym_parent", "active", "mpi_rank"), ("id",), ("name", "auxiliary")]
    for c in combos:
        hs.append(Harness("filter_" + "_".join(c), h_filter, dict(keys=c, nf=2, forms=("value", "list", "callable") if len(c) < 3 else ("value",)), "2 fragments, requirements on %s as value, list or callable" % ", ".join(c)))
    for c in [("wf_factor", "mpi_rank"), ("sym_parent", "is_secfrag"), ("contributes", "sym_parent"), ("screening", "sym_factor"), ("mpi_rank", "bath_parent_fragment_id")]:
        hs.append(Harness("filter3_" + "_".join(c), h_filter, dict(keys=c, nf=3), "3 fragments, every form of requirement", tiers=("thorough",), maxpaths=40000))
    hs.append(Harness("filter3_all_kinds", h_filter, dict(keys=("active", "auxiliary", "is_envelop"), nf=3, forms=("value",)), "3 fragments, attribute, option and flag required together", tiers=("thorough",), maxpaths=10000))
    hs.append(Harness("filter_all_forms", h_filter, dict(keys=("mpi_rank", "auxiliary", "is_envelop"), nf=2, forms=("list", "callable")), "2 fragments, lists and callables", tiers=("thorough",), maxpaths=40000))
    hs.append(Harness("filter_subset", h_filter, dict(keys=("mpi_rank",), nf=3, subset=True), "3 fragments, given sub-list in any order"))
    hs.append(Harness("tree4", h_tree, dict(n=4), "every forest of 4 fragments"))
    hs.append(Harness("tree3_order", h_tree, dict(n=3, shuffle=True), "every forest of 3 fragments, 3 registration orders"))
    hs.append(Harness("tree5", h_tree, dict(n=5), "every forest of 5 fragments", tiers=("thorough",)))
    hs.append(Harness("loop0", h_loop, dict(n=3, narr=0, maxgens=(None, 0, 1, 2)), "every forest of 3 fragments"))
    hs.append(Harness("loop1", h_loop, dict(n=3, narr=1), "every forest of 3 fragments, symbolic operations and array"))
    hs.append(Harness("loop2", h_loop, dict(n=3, narr=2, maxgens=(None, 1)), "every forest of 3 fragments, 2 arrays with different axes"))
    hs.append(Harness("loop2_4", h_loop, dict(n=4, narr=2, maxgens=(None, 1, 2)), "every forest of 4 fragments", tiers=("thorough",)))
    for api in ("emb", "frag"):
        hs.append(Harness("trans_%s" % api, h_trans, dict(n=4, images=2, dmkind="sym", api=api), "4-site ring, 2 images of 2 fragments, any translation-invariant density"))
        hs.append(Harness("trans3_%s" % api, h_trans, dict(n=3, images=3, dmkind="sym", api=api), "3-site ring, 3 images, any translation-invariant density"))
        hs.append(Harness("transdm_%s" % api, h_trans, dict(n=2, images=2, dmkind="any", api=api), "2-site ring, any symmetric density"))
    hs.append(Harness("overlap", h_overlap, {}, "4-site ring, any fragment orbital on two sites"))
    hs.append(Harness("copy", h_copy, {}, "any flags"))
    return hs
HARNESSES = _hs()
