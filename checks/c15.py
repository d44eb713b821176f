"""C15: global amplitudes. The real get_global_t1/t2/l1/l2 run on a real EWF object whose fragments, clusters and
projected wave functions are symbolic; compared with the common wave function (complete clusters) or with an
independent sum over fragments (any clusters), including symmetry-derived fragments."""
from vsym.harness import Harness
from checks.ewfsim import *

META = dict(assumptions=["the embedding object is created without a mean field or solver; MOs, overlap, clusters and amplitudes are given",
                         "occupied/virtual cluster orbitals are fixed rational rotations of the MOs; one rotation angle of the MOs and all amplitudes are symbolic"])


def amps(data):
    return [x for d in data if d["f"].sym_parent is None for w in (d["f"]._results.wf, d["f"]._results.pwf)
            for nm in ("t1", "t2", "l1", "l2") if getattr(w, nm, None) is not None
            for x in (getattr(w, nm) if isinstance(getattr(w, nm), tuple) else [getattr(w, nm)])]


def snap(data):
    return [x.copy() for x in amps(data)]


def unchanged(ctx, data, before):
    for x, y in zip(amps(data), before):
        ctx.eq("fragment results untouched", x, y)


def h_r(ctx, n, no, split, full, sizes=None):
    b, g, data = model_r(ctx, n, no, split, full=full, sizes=sizes)
    before = snap(data)
    T1, T2 = total(data)
    L1, L2 = total(data, "l")
    if full:
        for lab, x, y in (("t1", T1, g[0]), ("t2", T2, g[1]), ("l1", L1, g[2]), ("l2", L2, g[3])):
            ctx.eq("model: fragments sum to the wave function " + lab, x, y)
    co, cv = b.mo_coeff_occ, b.mo_coeff_vir
    for lab, fn, x in (("t1", b.get_global_t1, T1), ("t2", b.get_global_t2, T2), ("l1", b.get_global_l1, L1), ("l2", b.get_global_l2, L2)):
        ctx.eq("global " + lab, fn(), x)
    ctx.eq("t as lambda 1", b.get_global_l1(t_as_lambda=True), T1)
    ctx.eq("t as lambda 2", b.get_global_l2(t_as_lambda=True), T2)
    ctx.eq("ao basis t1", b.get_global_t1(ao_basis=True), np.dot(np.dot(co, T1), cv.T))
    ctx.eq("ao basis l2", b.get_global_l2(ao_basis=True), amp2(L2, co.T, cv.T))
    # fragment option: its T amplitudes stand in for its Lambda amplitudes
    i = ctx.choice("tasl", range(len(data)))
    data[i]["f"].opts.t_as_lambda = True
    X1, X2 = total(data, per=lambda d: "t" if d is data[i] else "l")
    ctx.eq("fragment t_as_lambda 1", b.get_global_l1(), X1)
    ctx.eq("fragment t_as_lambda 2", b.get_global_l2(), X2)
    ctx.eq("t1 unaffected", b.get_global_t1(), T1)
    unchanged(ctx, data, before)


def h_u(ctx, n, no, split, full, sizes=None, samefrag=True):
    b, g, data = model_u(ctx, n, no, split, full=full, sizes=sizes, samefrag=samefrag)
    check_u(ctx, b, g, data, full)


def check_u(ctx, b, g, data, full):
    before = snap(data)
    T1, T2 = utotal(data)
    L1, L2 = utotal(data, "l")
    if full:
        for lab, x, y in (("t1", T1, g[0]), ("t2", T2, g[1]), ("l1", L1, g[2]), ("l2", L2, g[3])):
            ctx.eq("model: fragments sum to the wave function " + lab, list(x), list(y))
    co, cv = b.mo_coeff_occ, b.mo_coeff_vir
    for lab, fn, x in (("t1", b.get_global_t1, T1), ("t2", b.get_global_t2, T2), ("l1", b.get_global_l1, L1), ("l2", b.get_global_l2, L2)):
        ctx.eq("global " + lab, list(fn()), list(x))
    ctx.eq("t as lambda 1", list(b.get_global_l1(t_as_lambda=True)), list(T1))
    ctx.eq("t as lambda 2", list(b.get_global_l2(t_as_lambda=True)), list(T2))
    ctx.eq("ao basis l1", list(b.get_global_l1(ao_basis=True)), [np.dot(np.dot(co[s], L1[s]), cv[s].T) for s in (0, 1)])
    ctx.eq("ao basis t2", list(b.get_global_t2(ao_basis=True)), list(u2(T2, [c.T for c in co], [c.T for c in cv])))
    i = ctx.choice("tasl", range(len(data)))
    if data[i]["f"].sym_parent is None and not any(d["f"].sym_parent is not None for d in data):
        data[i]["f"].opts.t_as_lambda = True
        X1, X2 = utotal(data, per=lambda d: "t" if d is data[i] else "l")
        ctx.eq("fragment t_as_lambda 1", list(b.get_global_l1()), list(X1))
        ctx.eq("fragment t_as_lambda 2", list(b.get_global_l2()), list(X2))
    unchanged(ctx, data, before)


def h_sym(ctx, nsite, no1, nv1, uhf, chain, partial=True):
    b, g, data = model_sym(ctx, nsite, no1, nv1, uhf=uhf, chain=chain, partial=partial)
    if uhf:
        check_u(ctx, b, g, data, False)
        return
    T1, T2 = total(data)
    L1, L2 = total(data, "l")
    for lab, fn, x in (("t1", b.get_global_t1, T1), ("t2", b.get_global_t2, T2), ("l1", b.get_global_l1, L1), ("l2", b.get_global_l2, L2)):
        ctx.eq("global " + lab, fn(), x)


def h_sel(ctx, uhf):
    """Only active, non-auxiliary fragments contribute; missing amplitudes are an error; MP2 fragments; 2-DM amplitudes."""
    kinds = [ctx.choice("kind%d" % k, ["CCSD", "MP2"]) for k in range(2)]
    lam = ctx.boolean("lambda")
    if uhf:
        b, g, data = model_u(ctx, 2, (1, 1), (1, 1), full=False, sizes=[((1, 1), (1, 1))] * 2, kinds=kinds, lam=lam)
    else:
        b, g, data = model_r(ctx, 3, 2, (1, 2), full=False, sizes=[(1, 1), (2, 1)], kinds=kinds, lam=lam)
    keep = []
    for k, d in enumerate(data):
        st = ctx.choice("state%d" % k, ["on", "inactive", "auxiliary"])
        d["f"].active = st != "inactive"
        d["f"].opts.auxiliary = st == "auxiliary"
        if d["kind"] == "MP2":
            z = tuple(0 * x for x in d["t"][0]) if uhf else 0 * d["t"][0]
            d["t"] = (z, d["t"][1])
            d["l"] = d["t"]
        if st == "on":
            keep.append(d)
    zero = data[:1] if not keep else None
    tot = (utotal if uhf else total)
    ls = (lambda x: list(x)) if uhf else (lambda x: x)
    mul = (lambda f, x: tuple(f * y for y in x)) if uhf else (lambda f, x: f * x)
    T1, T2 = tot(keep or zero)
    if zero:
        T1, T2 = mul(0, T1), mul(0, T2)
    ctx.eq("t1", ls(b.get_global_t1()), ls(T1))
    ctx.eq("t2", ls(b.get_global_t2()), ls(T2))
    if lam or all(d["kind"] == "MP2" for d in keep):
        L1, L2 = tot(keep or zero, "l" if keep else "t")
        if zero:
            L1, L2 = mul(0, L1), mul(0, L2)
        ctx.eq("l1", ls(b.get_global_l1()), ls(L1))
        ctx.eq("l2", ls(b.get_global_l2()), ls(L2))
    else:
        ctx.raises("missing l1", b.get_global_l1)
        ctx.raises("missing l2", b.get_global_l2)
    if not uhf and lam:
        # amplitudes for the 2-DM: an MP2 fragment enters linearly, twice through T and never through Lambda
        cc = [d for d in keep if d["kind"] != "MP2"]
        mp = [d for d in keep if d["kind"] == "MP2"]
        z1, z2 = np.zeros_like(T1), np.zeros_like(T2)
        c = total(cc) if cc else (z1, z2)
        cl = total(cc, "l") if cc else (z1, z2)
        m = total(mp) if mp else (z1, z2)
        ctx.eq("dm2 t1", b.get_global_t1(for_dm2=True), c[0])
        ctx.eq("dm2 t2", b.get_global_t2(for_dm2=True), c[1] + 2 * m[1])
        ctx.eq("dm2 l1", b.get_global_l1(for_dm2=True), cl[0])
        ctx.eq("dm2 l2", b.get_global_l2(for_dm2=True), cl[1])

HARNESSES = []


def add(name, fn, tiers=("quick", "thorough"), **p):
    HARNESSES.append(Harness(name, fn, params=p, tiers=tiers, bounds=str(p)))


add("full n=3 no=2", h_r, n=3, no=2, split=(1, 2), full=True)
add("full n=3 no=1", h_r, n=3, no=1, split=(1, 1, 1), full=True)
add("partial n=3 no=2", h_r, n=3, no=2, split=(1, 2), full=False, sizes=[(1, 1), (2, 1)])
add("unrestricted full n=2", h_u, n=2, no=(1, 1), split=(1, 1), full=True)
add("unrestricted full n=3", h_u, n=3, no=(2, 1), split=(1, 2), full=True, samefrag=False)
add("unrestricted partial n=3", h_u, n=3, no=(2, 2), split=(2, 1), full=False, sizes=[((1, 1), (2, 1)), ((2, 1), (1, 1))])
add("symmetry 2 sites", h_sym, nsite=2, no1=1, nv1=1, uhf=False, chain=False)
add("symmetry 3 sites", h_sym, nsite=3, no1=1, nv1=1, uhf=False, chain=False)
add("symmetry 3 sites chain", h_sym, nsite=3, no1=1, nv1=1, uhf=False, chain=True)
add("unrestricted symmetry 2 sites", h_sym, nsite=2, no1=1, nv1=1, uhf=True, chain=False)
add("unrestricted symmetry 3 sites chain", h_sym, nsite=3, no1=1, nv1=1, uhf=True, chain=True)
add("contributions", h_sel, uhf=False)
add("unrestricted contributions", h_sel, uhf=True)
add("full n=4 no=2", h_r, tiers=("thorough",), n=4, no=2, split=(1, 2, 1), full=True)
add("partial n=4 no=2", h_r, tiers=("thorough",), n=4, no=2, split=(2, 2), full=False, sizes=[(2, 1), (1, 2)])
add("unrestricted full n=4", h_u, tiers=("thorough",), n=4, no=(2, 2), split=(2, 2), full=True, samefrag=False)
add("symmetry 4 sites chain", h_sym, tiers=("thorough",), nsite=4, no1=1, nv1=1, uhf=False, chain=True)
add("unrestricted symmetry 4 sites", h_sym, tiers=("thorough",), nsite=4, no1=1, nv1=1, uhf=True, chain=False)
