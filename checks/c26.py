"""C26: option handling. The real Options classes, Embedding.change_options, Fragment.__init__/copy/change_options and
the bath/solver option routing run on symbolic option values while the sequence of operations is a symbolic choice;
the expected contents of every object's options are kept in an independent model and compared after every step."""
import types
import copy as _copy
import numpy as np
from vsym.harness import Harness
from checks.common import *
from checks.c13 import NullLog
from vayesta.ewf import EWF
from vayesta.dmet import DMET
from vayesta.core.qemb import fragment as qfrag
from vayesta.core.qemb.register import FragmentRegister
from vayesta.core.bath.r2bath import R2_Bath_RHF, BOHR
import vayesta.ewf, vayesta.dmet

META = dict(assumptions=["the embedding object is created without running a mean field; its option machinery is the real one",
                         "bath and solver classes replaced by recorders when only the routing of options to them is decided"])

EMB = dict(EWF=vayesta.ewf.REWF, DMET=vayesta.dmet.RDMET)


def mkbase(kind, **kw):
    cls = EMB[kind]
    b = cls.__new__(cls)
    b.log = NullLog()
    b.opts = cls.Options().replace(**kw)
    b.solver = "CCSD"
    b._mo_coeff = np.eye(4)
    b.mf = types.SimpleNamespace(mo_coeff=np.eye(4))
    b.register = FragmentRegister()
    b.fragments = []
    return b


def mkfrag(b, **kw):
    f = b.Fragment(b, b.register.get_next_id(), "f", np.eye(4)[:, :1], np.eye(4)[:, 1:], **kw)
    b.fragments.append(f)
    return f


def content(o):
    return {k: (dict(v) if isinstance(v, dict) else v) for k, v in o.__dict__.items()}


def leaf_eq(ctx, lab, a, b):
    if isinstance(b, list):
        ctx.true(lab, isinstance(a, list) and len(a) == len(b) and all(x is y for x, y in zip(a, b)))
    elif b is None or isinstance(b, (str, bool)) or callable(b):
        ctx.true(lab, a is b or (type(a) is type(b) and a == b))
    elif a is None or isinstance(a, str):
        ctx.true(lab, False)
    else:
        ctx.eq(lab, a, b)


def same(ctx, lab, opts, model):
    got = opts.__dict__
    ctx.true(lab + ": same keys", set(got) == set(model))
    for k, v in model.items():
        if isinstance(v, dict):
            ctx.true("%s: same keys in %s" % (lab, k), isinstance(got[k], dict) and set(got[k]) == set(v))
            for kk, vv in v.items():
                leaf_eq(ctx, "%s: %s[%s]" % (lab, k, kk), got[k][kk], vv)
        else:
            leaf_eq(ctx, "%s: %s" % (lab, k), got[k], v)


def merge(model, kw, strict=False):
    for k, v in kw.items():
        if k not in model:
            continue
        if isinstance(v, dict) and isinstance(model[k], dict):
            model[k] = {**model[k], **v}
        else:
            model[k] = dict(v) if isinstance(v, dict) else v


def fragmodel(b, bmodel, kw):
    m = content(b.Fragment.Options())
    merge(m, bmodel)
    merge(m, kw)
    return m


# operations: (target, kind)
OPS = ["base scalar", "base nested", "base only", "frag scalar", "frag nested", "new fragment", "copy fragment", "copy fragment with option",
       "couple", "second embedding", "bad key base", "bad key frag", "bad nested key", "dict kept by caller"]


def h_seq(ctx, kind, steps, ops=OPS):
    """Any sequence of operations on an embedding, its fragments and copies; every object's options equal the model."""
    v0 = ctx.scalar("v0")
    user = dict(threshold=v0)
    b = mkbase(kind, bath_options=user)
    bm = content(EMB[kind].Options())
    bm["bath_options"] = {**bm["bath_options"], "threshold": v0}
    ctx.true("caller's dictionary unchanged", set(user) == {"threshold"})
    other, om = mkbase(kind), content(EMB[kind].Options())
    w0 = ctx.scalar("w0")
    f0 = mkfrag(b, bath_options=dict(order=w0))
    frags = [(f0, fragmodel(b, bm, dict(bath_options=dict(order=w0))))]
    f1 = mkfrag(b)
    frags.append((f1, fragmodel(b, bm, {})))
    defaults = content(EMB[kind].Options())
    for k in range(steps):
        op = ctx.choice("op%d" % k, ops)
        v = ctx.scalar("v%d" % (k + 1))
        tgt = None
        if op.startswith("frag") or op.startswith("copy") or op == "couple":
            tgt = frags[0] if k % 2 == 0 else frags[-1]
        if op == "base scalar":
            b.change_options(dm_with_frozen=v)
            merge(bm, dict(dm_with_frozen=v))
            for f, m in frags:
                if f in b.fragments:
                    merge(m, dict(dm_with_frozen=v))
        elif op == "base nested":
            kw = dict(bath_options=dict(threshold_occ=v), solver_options=dict(conv_tol=v))
            b.change_options(**kw)
            merge(bm, kw)
            for f, m in frags:
                if f in b.fragments:
                    merge(m, kw)
        elif op == "base only":
            b.change_options(symmetry_tol=v)
            merge(bm, dict(symmetry_tol=v))
        elif op == "frag scalar":
            tgt[0].change_options(store_eris=v)
            merge(tgt[1], dict(store_eris=v))
        elif op == "frag nested":
            kw = dict(bath_options=dict(threshold=v), bosonic_bath_options=dict(threshold=v))
            tgt[0].change_options(**kw)
            merge(tgt[1], kw)
        elif op == "new fragment":
            kw = dict(auxiliary=True, solver_options=dict(max_cycle=v))
            frags.append((mkfrag(b, **kw), fragmodel(b, bm, kw)))
        elif op == "copy fragment":
            frags.append((tgt[0].copy(), content(types.SimpleNamespace(**tgt[1]))))
            frags[-1][1]["coupled_fragments"] = list(tgt[1]["coupled_fragments"])
        elif op == "copy fragment with option":
            m = content(types.SimpleNamespace(**tgt[1]))
            m["coupled_fragments"] = list(tgt[1]["coupled_fragments"])
            merge(m, dict(bath_options=dict(rcut=v)))
            frags.append((tgt[0].copy(bath_options=dict(tgt[1]["bath_options"], rcut=v)), m))
        elif op == "couple":
            o = f1 if tgt[0] is not f1 else f0
            tgt[0].couple_to_fragment(o)
            tgt[1]["coupled_fragments"] = tgt[1]["coupled_fragments"] + [o]
            ctx.raises("fragment coupled to itself", lambda: tgt[0].couple_to_fragment(tgt[0]), RuntimeError)
        elif op == "second embedding":
            other.change_options(bath_options=dict(threshold=v))
            merge(om, dict(bath_options=dict(threshold=v)))
        elif op == "bad key base":
            ctx.raises("unknown option of the embedding", lambda: b.change_options(no_such_option=v), TypeError)
        elif op == "bad key frag":
            ctx.raises("unknown option of a fragment", lambda: frags[0][0].change_options(no_such_option=v), TypeError)
        elif op == "bad nested key":
            ctx.raises("unknown bath option", lambda: b.change_options(bath_options=dict(threshold=v, no_such_key=v)), TypeError)
            ctx.raises("unknown solver option of a new fragment", lambda: mkfrag(b, solver_options=dict(no_such_key=v)), TypeError)
        elif op == "dict kept by caller":
            d = dict(threshold=v)
            f0.change_options(bath_options=d)
            merge(frags[0][1], dict(bath_options=d))
            d["threshold"] = None
            d["order"] = -1
        same(ctx, "step %d embedding" % k, b.opts, bm)
        same(ctx, "step %d other embedding" % k, other.opts, om)
        for i, (f, m) in enumerate(frags):
            same(ctx, "step %d fragment %d" % (k, i), f.opts, m)
        same(ctx, "step %d class defaults" % k, EMB[kind].Options(), defaults)


class Rec:
    """Stands for a bath class; records constructor and get_bath arguments."""
    def __init__(self, log, name):
        self.log, self.name = log, name

    def __call__(self, fragment, *args, **kw):
        names = dict(MP2=["dmet_bath", "occtype"], R2=["dmet_bath", "occtype"], EWDMET=["dmet_bath", "occtype"], FULL=["dmet_bath", "occtype"])
        for n, a in zip(names.get(self.name, []), args):
            kw[n] = a
        self.log.append((self.name, kw))
        out = types.SimpleNamespace(kernel=lambda: None, c_cluster_occ=np.eye(6)[:, :1], c_cluster_vir=np.eye(6)[:, 1:2],
                                    c_env_occ=np.eye(6)[:, 2:4], c_env_vir=np.eye(6)[:, 4:6], args=kw)

        def get_bath(*a, **k):
            self.log.append((self.name + ".get_bath", kw.get("occtype"), a, k))
            env = out.c_env_occ if kw.get("occtype") == "occupied" else out.c_env_vir
            return env[:, :1], env[:, 1:]
        out.get_bath = get_bath
        return out


def h_route(ctx, common):
    """Bath options reach the bath of the right kind; occupied/virtual specific values take precedence."""
    b = mkbase("EWF")
    btypes = ["dmet", "full", "ewdmet", "r2", "mp2"]
    bo, bv = ctx.choice("occ", [None] + btypes), ctx.choice("vir", [None] + btypes)
    kinds = (bo or common, bv or common)
    opt = dict(bathtype=common, bathtype_occ=bo, bathtype_vir=bv)
    val = {}
    for key in ("threshold", "max_order", "order", "rcut", "project_dmet_order"):
        val[key] = {o: ctx.scalar("%s_%s" % (key, o)) for o in ("both", "occ", "vir")}
    spec = ctx.choice("specific", ["none", "occ", "vir", "both"])
    unit = ctx.choice("unit", ["Ang", "Bohr"]) if "r2" in kinds else "Ang"
    buf = ctx.choice("addbuffer", [None, True]) if "mp2" in kinds else None
    for key, v in val.items():
        opt[key] = v["both"]
        for o in ("occ", "vir"):
            if spec in (o, "both"):
                opt["%s_%s" % (key, o)] = v[o]
    opt["unit"] = unit
    opt["addbuffer"] = ctx.choice("addbuffer common", [False, True]) if "mp2" in kinds else False
    opt["addbuffer_vir"] = buf
    buf = opt["addbuffer"] if buf is None else buf
    opt["truncation"] = "truncation"
    opt["truncation_vir"] = "occupation"
    eff = lambda key, o: val[key][o] if spec in (o, "both") else val[key]["both"]
    f = mkfrag(b, bath_options=opt)
    log = []
    old = {n: getattr(qfrag, n) for n in ("DMET_Bath", "Full_Bath", "EwDMET_Bath", "R2_Bath", "MP2_Bath")}
    canon = []
    try:
        for n in old:
            setattr(qfrag, n, Rec(log, n.replace("_Bath", "").upper()))
        f.make_bath()
        f.canonicalize_mo = lambda c, *a, **k: (canon.append(c), (c, None))[1]
        f.get_mo_occupation = lambda c, *a: np.asarray([2.0 if np.argmax(x) in (0, 2, 3) else 0.0 for x in c.T])
        cl = f.make_cluster()
    finally:
        for n, x in old.items():
            setattr(qfrag, n, x)
    for o, lab, bt in (("occ", "occupied", bo or common), ("vir", "virtual", bv or common)):
        made = [e for e in log if e[0] in ("FULL", "EWDMET", "R2", "MP2") and e[1].get("occtype") == lab]
        got = [e for e in log if e[0].endswith(".get_bath") and e[1] == lab]
        if bt == "dmet":
            ctx.true(lab + " no further bath", not made and not got)
            continue
        ctx.true(lab + " one bath of the requested kind", len(made) == 1 and made[0][0] == bt.upper())
        ctx.true(lab + " queried once", len(got) == 1)
        kw, (a, k) = made[0][1], got[0][2:]
        ctx.true(lab + " built on the DMET bath", kw.get("dmet_bath") is f._dmet_bath)
        if bt == "ewdmet":
            ctx.eq(lab + " ewdmet threshold", kw["threshold"], eff("threshold", o))
            ctx.eq(lab + " ewdmet max order", kw["max_order"], eff("max_order", o))
            ctx.eq(lab + " ewdmet order", k.get("order", a[0] if a else None), eff("order", o))
        if bt == "r2":
            ctx.eq(lab + " r2 cutoff", k.get("rcut", a[0] if a else None), eff("rcut", o))
            ctx.true(lab + " r2 unit", (a[1] if len(a) > 1 else k.get("unit", "Ang")) == unit)
        if bt == "mp2":
            ctx.eq(lab + " mp2 projection order", kw["project_dmet_order"], eff("project_dmet_order", o))
            th = a[0] if a else k["bno_threshold"]
            ctx.eq(lab + " mp2 threshold", th.threshold, eff("threshold", o))
            ctx.true(lab + " mp2 truncation", th.type == ("truncation" if o == "occ" else "occupation"))
            ctx.true(lab + " mp2 buffer", (kw["c_buffer"] is not None) == (buf and o == "vir"))
    ctx.true("cluster size", cl.nocc_active + cl.nocc_frozen == 3 and cl.nvir_active + cl.nvir_frozen == 3)


def h_canon(ctx):
    b = mkbase("EWF")
    c0 = ctx.choice("canonicalize", [True, False])
    co, cv = ctx.choice("occ", [None, True, False]), ctx.choice("vir", [None, True, False])
    f = mkfrag(b, bath_options=dict(bathtype="dmet", canonicalize=c0, canonicalize_occ=co, canonicalize_vir=cv))
    f._dmet_bath = Rec([], "DMET")(f)
    x, y = ctx.real("x", (6, 1)), ctx.real("y", (6, 1))
    f._dmet_bath.c_cluster_occ, f._dmet_bath.c_cluster_vir = x, y
    f.canonicalize_mo = lambda c, *a, **k: (2 * c, None)
    f.get_mo_occupation = lambda c, *a: np.full(c.shape[-1], 2.0 if c.shape[-1] and calls.append(1) is None and len(calls) == 1 else 0.0)
    calls = []
    cl = f.make_cluster()
    on = lambda s: c0 if s is None else s
    ctx.eq("occupied", cl.c_active_occ, (2 if on(co) else 1) * x)
    ctx.eq("virtual", cl.c_active_vir, (2 if on(cv) else 1) * y)


def h_r2(ctx, n):
    """R2 bath: orbitals within the cutoff, in the unit asked for."""
    b = R2_Bath_RHF.__new__(R2_Bath_RHF)
    e = [ctx.scalar("e%d" % i, 0, 10) for i in range(n)]
    for i in range(n - 1):
        ctx.assume(e[i] <= e[i + 1])
    b.eig = np.array(e, dtype=object if ctx.symbolic else float)
    b.coeff = ctx.real("c", (3, n))
    rcut = ctx.scalar("rcut", 0, 10)
    unit = ctx.choice("unit", ["Ang", "angstrom", "Bohr", "b"])
    bath, rest = b.get_bath(rcut, unit=unit) if ctx.boolean("explicit") or unit != "Ang" else b.get_bath(rcut)
    ctx.eq("bath and rest are all orbitals", np.hstack((bath, rest)), b.coeff)
    from fractions import Fraction
    fac = 1 if unit[0].lower() == "b" else (Fraction(BOHR) if ctx.symbolic else BOHR)
    nb = bath.shape[-1]
    if not ctx.symbolic and any(abs(x * fac - rcut) < 1e-9 for x in e):
        return
    for i in range(n):
        if i < nb:
            ctx.true("inside cutoff", e[i] * fac <= rcut + 1e-9)
        else:
            ctx.true("outside cutoff", e[i] * fac >= rcut - 1e-9)
    ctx.raises("invalid unit", lambda: b.get_bath(rcut, unit="meter"), ValueError)


def h_solver(ctx, kind):
    """Solver options set on the fragment reach the solver; unset ones keep the solver's default."""
    b = mkbase(kind)
    v = ctx.scalar("v")
    which = ctx.choice("key", ["conv_tol", "max_cycle", "level_shift"])
    f = mkfrag(b, solver_options={which: v})
    g = mkfrag(b)
    so = f.get_solver_options("CCSD")
    ctx.eq("value passed", so[which], v)
    if kind == "EWF":
        for key, x in so.items():
            if key not in (which, "external_corrections", "test_extcorr", "sc_mode", "dm_with_frozen"):
                leaf_eq(ctx, "default " + key, x, EMB[kind].Options().solver_options[key])
        ctx.true("no unset entries", all(so[k] is not None for k in so if k in b.opts.solver_options))
    so["max_cycle"] = -1
    so[which] = None
    leaf_eq(ctx, "fragment option kept", f.opts.solver_options[which], v)
    leaf_eq(ctx, "other fragment", g.opts.solver_options[which], EMB[kind].Options().solver_options[which])


T = ("thorough",)
HARNESSES = [
    Harness("seq1[%s]" % k, h_seq, dict(kind=k, steps=1), "every operation on an embedding, two fragments, copies; symbolic values", maxpaths=2000)
    for k in EMB] + [
    Harness("seq2[EWF]", h_seq, dict(kind="EWF", steps=2), "every sequence of 2 operations", maxpaths=3000),
    Harness("seq2[DMET]", h_seq, dict(kind="DMET", steps=2), "every sequence of 2 operations", T, maxpaths=3000),
    Harness("seq3[EWF]", h_seq, dict(kind="EWF", steps=3, ops=[o for o in OPS if not o.startswith("bad")]), "every sequence of 3 operations", T, maxpaths=6000, budget=800),
] + [
    Harness("route[%s]" % c, h_route, dict(common=c), "every combination of occupied/virtual bath types, specific or common values", maxpaths=6000) for c in ("dmet", "full", "ewdmet", "r2", "mp2")] + [
    Harness("canonicalize", h_canon, {}, "every combination of canonicalize settings"),
    Harness("r2[n=3]", h_r2, dict(n=3), "3 bath orbitals, any radii and cutoff"),
    Harness("solver[EWF]", h_solver, dict(kind="EWF"), "any value of three solver options"),
    Harness("solver[DMET]", h_solver, dict(kind="DMET"), "any value of three solver options"),
]
