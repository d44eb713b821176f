"""C21: chemical-potential searches. The real ChempotBisection.kernel, Embedding.optimize_chempot,
ClusterSolver.optimize_cpt (restricted and unrestricted) and DMET.kernel run against an arbitrary response: every
evaluation of the electron number returns a fresh symbolic value. scipy's brentq is replaced by its contract: it evaluates
both ends, refuses an interval without sign change, then evaluates arbitrary (symbolic) points inside the shrinking
bracket, and ends by returning a point, by running out of iterations, or never (within the bound)."""
import types
import numpy as np
from fractions import Fraction as Q
from vsym.harness import Harness
from checks.common import *
from checks.c13 import NullLog
from vayesta.misc import cptbisect
from vayesta.misc.cptbisect import ChempotBisection
from vayesta.core.qemb import qemb
from vayesta.solver import solver as solvermod
from vayesta.core.util import ConvergenceError
from vayesta.dmet import dmet as dmetmod
import vayesta.dmet

META = dict(assumptions=["scipy.optimize.brentq replaced by its contract (see above), at most 3 interior evaluations",
                         "two evaluations at different potentials do not give exactly equal electron errors (the secant slope is nonzero)",
                         "cluster solvers replaced by an arbitrary response of the density matrix to the external potential"])


class Log(NullLog):
    def __init__(self):
        self.errors = []

    def error(self, msg, *a):
        self.errors.append(msg)

    def fatal(self, msg, *a):
        self.errors.append(msg)


class Res:
    converged = True


def contract(ctx, k, name="x", hook=None):
    """Contract of scipy.optimize.brentq."""
    n = [0]

    def brentq(f, a, b, args=(), xtol=2e-12, rtol=None, maxiter=100, full_output=False, disp=True):
        call = n[0]
        n[0] += 1

        def ev(x):
            if hook:
                hook(x, None, "before")
            y = f(x)
            if hook:
                hook(x, y, "after")
            return y
        ya = ev(a)
        yb = ev(b)
        if ctx.fork(ya * yb > 0):
            raise ValueError("f(a) and f(b) must have different signs")
        lo, hi, ylo = a, b, ya
        x = b
        for i in range(k):
            if not ctx.boolean("%s_more%d_%d" % (name, call, i)):
                break
            w = ctx.scalar("%s_w%d_%d" % (name, call, i), Q(1, 16), Q(15, 16))
            x = lo + (hi - lo) * w
            y = ev(x)
            if ctx.fork(ylo * y > 0):
                lo, ylo = x, y
            else:
                hi = x
        if ctx.boolean("%s_end%d" % (name, call)):
            raise RuntimeError("Failed to converge")
        return (x, Res()) if full_output else x
    return brentq


def fakescipy(bq):
    return types.SimpleNamespace(optimize=types.SimpleNamespace(brentq=bq))


def h_bisect(ctx, robust, k):
    """ChempotBisection: reported convergence means the error at the returned potential is within the tolerance and
    that potential is the last one evaluated; the start is returned untouched when it is already good enough; failures
    raise or leave converged False."""
    tol = Q(1, 16) if ctx.symbolic else 1 / 16
    c0 = ctx.scalar("c0")
    log = []

    def func(c, extra, kw=None):
        ctx.true("arguments passed on", extra == "arg" and kw == "kw")
        e = ctx.scalar("e%d" % len(log), -4, 4)
        if len(log) == 1:
            ctx.assume((e - log[0][1]) * (e - log[0][1]) > Q(1, 64))
        log.append((c, e))
        return e
    old = cptbisect.scipy
    cptbisect.scipy = fakescipy(contract(ctx, k))
    b = ChempotBisection(func, cpt_init=c0, tol=tol, robust=robust, log=NullLog())
    try:
        r = b.kernel("arg", kw="kw")
    except (ValueError, RuntimeError):
        ctx.true("a failed search does not report convergence", not b.converged)
        return
    finally:
        cptbisect.scipy = old
    if ctx.fork(abs(log[0][1]) <= tol):
        ctx.true("one evaluation", len(log) == 1 and b.converged)
        ctx.eq("start returned", r, c0)
        return
    ctx.true("bounded number of evaluations", len(log) <= 6 + k)
    if b.converged:
        ctx.eq("last evaluation is at the returned potential", log[-1][0], r)
        ctx.true("error within tolerance", abs(log[-1][1]) <= tol)


def h_chempot(ctx, rhf, k):
    """Embedding.optimize_chempot: the returned result is that of the last calculation, run at the reported potential,
    and without an error message its electron number is correct within the tolerance."""
    log = []
    nel = 2

    class Emb:
        is_rhf = rhf
        converged = True
        e_tot = 0.0
        optimize_chempot = qemb.Embedding.optimize_chempot

        def kernel(self, flag):
            ctx.true("arguments passed on", flag == 7)
            log.append([self.opts.global_frag_chempot, None])
            return ("result", len(log))

        def make_rdm1_demo(self, **kw):
            i = len(log)
            e = ctx.scalar("d%d" % i, -2, 2)
            d = np.array([[e, 3], [5, e / 2]] if rhf else [[[e, 3], [7, 1]], [[-1, 5], [2, e * 2]]])
            ne = np.trace(d) if rhf else np.trace(d[0]) + np.trace(d[1])
            e = ne - nel
            if len(log) == 2:
                ctx.assume((e - log[0][1]) * (e - log[0][1]) > Q(1, 64))
            log[-1][1] = e
            return d
    emb = Emb()
    emb.opts = types.SimpleNamespace(global_frag_chempot=None)
    emb.mol = types.SimpleNamespace(nelectron=nel)
    emb.log = Log()
    old, cb = cptbisect.scipy, qemb.ChempotBisection
    cptbisect.scipy = fakescipy(contract(ctx, k))
    c0 = ctx.scalar("c0")
    made = []

    def mk(*a, **kw):
        o = cb(*a, **kw)
        made.append(o)
        return o
    qemb.ChempotBisection = mk
    try:
        emb.optimize_chempot(cpt_init=c0, robust=ctx.boolean("robust"))
        res = emb.kernel(7)
    except (ValueError, RuntimeError):
        return
    finally:
        cptbisect.scipy, qemb.ChempotBisection = old, cb
    ctx.true("result of the last calculation", res == ("result", len(log)))
    ctx.eq("first calculation at the initial potential", log[0][0], c0)
    if not emb.log.errors:
        ctx.eq("calculation state belongs to the found potential", emb.opts.global_frag_chempot, log[-1][0])
        ctx.true("electron number within tolerance", abs(log[-1][1]) <= made[0].tol)
        ctx.true("tolerance", made[0].tol <= 1e-7)


def h_solver(ctx, spin, k, guess):
    """ClusterSolver.optimize_cpt: when the solver returns, the last calculation's fragment electron number is within
    tolerance, every calculation used the external potential v0 - cpt P for the potential asked for, errors handed to
    the root finder belong to the potential it asked for, and the external potential is restored."""
    u = spin == "u"
    n = 2
    f25 = (lambda x: Q(x, 25)) if ctx.symbolic else (lambda x: x / 25)
    P = [np.array([[f25(x) for x in r] for r in m]) for m in ([[[16, 12], [12, 9]], [[9, -12], [-12, 16]]])[:2 if u else 1]]
    hasv = ctx.boolean("v0")
    V0 = [ctx.sym2("V%d" % s, n) for s in range(2 if u else 1)]
    target = 1
    atol, rtol = (Q(1, 16), Q(1, 32)) if ctx.symbolic else (1 / 16, 1 / 32)
    log = []
    asked = []

    class Hamil:
        log = NullLog()
        v_ext = (tuple(V0) if u else V0[0]) if hasv else None

        def target_space_projector(self, c=None):
            return tuple(P) if u else P[0]
    base = solvermod.UClusterSolver if u else solvermod.ClusterSolver

    class Sol(base):
        def kernel(self, **kw):
            self.converged = ctx.boolean("conv%d" % len(log)) if 1 < len(log) < 4 else True
            i = len(log)
            dm = [ctx.sym2("D%d_%d" % (i, s), n, -4, 4) for s in range(2 if u else 1)]
            e = sum((P[s][x, a] * dm[s][a, b] * P[s][x, b]) for s in range(len(dm)) for x in range(n) for a in range(n) for b in range(n)) - target
            log.append((self.hamil.v_ext, e, self.converged))
            v, x = self.hamil.v_ext, (asked[-1] if asked else g)
            for q in range(len(P)):
                ctx.eq("external potential", 0 if v is None else (v[q] if u else v), (V0[q] if hasv else 0) - x * P[q])
            self.wf = types.SimpleNamespace(make_rdm1=lambda: tuple(dm) if u else dm[0], idx=i)
    h = Hamil()
    v_before = h.v_ext
    s = Sol(h, log=NullLog())
    g = {"zero": 0, "sym": ctx.scalar("guess", Q(1, 8), Q(3, 4)), "half": Q(1, 2) if ctx.symbolic else 0.5}[guess]
    count = [0]

    def hook(x, y, when):
        if when == "before":
            count[0] = len(log)
            asked.append(x)
            return
        ok = False
        vis = log[count[0]:]
        if vis:
            ctx.eq("root finder gets the error of this calculation", y, vis[-1][1])
        else:
            ctx.eq("potential already calculated", x, g)
            ctx.eq("remembered error", y, log[0][1])
    old = solvermod.scipy
    solvermod.scipy = fakescipy(contract(ctx, k, hook=hook))
    try:
        s.optimize_cpt(target, c_frag="c", cpt_guess=g, atol=atol, rtol=rtol)
        s.kernel()
    except (RuntimeError, ConvergenceError) as e:
        pass
    else:
        ctx.true("fragment electrons within tolerance", abs(log[-1][1]) < atol + rtol * target)
        ctx.true("wave function of that calculation", s.wf.idx == len(log) - 1 and log[-1][2])
    finally:
        solvermod.scipy = old
    ctx.true("external potential restored", h.v_ext is v_before)


def h_solver_v(ctx, spin):
    """calc_v_ext adds exactly -cpt times the fragment projector to whatever potential was set."""
    u = spin == "u"
    P = [ctx.sym2("P%d" % s, 2) for s in range(2 if u else 1)]
    V0 = [ctx.sym2("V%d" % s, 2) for s in range(2 if u else 1)]
    c = ctx.scalar("c")
    h = types.SimpleNamespace(target_space_projector=lambda c=None: tuple(P) if u else P[0], log=NullLog(), v_ext=None)
    s = (solvermod.UClusterSolver if u else solvermod.ClusterSolver)(h)
    s.v_ext = tuple(V0) if u else V0[0]
    ctx.true("v_ext is the Hamiltonian's", h.v_ext is s.v_ext)
    for v0 in (0, h.v_ext):
        v = s.calc_v_ext(v0, c)
        for q in range(len(P)):
            ctx.eq("v_ext", v[q] if u else v, (0 if v0 is not h.v_ext else V0[q]) - c * P[q])


def h_dmet(ctx, k, tries):
    """DMET.kernel (one shot): the potential search brackets a sign change before the root finder is called, all
    fragments are finally calculated at the potential found, and the energy is taken from those calculations."""
    cls = vayesta.dmet.RDMET
    d = cls.__new__(cls)
    d.log = Log()
    d.opts = cls.Options(oneshot=True, maxiter=1, max_elec_err=Q(1, 64) if ctx.symbolic else 1 / 64)
    d.vcorr = np.zeros((1, 1))
    d.solver = "FCI"
    d.cluster_results = {}
    log = []
    ntarget = 2
    nsym = [1, 2]

    class Frag:
        def __init__(self, i):
            self.i, self.id = i, i

        def make_bath(self):
            pass

        make_cluster = make_bath

        def kernel(self, construct_bath=True, chempot=None):
            if self.i == 0:
                log.append([chempot, None, []])
            ctx.eq("all fragments see the same potential", chempot, log[-1][0])
            self.n = len(log) - 1
            self.ne = ctx.scalar("n%d_%d" % (self.n, self.i), 0, 2)
            self.results = types.SimpleNamespace(e1=ctx.scalar("e1_%d_%d" % (self.n, self.i)), e2=ctx.scalar("e2_%d_%d" % (self.n, self.i)))
            log[-1][2].append(self.results)
            if self.i == 1:
                log[-1][1] = sum(f.ne * w for f, w in zip(frags, nsym)) - ntarget
            return self.results

        def get_nelectron_hl(self):
            return self.ne

        def get_frag_hl_dm(self):
            return self.n

        def get_fragment_mf_energy(self):
            return emf[self.i]
    frags = [Frag(0), Frag(1)]
    emf = ctx.real("emf", (2,))
    bq_calls = []
    inner = contract(ctx, k)

    def bq(f, a, b, **kw):
        ea = [e for c, e, _ in log if c is a or (not ctx.symbolic and c == a)]
        bq_calls.append((a, b, len(log)))
        ctx.true("bracket is ordered", a <= b)
        ctx.true("bracket encloses a sign change", log[0][1] * log[-1][1] <= 0)
        return inner(f, a, b, **kw)
    over = dict(nfrag=2, get_fock=lambda *a: np.zeros((1, 1)), get_symmetry_parent_fragments=lambda *a: frags,
                get_symmetry_child_fragments=lambda *a: [[], [None]], _check_fragment_nelectron=lambda *a: ntarget,
                get_fragments=lambda *a, **k: frags, build_screened_eris=lambda *a: None, print_results=lambda *a: None,
                e_tot=0.0, mf=None, nao=1)
    sub = type("Sub", (cls,), {k: (property(lambda self, v=v: v) if not callable(v) else (lambda self, *a, v=v, **kw: v(*a, **kw))) for k, v in over.items()})
    d.__class__ = sub
    old = dmetmod.scipy
    dmetmod.scipy = fakescipy(bq)
    rng = range
    dmetmod.range = lambda *a: rng(tries) if a == (10,) else rng(*a)
    try:
        d.kernel()
    except (ValueError, RuntimeError):
        return
    finally:
        dmetmod.scipy = old
        del dmetmod.range
    if d.log.errors:
        ctx.true("failure only without bracket", not bq_calls)
        return
    last = log[-1]
    ctx.eq("energy from the last calculation", d.e_corr, sum(w * (r.e1 + r.e2 - m) for w, r, m in zip(nsym, last[2], emf)))
    ctx.true("density matrices from the last calculation", d.hl_rdms == [len(log) - 1] * 2)
    ctx.true("results from the last calculation", [d.cluster_results[i] for i in (0, 1)] == last[2])
    if not bq_calls:
        ctx.true("first potential good enough", len(log) == 1)
        ctx.true("error within tolerance", abs(last[1]) <= d.opts.max_elec_err * ntarget)


HARNESSES = [
    Harness("bisect", h_bisect, dict(robust=False, k=2), "any response, start in [-1,1], 2 interior root-finder evaluations"),
    Harness("bisect.robust", h_bisect, dict(robust=True, k=1), "any response, 1 interior root-finder evaluation"),
    Harness("bisect.k3", h_bisect, dict(robust=False, k=3), "any response, 3 interior evaluations", tiers=("thorough",)),
    Harness("chempot.r", h_chempot, dict(rhf=True, k=1), "any electron-number response (2x2 density matrices), 1 interior evaluation"),
    Harness("chempot.u", h_chempot, dict(rhf=False, k=1), "any electron-number response (2x2 density matrices), 1 interior evaluation"),
    Harness("solver.r.zero1", h_solver, dict(spin="r", k=1, guess="zero"), "2 orbitals, fixed projector, any density response, guess 0, 1 interior evaluation", tiers=("thorough",)),
    Harness("solver.r.zero", h_solver, dict(spin="r", k=0, guess="zero"), "2 orbitals, fixed projector, any density response, guess 0"),
    Harness("solver.r.half", h_solver, dict(spin="r", k=0, guess="half"), "2 orbitals, fixed projector, any density response, guess 1/2"),
    Harness("solver.r.sym", h_solver, dict(spin="r", k=0, guess="sym"), "2 orbitals, fixed projector, any density response, any guess in [1/8,3/4]", tiers=("thorough",)),
    Harness("solver.u.zero", h_solver, dict(spin="u", k=0, guess="zero"), "2 orbitals, fixed projector, any density response, guess 0"),
    Harness("solver.u.half", h_solver, dict(spin="u", k=0, guess="half"), "2 orbitals, fixed projector, any density response, guess 1/2"),
    Harness("vext.r", h_solver_v, dict(spin="r"), "2 orbitals"),
    Harness("vext.u", h_solver_v, dict(spin="u"), "2 orbitals"),
    Harness("dmet", h_dmet, dict(k=1, tries=1), "2 fragment classes, any response, up to 1 bracket extension (loop of 10 cut to 1)"),
    Harness("dmet.3", h_dmet, dict(k=2, tries=3), "2 fragment classes, up to 3 bracket extensions", tiers=("thorough",)),
]
