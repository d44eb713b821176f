"""Harness contexts, the per-harness driver, and the check runner."""
import os
import sys
import json
import time
import math
import random
import hashlib
import signal
import traceback
import multiprocessing as mp
from fractions import Fraction

import numpy as np

from . import sym as S
from . import explore as X
from . import npproxy
from .sym import Sym, SymBool, SymError
from .explore import Explorer, Obligation, PathEnd, Inconclusive, STATS

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Violated(Exception):
    pass


# ---------------------------------------------------------------- contexts
class BaseCtx:
    symbolic = False

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[int(self.integer(name, 0, len(options) - 1))]

    def boolean(self, name):
        return self.choice(name, [False, True])

    # ---- derived inputs (same code for symbolic and concrete runs)
    def unique(self, name, shape, perms, lo=-1, hi=1):
        """Array invariant (up to sign) under a group of index permutations given by generators
        [(perm, sign)]; one variable per orbit, zero where the sign forces it."""
        a = np.empty(shape, dtype=object)
        group = [(tuple(range(len(shape))), 1)]
        while True:
            new = []
            for p, s in group:
                for g, t in perms:
                    c = tuple(p[i] for i in g)
                    if not any(c == x for x, _ in group + new):
                        new.append((c, s * t))
            if not new:
                break
            group += new
        for idx in np.ndindex(*shape):
            orb = {}
            zero = False
            for p, s in group:
                j = tuple(idx[i] for i in p)
                if j in orb and orb[j] != s:
                    zero = True
                orb.setdefault(j, s)
            rep = min(orb)
            if zero:
                a[idx] = 0
                continue
            key = name + "_" + "_".join(map(str, rep))
            v = self.scalar(key, lo, hi)
            a[idx] = v * orb[rep]
        return a if self.symbolic else a.astype(float)

    def sym2(self, name, n, lo=-1, hi=1):
        return self.unique(name, (n, n), [((1, 0), 1)], lo, hi)

    def t2(self, name, no, nv):
        return self.unique(name, (no, no, nv, nv), [((1, 0, 3, 2), 1)])

    def t2aa(self, name, no, nv):
        return self.unique(name, (no, no, nv, nv), [((1, 0, 2, 3), -1), ((0, 1, 3, 2), -1)])

    def eri8(self, name, n):
        return self.unique(name, (n,) * 4, [((1, 0, 2, 3), 1), ((0, 1, 3, 2), 1), ((2, 3, 0, 1), 1)])

    def eri4(self, name, n):
        return self.unique(name, (n,) * 4, [((1, 0, 3, 2), 1), ((2, 3, 0, 1), 1)])

    def dm2(self, name, n):
        return self.eri4(name, n)

    def orth(self, name, n, planes=None):
        """n x n orthogonal matrix: product of Givens rotations with symbolic angle in `planes`
        (default all planes for n<=2, one symbolic rotation composed with a fixed rational
        orthogonal matrix otherwise)."""
        if n == 0:
            return np.zeros((0, 0))
        if n == 1:
            return np.ones((1, 1))
        if planes is None:
            planes = [(0, 1)] if n == 2 else [(0, n - 1)]
        u = np.eye(n, dtype=int).astype(object)
        if n > 2:
            fx = np.eye(n, dtype=int).astype(object)
            pq = [(3, 4, 5), (5, 12, 13), (8, 15, 17), (7, 24, 25)]
            for k in range(n - 1):
                a, b, h = pq[k % 4]
                g = np.eye(n, dtype=int).astype(object)
                g[k, k] = g[k + 1, k + 1] = Fraction(a, h)
                g[k, k + 1] = Fraction(b, h)
                g[k + 1, k] = -Fraction(b, h)
                fx = np.dot(fx, g)
            u = fx
        for (i, j) in planes:
            c, s = self.rot2("%s_%d%d" % (name, i, j))
            g = np.eye(n, dtype=int).astype(object)
            g[i, i] = g[j, j] = c
            g[i, j] = s
            g[j, i] = -s
            u = np.dot(u, g)
        return u if self.symbolic else u.astype(float)


class SymCtx(BaseCtx):
    symbolic = True

    def prepare_eigh(self, a, e, v, b=None, typ=1):
        npproxy.prepare_eigh(a, e, v, b, typ)

    def prepare_svd(self, a, u, s, vt):
        npproxy.prepare_svd(a, u, s, vt)

    def exact_svd(self, fn):
        """fn: exact thin SVD of a constant rational matrix; used by the code's SVD calls and spectral norms"""
        S.SP.svdhook = fn

    def __init__(self, ex):
        self.ex = ex
        self.obls = []
        self.names = []

    def scalar(self, name, lo=-1, hi=1):
        v = S.SP.byname.get(name)
        if v is None:
            return Sym.var(name, "real", lo, hi)
        return Sym({S.SP.mono(((v.id, 1),)): 1})

    def real(self, name, shape=(), lo=-1, hi=1):
        if shape == ():
            return self.scalar(name, lo, hi)
        a = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            a[i] = self.scalar(name + "_" + "_".join(map(str, i)), lo, hi)
        return a

    def cplx(self, name, shape=()):
        return self.real(name + "re", shape) + S.imag_unit() * self.real(name + "im", shape)

    def integer(self, name, lo, hi):
        v = S.SP.byname.get(name)
        if v is None:
            return Sym.var(name, "int", lo, hi)
        return Sym({S.SP.mono(((v.id, 1),)): 1})

    def int(self, name, lo, hi):
        """Integer concretised by forking over all its values."""
        return int(self.integer(name, lo, hi))

    def rot2(self, name):
        c, s = self.scalar(name + "_c", -1, 1), self.scalar(name + "_s", -1, 1)
        sid = S.SP.byname[name + "_s"].id
        if sid not in S.SP.reduce:
            cid = S.SP.byname[name + "_c"].id
            S.SP.reduce[sid] = (1 - c * c).d
            n1, n2 = X.q(name + "_c"), X.q(name + "_s")
            S.SP.vars[cid].deps = (sid,)
            S.SP.vars[sid].deps = (cid,)
            S.SP.side.append(({cid, sid}, "(= (+ (* %s %s) (* %s %s)) 1)" % (n1, n1, n2, n2)))
        return c, s

    def const(self, a):
        return S.to_obj(a)

    def assume(self, cond):
        if isinstance(cond, (list, np.ndarray)):
            for c in np.asarray(cond, dtype=object).flat:
                self.assume(c)
            return
        self.ex.assume(cond)

    def eq(self, label, a, b, tol=None):
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            if len(a) != len(b):
                self.obls.append(Obligation(label + ".len", kind="true", cond=False))
                return
            for i, (x, y) in enumerate(zip(a, b)):
                self.eq("%s.%d" % (label, i), x, y, tol)
            return
        if a is None or b is None:
            self.true(label + " (missing)", a is None and b is None)
            return
        a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
        if a.shape != b.shape and a.ndim and b.ndim:
            self.obls.append(Obligation(label + ".shape%s%s" % (a.shape, b.shape), kind="true", cond=False))
            return
        a, b = np.broadcast_arrays(a, b)
        for i in np.ndindex(a.shape):
            self.obls.append(Obligation(label, i, Sym.const(a[i]), Sym.const(b[i]), "eq", tol=tol))

    def true(self, label, cond):
        if isinstance(cond, np.ndarray):
            for i, c in np.ndenumerate(cond):
                self.obls.append(Obligation(label, i, kind="true", cond=c if isinstance(c, SymBool) else bool(c)))
            return
        if not isinstance(cond, SymBool):
            cond = bool(cond)
        self.obls.append(Obligation(label, kind="true", cond=cond))

    def fork(self, cond):
        return bool(cond)

    def raises(self, label, fn, exc=Exception):
        try:
            fn()
        except PathEnd:
            raise
        except SymError:
            raise
        except exc:
            self.true(label, True)
            return True
        self.true(label, False)
        return False


class ConcreteCtx(BaseCtx):
    symbolic = False

    def prepare_eigh(self, *a, **kw):
        pass

    prepare_svd = exact_svd = prepare_eigh

    def __init__(self, values, seed=1):
        self.values = values
        self.seed = seed
        self.fail = []
        self.lhs = []
        self.count = 0

    def _get(self, name, lo, hi, integer=False):
        v = self.values.get(name)
        if v is not None:
            return Fraction(v)
        h = int(hashlib.sha256(("%s:%s" % (name, self.seed)).encode()).hexdigest()[:8], 16)
        lo = -1 if lo is None else lo
        hi = lo + 2 if hi is None else hi
        if integer:
            return Fraction(lo + h % (hi - lo + 1))
        return Fraction(lo) + (Fraction(hi) - Fraction(lo)) * Fraction(h % 997, 997)

    def scalar(self, name, lo=-1, hi=1):
        return float(self._get(name, lo, hi))

    def real(self, name, shape=(), lo=-1, hi=1):
        if shape == ():
            return self.scalar(name, lo, hi)
        a = np.empty(shape)
        for i in np.ndindex(*shape):
            a[i] = self.scalar(name + "_" + "_".join(map(str, i)), lo, hi)
        return a

    def cplx(self, name, shape=()):
        return self.real(name + "re", shape) + 1j * self.real(name + "im", shape)

    def integer(self, name, lo, hi):
        return int(self._get(name, lo, hi, True))

    int = integer

    def rot2(self, name):
        if name + "_c" in self.values:
            c = float(self.values[name + "_c"])
            s = float(self.values.get(name + "_s", math.sqrt(max(0.0, 1 - c * c))))
            n = math.hypot(c, s)
            return c / n, s / n
        return 0.6, 0.8

    def const(self, a):
        return np.asarray(a)

    def assume(self, cond):
        pass

    def eq(self, label, a, b, tol=None):
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            if len(a) != len(b):
                self.fail.append(label + ".len")
                return
            for i, (x, y) in enumerate(zip(a, b)):
                self.eq("%s.%d" % (label, i), x, y, tol)
            return
        if a is None or b is None:
            self.true(label + " (missing)", a is None and b is None)
            return
        a, b = np.asarray(a), np.asarray(b)
        if a.dtype == object:
            a = S.to_float(a)
        if b.dtype == object:
            b = S.to_float(b)
        if a.shape != b.shape and a.ndim and b.ndim:
            self.fail.append(label + ".shape")
            return
        self.lhs.append((label, np.array(np.broadcast_arrays(a, b)[0])))
        self.count += 1
        scale = max(1.0, float(np.max(np.abs(b), initial=0)))
        t = 2e-7 * scale if tol is None else tol
        err = np.max(np.abs(a - b), initial=0)
        if not (err <= t):
            self.fail.append("%s (max deviation %.3g)" % (label, err))

    def true(self, label, cond):
        self.count += 1
        if not np.all(cond):
            self.fail.append(label)

    def fork(self, cond):
        return bool(cond)

    def raises(self, label, fn, exc=Exception):
        try:
            fn()
        except exc:
            return True
        self.fail.append(label)
        return False


# ---------------------------------------------------------------- one harness
class Harness:
    def __init__(self, name, fn, params=None, bounds="", tiers=("quick", "thorough"), maxpaths=4000,
                 timeout=60000, budget=400, tol=1e-7, concrete_np=False, extra=()):
        self.name, self.fn, self.params, self.bounds = name, fn, dict(params or {}), bounds
        self.tiers, self.maxpaths, self.timeout, self.budget = tiers, maxpaths, timeout, budget
        self.tol, self.concrete_np, self.extra = tol, concrete_np, extra


_TRACE = set()


def _trace_on():
    mon = sys.monitoring
    try:
        mon.use_tool_id(3, "vsym")
    except ValueError:
        return

    def start(code, off):
        f = code.co_filename
        if "/vayesta/" in f and "/verif/" not in f and "/tests/" not in f:
            _TRACE.add("%s:%s" % (f.split("/vayesta/", 1)[1], code.co_qualname))
        return mon.DISABLE
    mon.register_callback(3, mon.events.PY_START, start)
    mon.set_events(3, mon.events.PY_START)


def _trace_off():
    try:
        sys.monitoring.free_tool_id(3)
    except Exception:
        pass


def concrete_run(h, values, seed=1):
    """Run the harness on the real, unpatched code. -> (failures, ctx)"""
    old = S.SP.explorer
    S.SP.explorer = None
    ctx = ConcreteCtx(values, seed)
    try:
        try:
            h.fn(ctx, **h.params)
        except SymError:
            raise
        except Exception as e:
            ctx.fail.append("exception %s: %s @ %s" % (type(e).__name__, str(e)[:200], _where(e)))
        return ctx.fail, ctx
    finally:
        S.SP.explorer = old


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    for fr in reversed(tb):
        if "/vayesta/" in fr.filename:
            return "%s:%d" % (fr.filename.split("/vayesta/", 1)[1], fr.lineno)
    return "%s:%d" % (os.path.basename(tb[-1].filename), tb[-1].lineno) if tb else "?"


def run_harness(h, seed=1):
    """Symbolic exploration; returns a JSON-able result."""
    rng = random.Random(seed)
    t0 = time.time()
    res = dict(name=h.name, bounds=h.bounds, status="holds", paths=0, detail="", validated=0, witness=None)
    X.STATS = STATS
    ex = Explorer(maxpaths=h.maxpaths)
    _TRACE.clear()
    npaths = 0
    reach = 0
    decisions = 0
    _trace_on()
    try:
        while True:
            sp = S.reset()
            sp.explorer = ex
            ex.start()
            ctx = SymCtx(ex)
            exc = None
            skipped = False
            try:
                if h.concrete_np:
                    h.fn(ctx, **h.params)
                else:
                    with npproxy.activated(h.extra):
                        h.fn(ctx, **h.params)
            except PathEnd:
                skipped = True
            except (SymError, RecursionError, MemoryError) as e:
                exc = ("engine", "%s: %s @ %s" % (type(e).__name__, str(e)[:300], _where(e)))
            except Exception as e:
                exc = ("code", "%s: %s @ %s" % (type(e).__name__, str(e)[:300], _where(e)))
            npaths += 1
            STATS.paths += 1
            decisions += len(ex.trace)
            if not skipped:
                # reachability witness: a model of the path condition
                pcs = [c for c in ex.pc if isinstance(c, SymBool)]
                vs = set()
                for c in pcs:
                    vs |= c.varids()
                dc, df = X.decls(vs)
                text = "\n".join(dc + df + ["(assert %s)" % X.bool_text(c) for c in pcs])
                r, model = X.solve(text, 10000, True)
                if r == "sat":
                    reach += 1
                if exc is not None:
                    found = None
                    for k in range(6):
                        if k >= 2:      # further models of the path condition, in general position
                            r, model = X.general_model(text, pcs, rng)
                        if r != "sat":
                            continue
                        vals = {k: v for k, v in (model or {}).items() if not isinstance(v, bool)}
                        fails, _ = concrete_run(h, vals, seed + k)
                        if fails:
                            found = (fails, k)
                            break
                    if found:
                        res.update(status="violated", detail="; ".join(found[0][:3]), values=_jsonable(vals), rseed=seed + found[1])
                        break
                    res.update(status="inconclusive", detail="symbolic run stopped: %s" % exc[1])
                    break
                if r != "unsat":
                    if not ctx.obls:
                        pass
                    st, model2, lab = X.check_obligations(ctx.obls, ex.pc, h.timeout, rng, h.tol)
                    if st == "sat":
                        vals = {k: v for k, v in model2.items() if not isinstance(v, bool)}
                        fails = []
                        for k in range(3):
                            fails, _ = concrete_run(h, vals, seed + k)
                            if fails:
                                break
                        if fails:
                            res.update(status="violated", detail="solver: %s; replay: %s" % (lab, "; ".join(fails[:4])),
                                       values=_jsonable(vals), rseed=seed + k)
                        else:
                            res.update(status="inconclusive", detail="counterexample for %s does not reproduce" % lab,
                                       values=_jsonable(vals))
                        break
                    if st == "unknown":
                        res.update(status="inconclusive", detail="solver unknown (%s)" % lab)
                        break
                    # validate the encoding: evaluate it at a witness and compare with the real run
                    if res["validated"] < 3 and r == "sat":
                        ok = validate(h, ctx, model, seed, res)
                        if ok is False:
                            break
            if not ex.backtrack():
                break
            if npaths >= h.maxpaths:
                res.update(status="inconclusive", detail="path bound %d reached" % h.maxpaths)
                break
            if time.time() - t0 > h.budget:
                res.update(status="inconclusive", detail="time budget %ds reached after %d paths" % (h.budget, npaths))
                break
    except Exception as e:
        res.update(status="inconclusive", detail="engine: %s: %s" % (type(e).__name__, traceback.format_exc()[-600:]))
    finally:
        _trace_off()
    if res["status"] == "holds" and reach == 0:
        res.update(status="inconclusive", detail="no reachable path (vacuous)")
    res.update(paths=npaths, reachable=reach, decisions=decisions, wall_s=round(time.time() - t0, 2),
               functions=sorted(_TRACE), stats=STATS.as_dict())
    return res


def _jsonable(vals):
    return {k: str(v) for k, v in vals.items()}


def validate(h, ctx, model, seed, res):
    """The concrete twin: the real code on the path's witness, compared value by value with the
    symbolic results evaluated at the same point."""
    vals = {k: v for k, v in (model or {}).items() if not isinstance(v, bool)}
    cvals = dict(vals)
    cc = ConcreteCtx(cvals, seed)
    env = {}
    for v in S.SP.vars:
        if v.evalf is None and v.id != S.SP.i_var:
            if v.name in vals:
                env[v.id] = float(vals[v.name])
            elif v.name.endswith("_c") and v.name[:-2] + "_s" in S.SP.byname:
                env[v.id] = 0.6
            elif v.name.endswith("_s") and v.name[:-2] + "_c" in S.SP.byname:
                env[v.id] = 0.8
            else:
                env[v.id] = float(cc._get(v.name, v.lo, v.hi, v.kind == "int"))
    fails, c2 = concrete_run(h, cvals, seed)
    if fails:
        # the real code fails the property at a concrete point although the solver found no
        # counterexample: report it (it is a real run), this also exposes encoding errors
        res.update(status="violated", detail="real run at path witness: " + "; ".join(fails[:4]),
                   values=_jsonable(cvals), rseed=seed)
        return False
    sym = {}
    for o in ctx.obls:
        if o.kind == "eq":
            sym.setdefault(o.label, []).append((o.idx, o.lhs))
    bad = []
    cnt = {}
    for lab, arr in c2.lhs:
        k = cnt.get(lab, 0)
        if lab not in sym:
            continue
        flat = arr.reshape(-1)
        part = sym[lab][k:k + flat.size]
        cnt[lab] = k + flat.size
        step = max(1, len(part) // 40)
        for (idx, lhs), x in list(zip(part, flat))[::step]:
            if S.SP.i_var is not None:
                re, im = lhs.split()
                y = complex(re.evalf(dict(env)), im.evalf(dict(env)))
            else:
                y = lhs.evalf(dict(env))
            if abs(y - x) > 1e-6 * max(1, abs(x)):
                bad.append("%s%s: encoding %.8g real %.8g" % (lab, list(idx), abs(y), abs(x)))
    if bad:
        # degenerate inner factorisations may legitimately differ in gauge; such harnesses do not
        # compare gauge-dependent left-hand sides.
        res.update(status="inconclusive", detail="encoding mismatch: " + "; ".join(bad[:3]))
        return False
    res["validated"] += 1
    if res["witness"] is None:
        res["witness"] = dict(list(_jsonable(vals).items())[:12]) or "no branch constraint: any input"
    return True


# ---------------------------------------------------------------- check runner
def _child(conn, h, seed):
    try:
        signal.signal(signal.SIGTERM, signal.SIG_DFL)
        r = run_harness(h, seed)
    except BaseException as e:
        r = dict(name=h.name, bounds=h.bounds, status="inconclusive", detail="worker: %r" % (e,), stats={}, functions=[],
                 paths=0, reachable=0, validated=0, decisions=0, wall_s=0, witness=None)
    conn.send(r)
    conn.close()


def run_all(harnesses, seed, deadline, workers=None):
    workers = workers or int(os.environ.get("VERIF_JOBS", "8"))
    pend = list(harnesses)
    pend.sort(key=lambda h: -h.budget)
    live, out = [], []
    while pend or live:
        while pend and len(live) < workers:
            h = pend.pop(0)
            a, b = mp.Pipe(False)
            p = mp.get_context("fork").Process(target=_child, args=(b, h, seed))
            p.start()
            b.close()
            live.append((h, p, a, time.time()))
        time.sleep(0.02)
        nxt = []
        for h, p, a, t in live:
            if a.poll():
                try:
                    out.append(a.recv())
                except EOFError:
                    out.append(_dead(h, "worker died (exit %s)" % p.exitcode))
                p.join(5)
                continue
            if not p.is_alive():
                if a.poll():
                    out.append(a.recv())
                else:
                    out.append(_dead(h, "worker died (exit %s)" % p.exitcode))
                continue
            if time.time() - t > h.budget * 1.5 + 60 or time.time() > deadline:
                p.kill()
                out.append(_dead(h, "time limit"))
                continue
            nxt.append((h, p, a, t))
        live = nxt
        if os.environ.get("VERIF_FAILFAST") and any(r["status"] == "violated" for r in out):
            for h, p, a, t in live:
                p.kill()
            break
        if time.time() > deadline and pend:
            for h in pend:
                out.append(_dead(h, "time limit (not started)"))
            pend = []
    return out


def _dead(h, why):
    return dict(name=h.name, bounds=h.bounds, status="inconclusive", detail=why, stats={}, functions=[], paths=0,
                reachable=0, validated=0, decisions=0, wall_s=0, witness=None)


def load_known(pid):
    path = os.path.join(VERIF, "known_findings.json")
    try:
        with open(path) as f:
            return [k for k in json.load(f).get("findings", []) if k["property"] == pid and k["status"] == "known"]
    except FileNotFoundError:
        return []


def main(pid, harnesses, meta, argv=None):
    argv = sys.argv[1:] if argv is None else argv
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    if "--quick" in argv:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    if "--replay" in argv:
        path = argv[argv.index("--replay") + 1]
        with open(path) as f:
            rec = json.load(f)
        h = [x for x in harnesses if x.name == rec["harness"]][0]
        fails, _ = concrete_run(h, {k: Fraction(v) for k, v in rec["values"].items()}, rec.get("rseed", seed))
        print("REPLAY %s: %s" % (h.name, fails or "no failure"))
        return 1 if fails else 0
    hs = [h for h in harnesses if tier in h.tiers]
    if "--only" in argv:
        pat = argv[argv.index("--only") + 1]
        hs = [h for h in hs if pat in h.name]
    limit = 780 if tier == "quick" else 850
    rs = run_all(hs, seed, t0 + limit)
    known = load_known(pid)
    viol, knowns, inc = [], [], []
    for r in sorted(rs, key=lambda r: r["name"]):
        if r["status"] == "violated":
            k = [k for k in known if k["harness"] == r["name"]]
            (knowns if k else viol).append((r, k[0] if k else None))
        elif r["status"] == "inconclusive":
            inc.append(r)
    for r in sorted(rs, key=lambda r: r["name"]):
        print("  [%s] %s paths=%s obligations=%s queries=%s solver=%.2fs wall=%.1fs %s" % (
            r["status"], r["name"], r["paths"], r["stats"].get("obligations", 0), r["stats"].get("queries", 0),
            r["stats"].get("solver_s", 0), r["wall_s"], r["detail"]))
    for r, k in knowns:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    outdir = os.path.join(VERIF, "evidence", "replay")
    code = 0
    for r, _ in viol:
        os.makedirs(outdir, exist_ok=True)
        path = os.path.join(outdir, "%s_%s.json" % (pid, "".join(c if c.isalnum() else "_" for c in r["name"])))
        with open(path, "w") as f:
            json.dump(dict(property=pid, harness=r["name"], values=r.get("values", {}), rseed=r.get("rseed", seed),
                           detail=r["detail"],
                           replay_cmd="bash /verif/run.sh %s --%s --replay %s" % (pid, tier, path)), f, indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        code = 1
    for r in inc:
        print("INCONCLUSIVE property=%s harness=%s: %s" % (pid, r["name"], r["detail"]))
    write_evidence(pid, tier, seed, rs, viol, inc, meta, time.time() - t0)
    decided = [r for r in rs if r["status"] == "holds"]
    if code == 0 and inc and os.environ.get("VERIF_STRICT"):
        return 3
    if code == 0 and not decided:
        print("ERROR: nothing was decided")
        return 2
    return code


def write_evidence(pid, tier, seed, rs, viol, inc, meta, wall):
    tot = X.Stats()
    funcs = set()
    for r in rs:
        if r["stats"]:
            tot.merge(r["stats"])
        funcs |= set(r["functions"])
    samples = []
    for r in rs:
        if r.get("witness") is not None and len(samples) < 6:
            samples.append(dict(harness=r["name"], path_witness=r["witness"]))
    cov = dict(
        states=tot.paths, transitions=sum(r.get("decisions", 0) for r in rs),
        traces_validated_against_impl=sum(r["validated"] for r in rs),
        samples=samples,
        explanation="Symbolic execution of the real Python functions over solver variables; states = symbolic paths "
                    "executed, transitions = branch decisions taken on them; every path ends in one z3 query for the "
                    "negated property. traces_validated = path witnesses re-run on the unpatched code and compared value "
                    "by value with the encoding.",
        harnesses=[dict(name=r["name"], bounds=r["bounds"], status=r["status"], paths=r["paths"],
                        reachable=r.get("reachable", 0), obligations=r["stats"].get("obligations", 0),
                        queries=r["stats"].get("queries", 0), solver_s=round(r["stats"].get("solver_s", 0), 3),
                        wall_s=r["wall_s"], detail=r["detail"]) for r in sorted(rs, key=lambda r: r["name"])],
        functions_encoded=sorted(funcs), obligations=tot.obligations, discharged=tot.unsat,
        syntactically_closed=tot.identical, queries=tot.queries, branch_queries=tot.branch_queries,
        solver_seconds=round(tot.solver_s, 2), largest_polynomial_terms=tot.max_terms,
        inconclusive=[dict(harness=r["name"], why=r["detail"]) for r in inc],
        exhaustive=not inc and not viol,
    )
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=cov,
              assumptions=list(COMMON_ASSUMPTIONS) + list(meta.get("assumptions", [])),
              wall_s=round(wall, 2), violations=len(viol))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", "%s.json" % pid), "w") as f:
        json.dump(ev, f, indent=1)


COMMON_ASSUMPTIONS = [
    "floating-point numbers are idealised as real numbers (exact rationals in the encoding; concrete mean-field data enter as decimal constants, with the stated tolerance)",
    "numpy elementwise/einsum/dot/indexing semantics on object arrays equal those on float arrays (checked pointwise by the concrete twin of each path)",
    "compiled pyscf helpers (unpack_tril, pack_tril, restore, ...) are replaced by their documented contract when given symbolic arrays",
]
