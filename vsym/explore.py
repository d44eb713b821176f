"""Path exploration and solver queries (z3) for harnesses over the real code."""
import sys
import time
import random
import itertools
from fractions import Fraction
import numpy as np

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
try:
    import z3
except ImportError:
    sys.path.append(_VT)
    import z3
    sys.path.remove(_VT)

from . import sym as S
from .sym import Sym, SymBool, SymError, q

z3.set_param("memory_max_size", 6000)


class Inconclusive(Exception):
    pass


class PathEnd(BaseException):
    """Raised to abandon an infeasible path."""


# ------------------------------------------------------------------ SMT text
def num(c):
    if type(c) is float:
        c = Fraction(c)
    if isinstance(c, Fraction):
        if c.denominator == 1:
            c = c.numerator
        else:
            if c < 0:
                return "(- (/ %d.0 %d.0))" % (-c.numerator, c.denominator)
            return "(/ %d.0 %d.0)" % (c.numerator, c.denominator)
    if c < 0:
        return "(- %d)" % -c
    return "%d" % c


def poly_text(p, real=True):
    """SMT term for a polynomial (negative exponents cleared by an even power, which keeps
    sign and zeros since those variables are assumed nonzero)."""
    sp = S.SP
    low = {}
    for m in p.d:
        for v, e in sp.monos[m]:
            if e < 0:
                low[v] = min(low.get(v, 0), e)
    shift = {v: (-e + (e % 2)) for v, e in low.items()}
    terms = []
    for m, c in p.d.items():
        ex = dict(sp.monos[m])
        for v, k in shift.items():
            ex[v] = ex.get(v, 0) + k
        fac = []
        for v, e in ex.items():
            if e:
                nm = q(sp.vars[v].name)
                fac += [nm] * e
        if c != 1 or not fac:
            fac.insert(0, num(c))
        terms.append(fac[0] if len(fac) == 1 else "(* %s)" % " ".join(fac))
    if not terms:
        return "0"
    if len(terms) == 1:
        return terms[0]
    return "(+ %s)" % " ".join(terms)


def bool_text(b):
    if isinstance(b, (bool, np.bool_)):
        return "true" if b else "false"
    if b.op == "and":
        return "(and true %s)" % " ".join(bool_text(a) for a in b.args)
    if b.op == "or":
        return "(or false %s)" % " ".join(bool_text(a) for a in b.args)
    if b.op == "not":
        return "(not %s)" % bool_text(b.args[0])
    t = poly_text(b.args[0])
    return {"lt": "(< %s 0)", "le": "(<= %s 0)", "gt": "(> %s 0)", "ge": "(>= %s 0)",
            "eq": "(= %s 0)", "ne": "(not (= %s 0))"}[b.op] % t


def closure(varids):
    """All variables needed, with definitions of atoms."""
    sp = S.SP
    todo, seen = list(varids), set()
    while todo:
        v = todo.pop()
        if v in seen:
            continue
        seen.add(v)
        todo.extend(sp.vars[v].deps)
    return seen


def decls(varids):
    sp = S.SP
    seen = closure(varids)
    out, defs = [], []
    for v in sorted(seen):
        x = sp.vars[v]
        if v == sp.i_var:
            continue
        out.append("(declare-const %s %s)" % (q(x.name), "Int" if x.kind == "int" else "Real"))
        if x.lo is not None:
            defs.append("(assert (>= %s %s))" % (q(x.name), num(x.lo)))
        if x.hi is not None:
            defs.append("(assert (<= %s %s))" % (q(x.name), num(x.hi)))
        if x.nz:
            defs.append("(assert (not (= %s 0)))" % q(x.name))
        for d in x.defs:
            r = d()
            if r[0] == "poly_eq":
                defs.append("(assert (= %s 0))" % poly_text(r[1]))
            elif r[0] == "poly_ge":
                defs.append("(assert (>= %s 0))" % poly_text(r[1]))
            elif r[0] == "sq_eq":
                defs.append("(assert (= (* %s %s) %s))" % (q(r[1].name), q(r[1].name), poly_text(r[2])))
            elif r[0] == "abs_eq":
                t = poly_text(r[2])
                defs.append("(assert (= %s (ite (>= %s 0) %s (- %s))))" % (q(r[1].name), t, t, t))
            elif r[0] == "raw":
                defs.append("(assert %s)" % r[1])
    for vs, txt in sp.side:
        if vs <= seen:
            defs.append("(assert %s)" % txt)
    return out, defs


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.paths = 0
        self.obligations = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.branch_queries = 0
        self.identical = 0
        self.max_terms = 0

    def as_dict(self):
        return dict(self.__dict__)

    def merge(self, d):
        for k, v in d.items():
            if k == "max_terms":
                self.max_terms = max(self.max_terms, v)
            else:
                setattr(self, k, getattr(self, k) + v)


STATS = Stats()


def solve(text, timeout_ms, want_model=False, tactic=None):
    t0 = time.time()
    s = z3.Solver() if tactic is None else z3.Then(*tactic).solver()
    s.set("timeout", int(timeout_ms))
    s.from_string(text)
    r = s.check()
    STATS.queries += 1
    STATS.solver_s += time.time() - t0
    r = "sat" if r == z3.sat else ("unsat" if r == z3.unsat else "unknown")
    m = None
    if r == "sat" and want_model:
        mod = s.model()
        m = {}
        for d in mod.decls():
            v = mod[d]
            if z3.is_algebraic_value(v):
                v = v.approx(20)
            if z3.is_rational_value(v):
                m[d.name()] = Fraction(v.numerator_as_long(), v.denominator_as_long())
            elif z3.is_int_value(v):
                m[d.name()] = Fraction(v.as_long())
            elif z3.is_true(v) or z3.is_false(v):
                m[d.name()] = z3.is_true(v)
    return r, m


class Explorer:
    """Depth-first exploration of all feasible paths of a harness."""

    def __init__(self, maxpaths=5000, branch_timeout=4000):
        self.maxpaths = maxpaths
        self.branch_timeout = branch_timeout
        self.trace = []          # [cond-choice, alternative_open]
        self.pos = 0
        self.pc = []
        self.cache = {}
        self.assumes = []

    def start(self):
        self.pos = 0
        self.pc = []

    def feasible(self, extra):
        conds = [c for c in self.pc if isinstance(c, SymBool)]
        allc = conds + [extra]
        vs = set()
        for c in allc:
            vs |= c.varids()
        dc, df = decls(vs)
        text = "\n".join(dc + df + ["(assert %s)" % bool_text(c) for c in allc])
        r = self.cache.get(text)
        if r is None:
            STATS.branch_queries += 1
            r = solve(text, self.branch_timeout)[0]
            self.cache[text] = r
        return r != "unsat"

    def decide(self, cond):
        if self.pos < len(self.trace):
            choice = self.trace[self.pos][0]
            self.pos += 1
        else:
            neg = cond.negate()
            t = self.feasible(cond)
            f = self.feasible(neg) if t else True
            if not t and not self.feasible(neg):
                raise PathEnd()
            choice = t
            self.trace.append([choice, t and f])
            self.pos += 1
        self.pc.append(cond if choice else cond.negate())
        return choice

    def assume(self, cond):
        if isinstance(cond, (bool, np.bool_)):
            if not cond:
                raise PathEnd()
            return
        if not self.feasible(cond):
            raise PathEnd()
        self.pc.append(cond)

    def concretise(self, p):
        lo, hi = interval(p)
        if lo is None or hi is None or hi - lo > 64:
            raise SymError("concretisation of an unbounded symbolic integer %r" % p)
        for v in range(int(lo), int(hi) + 1):
            if bool(SymBool.make(p - v, "eq")):
                return v
        raise PathEnd()

    def backtrack(self):
        while self.trace and not self.trace[-1][1]:
            self.trace.pop()
        if not self.trace:
            return False
        self.trace[-1] = [not self.trace[-1][0], False]
        return True


def interval(p):
    sp = S.SP
    lo = hi = 0
    for m, c in p.d.items():
        a, b = 1, 1
        for v, e in sp.monos[m]:
            x = sp.vars[v]
            l, h = x.lo, x.hi
            if l is None or h is None:
                if x.name.startswith("idiv!"):
                    # value = floor(p/n): bounded through its definition
                    l, h = -64, 64
                else:
                    return None, None
            for _ in range(e):
                cands = [a * l, a * h, b * l, b * h]
                a, b = min(cands), max(cands)
        if c < 0:
            a, b = b, a
        lo += c * a
        hi += c * b
    return lo, hi


# ------------------------------------------------------------------ obligations
class Obligation:
    __slots__ = ("label", "idx", "lhs", "rhs", "kind", "cond", "tol")

    def __init__(self, label, idx=None, lhs=None, rhs=None, kind="eq", cond=None, tol=None):
        self.label, self.idx, self.lhs, self.rhs, self.kind, self.cond, self.tol = label, idx, lhs, rhs, kind, cond, tol


def _isfloat(p):
    return any(type(c) is float for c in p.d.values())


def check_obligations(obls, pc, timeout_ms=60000, rng=None, tol=1e-7):
    """Decide that no values satisfying pc violate any obligation.
    Returns ("unsat"|"sat"|"unknown", model, label)."""
    rng = rng or random.Random(1)
    pcs = [c for c in pc if isinstance(c, SymBool)]
    exact, loose, conds = [], [], []
    for o in obls:
        STATS.obligations += 1
        if o.kind == "true":
            c = o.cond
            if isinstance(c, (bool, np.bool_)):
                if c:
                    STATS.identical += 1
                    STATS.unsat += 1
                    continue
                conds.append((o, True))
            else:
                conds.append((o, c.negate()))
            continue
        l, r = o.lhs, o.rhs
        STATS.max_terms = max(STATS.max_terms, len(l.d), len(r.d))
        parts = [(l, r)]
        if S.SP.i_var is not None:
            lr, li = l.split()
            rr, ri = r.split()
            parts = [(lr, rr), (li, ri)] if (li.d or ri.d) else [(lr, rr)]
        for a, b in parts:
            if _isfloat(a) or _isfloat(b) or o.tol is not None:
                loose.append((o, a - b))
            else:
                exact.append((o, a, b))
    # ---- exact part, and conditions: queries over chunks of the disjunction
    status = "unsat"
    items = []          # (obligation, text of the violated literal, SymBool or True, terms)
    for o, a, b in exact:
        if a.d == b.d:
            STATS.identical += 1
            items.append((o, None, (a, b), 2 * len(a.d) + 1))
        else:
            items.append((o, SymBool.make(a - b, "ne"), None, len(a.d) + len(b.d)))
    for o, c in conds:
        items.append((o, c, None, 1 if c is True else 50))
    pvs = set()
    for c in pcs:
        pvs |= c.varids()
    body = ["(assert %s)" % bool_text(c) for c in pcs]
    chunks, cur, size = [], [], 0
    # literals whose two sides have different canonical forms first: they decide sat answers
    items.sort(key=lambda x: x[1] is None)
    for it in items:
        if cur and (size + it[3] > 20000 or (cur[0][1] is None) != (it[1] is None)):
            chunks.append(cur)
            cur, size = [], 0
        cur.append(it)
        size += it[3]
    if cur:
        chunks.append(cur)
    for ch in chunks:
        vs = set(pvs)
        lits = []
        for o, c, ab, _ in ch:
            if c is None:
                for p in ab:
                    vs |= p.varids()
                lits.append("(not (= %s %s))" % (poly_text(ab[0]), poly_text(Sym(dict(reversed(list(ab[1].d.items())))))))
            elif c is True:
                lits.append("true")
            else:
                vs |= c.varids()
                lits.append(bool_text(c))
        dc, df = decls(vs)
        base = "\n".join(dc + df + body)
        goal = "(assert (or false %s))" % " ".join(lits)
        if ch[0][1] is None:
            r, m = solve(base + "\n" + goal, timeout_ms, True)
            disj = []
        else:
            disj = [(o, c) for o, c, _, _ in ch]
            r, m = hard_solve(base, disj, goal, vs, pcs, timeout_ms, rng)
        if r == "unsat":
            STATS.unsat += len(ch)
        elif r == "sat":
            STATS.sat += 1
            return "sat", m, find_label(disj, m)
        else:
            STATS.unknown += 1
            status = "unknown"
    # ---- tolerance part
    if loose:
        r, m, lab = check_loose(loose, pcs, tol, timeout_ms, rng)
        if r == "sat":
            STATS.sat += 1
            return "sat", m, lab
        if r == "unknown":
            STATS.unknown += 1
            status = "unknown"
        else:
            STATS.unsat += len(loose)
    return status, None, None


def env_of(model):
    sp = S.SP
    env = {}
    for k, v in model.items():
        x = sp.byname.get(k)
        if x is not None and not isinstance(v, bool):
            env[x.id] = float(v)
    return env


def find_label(disj, m):
    env = env_of(m)
    for o, c in disj:
        try:
            if c is True or c.evalb(dict(env)):
                return label_of(o)
        except Exception:
            pass
    return label_of(disj[0][0]) if disj else "?"


def label_of(o):
    return o.label if o.idx in (None, ()) else "%s%s" % (o.label, list(o.idx))


def free_vars(vs):
    sp = S.SP
    return [v for v in sorted(closure(vs)) if not sp.vars[v].defs and v != sp.i_var and sp.vars[v].evalf is None]


def hard_solve(base, disj, goal, vs, pcs, timeout_ms, rng):
    sp = S.SP
    r, m = solve(base + "\n" + goal, min(3000, timeout_ms), True)
    if r == "unsat":
        return r, m
    fv = [v for v in free_vars(vs) if sp.vars[v].kind == "real"]
    if r == "sat":
        # prefer a well separated counterexample of moderate size (for the replay)
        sep = []
        for o, c in disj:
            if c is not True and c.op == "ne":
                t = poly_text(c.args[0])
                sep.append("(> %s 0.01) (< %s (- 0.01))" % (t, t))
            else:
                sep.append("true" if c is True else bool_text(c))
        box = "\n".join("(assert (and (<= %s 3) (>= %s (- 3))))" % (q(sp.vars[v].name),) * 2 if False else
                        "(assert (and (<= %s 3) (>= %s (- 3))))" % (q(sp.vars[v].name), q(sp.vars[v].name)) for v in fv)
        r2, m2 = solve(base + "\n" + box + "\n(assert (or %s))" % " ".join(sep), 5000, True)
        return ("sat", m2) if r2 == "sat" else ("sat", m)
    # unknown: strengthen by fixing variables (a sat answer is still a genuine counterexample)
    for keep in (0, 1, 2, 0, 3):
        fix = list(fv)
        rng.shuffle(fix)
        fix = fix[keep:]
        t = "\n".join("(assert (= %s %s))" % (q(sp.vars[v].name), num(Fraction(rng.choice([-7, -5, -3, -2, -1, 1, 2, 3, 4, 6]), rng.choice([2, 3, 4, 5])))) for v in fix)
        r, m = solve(base + "\n" + t + "\n" + goal, 4000, True)
        if r == "sat":
            return r, m
    r, m = solve(base + "\n" + goal, timeout_ms, True)
    if r == "unknown":
        r, m = solve(base + "\n" + goal, timeout_ms, True, tactic=("simplify", "solve-eqs", "qfnra-nlsat"))
    return r, m


def general_model(text, pcs, rng):
    """a model of the path condition away from special values: variables are pinned to random rationals as long as it stays satisfiable"""
    sp = S.SP
    vs = set()
    for c in pcs:
        vs |= c.varids()
    fv = [v for v in free_vars(vs) if sp.vars[v].kind == "real"]
    r, m = solve(text, 5000, True)
    if r != "sat":
        return r, m
    todo = list(fv)
    rng.shuffle(todo)
    for chunk in (1, 2, 4):
        pins = []
        for v in todo[:len(todo) // chunk]:
            x = sp.vars[v]
            lo, hi = (-1 if x.lo is None else x.lo), (1 if x.hi is None else x.hi)
            pins.append("(assert (= %s %s))" % (q(x.name), num(Fraction(lo) + (Fraction(hi) - Fraction(lo)) * Fraction(rng.randint(1, 16), 17))))
        r, m2 = solve(text + "\n" + "\n".join(pins), 3000, True)
        if r == "sat":
            return r, m2
    return "sat", m


def check_loose(loose, pcs, tol, timeout_ms, rng):
    """|residual| <= tol for every assignment in the declared boxes.  First query: linear
    abstraction, every monomial replaced by a fresh real within its interval."""
    sp = S.SP
    monos = set()
    disj = []
    for o, d in loose:
        t = o.tol if o.tol is not None else tol
        if not d.d:
            continue
        monos |= set(d.d)
        disj.append((o, d, t))
    if not disj:
        r, _ = solve("(assert false)", 1000)
        return r, None, None
    txt, bounded = [], True
    for m in monos:
        if m == 0:
            continue
        lo, hi = mono_interval(m)
        txt.append("(declare-const m%d Real)" % m)
        if lo is None:
            bounded = False
            continue
        txt.append("(assert (and (>= m%d %s) (<= m%d %s)))" % (m, num(lo), m, num(hi)))
    ors = []
    for o, d, t in disj:
        e = "(+ 0 %s)" % " ".join(num(c) if m == 0 else "(* %s m%d)" % (num(c), m) for m, c in d.d.items())
        ors.append("(> %s %s) (< %s (- %s))" % (e, num(t), e, num(t)))
    r, _ = solve("\n".join(txt) + "\n(assert (or %s))" % " ".join(ors), timeout_ms)
    if r == "unsat":
        return "unsat", None, None
    # candidate violation: nonlinear query, strengthened first by fixing variables
    vs = set()
    for o, d, t in disj:
        vs |= d.varids()
    for c in pcs:
        vs |= c.varids()
    dc, df = decls(vs)
    base = "\n".join(dc + df + ["(assert %s)" % bool_text(c) for c in pcs])
    disj.sort(key=lambda x: -max(abs(float(c)) for c in x[1].d.values()))
    fv = [v for v in free_vars(vs) if sp.vars[v].kind == "real"]
    for o, d, t in disj[:4]:
        p = poly_text(d)
        goal = "(assert (or (> %s %s) (< %s (- %s))))" % (p, num(max(t, 1e-4)), p, num(max(t, 1e-4)))
        goal0 = "(assert (or (> %s %s) (< %s (- %s))))" % (p, num(t), p, num(t))
        for keep, g in ((0, goal), (0, goal), (2, goal), (0, goal0), (2, goal0)):
            fix = list(fv)
            rng.shuffle(fix)
            fix = fix[keep:]
            f = []
            for v in fix:
                lo = sp.vars[v].lo if sp.vars[v].lo is not None else -1
                hi = sp.vars[v].hi if sp.vars[v].hi is not None else 1
                f.append("(assert (= %s %s))" % (q(sp.vars[v].name), num(lo + (hi - lo) * Fraction(rng.randint(0, 12), 12))))
            r, m = solve(base + "\n" + "\n".join(f) + "\n" + g, 4000, True)
            if r == "sat":
                return "sat", m, label_of(o)
    for o, d, t in disj[:2]:
        p = poly_text(d)
        r, m = solve(base + "\n(assert (or (> %s %s) (< %s (- %s))))" % (p, num(t), p, num(t)), timeout_ms, True)
        if r == "sat":
            return "sat", m, label_of(o)
    return "unknown", None, label_of(disj[0][0])


def mono_interval(m):
    sp = S.SP
    a, b = Fraction(1), Fraction(1)
    for v, e in sp.monos[m]:
        x = sp.vars[v]
        if x.name.startswith("sqrt!") and not x.deps:
            k = sp.reduce[v][0]
            l, h = Fraction(0), Fraction(k)
        else:
            l, h = x.lo, x.hi
        if l is None or h is None or e < 0:
            return None, None
        for _ in range(e):
            c = [a * l, a * h, b * l, b * h]
            a, b = min(c), max(c)
    return a, b
