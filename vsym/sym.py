"""Symbolic scalars: canonical sparse (Laurent) polynomials over solver variables.

A value computed by the real code is kept as  sum_k c_k * m_k  with m_k an interned
monomial over solver variables and c_k an int, a Fraction, or (when the concrete data
entering the computation is not a small rational) a float.

Non-polynomial operations introduce *atoms*: fresh variables together with the defining
constraint (inv(p)*p = 1, s*s = p & s >= 0, ...), which is part of every solver query in
which the atom occurs.  Comparisons build SymBool; `bool(SymBool)` is a fork point.
"""
import dis
import sys
import math
from fractions import Fraction
import numbers
import numpy as _np

SNAP_DEN = 5040
_FLOATS = (float, _np.floating)
_INTS = (int, _np.integer)


class SymError(Exception):
    """The engine cannot represent the operation (not a statement about the code)."""


class Var:
    __slots__ = ("id", "name", "kind", "lo", "hi", "defs", "deps", "smt", "nz", "evalf")

    def __init__(self, vid, name, kind="real", lo=None, hi=None):
        self.id, self.name, self.kind, self.lo, self.hi = vid, name, kind, lo, hi
        self.defs = []      # list of callables -> smt assertion strings
        self.deps = ()      # variable ids occurring in defs
        self.nz = False     # assumed nonzero (it is divided by)
        self.evalf = None   # function(env)->float for atoms


class Space:
    """Per-run table of variables, monomials and atoms."""

    def __init__(self):
        self.vars = []
        self.byname = {}
        self.monos = [()]            # id -> tuple((var,exp),...)
        self.mono_ids = {(): 0}
        self.mul = {}                # (m1,m2) -> id or dict (reduced polynomial)
        self.reduce = {}             # var id -> polynomial dict equal to var**2
        self.atoms = {}              # key -> Sym
        self.explorer = None
        self.i_var = None
        self.side = []               # smt assertion strings about plain variables

    def new_var(self, name, kind="real", lo=None, hi=None):
        if name in self.byname:
            raise SymError("variable %s redefined" % name)
        v = Var(len(self.vars), name, kind, lo, hi)
        self.vars.append(v)
        self.byname[name] = v
        return v

    def mono(self, tup):
        i = self.mono_ids.get(tup)
        if i is None:
            i = len(self.monos)
            self.mono_ids[tup] = i
            self.monos.append(tup)
        return i

    def mulmono(self, a, b):
        """Product of two monomials: an id, or a dict when a reduction rule applies."""
        if a > b:
            a, b = b, a
        key = (a, b)
        r = self.mul.get(key)
        if r is not None:
            return r
        e = dict(self.monos[a])
        for v, x in self.monos[b]:
            n = e.get(v, 0) + x
            if n == 0:
                e.pop(v, None)
            else:
                e[v] = n
        red = [v for v in e if v in self.reduce and e[v] >= 2]
        if not red:
            r = self.mono(tuple(sorted(e.items())))
        else:
            pw = []
            for v in red:
                n = e.pop(v)
                if n % 2:
                    e[v] = 1
                pw.append((v, n // 2))
            base = {self.mono(tuple(sorted(e.items()))): 1}
            for v, n in pw:
                for _ in range(n):
                    base = polymul(base, self.reduce[v])
            r = base
        self.mul[key] = r
        return r


SP = Space()


def reset():
    global SP
    SP = Space()
    return SP


def space():
    return SP


_snap_cache = {}


def coef(x):
    """Convert a Python/numpy number to a coefficient."""
    t = type(x)
    if t is int or t is Fraction:
        return x
    if t is bool or t is _np.bool_:
        return int(x)
    if isinstance(x, _INTS):
        return int(x)
    if isinstance(x, _FLOATS):
        x = float(x)
        r = _snap_cache.get(x)
        if r is None:
            if x != x or x in (math.inf, -math.inf):
                raise SymError("non-finite constant %r" % x)
            r = x
            n = round(x)
            if abs(x - n) <= 4e-16 * max(1.0, abs(x)):
                r = int(n)
            else:
                f = Fraction(x).limit_denominator(SNAP_DEN)
                if f != 0 and abs(float(f) - x) <= 4e-16 * abs(x):
                    r = f
            _snap_cache[x] = r
        return r
    raise SymError("not a coefficient: %r" % (t,))


def polymul(p, q):
    out = {}
    mul = SP.mul
    mulmono = SP.mulmono
    get = out.get
    if len(p) > len(q):
        p, q = q, p
    for a, ca in p.items():
        for b, cb in q.items():
            c = ca * cb
            if a == 0:
                m = b
            elif b == 0:
                m = a
            else:
                m = mul.get((a, b) if a <= b else (b, a))
                if m is None:
                    m = mulmono(a, b)
            if type(m) is int:
                out[m] = get(m, 0) + c
            else:
                for k, ck in m.items():
                    out[k] = get(k, 0) + c * ck
    return clean(out)


def clean(out):
    dead = [k for k, v in out.items() if v == 0 or (type(v) is float and abs(v) < 1e-15)]
    for k in dead:
        del out[k]
    return out


def _norm(c):
    if type(c) is Fraction and c.denominator == 1:
        return int(c)
    return c


class Sym:
    __slots__ = ("d",)

    def __init__(self, d):
        self.d = d

    # ---- constructors
    @staticmethod
    def const(x):
        if isinstance(x, Sym):
            return x
        if isinstance(x, (complex, _np.complexfloating)):
            re, im = coef(x.real), coef(x.imag)
            d = {}
            if re != 0:
                d[0] = re
            if im != 0:
                d[next(iter(imag_unit().d))] = im
            return Sym(d)
        c = coef(x)
        return Sym({0: c} if c != 0 else {})

    @staticmethod
    def var(name, kind="real", lo=None, hi=None):
        v = SP.new_var(name, kind, lo, hi)
        return Sym({SP.mono(((v.id, 1),)): 1})

    def is_const(self):
        return not self.d or (len(self.d) == 1 and 0 in self.d)

    def constval(self):
        return self.d.get(0, 0)

    def _lift(self, o):
        if type(o) is Sym:
            return o.d
        if isinstance(o, _np.ndarray):
            if o.ndim == 0:
                return self._lift(o.item())
            return None
        if isinstance(o, SymBool):
            o = int(bool(o))
        if isinstance(o, (complex, _np.complexfloating)):
            return Sym.const(o).d
        if isinstance(o, numbers.Number) or isinstance(o, _np.generic):
            c = coef(o)
            return {0: c} if c != 0 else {}
        return None

    # ---- ring operations
    def __add__(self, o):
        q = self._lift(o)
        if q is None:
            return NotImplemented
        p = self.d
        if len(p) < len(q):
            p, q = q, p
        out = dict(p)
        for k, v in q.items():
            s = out.get(k, 0) + v
            if s == 0 or (type(s) is float and abs(s) < 1e-15):
                out.pop(k, None)
            else:
                out[k] = s
        return Sym(out)

    __radd__ = __add__

    def __neg__(self):
        return Sym({k: -v for k, v in self.d.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        q = self._lift(o)
        if q is None:
            return NotImplemented
        out = dict(self.d)
        for k, v in q.items():
            s = out.get(k, 0) - v
            if s == 0 or (type(s) is float and abs(s) < 1e-15):
                out.pop(k, None)
            else:
                out[k] = s
        return Sym(out)

    def __rsub__(self, o):
        q = self._lift(o)
        if q is None:
            return NotImplemented
        return Sym(q) - self

    def __mul__(self, o):
        q = self._lift(o)
        if q is None:
            return NotImplemented
        p = self.d
        if not p or not q:
            return Sym({})
        if len(q) == 1 and 0 in q:
            c = q[0]
            if c == 1:
                return self
            return Sym(clean({k: _norm(v * c) for k, v in p.items()}))
        return Sym(polymul(p, q))

    __rmul__ = __mul__

    def inverse(self):
        d = self.d
        if not d:
            raise ZeroDivisionError("division by an identically zero symbolic value")
        if len(d) == 1:
            (m, c), = d.items()
            if type(c) is not float:
                c = _norm(Fraction(1) / c)
            else:
                c = coef(1.0 / c)
            if m == 0:
                return Sym({0: c})
            mon = SP.monos[m]
            # reduced variables (v*v = poly) : 1/v = v/poly
            if all(v not in SP.reduce for v, _ in mon):
                for v, _ in mon:
                    SP.vars[v].nz = True
                return Sym({SP.mono(tuple((v, -e) for v, e in mon)): c})
            out = Sym({0: c})
            for v, e in mon:
                if v in SP.reduce:
                    r = Sym(SP.reduce[v])
                    one = Sym({SP.mono(((v, 1),)): 1}) * r.inverse()
                    out = out * one ** e
                else:
                    SP.vars[v].nz = True
                    out = out * Sym({SP.mono(((v, -e),)): 1})
            return out
        if SP.i_var is not None and any(v == SP.i_var for m in d for v, _ in SP.monos[m]):
            re, im = self.split()
            den = (re * re + im * im).inverse()
            return self.conjugate() * den
        # normalise so that p and c*p share an atom
        lead = min(d)
        lc = d[lead]
        ic = Fraction(1) / lc if type(lc) is not float else 1.0 / lc
        n = self * ic
        key = ("inv", frozenset(n.d.items()))
        a = SP.atoms.get(key)
        if a is None:
            a = Sym.var("inv!%d" % len(SP.vars))
            v = SP.vars[-1]
            v.defs.append(lambda a=a, n=n: ("poly_eq", (a * n) - 1))
            v.deps = tuple(n.varids())
            v.evalf = lambda env, n=n: 1.0 / n.evalf(env)
            v.nz = True
            SP.atoms[key] = a
        return a * ic

    def __truediv__(self, o):
        if type(o) is not Sym:
            q = self._lift(o)
            if q is None:
                return NotImplemented
            o = Sym(q)
        if not o.d:
            raise ZeroDivisionError("division by zero")
        return self * o.inverse()

    def __rtruediv__(self, o):
        q = self._lift(o)
        if q is None:
            return NotImplemented
        return Sym(q) * self.inverse()

    def __floordiv__(self, o):
        o = Sym.const(o)
        if self.is_const() and o.is_const():
            return Sym.const(self.constval() // o.constval())
        return intdiv(self, o)[0]

    def __rfloordiv__(self, o):
        return Sym.const(o).__floordiv__(self)

    def __mod__(self, o):
        o = Sym.const(o)
        if self.is_const() and o.is_const():
            return Sym.const(self.constval() % o.constval())
        return intdiv(self, o)[1]

    def __rmod__(self, o):
        return Sym.const(o).__mod__(self)

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, n):
        if isinstance(n, Sym):
            if not n.is_const():
                raise SymError("symbolic exponent")
            n = n.constval()
        if isinstance(n, _FLOATS) and float(n).is_integer():
            n = int(n)
        if n == 0.5:
            return self.sqrt()
        if n == -0.5:
            return self.sqrt().inverse()
        if not isinstance(n, _INTS):
            raise SymError("exponent %r" % (n,))
        n = int(n)
        if n < 0:
            return self.inverse() ** (-n)
        out = Sym({0: 1})
        b = self
        while n:
            if n & 1:
                out = out * b
            n >>= 1
            if n:
                b = b * b
        return out

    def __rpow__(self, o):
        if self.is_const():
            return Sym.const(o) ** self.constval()
        if o == -1 and SP.explorer is not None:
            return Sym.const((-1) ** int(self))
        raise SymError("symbolic exponent")

    # ---- numpy object-array protocol
    def conjugate(self):
        if SP.i_var is None:
            return self
        out = {}
        iv = SP.i_var
        for m, c in self.d.items():
            if any(v == iv and e % 2 for v, e in SP.monos[m]):
                c = -c
            out[m] = c
        return Sym(out)

    conj = conjugate

    def split(self):
        """(real part, imaginary part)"""
        if SP.i_var is None:
            return self, Sym({})
        re, im = {}, {}
        iv = SP.i_var
        for m, c in self.d.items():
            t = SP.monos[m]
            if any(v == iv for v, e in t):
                im[SP.mono(tuple(x for x in t if x[0] != iv))] = c
            else:
                re[m] = c
        return Sym(re), Sym(im)

    @property
    def real(self):
        return self.split()[0]

    @property
    def imag(self):
        return self.split()[1]

    def sqrt(self):
        d = self.d
        if not d:
            return Sym({})
        if self.is_const():
            c = d[0]
            if type(c) is float:
                return Sym.const(math.sqrt(c))
            c = Fraction(c)
            if c < 0:
                raise ValueError("sqrt of negative constant")
            n, m = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n == c.numerator and m * m == c.denominator:
                return Sym.const(Fraction(n, m))
            # sqrt(n/m) = sqrt(n*m)/m ; extract square factors
            k = c.numerator * c.denominator
            out = 1
            f = 2
            while f * f <= k:
                while k % (f * f) == 0:
                    k //= f * f
                    out *= f
                f += 1
            key = ("sqrtc", k)
            a = SP.atoms.get(key)
            if a is None:
                a = Sym.var("sqrt!%d" % k)
                v = SP.vars[-1]
                SP.reduce[v.id] = {0: k}
                v.defs.append(lambda a=a: ("poly_ge", a))
                v.defs.append(lambda v=v, k=k: ("raw", "(= (* %s %s) %d)" % (q(v.name), q(v.name), k)))
                v.evalf = lambda env, k=k: math.sqrt(k)
                v.nz = True
                SP.atoms[key] = a
            return a * Fraction(out, c.denominator)
        if len(d) == 1:
            (m, c), = d.items()
            if all(e % 2 == 0 for _, e in SP.monos[m]) and (type(c) is float or c > 0):
                r = Sym({SP.mono(tuple((v, e // 2) for v, e in SP.monos[m])): 1})
                return abs(r) * Sym.const(c).sqrt()
        key = ("sqrt", frozenset(d.items()))
        a = SP.atoms.get(key)
        if a is None:
            a = Sym.var("sqrt!%d" % len(SP.vars))
            v = SP.vars[-1]
            SP.reduce[v.id] = dict(d)
            v.defs.append(lambda a=a: ("poly_ge", a))
            v.defs.append(lambda v=v, p=self: ("sq_eq", v, p))
            v.deps = tuple(self.varids())
            v.evalf = lambda env, p=self: math.sqrt(max(p.evalf(env), 0.0))
            SP.atoms[key] = a
        return a

    def __abs__(self):
        if self.is_const():
            return Sym.const(abs(self.constval()))
        if SP.i_var is not None:
            re, im = self.split()
            if im.d:
                return (re * re + im * im).sqrt()
        if len(self.d) == 1:
            (m, c), = self.d.items()
            if all(e % 2 == 0 for _, e in SP.monos[m]):
                return self if c > 0 else -self
        key = ("abs", frozenset(self.d.items()))
        nkey = ("abs", frozenset((-self).d.items()))
        a = SP.atoms.get(key)
        if a is None:
            a = SP.atoms.get(nkey)
        if a is None:
            a = Sym.var("abs!%d" % len(SP.vars))
            v = SP.vars[-1]
            SP.reduce[v.id] = (self * self).d
            v.defs.append(lambda v=v, p=self: ("abs_eq", v, p))
            v.deps = tuple(self.varids())
            v.evalf = lambda env, p=self: abs(p.evalf(env))
            SP.atoms[key] = a
        return a

    def _opaque(self, fn):
        if self.is_const():
            return Sym.const(getattr(math, fn)(float(self.constval())))
        key = (fn, frozenset(self.d.items()))
        a = SP.atoms.get(key)
        if a is None:
            a = Sym.var("%s!%d" % (fn, len(SP.vars)))
            v = SP.vars[-1]
            v.deps = tuple(self.varids())
            v.evalf = lambda env, p=self, fn=fn: getattr(math, fn)(p.evalf(env))
            SP.atoms[key] = a
        return a

    def exp(self):
        return self._opaque("exp")

    def log(self):
        return self._opaque("log")

    def rint(self):
        if self.is_const():
            return Sym.const(round(float(self.constval())))
        raise SymError("rint of symbolic value")

    def __round__(self, n=0):
        if self.is_const():
            return round(float(self.constval()), n)
        raise SymError("round of symbolic value")

    def floor(self):
        if self.is_const():
            return Sym.const(math.floor(self.constval()))
        raise SymError("floor of symbolic value")

    def is_integer_typed(self):
        for m, c in self.d.items():
            if type(c) is not int:
                return False
            for v, e in SP.monos[m]:
                if SP.vars[v].kind != "int" or e < 0:
                    return False
        return True

    # ---- conversions to concrete Python values: only by forking
    def __float__(self):
        if self.is_const():
            return float(self.constval())
        f = sys._getframe(1)
        op = f.f_code.co_code[f.f_lasti]
        if dis.opname[op].startswith("BINARY_OP") and f.f_code.co_code[f.f_lasti + 1] in (6, 19):
            return float("nan")      # only printed: "%f" % value
        raise SymError("float() of a symbolic value: %s" % self.show())

    def __complex__(self):
        re, im = self.split()
        return complex(float(re), float(im))

    def __int__(self):
        if self.is_const():
            return int(self.constval())
        if SP.explorer is None:
            raise SymError("int() of a symbolic value")
        return SP.explorer.concretise(self)

    def __index__(self):
        if self.is_const():
            c = self.constval()
            if type(c) is int:
                return c
            raise TypeError("non-integer index")
        if not self.is_integer_typed():
            raise TypeError("non-integer symbolic index")
        return SP.explorer.concretise(self)

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        if self.is_const():
            return hash(self.constval())
        if self.is_integer_typed() and SP.explorer is not None:
            return hash(SP.explorer.concretise(self))
        return id(self)

    # ---- comparisons
    def _cmp(self, o, op):
        qd = self._lift(o)
        if qd is None:
            if isinstance(o, _np.ndarray):
                return NotImplemented
            if isinstance(o, (float, _np.floating)):
                pass
            return NotImplemented if op not in ("eq", "ne") else (op == "ne")
        diff = self - Sym(qd)
        return SymBool.make(diff, op)

    def _inf(self, o):
        return isinstance(o, (float, _np.floating)) and math.isinf(o)

    def __lt__(self, o):
        if self._inf(o):
            return o > 0
        return self._cmp(o, "lt")

    def __le__(self, o):
        if self._inf(o):
            return o > 0
        return self._cmp(o, "le")

    def __gt__(self, o):
        if self._inf(o):
            return o < 0
        return self._cmp(o, "gt")

    def __ge__(self, o):
        if self._inf(o):
            return o < 0
        return self._cmp(o, "ge")

    def __eq__(self, o):
        if self._inf(o):
            return False
        return self._cmp(o, "eq")

    def __ne__(self, o):
        if self._inf(o):
            return True
        return self._cmp(o, "ne")

    # ---- misc
    def varids(self):
        s = set()
        for m in self.d:
            for v, _ in SP.monos[m]:
                s.add(v)
        return s

    def evalf(self, env):
        tot = 0.0
        for m, c in self.d.items():
            t = float(c)
            for v, e in SP.monos[m]:
                t *= evalvar(v, env) ** e
            tot += t
        return tot

    def show(self, n=6):
        out = []
        for m, c in list(self.d.items())[:n]:
            out.append("%s*%s" % (c, "*".join("%s^%d" % (SP.vars[v].name, e) for v, e in SP.monos[m]) or "1"))
        if len(self.d) > n:
            out.append("...(%d terms)" % len(self.d))
        return " + ".join(out) or "0"

    def __repr__(self):
        return "Sym(%s)" % self.show()

    def __format__(self, spec):
        if self.is_const():
            try:
                return format(float(self.constval()), spec)
            except ValueError:
                return format(int(self.constval()), spec)
        return "<sym>"

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def item(self):
        return self

    def copy(self):
        return self

    @property
    def T(self):
        return self

    @property
    def dtype(self):
        return _np.dtype(object)

    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()


def evalvar(v, env):
    r = env.get(v)
    if r is None:
        var = SP.vars[v]
        if var.evalf is not None:
            r = var.evalf(env)
        else:
            r = 0.0
        env[v] = r
    return r


def q(name):
    return "|%s|" % name


def imag_unit():
    if SP.i_var is None:
        s = Sym.var("I!")
        SP.i_var = SP.vars[-1].id
        SP.reduce[SP.i_var] = {0: -1}
        return s
    return Sym({SP.mono(((SP.i_var, 1),)): 1})


def intdiv(a, b):
    """Floor division for integer-typed symbolic values (Python semantics), constant divisor."""
    if not b.is_const():
        b = Sym.const(int(b))
    n = b.constval()
    if n == 0:
        raise ZeroDivisionError("integer division or modulo by zero")
    if type(n) is not int or not a.is_integer_typed():
        raise SymError("symbolic // on non-integers")
    key = ("idiv", frozenset(a.d.items()), n)
    r = SP.atoms.get(key)
    if r is None:
        s = Sym.var("idiv!%d" % len(SP.vars), "int")
        v = SP.vars[-1]
        rem = a - s * n
        if n > 0:
            v.defs.append(lambda: ("poly_ge", rem))
            v.defs.append(lambda: ("poly_ge", (n - 1) - rem))
        else:
            v.defs.append(lambda: ("poly_ge", -rem))
            v.defs.append(lambda: ("poly_ge", rem - (n + 1)))
        v.deps = tuple(a.varids())
        v.evalf = lambda env: a.evalf(env) // n
        r = (s, rem)
        SP.atoms[key] = r
    return r


class SymBool:
    """A comparison `diff op 0`, or a Boolean combination, of symbolic values."""
    __slots__ = ("op", "args")

    def __init__(self, op, *args):
        self.op, self.args = op, args

    @staticmethod
    def make(diff, op):
        if SP.i_var is not None:
            re, im = diff.split()
            if im.d:
                if op == "eq":
                    return SymBool("and", SymBool.make(re, "eq"), SymBool.make(im, "eq"))
                if op == "ne":
                    return SymBool("or", SymBool.make(re, "ne"), SymBool.make(im, "ne"))
                raise SymError("order comparison of complex values")
        if diff.is_const():
            c = diff.constval()
            return {"lt": c < 0, "le": c <= 0, "gt": c > 0, "ge": c >= 0, "eq": c == 0, "ne": c != 0}[op]
        return SymBool(op, diff)

    def __bool__(self):
        if SP.explorer is None:
            raise SymError("branch on a symbolic condition outside exploration")
        return SP.explorer.decide(self)

    def __and__(self, o):
        if isinstance(o, (bool, _np.bool_)):
            return self if o else False
        return SymBool("and", self, o)

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, _np.bool_)):
            return True if o else self
        return SymBool("or", self, o)

    __ror__ = __or__

    def __invert__(self):
        return self.negate()

    def negate(self):
        neg = {"lt": "ge", "le": "gt", "gt": "le", "ge": "lt", "eq": "ne", "ne": "eq"}
        if self.op in neg:
            return SymBool(neg[self.op], *self.args)
        if self.op == "not":
            return self.args[0]
        return SymBool("not", self)

    def logical_not(self):
        return self.negate()

    def __repr__(self):
        return "SymBool(%s %s)" % (self.op, ",".join(map(repr, self.args)))

    def varids(self):
        s = set()
        for a in self.args:
            if isinstance(a, (Sym, SymBool)):
                s |= a.varids()
        return s

    def evalb(self, env, tol=0.0):
        if self.op == "and":
            return all(a.evalb(env) if isinstance(a, SymBool) else bool(a) for a in self.args)
        if self.op == "or":
            return any(a.evalb(env) if isinstance(a, SymBool) else bool(a) for a in self.args)
        if self.op == "not":
            return not self.args[0].evalb(env)
        x = self.args[0].evalf(env)
        return {"lt": x < 0, "le": x <= 0, "gt": x > 0, "ge": x >= 0, "eq": x == 0, "ne": x != 0}[self.op]


def issym(x):
    return isinstance(x, (Sym, SymBool))


def has_sym(a):
    if isinstance(a, (Sym, SymBool)):
        return not (isinstance(a, Sym) and a.is_const())
    if isinstance(a, _np.ndarray):
        if a.dtype != object:
            return False
        return any(has_sym(x) for x in a.flat)
    if isinstance(a, (list, tuple)):
        return any(has_sym(x) for x in a)
    return False


def is_obj(a):
    return isinstance(a, Sym) or (isinstance(a, _np.ndarray) and a.dtype == object) or (
        isinstance(a, (list, tuple)) and any(is_obj(x) for x in a))


def to_float(a):
    """Object array without symbolic content -> float/complex array."""
    a = _np.asarray(a)
    if a.dtype != object:
        return a
    cplx = False
    if SP.i_var is not None:
        cplx = any(isinstance(x, Sym) and x.split()[1].d for x in a.flat)
    cplx = cplx or any(isinstance(x, (complex, _np.complexfloating)) for x in a.flat)
    out = _np.empty(a.shape, dtype=complex if cplx else float)
    for i, x in _np.ndenumerate(a):
        out[i] = complex(x) if cplx else float(x)
    return out


def to_obj(a):
    a = _np.asarray(a)
    if a.dtype == object:
        return a
    out = _np.empty(a.shape, dtype=object)
    for i, x in _np.ndenumerate(a):
        out[i] = Sym.const(x)
    return out
