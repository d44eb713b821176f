"""Symbolic execution of C code through the LLVM IR clang produces for it (textual IR, -O1, opaque pointers).

Doubles are arbitrary Python/Sym values (reals), integers are concrete machine integers, pointers are (allocation,
byte offset) pairs.  Every memory access is checked against the bounds of its allocation.  OpenMP regions are executed
by a team of T simulated threads (coroutines switching at synchronisation points); all accesses are recorded per
barrier epoch with the locks held, so that two conflicting unordered accesses (a data race) are reported whatever the
schedule.  cblas_zgemm and dgemm are replaced by their mathematical definition."""
import os
import re
import shutil
import struct
import subprocess
import tempfile

import numpy as np

from . import sym as S
from .sym import Sym, SymBool, SymError

HERE = os.path.dirname(os.path.abspath(__file__))
CLANG = shutil.which("clang") or shutil.which("clang-18") or "/usr/bin/clang"


class MemFault(Exception):
    pass


def compile_ir(path, defines=(), include=()):
    with tempfile.TemporaryDirectory(prefix="vsymll") as d:
        out = os.path.join(d, "o.ll")
        cmd = [CLANG, "-S", "-emit-llvm", "-O1", "-fopenmp", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops",
               "-w", "-I" + os.path.join(HERE, "cstubs")] + ["-I" + i for i in include] + ["-D" + x for x in defines]
        subprocess.run(cmd + ["-o", out, path], check=True, capture_output=True, text=True)
        return open(out).read()


# ------------------------------------------------------------------ types
def split_top(s, sep=","):
    out, depth, cur, q = [], 0, "", False
    for ch in s:
        if ch == '"':
            q = not q
        if not q:
            if ch in "([{<":
                depth += 1
            elif ch in ")]}>":
                depth -= 1
            elif ch == sep and depth == 0:
                out.append(cur.strip())
                cur = ""
                continue
        cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


class Types:
    def __init__(self, named):
        self.named = named

    def fields(self, t):
        t = t.strip()
        if t.startswith("%"):
            t = self.named[t]
        if t.startswith("{"):
            return split_top(t[1:-1])
        if t.startswith("<{"):
            raise SymError("packed struct")
        m = re.match(r"[\[<](\d+) x (.*)[\]>]$", t)
        if m:
            return [m.group(2)] * int(m.group(1))
        return None

    def align(self, t):
        f = self.fields(t)
        if f is not None:
            return max([self.align(x) for x in f] or [1])
        return min(self.size(t), 8)

    def size(self, t):
        t = t.strip()
        f = self.fields(t)
        if f is not None:
            if t[0] in "[<":
                return sum(self.size(x) for x in f)
            off = 0
            for x in f:
                a = self.align(x)
                off = (off + a - 1) // a * a + self.size(x)
            a = self.align(t)
            return (off + a - 1) // a * a
        if t == "ptr" or t == "double":
            return 8
        if t == "float":
            return 4
        m = re.match(r"i(\d+)$", t)
        if m:
            return (int(m.group(1)) + 7) // 8
        raise SymError("size of LLVM type %r" % t)

    def offset(self, t, i):
        t = t.strip()
        f = self.fields(t)
        if t[0] in "[<" and not t.startswith("<{"):
            return self.size(f[0]) * i
        off = 0
        for k, x in enumerate(f):
            a = self.align(x)
            off = (off + a - 1) // a * a
            if k == i:
                return off
            off += self.size(x)


TYPE = r"(?:void|ptr|double|float|i\d+|%[-\w.]+|\{[^}]*\}|\[[^\]]*(?:\[[^\]]*\])*\]|<[^>]*>)"


def take_type(s):
    """-> (type, rest)"""
    s = s.strip()
    if s[0] in "[{<":
        depth = 0
        for i, ch in enumerate(s):
            if ch in "[{<":
                depth += 1
            elif ch in "]}>":
                depth -= 1
                if depth == 0:
                    return s[:i + 1], s[i + 1:].strip()
    m = re.match(r"[%\w.\-]+", s)
    return m.group(0), s[m.end():].strip()


ATTRS = re.compile(r"\b(?:noundef|nonnull|nocapture|readonly|readnone|writeonly|noalias|signext|zeroext|returned|immarg|inreg|nofree"
                   r"|align \d+|dereferenceable\(\d+\)|dereferenceable_or_null\(\d+\)|captures\([^)]*\)|range\([^)]*\)|sret\([^)]*\)|byval\([^)]*\))\s*")
FLAGS = re.compile(r"^(?:(?:nuw|nsw|exact|inbounds|fast|nnan|ninf|nsz|arcp|contract|afn|reassoc|disjoint|nneg|samesign|nusw)\s+)*")


class Func:
    def __init__(self, name, params, rettype):
        self.name, self.params, self.rettype, self.blocks, self.order = name, params, rettype, {}, []


class Module:
    def __init__(self, texts):
        self.funcs, self.globals, named = {}, {}, {}
        for text in texts:
            self.parse(text, named)
        self.types = Types(named)

    def parse(self, text, named):
        fn = None
        lines = text.split("\n")
        i = 0
        while i < len(lines):
            ln = lines[i]
            i += 1
            s = ln.strip()
            if not s or s[0] in ";!":
                continue
            m = re.match(r"(%[-\w.]+) = type (.*)$", s)
            if m:
                named[m.group(1)] = m.group(2)
                continue
            m = re.match(r"@([-\w.$]+|\"[^\"]*\") = (.*)$", s)
            if m and fn is None:
                self.globals[m.group(1)] = m.group(2)
                continue
            if s.startswith("define"):
                m = re.match(r"define (.*?)@([-\w.$]+)\((.*)\)[^()]*\{$", s)
                head, name, par = m.group(1), m.group(2), m.group(3)
                params = []
                for k, p in enumerate(split_top(par)):
                    p = ATTRS.sub("", p + " ").strip()
                    t, rest = take_type(p)
                    params.append((t, rest or "%%%d" % k))
                ret = re.findall(TYPE, ATTRS.sub("", head))[-1]
                fn = Func(name, params, ret)
                cur = "%" + str(len(params))
                fn.blocks[cur] = []
                fn.order.append(cur)
                first = True
                continue
            if fn is not None:
                if s == "}":
                    self.funcs[fn.name] = fn
                    fn = None
                    continue
                m = re.match(r"([-\w.$]+|\"[^\"]*\"):", s)
                if m and not s.startswith("%"):
                    lab = "%" + m.group(1)
                    if first and not fn.blocks[cur]:
                        del fn.blocks[cur]
                        fn.order.remove(cur)
                    cur = lab
                    fn.blocks[cur] = []
                    fn.order.append(cur)
                    first = False
                    continue
                first = False
                if s.startswith("switch"):
                    while "]" not in s:
                        s += " " + lines[i].strip()
                        i += 1
                s = re.sub(r",? ![\w.]+ !\d+", "", s)
                s = re.sub(r",? !srcloc.*$", "", s)
                s = re.sub(r" #\d+(?=$|,| )", "", s)
                fn.blocks[cur].append(self.decode(s))
        return self

    # ---- one instruction -> tuple
    def decode(self, s):
        dst = None
        m = re.match(r"(%[-\w.]+) = (.*)$", s)
        if m:
            dst, s = m.group(1), m.group(2)
        op, _, rest = s.partition(" ")
        rest = rest.strip()
        if op in ("tail", "musttail", "notail"):
            op, _, rest = rest.partition(" ")
        if op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor",
                  "fadd", "fsub", "fmul", "fdiv", "frem"):
            rest = FLAGS.sub("", rest)
            t, r = take_type(rest)
            a, b = split_top(r)
            return (op, dst, t, a, b)
        if op == "fneg":
            t, r = take_type(FLAGS.sub("", rest))
            return (op, dst, t, r)
        if op in ("icmp", "fcmp"):
            rest = FLAGS.sub("", rest)
            pred, _, r = rest.partition(" ")
            if pred == "samesign":
                pred, _, r = r.partition(" ")
            t, r = take_type(r)
            a, b = split_top(r)
            return (op, dst, pred, t, a, b)
        if op == "alloca":
            p = split_top(rest)
            n = 1
            for q_ in p[1:]:
                if not q_.startswith("align"):
                    n = self_operand(q_)
            return (op, dst, p[0], n)
        if op == "load":
            p = split_top(rest.replace("volatile ", ""))
            p = [x for x in p if not x.startswith("align")]
            atomic = p[0].startswith("atomic")
            t = p[0].replace("atomic ", "")
            a = p[1].split()
            return (op, dst, t, a[1], atomic)
        if op == "store":
            atomic = rest.startswith("atomic")
            rest = rest.replace("atomic ", "").replace("volatile ", "")
            p = [x for x in split_top(rest) if not x.startswith("align")]
            t, v = take_type(p[0])
            return (op, None, t, v, p[1].split()[1], atomic)
        if op == "getelementptr":
            rest = FLAGS.sub("", rest)
            p = split_top(rest)
            return (op, dst, p[0], take_type(p[1])[1], [take_type(x) for x in p[2:]])
        if op == "phi":
            t, r = take_type(FLAGS.sub("", rest))
            inc = {}
            for x in split_top(r):
                v, b = split_top(x[1:-1])
                inc[b] = v
            return (op, dst, t, inc)
        if op == "br":
            if rest.startswith("label"):
                return ("jmp", None, rest.split()[1].rstrip(","))
            p = split_top(rest)
            return ("br", None, take_type(p[0])[1], p[1].split()[1], p[2].split()[1])
        if op == "switch":
            m = re.match(r"(\S+) (\S+), label (\S+) \[(.*)\]", rest)
            cases = re.findall(r"(\S+) (-?\d+), label (%[-\w.]+)", m.group(4))
            return ("switch", None, m.group(1), m.group(2), m.group(3), {int(v): l for _, v, l in cases})
        if op == "ret":
            if rest == "void":
                return ("ret", None, None, None)
            t, v = take_type(rest)
            return ("ret", None, t, v)
        if op == "unreachable":
            return ("unreachable", None)
        if op in ("zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc"):
            rest = FLAGS.sub("", rest)
            t, r = take_type(rest)
            v, _, to = r.partition(" to ")
            return (op, dst, t, v, to.strip())
        if op == "select":
            p = split_top(FLAGS.sub("", rest))
            t, v = take_type(p[1])
            return (op, dst, take_type(p[0])[1], t, v, take_type(p[2])[1])
        if op == "extractvalue":
            p = split_top(rest)
            t, v = take_type(p[0])
            return (op, dst, t, v, [int(x) for x in p[1:]])
        if op == "insertvalue":
            p = split_top(rest)
            t, v = take_type(p[0])
            t2, v2 = take_type(p[1])
            return (op, dst, t, v, t2, v2, [int(x) for x in p[2:]])
        if op == "freeze":
            t, v = take_type(rest)
            return (op, dst, t, v)
        if op == "fence":
            return ("nop", None)
        if op == "atomicrmw":
            rest = rest.replace("volatile ", "")
            k, _, r = rest.partition(" ")
            p = split_top(r)
            t, v = take_type(p[1])
            return (op, dst, k, take_type(p[0])[1], t, v.split()[0])
        if op == "cmpxchg":
            rest = rest.replace("weak ", "").replace("volatile ", "")
            p = split_top(rest)
            t, c = take_type(p[1])
            return (op, dst, take_type(p[0])[1], t, c, take_type(p[2])[1].split()[0])
        if op == "call":
            rest = FLAGS.sub("", rest)
            m = re.match(r"(.*?)(@[-\w.$]+|%[-\w.]+)\((.*)\)[^()]*$", rest)
            if not m:
                m = re.match(r"(.*?)(@[-\w.$]+|%[-\w.]+)\((.*)\)(?: \[.*\])?$", rest)
            args = []
            for a in split_top(m.group(3)):
                if a == "...":
                    continue
                a = ATTRS.sub("", a + " ").strip()
                if a.startswith("metadata"):
                    args.append((None, None))
                    continue
                args.append(take_type(a))
            return ("call", dst, m.group(2), args)
        return ("unknown", None, s)


def self_operand(q_):
    return take_type(q_)


# ------------------------------------------------------------------ memory
class Alloc:
    n = 0

    def __init__(self, size, name, kind):
        Alloc.n += 1
        self.id, self.size, self.name, self.kind = Alloc.n, size, name, kind
        self.cells = {}
        self.freed = False
        self.zero = False

    def __repr__(self):
        return "%s(%d bytes)" % (self.name, self.size)


class Ptr:
    __slots__ = ("a", "o")

    def __init__(self, a, o=0):
        self.a, self.o = a, o

    def __eq__(self, other):
        return isinstance(other, Ptr) and self.a is other.a and self.o == other.o

    def __hash__(self):
        return hash((id(self.a), self.o))

    def __repr__(self):
        return "&%r+%d" % (self.a, self.o)


NULL = Ptr(None, 0)


def width(t):
    return int(t[1:])


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


class Thread:
    def __init__(self, tid, team):
        self.tid, self.team, self.locks, self.state, self.gen = tid, team, set(), "run", None
        self.dispatch = None
        self.singles = 0


class Machine:
    """threads: size of every OpenMP team; order: priority in which runnable threads are scheduled."""
    maxsteps = 3000000

    def __init__(self, mod, threads=1, order=None, fresh=None):
        self.mod, self.T = mod, threads
        self.order = list(order) if order is not None else list(range(threads))
        self.types = mod.types
        self.races, self.leaks = [], []
        self.log = None
        self.steps = 0
        self.nundef = 0
        self.fresh = fresh or (lambda i: float("nan"))
        self.heap = []
        self.galloc = {}
        self.lockowner = {}
        self.called = set()
        self.cur = Thread(0, None)
        self.stub = {}

    # ---- data exchange
    def buf(self, values, name, elsize=8):
        """Array of doubles / 64-bit integers from a flat sequence (complex numbers: see cbuf)."""
        values = list(values)
        a = Alloc(len(values) * elsize, name, "arg")
        for i, v in enumerate(values):
            if isinstance(v, (int, np.integer)) and not isinstance(v, bool):
                v = int(v) & ((1 << (8 * elsize)) - 1) if v < 0 else int(v)
            a.cells[i * elsize] = (elsize, v)
        return Ptr(a)

    def cbuf(self, arr, name):
        flat = []
        for z in np.asarray(arr, dtype=object).ravel():
            if isinstance(z, Sym):
                re_, im = z.split()
            else:
                z = complex(z)
                re_, im = z.real, z.imag
            flat += [re_, im]
        return self.buf(flat, name)

    def read(self, p, shape, name=None):
        out = np.empty(shape, dtype=object)
        for k, i in enumerate(np.ndindex(*shape)):
            out[i] = p.a.cells[p.o + 8 * k][1]
        return out

    def cread(self, p, shape, symbolic):
        out = np.empty(shape, dtype=object)
        I = S.imag_unit() if symbolic else 1j
        for k, i in enumerate(np.ndindex(*shape)):
            out[i] = p.a.cells[p.o + 16 * k][1] + I * p.a.cells[p.o + 16 * k + 8][1]
        return out if symbolic else out.astype(complex)

    # ---- memory
    def check(self, p, n, what):
        if not isinstance(p, Ptr) or p.a is None:
            raise MemFault("%s through an invalid pointer %r" % (what, p))
        if p.a.freed:
            raise MemFault("%s of freed memory %r" % (what, p.a))
        if p.o < 0 or p.o + n > p.a.size:
            raise MemFault("%s of %d bytes at offset %d of %r" % (what, n, p.o, p.a))

    def access(self, p, n, write, atomic=False):
        if self.log is None:
            return
        t = self.cur
        for k in range(p.o // 8, (p.o + n - 1) // 8 + 1):
            self.log.setdefault((p.a, k), set()).add((t.tid, write, atomic, frozenset(t.locks)))

    def epoch(self):
        """end of a barrier epoch: look for conflicting, unordered accesses"""
        if self.log is None:
            return
        for (a, k), s in self.log.items():
            s = list(s)
            for x in range(len(s)):
                for y in range(x + 1, len(s)):
                    p, q_ = s[x], s[y]
                    if p[0] != q_[0] and (p[1] or q_[1]) and not (p[2] and q_[2]) and not (p[3] & q_[3]):
                        self.races.append("threads %d and %d: unordered %s access of element %d of %s"
                                          % (p[0], q_[0], "write" if p[1] and q_[1] else "read/write", k, a.name))
                        break
                else:
                    continue
                break
        self.log = {}

    def load(self, p, t, atomic=False):
        f = self.types.fields(t)
        if f is not None:
            return [self.load(Ptr(p.a, p.o + self.types.offset(t, i)), x, atomic) for i, x in enumerate(f)]
        n = self.types.size(t)
        self.check(p, n, "read")
        self.access(p, n, False, atomic)
        c = p.a.cells.get(p.o)
        if c is not None and c[0] == n:
            return c[1]
        return self.odd(p, n, t, c)

    def odd(self, p, n, t, c):
        cells = p.a.cells
        # part of a wider concrete integer
        for o in range(p.o - 7, p.o + n):
            d = cells.get(o)
            if d is None or o + d[0] <= p.o:
                continue
            if isinstance(d[1], int) and o <= p.o and o + d[0] >= p.o + n:
                return (d[1] >> (8 * (p.o - o))) & ((1 << (8 * n)) - 1)
            if o >= p.o and all(isinstance(cells.get(p.o + k, (1, 0))[1], int) for k in range(n)):
                v, k = 0, 0
                while k < n:
                    e = cells.get(p.o + k)
                    if e is None:
                        break
                    v |= e[1] << (8 * k)
                    k += e[0]
                if k == n:
                    return v
            raise SymError("load of %d bytes overlapping a cell of %d bytes" % (n, d[0]))
        if p.a.zero:
            return NULL if t == "ptr" else 0
        self.nundef += 1
        return self.fresh(self.nundef)

    def store(self, p, t, v, atomic=False):
        f = self.types.fields(t)
        if f is not None:
            for i, x in enumerate(f):
                self.store(Ptr(p.a, p.o + self.types.offset(t, i)), x, v[i], atomic)
            return
        n = self.types.size(t)
        self.check(p, n, "write")
        self.access(p, n, True, atomic)
        self.put(p, n, v)

    def put(self, p, n, v):
        cells = p.a.cells
        for o in range(p.o - 7, p.o + n):
            d = cells.get(o)
            if d is None or o + d[0] <= p.o or (o == p.o and d[0] == n):
                continue
            if o >= p.o and o + d[0] <= p.o + n:
                del cells[o]
            elif isinstance(d[1], int):
                del cells[o]
                for k in range(d[0]):
                    if not (p.o <= o + k < p.o + n):
                        cells[o + k] = (1, (d[1] >> (8 * k)) & 255)
            else:
                raise SymError("partial overwrite of a symbolic cell")
        cells[p.o] = (n, v)

    def malloc(self, n, zero=False, name="malloc"):
        a = Alloc(n, "%s#%d" % (name, len(self.heap)), "heap")
        a.zero = zero
        self.heap.append(a)
        return Ptr(a)

    def fill(self, p, c, n):
        if n == 0:
            return
        self.check(p, n, "memset")
        self.access(p, n, True)
        k = 0
        while k < n:
            w = 8 if (p.o + k) % 8 == 0 and n - k >= 8 else 1
            self.put(Ptr(p.a, p.o + k), w, sum(c << (8 * b) for b in range(w)))
            k += w

    def copy(self, d, s, n):
        if n == 0:
            return
        self.check(s, n, "memcpy source")
        self.check(d, n, "memcpy target")
        self.access(s, n, False)
        self.access(d, n, True)
        items = []
        k = 0
        while k < n:
            c = s.a.cells.get(s.o + k)
            if c is not None and k + c[0] <= n:
                items.append((k, c[0], c[1]))
                k += c[0]
            elif (s.o + k) % 8 == 0 and n - k >= 8:
                items.append((k, 8, self.odd(Ptr(s.a, s.o + k), 8, "i64", None)))
                k += 8
            else:
                items.append((k, 1, self.odd(Ptr(s.a, s.o + k), 1, "i8", None)))
                k += 1
        for k, w, v in items:
            self.put(Ptr(d.a, d.o + k), w, v)

    # ---- operands
    def glob(self, name):
        if name in self.mod.funcs:
            return ("fn", name)
        p = self.galloc.get(name)
        if p is None:
            a = Alloc(1 << 20, "@" + name, "global")
            p = self.galloc[name] = Ptr(a)
            txt = self.mod.globals.get(name, "")
            m = re.match(r"(?:[a-z_()]+ )*(?:global|constant) (.*?)(?:, (?:align|comdat|section).*)?$", txt)
            a.zero = "zeroinitializer" in txt or txt.startswith("common")
            if m:
                t, v = take_type(m.group(1))
                try:
                    a.size = self.types.size(t)
                    self.init(p, t, v)
                except SymError:
                    pass
        return p

    def init(self, p, t, v):
        v = v.strip()
        if v == "zeroinitializer":
            p.a.zero = True
            return
        f = self.types.fields(t)
        if f is None:
            self.put(p, self.types.size(t), self.val(v, t, {}))
            return
        if v.startswith("c\""):
            return
        for i, e in enumerate(split_top(v[1:-1])):
            tt, vv = take_type(e)
            self.init(Ptr(p.a, p.o + self.types.offset(t, i)), tt, vv)

    def val(self, v, t, regs):
        if v in regs:
            return regs[v]
        c = v[0]
        if c == "%":
            raise SymError("undefined register " + v)
        if c == "@":
            return self.glob(v[1:])
        if v == "null":
            return NULL
        if v in ("undef", "poison"):
            f = self.types.fields(t)
            if f is not None:
                return [None] * len(f)
            self.nundef += 1
            return 0 if t[0] == "i" else self.fresh(self.nundef)
        if v == "true":
            return 1
        if v == "false":
            return 0
        if v == "zeroinitializer":
            f = self.types.fields(t)
            return [self.val("zeroinitializer", x, regs) for x in f] if f is not None else (NULL if t == "ptr" else 0)
        if t in ("double", "float"):
            if v.startswith("0x"):
                x = struct.unpack(">d", bytes.fromhex(v[2:].rjust(16, "0")))[0]
            else:
                x = float(v)
            return int(x) if x == int(x) and abs(x) < 2 ** 53 else x
        if t[0] == "i":
            return int(v) & ((1 << width(t)) - 1)
        if v.startswith("{") or v.startswith("["):
            return [self.val(take_type(e)[1], take_type(e)[0], regs) for e in split_top(v[1:-1])]
        if v.startswith("getelementptr") or v.startswith("inttoptr"):
            m = re.match(r"getelementptr (?:inbounds )?\((.*)\)$", v)
            if m:
                ps = split_top(m.group(1))
                return self.gep(ps[0], self.val(take_type(ps[1])[1], "ptr", regs), [take_type(x) for x in ps[2:]], regs)
        raise SymError("operand %s %s" % (t, v))

    def gep(self, t, p, idx, regs):
        if not isinstance(p, Ptr):
            raise MemFault("pointer arithmetic on %r" % (p,))
        o = p.o
        for k, (it, iv) in enumerate(idx):
            v = self.val(iv, it, regs)
            if isinstance(v, Sym):
                raise SymError("symbolic index")
            v = sgn(v, width(it))
            if k == 0:
                o += v * self.types.size(t)
            else:
                o += self.types.offset(t, v)
                t = self.types.fields(t)[v]
        return Ptr(p.a, o)

    # ---- execution
    def call(self, name, *args):
        """Run a function of the module on the initial thread; -> its return value."""
        try:
            gen = self.run(name, list(args))
            while True:
                try:
                    next(gen)
                except StopIteration as e:
                    return e.value
        finally:
            self.leaks = [a for a in self.heap if not a.freed]

    def run(self, name, args):
        f = self.mod.funcs[name]
        self.called.add(name)
        regs = {}
        if len(args) != len(f.params):
            raise SymError("%s: %d arguments for %d parameters" % (name, len(args), len(f.params)))
        for (t, r), a in zip(f.params, args):
            if isinstance(a, (int, np.integer)) and t[0] == "i":
                a = int(a) & ((1 << width(t)) - 1)
            regs[r] = a
        blk, prev = f.order[0], None
        while True:
            code = f.blocks[blk]
            # phis take their values simultaneously
            k = 0
            new = {}
            while k < len(code) and code[k][0] == "phi":
                _, d, t, inc = code[k]
                new[d] = self.val(inc[prev], t, regs)
                k += 1
            regs.update(new)
            nxt = None
            for ins in code[k:]:
                self.steps += 1
                if self.steps > self.maxsteps:
                    raise SymError("IR step limit")
                op = ins[0]
                if op == "ret":
                    return None if ins[2] is None else self.val(ins[3], ins[2], regs)
                if op == "jmp":
                    nxt = ins[2]
                elif op == "br":
                    nxt = ins[3] if self.val(ins[2], "i1", regs) else ins[4]
                elif op == "switch":
                    v = self.val(ins[3], ins[2], regs)
                    w = width(ins[2])
                    nxt = ins[4]
                    for cv, lab in ins[5].items():
                        if cv & ((1 << w) - 1) == v:
                            nxt = lab
                elif op == "call":
                    r = yield from self.docall(ins, regs)
                    if ins[1]:
                        regs[ins[1]] = r
                elif op == "unreachable":
                    raise MemFault("undefined behaviour (unreachable executed)")
                else:
                    self.step(ins, regs)
            prev, blk = blk, nxt

    def step(self, ins, regs):
        op, dst = ins[0], ins[1]
        val = self.val
        if op in ("fadd", "fsub", "fmul", "fdiv"):
            a, b = val(ins[3], ins[2], regs), val(ins[4], ins[2], regs)
            r = a + b if op == "fadd" else a - b if op == "fsub" else a * b if op == "fmul" else self.div(a, b)
        elif op in ("add", "sub", "mul", "shl", "and", "or", "xor", "udiv", "sdiv", "urem", "srem", "lshr", "ashr"):
            t = ins[2]
            w = width(t)
            a, b = val(ins[3], t, regs), val(ins[4], t, regs)
            M = (1 << w) - 1
            if isinstance(a, Ptr) or isinstance(b, Ptr):
                r = self.ptrint(op, a, b)
            elif op == "add":
                r = (a + b) & M
            elif op == "sub":
                r = (a - b) & M
            elif op == "mul":
                r = (a * b) & M
            elif op == "and":
                r = a & b
            elif op == "or":
                r = a | b
            elif op == "xor":
                r = a ^ b
            elif op == "shl":
                r = (a << b) & M
            elif op == "lshr":
                r = a >> b
            elif op == "ashr":
                r = (sgn(a, w) >> b) & M
            else:
                if b == 0:
                    raise MemFault("integer division by zero")
                if op == "udiv":
                    r = a // b
                elif op == "urem":
                    r = a % b
                else:
                    x, y = sgn(a, w), sgn(b, w)
                    qq = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                    r = (qq if op == "sdiv" else x - qq * y) & M
        elif op == "fneg":
            r = -val(ins[3], ins[2], regs)
        elif op == "icmp":
            _, _, pred, t, a, b = ins
            a, b = val(a, t, regs), val(b, t, regs)
            if isinstance(a, Ptr) or isinstance(b, Ptr):
                if pred in ("eq", "ne"):
                    r = int((a == b) == (pred == "eq"))
                else:
                    if a.a is not b.a:
                        raise SymError("ordering of unrelated pointers")
                    r = int({"u": 1} and eval("x%sy" % {"lt": "<", "le": "<=", "gt": ">", "ge": ">="}[pred[1:]], {"x": a.o, "y": b.o}))
            else:
                if pred[0] == "s":
                    w = width(t)
                    a, b = sgn(a, w), sgn(b, w)
                p = pred if pred in ("eq", "ne") else pred[1:]
                r = int(a == b if p == "eq" else a != b if p == "ne" else a < b if p == "lt" else a <= b if p == "le" else a > b if p == "gt" else a >= b)
        elif op == "fcmp":
            _, _, pred, t, a, b = ins
            a, b = val(a, t, regs), val(b, t, regs)
            if pred in ("uno", "false"):
                r = 0
                if pred == "uno":
                    for x in (a, b):
                        if isinstance(x, float) and x != x:
                            r = 1
            elif pred in ("ord", "true"):
                r = 1
            else:
                p = pred[1:]
                r = a == b if p == "eq" else a != b if p == "ne" else a < b if p == "lt" else a <= b if p == "le" else a > b if p == "gt" else a >= b
                r = int(bool(r))
        elif op == "alloca":
            n = 1
            if isinstance(ins[3], tuple):
                n = val(ins[3][1], ins[3][0], regs)
            r = Ptr(Alloc(self.types.size(ins[2]) * n, "stack" + dst, "stack"))
        elif op == "load":
            r = self.load(val(ins[3], "ptr", regs), ins[2], ins[4])
        elif op == "store":
            self.store(val(ins[4], "ptr", regs), ins[2], val(ins[3], ins[2], regs), ins[5])
            return
        elif op == "getelementptr":
            r = self.gep(ins[2], val(ins[3], "ptr", regs), ins[4], regs)
        elif op in ("zext", "bitcast", "freeze", "fpext", "fptrunc"):
            r = val(ins[3], ins[2], regs)
        elif op == "trunc":
            r = val(ins[3], ins[2], regs) & ((1 << width(ins[4])) - 1)
        elif op == "sext":
            r = sgn(val(ins[3], ins[2], regs), width(ins[2])) & ((1 << width(ins[4])) - 1)
        elif op in ("ptrtoint", "inttoptr"):
            r = val(ins[3], ins[2], regs)
            if op == "inttoptr" and r == 0:
                r = NULL
        elif op == "sitofp":
            r = sgn(val(ins[3], ins[2], regs), width(ins[2]))
        elif op == "uitofp":
            r = val(ins[3], ins[2], regs)
        elif op in ("fptosi", "fptoui"):
            r = val(ins[3], ins[2], regs)
            if isinstance(r, Sym):
                raise SymError("float to integer of a symbolic value")
            r = int(r) & ((1 << width(ins[4])) - 1)
        elif op == "select":
            r = val(ins[4], ins[3], regs) if val(ins[2], "i1", regs) else val(ins[5], ins[3], regs)
        elif op == "extractvalue":
            r = val(ins[3], ins[2], regs)
            for i in ins[4]:
                r = r[i]
        elif op == "insertvalue":
            r = list(val(ins[3], ins[2], regs))
            if len(ins[6]) != 1:
                raise SymError("nested insertvalue")
            r[ins[6][0]] = val(ins[5], ins[4], regs)
        elif op == "atomicrmw":
            _, _, k, p, t, v = ins
            p, v = val(p, "ptr", regs), val(v, t, regs)
            r = self.load(p, t, True)
            if t[0] == "i":
                M = (1 << width(t)) - 1
                new = {"add": lambda: (r + v) & M, "sub": lambda: (r - v) & M, "xchg": lambda: v, "or": lambda: r | v, "and": lambda: r & v}[k]()
            else:
                new = {"fadd": lambda: r + v, "fsub": lambda: r - v, "xchg": lambda: v}[k]()
            self.store(p, t, new, True)
        elif op == "cmpxchg":
            _, _, p, t, c, v = ins
            p = val(p, "ptr", regs)
            old = self.load(p, t, True)
            c = val(c, t, regs)
            ok = old is c or (not isinstance(old, Sym) and not isinstance(c, Sym) and old == c) or \
                (isinstance(old, Sym) and isinstance(c, Sym) and old.d == c.d)
            if ok:
                self.store(p, t, val(v, t, regs), True)
            r = [old, int(ok)]
        elif op == "nop":
            return
        else:
            raise SymError("LLVM instruction %r" % (ins,))
        regs[dst] = r

    def div(self, a, b):
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            if b == 0:
                return float("nan") if a == 0 else float("inf") * (1 if a > 0 else -1)
            if isinstance(a, int) and isinstance(b, int):
                from fractions import Fraction
                return Fraction(a, b)
        return a / b

    def ptrint(self, op, a, b):
        if op == "sub" and isinstance(a, Ptr) and isinstance(b, Ptr) and a.a is b.a:
            return (a.o - b.o) & ((1 << 64) - 1)
        if op == "add":
            if isinstance(a, Ptr):
                return Ptr(a.a, a.o + sgn(b, 64))
            return Ptr(b.a, b.o + sgn(a, 64))
        raise SymError("integer arithmetic on pointers")

    # ---- calls
    def docall(self, ins, regs):
        _, dst, callee, args = ins
        if callee[0] == "%":
            fp = regs[callee]
            name = fp[1]
        else:
            name = callee[1:]
        if name.startswith("llvm.lifetime") or name.startswith("llvm.dbg") or name in ("llvm.assume", "llvm.prefetch.p0") \
                or name.startswith("llvm.experimental"):
            return None
        a = [self.val(v, t, regs) if t else None for t, v in args]
        if name in self.stub:
            return self.stub[name](self, a)
        if name in self.mod.funcs:
            r = yield from self.run(name, a)
            return r
        if name.startswith("__kmpc") or name.startswith("omp_"):
            r = yield from self.omp(name, a)
            return r
        return self.builtin(name, a, [t for t, _ in args])

    def builtin(self, name, a, ts):
        if name in ("malloc", "_Znwm"):
            return self.malloc(a[0])
        if name == "calloc":
            return self.malloc(a[0] * a[1], True, "calloc")
        if name == "realloc":
            p = self.malloc(a[1], False, "realloc")
            if a[0].a is not None:
                self.copy(p, a[0], min(a[1], a[0].a.size))
                a[0].a.freed = True
            return p
        if name == "free":
            if a[0].a is not None:
                if a[0].a.freed or a[0].o or a[0].a.kind != "heap":
                    raise MemFault("invalid free of %r" % (a[0],))
                a[0].a.freed = True
            return None
        if name.startswith("llvm.memset") or name == "memset":
            self.fill(a[0], a[1] & 255, a[2])
            return a[0]
        if name.startswith(("llvm.memcpy", "llvm.memmove")) or name in ("memcpy", "memmove"):
            self.copy(a[0], a[1], a[2])
            return a[0]
        if name in ("printf", "puts", "putchar", "fflush", "fprintf", "fwrite", "fputs"):
            return 0
        if name.startswith("llvm."):
            k = name.split(".")[1]
            if k in ("smax", "smin", "umax", "umin", "abs"):
                w = width(ts[0])
                x = sgn(a[0], w) if k[0] in "sa" else a[0]
                if k == "abs":
                    return abs(x) & ((1 << w) - 1)
                y = sgn(a[1], w) if k[0] == "s" else a[1]
                return (max(x, y) if k.endswith("max") else min(x, y)) & ((1 << w) - 1)
            if k in ("fmuladd", "fma"):
                return a[0] * a[1] + a[2]
            if k == "fabs":
                return abs(a[0])
            if k in ("maxnum", "minnum", "maximum", "minimum"):
                c = bool(a[0] > a[1])
                return a[0] if c == k.startswith("max") else a[1]
            if k == "sqrt":
                return self.sqrt(a[0])
            if k == "expect":
                return a[0]
        if name in ("fabs",):
            return abs(a[0])
        if name in ("fmax", "fmin"):
            c = bool(a[0] > a[1])
            return a[0] if c == (name == "fmax") else a[1]
        if name == "sqrt":
            return self.sqrt(a[0])
        if name in ("labs", "llabs", "abs"):
            w = width(ts[0])
            return abs(sgn(a[0], w)) & ((1 << w) - 1)
        if name == "__muldc3":
            return [a[0] * a[2] - a[1] * a[3], a[0] * a[3] + a[1] * a[2]]
        if name == "__divdc3":
            n = a[2] * a[2] + a[3] * a[3]
            return [self.div(a[0] * a[2] + a[1] * a[3], n), self.div(a[1] * a[2] - a[0] * a[3], n)]
        if name == "cabs":
            return self.sqrt(a[0] * a[0] + a[1] * a[1])
        if name in ("cblas_zgemm", "cblas_dgemm"):
            return self.gemm(name[6], a)
        if name in ("cblas_zgemv", "cblas_dgemv"):
            return self.gemv(name[6], a)
        raise SymError("call of %s" % name)

    def sqrt(self, x):
        if isinstance(x, Sym):
            return x.sqrt()
        return x ** 0.5

    # ---- BLAS by definition
    def blas_in(self, p, k, z):
        if z:
            q_ = Ptr(p.a, p.o + 16 * k)
            return (self.load(q_, "double"), self.load(Ptr(p.a, q_.o + 8), "double"))
        return (self.load(Ptr(p.a, p.o + 8 * k), "double"), 0)

    def blas_out(self, p, k, z, v):
        if z:
            self.store(Ptr(p.a, p.o + 16 * k), "double", v[0])
            self.store(Ptr(p.a, p.o + 16 * k + 8), "double", v[1])
        else:
            self.store(Ptr(p.a, p.o + 8 * k), "double", v[0])

    @staticmethod
    def cm(x, y):
        if x[1] is 0 and y[1] is 0:
            return (x[0] * y[0], 0)
        return (x[0] * y[0] - x[1] * y[1], x[0] * y[1] + x[1] * y[0])

    def gemm(self, kind, a):
        z = kind == "z"
        order, ta, tb, m, n, k, alpha, A, lda, B, ldb, beta, C, ldc = a
        m, n, k, lda, ldb, ldc = [sgn(x, 32) if x < 1 << 32 else sgn(x, 64) for x in (m, n, k, lda, ldb, ldc)]
        if order not in (101, 102):
            raise MemFault("cblas gemm: order %d" % order)
        if order == 102:      # column major: C^T = op(B)^T op(A)^T
            ta, tb, m, n, A, lda, B, ldb = tb, ta, n, m, B, ldb, A, lda
        if min(m, n, k) < 0:
            raise MemFault("cblas gemm: negative dimension")
        if lda < max(1, k if ta == 111 else m) or ldb < max(1, n if tb == 111 else k) or ldc < max(1, n):
            raise MemFault("cblas gemm: illegal leading dimension (m=%d n=%d k=%d lda=%d ldb=%d ldc=%d)" % (m, n, k, lda, ldb, ldc))
        if ta not in (111, 112, 113) or tb not in (111, 112, 113):
            raise MemFault("cblas gemm: transpose flag")
        if z:
            al, be = self.blas_in(alpha, 0, True), self.blas_in(beta, 0, True)
        else:
            al, be = (alpha, 0), (beta, 0)

        def conj(x, t):
            return (x[0], -x[1]) if t == 113 else x
        Am = [[conj(self.blas_in(A, (i * lda + l) if ta == 111 else (l * lda + i), z), ta) for l in range(k)] for i in range(m)] if n else []
        Bm = [[conj(self.blas_in(B, (l * ldb + j) if tb == 111 else (j * ldb + l), z), tb) for j in range(n)] for l in range(k)] if m else []
        for i in range(m):
            for j in range(n):
                re_, im = 0, 0
                for l in range(k):
                    x = self.cm(Am[i][l], Bm[l][j])
                    re_, im = re_ + x[0], im + x[1]
                v = self.cm(al, (re_, im))
                if not (be[0] is 0 or (not isinstance(be[0], Sym) and be[0] == 0)) or not (not isinstance(be[1], Sym) and be[1] == 0):
                    x = self.cm(be, self.blas_in(C, i * ldc + j, z))
                    v = (v[0] + x[0], v[1] + x[1])
                self.blas_out(C, i * ldc + j, z, v)
        return None

    def gemv(self, kind, a):
        z = kind == "z"
        order, ta, m, n, alpha, A, lda, X, incx, beta, Y, incy = a
        tb = 111
        if incx != 1 or incy != 1 or order != 101:
            raise SymError("gemv with strides")
        mm, kk = (m, n) if ta == 111 else (n, m)
        return self.gemm(kind, [101, ta, tb, mm, 1, kk, alpha, A, lda, X, 1, beta, Y, 1])

    # ---- OpenMP runtime
    def omp(self, name, a):
        t = self.cur
        if name == "__kmpc_fork_call" or name == "__kmpc_fork_call_if":
            if name.endswith("_if"):
                fn, args = a[2], a[4:]
                T = self.T if a[3] else 1
            else:
                fn, args = a[2], a[3:]
                T = self.T
            yield from self.team(fn[1], args, T)
            return None
        if name in ("__kmpc_global_thread_num", "omp_get_thread_num", "__kmpc_bound_thread_num"):
            return t.tid
        if name in ("omp_get_num_threads",):
            return len(t.team.threads) if t.team else 1
        if name == "omp_get_max_threads":
            return self.T
        if name == "omp_in_parallel":
            return int(t.team is not None)
        if name in ("omp_set_num_threads", "__kmpc_push_num_threads", "__kmpc_flush"):
            return None
        if name.startswith("__kmpc_for_static_init"):
            w = 32 if "_4" in name else 64
            ty = "i%d" % w
            _, _, sched, plast, plo, pup, pst, incr, chunk = a
            lo, up = sgn(self.load(plo, ty), w), sgn(self.load(pup, ty), w)
            incr, chunk = sgn(incr, w), sgn(chunk, w)
            T = len(t.team.threads) if t.team else 1
            M = (1 << w) - 1
            n = (up - lo) // incr + 1
            if sched in (34,) or (sched & 0xffff) == 34:
                base, extra = divmod(n, T)
                b = t.tid * base + min(t.tid, extra)
                c = base + (1 if t.tid < extra else 0)
                self.store(plast, "i32", int(c > 0 and b + c == n))
                self.store(plo, ty, (lo + b * incr) & M)
                self.store(pup, ty, (lo + (b + c - 1) * incr) & M if c else (lo + b * incr - incr) & M)
                self.store(pst, ty, (n * incr) & M)
                if not c and lo + b * incr - incr < 0:
                    # empty range below zero for unsigned loops: start above the end instead
                    self.store(plo, ty, 1)
                    self.store(pup, ty, 0)
            else:
                chunk = max(chunk, 1)
                self.store(plo, ty, (lo + t.tid * chunk * incr) & M)
                self.store(pup, ty, (lo + ((t.tid + 1) * chunk - 1) * incr) & M)
                self.store(pst, ty, (T * chunk * incr) & M)
                self.store(plast, "i32", int(((n - 1) // chunk) % T == t.tid))
            return None
        if name in ("__kmpc_for_static_fini", "__kmpc_dispatch_deinit") or name.startswith("__kmpc_dispatch_fini"):
            return None
        if name.startswith("__kmpc_dispatch_init"):
            _, _, sched, lo, up, st, chunk = a
            w = 32 if "_4" in name else 64
            t.ndisp = getattr(t, "ndisp", 0) + 1
            d = t.team.disp.setdefault(t.ndisp, dict(next=sgn(lo, w), up=sgn(up, w), st=sgn(st, w), chunk=max(1, sgn(chunk, w))))
            t.dispatch = d
            return None
        if name.startswith("__kmpc_dispatch_next"):
            w = 32 if "_4" in name else 64
            ty, M = "i%d" % w, (1 << w) - 1
            yield
            d = t.dispatch
            if d["next"] > d["up"]:
                return 0
            lo = d["next"]
            hi = min(lo + (d["chunk"] - 1) * d["st"], d["up"])
            d["next"] = lo + d["chunk"] * d["st"]
            self.store(a[2], "i32", int(hi == d["up"]))
            self.store(a[3], ty, lo & M)
            self.store(a[4], ty, hi & M)
            self.store(a[5], ty, d["st"] & M)
            return 1
        if name in ("__kmpc_barrier", "__kmpc_cancel_barrier"):
            yield from self.barrier()
            return 0
        if name in ("__kmpc_critical", "__kmpc_critical_with_hint"):
            yield from self.lock(a[2])
            return None
        if name == "__kmpc_end_critical":
            self.unlock(a[2])
            return None
        if name in ("__kmpc_reduce", "__kmpc_reduce_nowait"):
            yield from self.lock(a[6])
            return 1
        if name == "__kmpc_end_reduce_nowait":
            self.unlock(a[2])
            return None
        if name == "__kmpc_end_reduce":
            self.unlock(a[2])
            yield from self.barrier()
            return None
        if name in ("__kmpc_single",):
            t.singles += 1
            if t.singles > t.team.singles:
                t.team.singles = t.singles
                return 1
            return 0
        if name in ("__kmpc_master", "__kmpc_masked"):
            return int(t.tid == 0)
        if name in ("__kmpc_end_single", "__kmpc_end_master", "__kmpc_end_masked", "__kmpc_serialized_parallel",
                    "__kmpc_end_serialized_parallel"):
            return None
        raise SymError("OpenMP runtime call %s" % name)

    def lock(self, p):
        t = self.cur
        while self.lockowner.get(p) not in (None, t):
            t.state = "lock"
            yield
        self.lockowner[p] = t
        t.locks.add(p)

    def unlock(self, p):
        self.lockowner[p] = None
        self.cur.locks.discard(p)

    def barrier(self):
        t = self.cur
        if t.team is None:
            return
        n = t.team.epoch
        t.state = "barrier"
        while t.team.epoch == n:
            yield
        t.state = "run"

    def team(self, fn, args, T):
        outer, oldlog = self.cur, self.log
        team = type("Team", (), {})()
        team.epoch, team.singles, team.disp = 0, 0, {}
        team.threads = [Thread(i, team) for i in range(T)]
        self.log = {} if T > 1 else oldlog
        for th in team.threads:
            gt = self.buf([th.tid], "gtid", 8)
            bt = self.buf([th.tid], "btid", 8)
            gt.a.cells = {0: (4, th.tid)}
            bt.a.cells = {0: (4, th.tid)}
            th.gen = self.run(fn, [gt, bt] + list(args))
        live = [team.threads[i] for i in self.order if i < T] + team.threads[len(self.order):]
        while live:
            progress = False
            for th in list(live):
                if th.state == "barrier":
                    continue
                self.cur = th
                before = (self.steps,)
                try:
                    while True:
                        th.state = "run"
                        next(th.gen)
                        if th.state in ("barrier", "lock"):
                            break
                        progress = True
                        break
                except StopIteration:
                    live.remove(th)
                    progress = True
                if self.steps != before[0]:
                    progress = True
            waiting = [th for th in live if th.state == "barrier"]
            if live and len(waiting) == len(live):
                if len(live) != T:
                    raise MemFault("deadlock: only %d of %d threads reach the barrier" % (len(live), T))
                self.epoch()
                team.epoch += 1
                for th in live:
                    th.state = "run"
                progress = True
            if not progress:
                raise MemFault("deadlock of the thread team")
        if T > 1:
            self.epoch()
            self.log = oldlog
        self.cur = outer
        if False:
            yield
