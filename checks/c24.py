"""C24: shared array helpers. The real functions of vayesta.core.util / spinalg / helper run on symbolic arrays; the
notation (subscripts, bracket placement, permutation, index class) is a symbolic choice, and the oracle is the defining
element-wise formula."""
import itertools
import types
import numpy as np
from vsym.harness import Harness
from checks.common import *
from vayesta.core import util, spinalg, helper

META = dict(assumptions=["no two entries of largest magnitude in an orbital (the sign convention is then unique)"])


def naive(ins, out, ops, dims):
    """Defining sum of an einsum expression."""
    idx = sorted(set("".join(ins)))
    res = np.empty(tuple(dims[c] for c in out), dtype=object)
    rest = [c for c in idx if c not in out]
    for o in np.ndindex(*res.shape):
        v = dict(zip(out, o))
        s = 0
        for r in itertools.product(*[range(dims[c]) for c in rest]):
            v.update(zip(rest, r))
            t = 1
            for sub, x in zip(ins, ops):
                t = t * x[tuple(v[c] for c in sub)]
            s = s + t
        res[o] = s
    return res


PAT = [  # plain inputs, output, equivalent notations
    (["ab", "bc", "cd"], "ad", ["ab,bc,cd->ad", "(ab,bc),cd->ad", "ab,(bc,cd)->ad", "[ab,bc],cd->ad", "{ab,bc->ac},cd->ad", "ab,(bc,cd->bd)->ad", "((ab,bc),cd)->ad", "[(ab,bc->ac),cd->ad]->ad"]),
    (["ab", "cb"], "ac", ["a!b,a$b->a!a$", "a1b,a2b->a1a2", "ib,jb->ij", "a!b,cb->a!c", "a12b!,a3b!->a12a3"]),
    (["ab", "bc", "ca"], "", ["ab,bc,ca->", "(ab,bc->ac),ca->", "a!b,ba$,a$a!->"]),
    (["ab", "bc", "c", "d"], "ad", ["(ab,bc->ac),c,d->ad", "ab,(bc,c->b),d->ad", "(ab,(bc,c->b)->a),d->ad", "a1b,(ba2,a2->b),d->a1d"]),
    (["abc", "cd"], "abd", ["abc,cd->abd", "...c,cd->...d", "a!a$c,cd->a!a$d", "(abc,cd->abd)->abd"]),
]


def h_einsum(ctx):
    k = ctx.int("pattern", 0, len(PAT) - 1)
    ins, out, forms = PAT[k]
    dims = dict(a=2, b=2, c=3, d=1)
    ops = [ctx.real("x%d" % i, tuple(dims[c] for c in s)) for i, s in enumerate(ins)]
    form = forms[ctx.int("form", 0, len(forms) - 1)]
    before = [x.copy() for x in ops]
    r = util.einsum(form, *ops)
    e = naive(ins, out, ops, dims)
    ctx.true("shape", np.shape(r) == e.shape)
    ctx.eq("value", r, e if e.ndim else e[()])
    for x, y in zip(ops, before):
        ctx.eq("operand unchanged", x, y)


def h_einsum_bad(ctx):
    x, y = ctx.real("x", (2, 2)), ctx.real("y", (2, 2))
    bad = ctx.choice("bad", ["(ab,bc->ac", "ab,bc)->ac", "(ab,bc]->ac", "!ab,bc->ac", "ab,!bc->ac"])
    ctx.raises("malformed subscripts", lambda: util.einsum(bad, x, y), ValueError)


def h_dot(ctx):
    n = ctx.int("n", 2, 4)
    shp = [(2, 3), (3, 1), (1, 2), (2, 2)][:n]
    ms = [ctx.real("m%d" % i, s) for i, s in enumerate(shp)]
    ref = ms[0]
    for m in ms[1:]:
        ref = np.einsum("ij,jk->ik", ref, m)
    ctx.eq("product", util.dot(*ms), ref)
    pos = ctx.int("pos", 0, n)
    ctx.eq("None ignored", util.dot(*(ms[:pos] + [None] + ms[pos:]), ignore_none=True), ref)
    v = ctx.real("v", (ref.shape[-1],))
    ctx.eq("vector", util.dot(*ms, v), np.einsum("ij,j->i", ref, v))
    # spin generic
    sp = [ctx.boolean("spin%d" % i) for i in range(n)]
    ma = [(m, ctx.real("b%d" % i, s)) if s_ else m for i, (m, s, s_) in enumerate(zip(ms, shp, sp))]
    if True:
        r = spinalg.dot(*ma)
        if not any(sp):
            ctx.eq("spin dot restricted", r, ref)
        else:
            for s in (0, 1):
                q = None
                for m in ma:
                    m = m[s] if isinstance(m, tuple) else m
                    q = m if q is None else np.einsum("ij,jk->ik", q, m)
                ctx.eq("spin dot %d" % s, r[s], q)


def h_stack(ctx):
    a, b, c = ctx.real("a", (2, 1)), ctx.real("b", (2, 2)), ctx.real("c", (2, 3))
    drop = ctx.choice("none at", [None, 0, 1, 2])
    args = [a, b, c]
    if drop is not None:
        args.insert(drop, None)
    ref = np.empty((2, 6), dtype=a.dtype)
    ref[:, :1], ref[:, 1:3], ref[:, 3:] = a, b, c
    ctx.eq("hstack", util.hstack(*args), ref)
    ctx.eq("hstack matrices", spinalg.hstack_matrices(*args), ref)
    u = [(x, x[::-1]) if x is not None else None for x in args]
    r = spinalg.hstack_matrices(*u)
    ctx.eq("hstack matrices alpha", r[0], ref)
    ctx.eq("hstack matrices beta", r[1], ref[::-1])
    ctx.raises("mixed spin", lambda: spinalg.hstack_matrices(a, (b, b)), ValueError)


def h_spin(ctx):
    a, b = [ctx.real("a%d" % i, (2, 2)) for i in (0, 1)], [ctx.real("b%d" % i, (2, 2)) for i in (0, 1)]
    for nm, f, g in (("add", spinalg.add, lambda x, y: x + y), ("subtract", spinalg.subtract, lambda x, y: x - y), ("multiply", spinalg.multiply, lambda x, y: x * y)):
        ctx.eq(nm, f(a[0], b[0]), g(a[0], b[0]))
        ctx.eq(nm + " u", list(f(tuple(a), tuple(b))), [g(x, y) for x, y in zip(a, b)])
    z = spinalg.zeros_like(tuple(a))
    ctx.eq("zeros", list(z), [0 * x for x in a])
    c = spinalg.copy(tuple(a))
    ctx.eq("copy", list(c), a)
    ctx.true("copy is independent", not any(np.shares_memory(x, y) for x, y in zip(c, a)))
    ctx.eq("transpose", spinalg.transpose(a[0]), a[0].T)
    ctx.eq("transpose u", list(spinalg.transpose((a[0], a[1]))), [x.T for x in a])
    t = ctx.real("t", (2, 1, 3))
    i, j, k, l = [ctx.int("i%d" % m, 0, 2) for m in range(4)]
    ctx.true("add numbers", spinalg.add_numbers(i, j, k) == i + j + k)
    ctx.true("add numbers u", tuple(spinalg.add_numbers((i, j), (k, l))) == (i + k, j + l))
    ctx.raises("mixed add", lambda: spinalg.add_numbers(i, (j, k)), ValueError)
    import scipy.linalg
    A, S = [x + x.T for x in a], [x + x.T for x in b]
    orig = scipy.linalg.eigh
    scipy.linalg.eigh = lambda a, b=None, **kw: (("e", a, b, kw), ("v", a, b, kw))
    try:
        use = ctx.choice("metric", ["none", "one", "per spin"])
        if use != "per spin":
            r = spinalg.eigh(A[0], S[0] if use == "one" else None)
            ctx.true("eigh", r[0][0] == "e" and r[0][1] is A[0] and r[0][2] is (S[0] if use == "one" else None))
        B = dict(none=None, one=S[0]).get(use, tuple(S))
        r = spinalg.eigh(tuple(A), B)
        for i in (0, 1):
            for j, nm in enumerate("ev"):
                ctx.true("eigh u", r[j][i][0] == nm and r[j][i][1] is A[i] and r[j][i][2] is (None if use == "none" else S[0] if use == "one" else S[i]))
    finally:
        scipy.linalg.eigh = orig


def h_perm(ctx, n):
    seq = [ctx.scalar("s%d" % i) for i in range(n)]
    tag = list(range(n))
    ps = util.permutations_with_signs(tag)
    ctx.true("all permutations once", sorted(tuple(p) for p, s in ps) == sorted(itertools.permutations(tag)))
    for p, s in ps:
        inv = sum(1 for i in range(n) for j in range(i) if p[j] > p[i])
        ctx.true("sign", s == (-1) ** inv)
    # as used: determinant of a symbolic matrix
    if n <= 3:
        m = ctx.real("m", (n, n))
        d = 0
        for p, s in ps:
            t = s
            for i in range(n):
                t = t * m[i, p[i]]
            d = d + t
        ref = m[0, 0] if n == 1 else (m[0, 0] * m[1, 1] - m[0, 1] * m[1, 0] if n == 2 else
                                      sum(m[0, i] * (m[1, (i + 1) % 3] * m[2, (i + 2) % 3] - m[1, (i + 2) % 3] * m[2, (i + 1) % 3]) for i in range(3)))
        ctx.eq("determinant", d, ref)


def h_tril(ctx, nmax, dmax):
    n, d = ctx.int("n", 0, nmax), ctx.int("dims", 0, dmax)
    diag = ctx.boolean("diagonal")
    t = util.tril_indices_ndim(n, d, include_diagonal=diag)
    ctx.true("number of index arrays", len(t) == d)
    if d == 0:
        return
    got = list(zip(*[list(map(int, x)) for x in t]))
    exp = [i for i in itertools.product(range(n), repeat=d) if all((x >= y if diag else x > y) for x, y in zip(i, i[1:]))]
    ctx.true("strictly/weakly decreasing index tuples in lexical order", got == exp)


def h_decompress(ctx, sub, dims, sym=None):
    """Packed antisymmetric (or symmetric) groups of axes: unpack and compare with the definition."""
    chars = []
    for c in sub:
        if c not in chars:
            chars.append(c)
    shape = tuple(dims[c] for c in sub)
    cnt = {c: sub.count(c) for c in chars}
    symc = {c: (sym[sub.index(c)] if sym else "-") for c in chars}
    tri = {c: [i for i in itertools.product(range(dims[c]), repeat=cnt[c]) if all(x > y for x, y in zip(i, i[1:]))] for c in chars}
    flat = ctx.real("f", tuple(len(tri[c]) for c in chars))
    r = util.decompress_axes(sub, flat, shape, symmetry=sym)
    ctx.true("shape", r.shape == shape)
    for idx in np.ndindex(*shape):
        key, sg, zero = [], 1, False
        for c in chars:
            g = [idx[k] for k in range(len(sub)) if sub[k] == c]
            if len(set(g)) < len(g):
                zero = True
                break
            srt = sorted(g, reverse=True)
            inv = sum(1 for i in range(len(g)) for j in range(i) if g[j] < g[i])
            if symc[c] == "-":
                sg *= (-1) ** inv
            key.append(tri[c].index(tuple(srt)))
        ctx.eq("entry", r[idx], 0 if zero else sg * flat[tuple(key)])


def h_sign(ctx, n, m):
    """Orbital sign convention: columns only change sign, the largest entry becomes positive, signs reported."""
    c = ctx.real("c", (n, m))
    inpl = ctx.boolean("inplace")
    for nm, f in (("util", util.fix_orbital_sign), ("helper", helper.orbital_sign_convention)):
        w = c.copy()
        out, s = f(w, inplace=inpl)
        ctx.true(nm + " in place only if asked", (out is w) == inpl)
        for j in range(m):
            ctx.true(nm + " sign value", int(s[j]) in (1, -1))
            ctx.eq(nm + " column", out[:, j], int(s[j]) * c[:, j])
            big = [i for i in range(n)]
            # an entry at least as large as every other one is positive
            ok = None
            for i in range(n):
                cond = None
                for k in range(n):
                    a = (out[i, j] * out[i, j] >= out[k, j] * out[k, j])
                    cond = a if cond is None else cond & a
                t = cond & (out[i, j] >= 0)
                ok = t if ok is None else ok | t
            ctx.true(nm + " largest entry positive", ok)
        if not inpl:
            ctx.eq(nm + " input unchanged", w, c)
    (a, b), (sa, sb) = util.fix_orbital_sign((c.copy(), -c), inplace=inpl)
    for j in range(m):
        ctx.eq("u columns a", a[:, j], int(sa[j]) * c[:, j])
        ctx.eq("u columns b", b[:, j], -int(sb[j]) * c[:, j])


def h_attr(ctx):
    x, y, z = ctx.scalar("x"), ctx.scalar("y"), ctx.scalar("z")
    o = types.SimpleNamespace(a=types.SimpleNamespace(b=types.SimpleNamespace(c=x), d=y))
    ctx.eq("get", util.getattr_recursive(o, "a.b.c"), x)
    ctx.eq("get default", util.getattr_recursive(o, "a.q", z), z)
    ctx.raises("missing", lambda: util.getattr_recursive(o, "a.q"), AttributeError)
    which = ctx.choice("attr", ["a.b.c", "a.d", "e"])
    util.setattr_recursive(o, which, z)
    ctx.eq("set", util.getattr_recursive(o, which), z)
    ctx.eq("others kept", [o.a.b.c, o.a.d], [z if which == "a.b.c" else x, z if which == "a.d" else y])
    ctx.eq("getif", util.getif([x, y], 1), y)
    ctx.true("getif none", util.getif(None, 1) is None)
    ctx.eq("getif default", util.getif(None, 1, default=z), z)
    ctx.eq("callif", util.callif(lambda q: q + 1, x), x + 1)
    ctx.true("callif none", util.callif(lambda q: q + 1, None) is None)

    # temporary replacement, with or without an exception in the body
    class K:
        def __init__(self):
            self.v, self.w = x, y

        def m(self):
            return self.v
    k = K()
    exc = ctx.boolean("exception")
    try:
        with util.replace_attr(k, v=z, m=lambda self: self.v + self.w):
            ctx.eq("replaced", [k.v, k.m()], [z, z + y])
            if exc:
                raise KeyError
    except KeyError:
        pass
    ctx.eq("restored", [k.v, k.w, k.m()], [x, y, x])
    try:
        with util.replace_attr(k, v=z, nothere=z):
            pass
    except AttributeError:
        pass
    ctx.eq("restored after failure", k.v, x)


def h_cache(ctx):
    calls = []
    x = ctx.real("x", (2,))

    @util.cache(copy=True)
    def f(i):
        calls.append(i)
        return x * (i + 1)

    @util.cache
    def g(i):
        calls.append(-i)
        return i

    i, j = ctx.int("i", 0, 2), ctx.int("j", 0, 2)
    r = f(i)
    r[0] = r[0] + 1
    ctx.eq("cached copy unaffected by caller", f(i), x * (i + 1))
    ctx.eq("other argument", f(j), x * (j + 1))
    ctx.true("evaluated once per argument", sorted(calls) == sorted({i, j}))
    f.cache_clear()
    f(i)
    ctx.true("cleared", len(calls) == len({i, j}) + 1)


Q, T = ("quick", "thorough"), ("thorough",)
HARNESSES = [
    Harness("einsum", h_einsum, {}, "5 contractions in 25 decorated/bracketed notations; dimensions 2,2,3,1"),
    Harness("einsum_bad", h_einsum_bad, {}, "five malformed notations"),
    Harness("dot", h_dot, {}, "2-4 matrices, any of them spin dependent", maxpaths=1000),
    Harness("stack", h_stack, {}, "three matrices, None at any place"),
    Harness("spinalg", h_spin, {}, "2x2 matrices per spin", maxpaths=1000),
    Harness("attr", h_attr, {}, "attribute paths up to depth 3"),
    Harness("cache", h_cache, {}, "two calls with arguments 0..2"),
    Harness("tril", h_tril, dict(nmax=4, dmax=3), "n<=4, up to 3 axes"),
    Harness("tril_t", h_tril, dict(nmax=6, dmax=4), "n<=6, up to 4 axes", T),
    Harness("sign[2,2]", h_sign, dict(n=2, m=2), "2 AOs, 2 orbitals", maxpaths=2000),
    Harness("sign[3,2]", h_sign, dict(n=3, m=2), "3 AOs, 2 orbitals", T, maxpaths=2000),
    Harness("sign[4,1]", h_sign, dict(n=4, m=1), "4 AOs, 1 orbital", maxpaths=2000),
]
for n in (1, 2, 3, 4):
    HARNESSES.append(Harness("perm%d" % n, h_perm, dict(n=n), "%d items" % n))
HARNESSES.append(Harness("perm5", h_perm, dict(n=5), "5 items", T))
for sub, dims, sym in (("iiaajb", dict(i=3, a=2, j=2, b=2), None), ("iajjbb", dict(i=2, a=2, j=2, b=3), None), ("iiiaaa", dict(i=4, a=3), None),
                       ("iiaajjbb", dict(i=2, a=2, j=2, b=2), None), ("xyxy", dict(x=3, y=2), None), ("iiaa", dict(i=3, a=2), "++--"), ("ia", dict(i=2, a=3), None)):
    HARNESSES.append(Harness("decompress[%s%s]" % (sub, sym or ""), h_decompress, dict(sub=sub, dims=dims, sym=sym), "axes %s" % dims))
