"""numpy as seen by the code under symbolic execution.

Inside `activated()` the name `np`/`numpy` of every vayesta module (and of a few pure-Python
pyscf modules) refers to a proxy.  The proxy differs from numpy only in: (1) float/complex
allocations return object arrays, so that symbolic scalars can be stored; (2) predicates and
LAPACK-backed functions accept object arrays.  Purely concrete arguments are forwarded to the
real numpy functions.
"""
import sys
import types
import contextlib
import functools
import numpy as np
from fractions import Fraction
import scipy
import scipy.linalg

from . import sym as S
from .sym import Sym, SymBool, SymError, has_sym, is_obj, to_float, to_obj


def _floatdtype(dtype):
    if dtype is None:
        return True
    if dtype is object:
        return True
    try:
        return np.dtype(dtype).kind in "fcO"
    except TypeError:
        return False


def _strip(dtype):
    return dtype


class PArr(np.ndarray):
    """Object array standing for a float64 buffer: reinterpreting its bytes keeps the symbolic
    elements; integer metadata stored in it travels as the float64 with the same bits."""
    __array_priority__ = 100

    def view(self, *a, **kw):
        dt = a[0] if a else kw.get("dtype")
        if dt is not None and not (isinstance(dt, type) and issubclass(dt, np.ndarray)):
            k = np.dtype(dt).kind
            if k in "fcO":
                return self
            if k in "iu":
                return np.array([float(x) for x in self.ravel()]).view(dt)
            raise SymError("view %r" % (dt,))
        return super().view(*a, **kw)


class Linalg:
    def __getattr__(self, k):
        f = getattr(np.linalg, k)
        if callable(f) and not isinstance(f, type):
            def g(*a, **kw):
                if any(has_sym(x) for x in a):
                    raise SymError("np.linalg.%s on symbolic data" % k)
                return f(*[to_float(x) if is_obj(x) else x for x in a], **kw)
            return g
        return f

    @staticmethod
    def norm(x, ord=None, axis=None, keepdims=False):
        if ord == 2 and axis is None and getattr(x, "ndim", 0) == 2:
            h = hooked_svd(x)
            if h is not None:
                return h[1][0]
        if not has_sym(x):
            return np.linalg.norm(to_float(x) if is_obj(x) else x, ord=ord, axis=axis, keepdims=keepdims)
        x = np.asarray(x, dtype=object)
        if ord not in (None, 2, "fro"):
            raise SymError("norm ord %r" % (ord,))
        if ord == 2 and x.ndim == 2 and axis is None:
            raise SymError("spectral norm")
        s = (x * np.conj(x))
        s = s.sum() if axis is None else s.sum(axis=axis, keepdims=keepdims)
        if isinstance(s, np.ndarray):
            return np.vectorize(lambda v: Sym.const(v).sqrt(), otypes=[object])(s)
        return Sym.const(s).sqrt()

    @staticmethod
    def eigh(a, *k, **kw):
        if not has_sym(a):
            return np.linalg.eigh(to_float(a) if is_obj(a) else a, *k, **kw)
        if np.ndim(a) > 2:
            es, vs = zip(*[Linalg.eigh(x, *k, **kw) for x in a])
            return np.asarray(es), np.asarray(vs)
        return sym_eigh(a)

    @staticmethod
    def eigvalsh(a, *k, **kw):
        if not has_sym(a):
            return np.linalg.eigvalsh(to_float(a) if is_obj(a) else a, *k, **kw)
        return sym_eigh(a)[0]

    @staticmethod
    def svd(a, full_matrices=True, compute_uv=True, **kw):
        h = hooked_svd(a)
        if h is not None:
            u, s, vt = h
            return (u, s, vt) if compute_uv else s
        if not has_sym(a):
            return np.linalg.svd(to_float(a) if is_obj(a) else a, full_matrices=full_matrices, compute_uv=compute_uv, **kw)
        u, s, vt = sym_svd(a)
        if not compute_uv:
            return s
        if not full_matrices:
            k = len(s)
            return u[:, :k], s, vt[:k]
        return u, s, vt

    @staticmethod
    def inv(a):
        if not has_sym(a):
            return np.linalg.inv(to_float(a))
        return sym_inv(np.asarray(a, dtype=object))

    @staticmethod
    def det(a):
        if not has_sym(a):
            return np.linalg.det(to_float(a))
        return sym_det(np.asarray(a, dtype=object))

    @staticmethod
    def solve(a, b):
        if not has_sym(a) and not has_sym(b):
            return np.linalg.solve(to_float(a), to_float(b))
        if not has_sym(a):
            return np.dot(np.linalg.inv(to_float(a)), b)
        return np.dot(sym_inv(np.asarray(a, dtype=object)), b)

    @staticmethod
    def multi_dot(arrs, out=None):
        arrs = list(arrs)
        if not any(is_obj(a) for a in arrs):
            return np.linalg.multi_dot(arrs, out=out)
        r = functools.reduce(np.dot, arrs)
        if out is not None:
            out[...] = r
            return out
        return r


# Spectral decompositions. LAPACK calls on symbolic matrices are answered from decompositions the harness built itself
# (every symmetric matrix is V diag(e) V^T, so building the input that way loses no generality); the answer is used only
# if the matrix the code passes is identical (normal form) to the prepared one, its negative or a rational multiple.
def prepare_eigh(a, e, v, b=None, typ=1):
    a, e, v = (np.asarray(x, dtype=object) for x in (a, e, v))
    b = None if b is None else np.asarray(b, dtype=object)
    n = len(e)
    bb = np.eye(n, dtype=int).astype(object) if b is None else b
    lhs, rhs = (np.dot(a, v), np.dot(bb, v) * e) if typ == 1 else (np.dot(np.dot(a, bb), v), v * e)
    if not _same(lhs, rhs) or not _same(np.dot(np.conj(v).T, np.dot(bb, v)), np.eye(n, dtype=int).astype(object)):
        raise SymError("prepared eigenvectors do not diagonalise the matrix")
    if b is not None and _same(b, np.eye(n, dtype=int).astype(object)):
        b = None
    S.SP.eig = getattr(S.SP, "eig", []) + [(a, e, v, b, typ)]


def prepare_svd(a, u, s, vt):
    a, u, s, vt = (np.asarray(x, dtype=object) for x in (a, u, s, vt))
    k = len(s)
    if not _same(np.dot(u[:, :k] * s, vt[:k]), a):
        raise SymError("prepared singular vectors do not reproduce the matrix")
    S.SP.svds = getattr(S.SP, "svds", []) + [(a, u, s, vt)]


def hooked_svd(a):
    """thin SVD of a constant matrix computed exactly by the function the harness registered (verified here)"""
    fn = getattr(S.SP, "svdhook", None)
    if fn is None or not is_obj(a) or has_sym(a):
        return None
    a = np.asarray(a, dtype=object)
    c = np.array([Fraction(Sym.const(x).constval()) for x in a.flat], dtype=object).reshape(a.shape)
    u, s, vt = fn(c)
    k = min(a.shape)
    if u.shape != (a.shape[0], k) or vt.shape != (k, a.shape[1]) or not _same(np.dot(u * s, vt), a):
        raise SymError("registered SVD does not reproduce the matrix")
    return np.array(u), np.array(s), np.array(vt)


def _zero(x):
    return not Sym.const(x).d


def _same(a, b):
    return a.shape == b.shape and all(_zero(x - y) for x, y in zip(a.flat, b.flat))


def sort_desc_stable(vals):
    """indices that sort ascending; comparisons fork"""
    idx = []
    for i in range(len(vals)):
        k = len(idx)
        while k > 0 and bool(Sym.const(vals[idx[k - 1]]) > vals[i]):
            k -= 1
        idx.insert(k, i)
    return idx


def sym_eigh(a, b=None, typ=1):
    a = np.asarray(a, dtype=object)
    if b is not None:
        b = np.asarray(b, dtype=object)
        if _same(b, np.eye(b.shape[0], dtype=int).astype(object)):
            b = None
    for pa, e, v, pb, pt in getattr(S.SP, "eig", []):
        if (b is not None and pt != typ) or (pb is None) != (b is None) or (b is not None and not _same(b, pb)) or pa.shape != a.shape:
            continue
        for f in (1, 2, S.coef(0.5)):
            if _same(a, pa * f):
                return np.array(e * f), np.array(v)
            if _same(a, pa * (-f)):
                return np.array((e * (-f))[::-1]), np.array(v[:, ::-1])
    if b is None:
        n = a.shape[0]
        if all(_zero(a[i, j]) for i in range(n) for j in range(n) if i != j):
            idx = sort_desc_stable([a[i, i] for i in range(n)])
            e = np.array([a[i, i] for i in idx], dtype=object)
            return e, np.eye(n, dtype=int).astype(object)[:, idx]
    raise SymError("eigh of an unprepared symbolic matrix of size %d" % a.shape[0])


def sym_svd(a):
    a = np.asarray(a, dtype=object)
    for pa, u, s, vt in getattr(S.SP, "svds", []):
        if _same(a, pa):
            return np.array(u), np.array(s), np.array(vt)
        if _same(a, pa.T):
            return np.array(vt.T), np.array(s), np.array(u.T)
        if _same(a, -pa):
            return -np.array(u), np.array(s), np.array(vt)
    if a.shape == (1, 1):
        x = Sym.const(a[0, 0])
        neg = bool(x < 0)
        one = np.ones((1, 1), dtype=int).astype(object)
        return (-one if neg else one), np.array([-x if neg else x], dtype=object), one.copy()
    raise SymError("svd of an unprepared symbolic matrix %r" % (a.shape,))


def sym_det(a):
    n = a.shape[0]
    if n == 0:
        return 1
    if n == 1:
        return a[0, 0]
    tot = Sym.const(0)
    for j in range(n):
        if isinstance(a[0, j], Sym) and not a[0, j].d:
            continue
        minor = np.delete(np.delete(a, 0, 0), j, 1)
        tot = tot + a[0, j] * sym_det(minor) * (1 if j % 2 == 0 else -1)
    return tot


def sym_inv(a):
    n = a.shape[0]
    if n > 4:
        raise SymError("symbolic inverse of size %d" % n)
    d = Sym.const(sym_det(a)).inverse()
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            minor = np.delete(np.delete(a, j, 0), i, 1)
            out[i, j] = sym_det(minor) * d * (1 if (i + j) % 2 == 0 else -1)
    return out


_EIGH, _SVD, _NORM = scipy.linalg.eigh, scipy.linalg.svd, scipy.linalg.norm


def scipy_eigh(a, b=None, *k, **kw):
    if not (has_sym(a) or (b is not None and has_sym(b))):
        return _EIGH(to_float(a) if is_obj(a) else a, None if b is None else (to_float(b) if is_obj(b) else b), *k, **kw)
    if kw.get("type", 1) not in (1, 2):
        raise SymError("eigh type")
    return sym_eigh(a, b, kw.get("type", 1))


def scipy_svd(a, full_matrices=True, compute_uv=True, **kw):
    if not has_sym(a):
        return _SVD(to_float(a) if is_obj(a) else a, full_matrices=full_matrices, compute_uv=compute_uv, **kw)
    return Linalg.svd(a, full_matrices, compute_uv)


def scipy_norm(a, *k, **kw):
    if has_sym(a):
        return Linalg.norm(a, *k, **kw)
    return _NORM(to_float(a) if is_obj(a) else a, *k, **kw)


class NPProxy(types.ModuleType):
    def __init__(self):
        super().__init__("numpy")
        self.linalg = Linalg()

    def __getattr__(self, k):
        return getattr(np, k)

    # allocation
    def zeros(self, shape, dtype=None, order="C", **kw):
        if _floatdtype(dtype):
            a = np.empty(shape, dtype=object)
            a[...] = 0
            return a
        return np.zeros(shape, dtype=dtype, order=order)

    def empty(self, shape, dtype=None, order="C", **kw):
        return self.zeros(shape, dtype, order)

    def ones(self, shape, dtype=None, order="C", **kw):
        if _floatdtype(dtype):
            a = np.empty(shape, dtype=object)
            a[...] = 1
            return a
        return np.ones(shape, dtype=dtype, order=order)

    def full(self, shape, fill_value, dtype=None, order="C", **kw):
        if dtype is not None and not _floatdtype(dtype):
            return np.full(shape, fill_value, dtype=dtype)
        if dtype is None and isinstance(fill_value, (bool, np.bool_, int, np.integer)):
            return np.full(shape, fill_value)
        a = np.empty(shape, dtype=object)
        a[...] = fill_value
        return a

    def zeros_like(self, a, dtype=None, **kw):
        a = np.asarray(a)
        if dtype is None:
            dtype = a.dtype
        return self.zeros(a.shape, dtype=dtype)

    def empty_like(self, a, dtype=None, **kw):
        return self.zeros_like(a, dtype)

    def ones_like(self, a, dtype=None, **kw):
        a = np.asarray(a)
        if dtype is None:
            dtype = a.dtype
        return self.ones(a.shape, dtype=dtype)

    def full_like(self, a, fill_value, dtype=None, **kw):
        a = np.asarray(a)
        return self.full(a.shape, fill_value, dtype=dtype if dtype is not None else a.dtype)

    def eye(self, N, M=None, k=0, dtype=None, **kw):
        r = np.eye(N, M, k, dtype=int)
        return r.astype(object) if _floatdtype(dtype) else r.astype(dtype)

    def identity(self, n, dtype=None, **kw):
        return self.eye(n, dtype=dtype)

    def _conv(self, f, a, dtype, kw):
        if isinstance(a, PArr):
            return np.array(a, subok=True) if f is np.array else a
        if dtype is not None and _floatdtype(dtype) and is_obj(a):
            dtype = object
        if dtype is not None:
            kw["dtype"] = dtype
        return f(a, **kw)

    def array(self, a, dtype=None, **kw):
        return self._conv(np.array, a, dtype, kw)

    def asarray(self, a, dtype=None, **kw):
        return self._conv(np.asarray, a, dtype, kw)

    def asanyarray(self, a, dtype=None, **kw):
        return self._conv(np.asanyarray, a, dtype, kw)

    def ascontiguousarray(self, a, dtype=None, **kw):
        return self._conv(np.ascontiguousarray, a, dtype, kw)

    def asfortranarray(self, a, dtype=None, **kw):
        return self._conv(np.asfortranarray, a, dtype, kw)

    def require(self, a, dtype=None, requirements=None, **kw):
        return self._conv(np.require, a, dtype, dict(requirements=requirements))

    # predicates
    def isclose(self, a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
        if not (has_sym(a) or has_sym(b)):
            a = to_float(a) if is_obj(a) else a
            b = to_float(b) if is_obj(b) else b
            return np.isclose(a, b, rtol=float(rtol), atol=float(atol), equal_nan=equal_nan)
        a, b = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
        out = np.empty(a.shape, dtype=bool)
        for i in np.ndindex(a.shape):
            out[i] = bool(_close(a[i], b[i], rtol, atol))
        return out if out.ndim else bool(out)

    def allclose(self, a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
        if not (has_sym(a) or has_sym(b)):
            a = to_float(a) if is_obj(a) else a
            b = to_float(b) if is_obj(b) else b
            return np.allclose(a, b, rtol=float(rtol), atol=float(atol))
        a, b = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
        conds = []
        for i in np.ndindex(a.shape):
            c = _close(a[i], b[i], rtol, atol)
            if c is True or c is np.True_:
                continue
            if c is False or c is np.False_:
                return False
            conds.append(c)
        if not conds:
            return True
        return bool(SymBool("and", *conds))

    def array_equal(self, a, b):
        if not (has_sym(a) or has_sym(b)):
            return np.array_equal(to_float(a) if is_obj(a) else a, to_float(b) if is_obj(b) else b)
        a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
        if a.shape != b.shape:
            return False
        return all(bool(Sym.const(x) == y) for x, y in zip(a.flat, b.flat))

    def isnan(self, a, *k, **kw):
        if is_obj(a):
            return np.zeros(np.shape(a), dtype=bool) if np.ndim(a) else False
        return np.isnan(a, *k, **kw)

    def isinf(self, a, *k, **kw):
        if is_obj(a):
            return np.zeros(np.shape(a), dtype=bool) if np.ndim(a) else False
        return np.isinf(a, *k, **kw)

    def isfinite(self, a, *k, **kw):
        if is_obj(a):
            return np.ones(np.shape(a), dtype=bool) if np.ndim(a) else True
        return np.isfinite(a, *k, **kw)

    def iscomplexobj(self, a):
        if is_obj(a):
            return any(isinstance(x, Sym) and bool(x.split()[1].d) or isinstance(x, (complex, np.complexfloating))
                       for x in np.asarray(a, dtype=object).flat)
        return np.iscomplexobj(a)

    def isrealobj(self, a):
        return not self.iscomplexobj(a)

    def real(self, a):
        if is_obj(a):
            return _map(lambda x: Sym.const(x).real, a)
        return np.real(a)

    def imag(self, a):
        if is_obj(a):
            return _map(lambda x: Sym.const(x).imag, a)
        return np.imag(a)

    def sqrt(self, a, *k, **kw):
        if is_obj(a):
            return _map(lambda x: Sym.const(x).sqrt(), a)
        return np.sqrt(a, *k, **kw)

    def exp(self, a, *k, **kw):
        if is_obj(a):
            return _map(lambda x: Sym.const(x).exp(), a)
        return np.exp(a, *k, **kw)

    def log(self, a, *k, **kw):
        if is_obj(a):
            return _map(lambda x: Sym.const(x).log(), a)
        return np.log(a, *k, **kw)

    def sign(self, a, *k, **kw):
        if is_obj(a):
            return _map(lambda x: (1 if x > 0 else (-1 if x < 0 else 0)), a)
        return np.sign(a, *k, **kw)

    def einsum(self, *args, **kw):
        if any(isinstance(a, np.ndarray) and a.dtype == object for a in args):
            kw.pop("out", None)
            r = np.einsum(*args, **{k: v for k, v in kw.items() if k in ("optimize",)})
            return r
        return np.einsum(*args, **kw)


def _map(f, a):
    if isinstance(a, np.ndarray) or isinstance(a, (list, tuple)):
        a = np.asarray(a, dtype=object)
        out = np.empty(a.shape, dtype=object)
        for i, x in np.ndenumerate(a):
            out[i] = f(x)
        return out if out.ndim else out[()]
    return f(a)


def _close(x, y, rtol, atol):
    x, y = Sym.const(x), Sym.const(y)
    d = x - y
    if not d.d:
        return True
    if d.is_const() and y.is_const():
        return abs(complex(d)) <= atol + rtol * abs(complex(y))
    return abs(d) <= (atol if rtol == 0 else Sym.const(atol) + abs(y) * rtol)


PROXY = NPProxy()

EXTRA_MODULES = [
    "pyscf.cc.ccsd_rdm", "pyscf.cc.uccsd_rdm", "pyscf.mp.mp2", "pyscf.mp.ump2",
    "pyscf.cc.ccsd", "pyscf.cc.uccsd", "pyscf.cc.addons", "pyscf.ci.cisd", "pyscf.ci.ucisd",
]


def _pyscf_wrappers():
    """Replacements for compiled pyscf helpers, used only on object arrays (their contract:
    pyscf's documentation of the same function)."""
    import pyscf.lib
    from pyscf import ao2mo
    lib = pyscf.lib

    def unpack_tril(tril, filltriu=lib.HERMITIAN, axis=-1, out=None, _orig=lib.unpack_tril):
        if not is_obj(tril):
            return _orig(tril, filltriu, axis, out)
        tril = np.asarray(tril, dtype=object)
        one = tril.ndim == 1
        if one:
            tril = tril.reshape(1, -1)
            axis = -1
        if axis not in (-1, tril.ndim - 1):
            if axis == 0 and tril.ndim == 2:
                npair = tril.shape[0]
                n = int(round((np.sqrt(8 * npair + 1) - 1) / 2))
                o = np.empty((n, n, tril.shape[1]), dtype=object)
                k = 0
                for i in range(n):
                    for j in range(i + 1):
                        o[i, j] = tril[k]
                        o[j, i] = np.conj(tril[k])
                        k += 1
                return o
            raise SymError("unpack_tril axis")
        npair = tril.shape[-1]
        n = int(round((np.sqrt(8 * npair + 1) - 1) / 2))
        o = np.empty(tril.shape[:-1] + (n, n), dtype=object)
        o[...] = 0
        k = 0
        for i in range(n):
            for j in range(i + 1):
                o[..., i, j] = tril[..., k]
                if i != j:
                    if filltriu == lib.HERMITIAN:
                        o[..., j, i] = np.conj(tril[..., k])
                    elif filltriu == lib.ANTIHERMI:
                        o[..., j, i] = -np.conj(tril[..., k])
                    elif filltriu == lib.SYMMETRIC:
                        o[..., j, i] = tril[..., k]
                k += 1
        return o[0] if one else o

    def pack_tril(mat, axis=-1, out=None, _orig=lib.pack_tril):
        if not is_obj(mat):
            return _orig(mat, axis, out)
        mat = np.asarray(mat, dtype=object)
        if axis == 0 and mat.ndim > 2:
            return mat[np.tril_indices(mat.shape[0])]
        n = mat.shape[-1]
        idx = np.tril_indices(n)
        return mat[..., idx[0], idx[1]]

    def restore(symmetry, eri, norb, tao=None, _orig=ao2mo.restore):
        if not is_obj(eri):
            return _orig(symmetry, eri, norb, tao)
        eri = np.asarray(eri, dtype=object)
        npair = norb * (norb + 1) // 2
        if eri.size == norb ** 4:
            full = eri.reshape(norb, norb, norb, norb)
        elif eri.shape == (npair, npair):
            full = np.empty((norb,) * 4, dtype=object)
            ij = {}
            k = 0
            for i in range(norb):
                for j in range(i + 1):
                    ij[i, j] = ij[j, i] = k
                    k += 1
            for i, j, k, l in np.ndindex(*(norb,) * 4):
                full[i, j, k, l] = eri[ij[i, j], ij[k, l]]
        else:
            raise SymError("restore shape")
        s = str(symmetry)
        if s in ("1", "s1"):
            return full
        if s in ("4", "s4"):
            idx = np.tril_indices(norb)
            return full[idx[0], idx[1]][:, idx[0], idx[1]]
        raise SymError("restore symmetry %s" % s)

    def einsum(subscripts, *ops, _orig=lib.einsum, **kw):
        if any(isinstance(o, np.ndarray) and o.dtype == object for o in ops):
            return np.einsum(subscripts, *ops, optimize=True)
        return _orig(subscripts, *ops, **kw)

    def dot(a, b, alpha=1, c=None, beta=0, _orig=lib.dot):
        if is_obj(a) or is_obj(b):
            r = np.dot(a, b) * alpha
            if c is None or beta == 0:
                return r
            return r + beta * c
        return _orig(a, b, alpha, c, beta)

    def hermi_triu(mat, hermi=1, inplace=True, _orig=lib.hermi_triu):
        if not is_obj(mat):
            return _orig(mat, hermi, inplace)
        m = mat if inplace else mat.copy()
        n = m.shape[0]
        for i in range(n):
            for j in range(i):
                m[j, i] = m[i, j] if hermi != 2 else -m[i, j]
        return m

    def transpose_sum(a, inplace=False, out=None, _orig=lib.transpose_sum):
        if not is_obj(a):
            return _orig(a, inplace, out)
        return a + a.T

    def take_2d(a, idx, idy, out=None, _orig=lib.take_2d):
        if not is_obj(a):
            return _orig(a, idx, idy, out)
        r = np.asarray(a)[np.ix_(idx, idy)]
        if out is not None:
            out[...] = r.reshape(out.shape)
            return out
        return r

    def tag_array(a, _orig=lib.tag_array, **kw):
        if isinstance(a, np.ndarray) and a.dtype == object:
            t = np.asarray(a).view(lib.NPArrayWithTag)
            t.__dict__.update(kw)
            return t
        return _orig(a, **kw)

    import pyscf.fci
    from . import fock

    def _ne(nelec):
        return (nelec - nelec // 2, nelec // 2) if isinstance(nelec, (int, np.integer)) else tuple(nelec)

    d1, du = pyscf.fci.direct_spin1, pyscf.fci.direct_uhf

    def make_rdm1s(ci, norb, nelec, link_index=None, _orig=d1.make_rdm1s):
        return fock.rdm1s(ci, norb, _ne(nelec)) if is_obj(ci) else _orig(ci, norb, nelec, link_index)

    def make_rdm1(ci, norb, nelec, link_index=None, _orig=d1.make_rdm1):
        if not is_obj(ci):
            return _orig(ci, norb, nelec, link_index)
        a, b = fock.rdm1s(ci, norb, _ne(nelec))
        return a + b

    def make_rdm12s(ci, norb, nelec, link_index=None, reorder=True, _orig=d1.make_rdm12s):
        return fock.rdm12s(ci, norb, _ne(nelec)) if is_obj(ci) else _orig(ci, norb, nelec, link_index, reorder)

    def make_rdm12(ci, norb, nelec, link_index=None, reorder=True, _orig=d1.make_rdm12):
        if not is_obj(ci):
            return _orig(ci, norb, nelec, link_index, reorder)
        (a, b), (aa, ab, bb) = fock.rdm12s(ci, norb, _ne(nelec))
        return a + b, aa + ab + ab.transpose(2, 3, 0, 1) + bb

    def contract_1e(f, ci, norb, nelec, link_index=None, _orig=d1.contract_1e):
        if is_obj(ci) or is_obj(f):
            return fock.contract_1e(f, ci, norb, _ne(nelec))
        return _orig(f, ci, norb, nelec, link_index)

    def contract_1e_uhf(f, ci, norb, nelec, link_index=None, _orig=du.contract_1e):
        if is_obj(ci) or is_obj(f):
            return fock.contract_1e(f[0], ci, norb, _ne(nelec), fb=f[1])
        return _orig(f, ci, norb, nelec, link_index)

    FCI_PATCH[:] = [(d1, "make_rdm1s", make_rdm1s), (d1, "make_rdm1", make_rdm1), (d1, "make_rdm12s", make_rdm12s),
                    (d1, "make_rdm12", make_rdm12), (d1, "contract_1e", contract_1e), (du, "contract_1e", contract_1e_uhf),
                    (du, "make_rdm1s", make_rdm1s), (du, "make_rdm12s", make_rdm12s)]
    mods = {}
    for f in (unpack_tril, pack_tril, einsum, dot, hermi_triu, transpose_sum, take_2d, tag_array):
        mods[f.__name__] = f
    mods["H5TmpFile"] = FakeH5
    return lib, mods, ao2mo, restore


FCI_PATCH = []


class FakeSet:
    """In-memory stand-in for an HDF5 dataset holding symbolic values (reads and writes copy)."""

    def __init__(self, a):
        self.a = a
        self.shape, self.dtype, self.ndim, self.size = a.shape, a.dtype, a.ndim, a.size

    def __getitem__(self, k):
        r = self.a[k]
        return r.copy() if isinstance(r, np.ndarray) else r

    def __setitem__(self, k, v):
        self.a[k] = v.a if isinstance(v, FakeSet) else v

    def __array__(self, dtype=None, copy=None):
        return self.a.copy()

    def __len__(self):
        return len(self.a)


class FakeH5:
    def __init__(self, *a, **kw):
        self.sets = {}

    def create_dataset(self, name, shape=None, dtype=None, data=None, **kw):
        if data is not None:
            a = np.array(data, dtype=object)
        else:
            a = np.empty(shape, dtype=object)
            a[...] = 0
        self.sets[name] = FakeSet(a)
        return self.sets[name]

    def create_group(self, name):
        self.sets[name] = FakeH5()
        return self.sets[name]

    def __setitem__(self, k, v):
        self.sets[k] = FakeSet(np.array(v.a if isinstance(v, FakeSet) else v, dtype=object))

    def __getitem__(self, k):
        return self.sets[k]

    def __contains__(self, k):
        return k in self.sets

    def __delitem__(self, k):
        del self.sets[k]

    def keys(self):
        return self.sets.keys()

    def close(self):
        pass

    flush = close


@contextlib.contextmanager
def activated(extra=()):
    saved = []
    lib, mods, ao2mo, restore = _pyscf_wrappers()
    try:
        for name, mod in list(sys.modules.items()):
            if mod is None:
                continue
            if name == "vayesta" or name.startswith("vayesta.") or name in EXTRA_MODULES or name in extra:
                for k in ("np", "numpy"):
                    if mod.__dict__.get(k) is np:
                        saved.append((mod, k, np))
                        setattr(mod, k, PROXY)
                if mod.__dict__.get("einsum") is lib.einsum:
                    saved.append((mod, "einsum", lib.einsum))
                    setattr(mod, "einsum", mods["einsum"])
        for k, f in mods.items():
            saved.append((lib, k, getattr(lib, k)))
            setattr(lib, k, f)
            import pyscf.lib.numpy_helper as nh
            if hasattr(nh, k):
                saved.append((nh, k, getattr(nh, k)))
                setattr(nh, k, f)
        for mod, k, f in FCI_PATCH:
            saved.append((mod, k, getattr(mod, k)))
            setattr(mod, k, f)
        for k, f in (("eigh", scipy_eigh), ("svd", scipy_svd), ("inv", Linalg.inv), ("norm", scipy_norm)):
            saved.append((scipy.linalg, k, getattr(scipy.linalg, k)))
            setattr(scipy.linalg, k, f)
        saved.append((ao2mo, "restore", ao2mo.restore))
        ao2mo.restore = restore
        yield
    finally:
        for mod, k, v in reversed(saved):
            setattr(mod, k, v)
