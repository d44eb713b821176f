"""C25: compiled integral-transformation kernels. clang compiles the repository's C sources to LLVM IR, which vsym.llvm
executes with symbolic matrix elements (and, in the k-point kernels, symbolic phases), simulating OpenMP teams of 1 to 3
threads. Oracle: the documented contraction, written with einsum. Every access is bounds checked, unordered conflicting
accesses of two threads are reported as races, and a counterexample is replayed on the kernels compiled by gcc."""
import os
import ctypes
import subprocess
import tempfile
import atexit
import shutil
import functools
import itertools
import numpy as np
from vsym import llvm, harness
from vsym.sym import SymError, imag_unit
from vsym.harness import Harness
from checks.common import *

META = dict(assumptions=["double arithmetic is exact real arithmetic; cblas_zgemm computes its definition, reads exactly its operands and does not read C when beta is zero",
                         "allocation succeeds", "the libraries 'df' and 'ewf', which the build does not compile, are outside"])
SRC = os.path.join(harness.REPO, "vayesta/libs/core/src")
FILES = ("j3c_kao2gmo", "j3c_jk")
SIG = {
    "transpose_102": "iiizz", "j3c_jk": "iiijzzbbzz", "j3c_k2gamma": "iiijzzbdd", "j3c_kao2gmo": "iiiiijjzzzzzz",
    "ao2mo_cderi": "iiiizzzz",
}


@functools.lru_cache(None)
def module():
    return llvm.Module([llvm.compile_ir(os.path.join(SRC, f + ".c")) for f in FILES])


@functools.lru_cache(None)
def compiled():
    d = tempfile.mkdtemp(prefix="vsymso")
    atexit.register(shutil.rmtree, d, True)
    so = os.path.join(d, "k.so")
    lib = next((p for p in ("/lib/x86_64-linux-gnu/libopenblas.so.0", "/usr/lib/x86_64-linux-gnu/libopenblas.so.0") if os.path.exists(p)), "-lblas")
    subprocess.run(["gcc", "-O2", "-fopenmp", "-fPIC", "-shared", "-w", "-o", so] + [os.path.join(SRC, f + ".c") for f in FILES] + [lib, "-lm"], check=True)
    return ctypes.CDLL(so)


PAD = 64


def native(ctx, fn, args, threads):
    """gcc-compiled kernel on padded buffers (NaN outside the arguments): -> contents of every buffer afterwards"""
    lib = compiled()
    bufs, cargs = [], []
    for kind, a in zip(SIG[fn], args):
        if kind == "i":
            cargs.append(ctypes.c_int64(a))
        elif kind == "b":
            cargs.append(ctypes.c_bool(a))
        elif a is None:
            cargs.append(ctypes.c_void_p(None))
        else:
            dt = dict(z=complex, d=float, j=np.int64)[kind]
            n = int(np.size(a))
            b = np.full(n + 2 * PAD, -7777 if kind == "j" else np.nan, dtype=dt)
            b[PAD:PAD + n] = np.asarray(a).ravel()
            bufs.append((b, n))
            cargs.append(ctypes.c_void_p(b.ctypes.data + PAD * b.itemsize))
            continue
        if kind not in "ib":
            bufs.append((None, 0))
    os.environ["OMP_NUM_THREADS"] = str(threads)
    f = getattr(lib, fn)
    f.restype = ctypes.c_int64
    ierr = f(*cargs)
    out = []
    for b, n in bufs:
        if b is None:
            out.append(None)
            continue
        edge = np.concatenate([b[:PAD], b[PAD + n:]])
        ctx.true("compiled kernel writes only its arguments", bool(np.all(edge == -7777) if b.dtype == np.int64 else np.all(np.isnan(edge))))
        out.append(b[PAD:PAD + n])
    return ierr, out


def kernel(ctx, fn, args, threads=1, order=None):
    """Executes the kernel; -> list of arrays (None for NULL) holding the buffers' final contents."""
    mach = llvm.Machine(module(), threads=threads, order=order,
                        fresh=(lambda k: ctx.scalar("uninit%d" % k)) if ctx.symbolic else None)
    cargs, ptrs = [], []
    for k, (kind, a) in enumerate(zip(SIG[fn], args)):
        if kind in "ib":
            cargs.append(int(a))
            continue
        if a is None:
            p = llvm.NULL
        elif kind == "z":
            p = mach.cbuf(a, "argument %d" % k)
        else:
            p = mach.buf(np.asarray(a, dtype=object).ravel(), "argument %d" % k)
        cargs.append(p)
        ptrs.append((p, kind, np.shape(a) if a is not None else None))
    try:
        ierr = mach.call(fn, *cargs)
    except llvm.MemFault as e:
        ctx.true("memory and synchronisation are used correctly: %s" % e, False)
        return None
    harness._TRACE.update("libs/core/src: %s (LLVM IR)" % f for f in mach.called)
    ctx.true("no data race%s" % (": " + mach.races[0] if mach.races else ""), not mach.races)
    ctx.true("every allocation is released", not mach.leaks)
    ctx.true("success is reported", ierr == 0)
    out = []
    for p, kind, shp in ptrs:
        if shp is None:
            out.append(None)
        elif kind == "z":
            out.append(mach.cread(p, shp, ctx.symbolic))
        else:
            o = mach.read(p, shp)
            out.append(o if ctx.symbolic else o.astype(float))
    if not ctx.symbolic:
        _, nat = native(ctx, fn, args, threads)
        for a, b, (_, kind, _) in zip(out, nat, ptrs):
            if a is not None and kind != "j":
                ctx.eq("compiled kernel", b, np.asarray(a).ravel())
    return out


def zeros(*shape):
    return np.zeros(shape, dtype=object)


def cj(a):
    return np.conj(a)


def orders(ctx, threads):
    return ctx.choice("schedule", list(itertools.permutations(range(threads))))


def h_transpose(ctx, dims):
    na, nb, nc = dims
    a = ctx.cplx("a", dims)
    out = kernel(ctx, "transpose_102", [na, nb, nc, a, zeros(nb, na, nc)])
    if out:
        ctx.eq("transposed", out[1], a.transpose(1, 0, 2))
        ctx.eq("input", out[0], a)


def herm(ctx, name, n):
    a = zeros(n, n) if ctx.symbolic else np.zeros((n, n), dtype=complex)
    I = imag_unit() if ctx.symbolic else 1j
    for i in range(n):
        a[i, i] = ctx.scalar("%s_%d" % (name, i))
        for j in range(i):
            x, y = ctx.scalar("%sr_%d%d" % (name, i, j)), ctx.scalar("%si_%d%d" % (name, i, j))
            a[i, j], a[j, i] = x + I * y, x - I * y
    return a


def h_jk(ctx, nk, nao, naux, sl, wj, wk, threads):
    """Coulomb and exchange; 3c-integrals with (L|ki p,kj q) = (L|kj q,ki p)* as density fitting gives them."""
    cd = zeros(nk, nk, naux, nao, nao) if ctx.symbolic else np.zeros((nk, nk, naux, nao, nao), dtype=complex)
    for i in range(nk):
        for l in range(naux):
            cd[i, i, l] = herm(ctx, "c%d_%d" % (i, l), nao)
            for j in range(i):
                m = ctx.cplx("c%d%d_%d" % (i, j, l), (nao, nao))
                cd[i, j, l], cd[j, i, l] = m, cj(m.T)
    dm = np.asarray([herm(ctx, "d%d" % i, nao) for i in range(nk)])
    out = kernel(ctx, "j3c_jk", [nk, nao, naux, list(sl), cd, dm, wj, wk, zeros(nk, nao, nao), zeros(nk, nao, nao)], threads, orders(ctx, threads))
    if not out:
        return
    c = cd[:, :, sl[0]:sl[1]]
    vj = vk = zeros(nk, nao, nao) if ctx.symbolic else np.zeros((nk, nao, nao))
    if wj:
        rho = sum(np.einsum("lpq,qp->l", c[i, i], dm[i]) for i in range(nk))
        vj = np.asarray([np.einsum("l,lrs->rs", rho, c[j, j]) for j in range(nk)]) / nk
    if wk:
        vk = np.asarray([sum(np.einsum("lrp,pq,lqs->rs", c[j, i], dm[i], c[i, j]) for i in range(nk)) for j in range(nk)]) / nk
    ctx.eq("Coulomb", out[3], vj)
    ctx.eq("exchange", out[4], vk)
    ctx.eq("inputs untouched", out[1], cd)
    ctx.eq("inputs untouched", out[2], dm)


def h_ao2mo(ctx, nao, n1, n2, naux, threads):
    c1, c2, cd = ctx.cplx("x", (nao, n1)), ctx.cplx("y", (nao, n2)), ctx.cplx("c", (naux, nao, nao))
    out = kernel(ctx, "ao2mo_cderi", [nao, n1, n2, naux, c1, c2, cd, zeros(naux, n1, n2)], threads, orders(ctx, threads))
    if out:
        ctx.eq("transformed", out[3], np.einsum("lab,ai,bj->lij", cd, c1, c2))
        ctx.eq("inputs untouched", out[:3], [c1, c2, cd])


def conserv(nk):
    return np.array([[(i - j) % nk for j in range(nk)] for i in range(nk)])


def h_kao2gmo(ctx, nk, nao, nocc, nvir, naux, uniq, oo, vv, threads):
    kc = conserv(nk)
    co, cv = ctx.cplx("o", (nk, nao, nocc)), ctx.cplx("v", (nk, nao, nvir))
    full = zeros(nk, nk, naux, nao, nao) if ctx.symbolic else np.zeros((nk, nk, naux, nao, nao), dtype=complex)
    if uniq:
        # pairs kj > ki are stored once, as (kj,ki), and referred to by a negative index
        kmap, store = np.zeros((nk, nk), dtype=int), []
        for i in range(nk):
            for j in range(i + 1):
                m = ctx.cplx("c%d%d" % (i, j), (naux, nao, nao))
                kmap[i, j] = len(store)
                kmap[j, i] = -len(store) if i != j else len(store)
                store.append(m)
                full[i, j] = m
                if i != j:
                    full[j, i] = cj(m.transpose(0, 2, 1))
        j3c = np.asarray(store)
    else:
        kmap, j3c = None, ctx.cplx("c", (nk * nk, naux, nao, nao))
        full[:] = j3c.reshape(nk, nk, naux, nao, nao)
    shapes = [(nocc, nvir), (nocc, nocc) if oo else None, (nvir, nvir) if vv else None]
    outs = [zeros(nk, naux, *s) if s else None for s in shapes]
    out = kernel(ctx, "j3c_kao2gmo", [nk, nao, nocc, nvir, naux, list(kc.ravel()), list(kmap.ravel()) if uniq else None, co, cv, j3c] + outs, threads, orders(ctx, threads))
    if not out:
        return
    for lab, got, s, (x, y) in zip(("(L|ov)", "(L|oo)", "(L|vv)"), out[-3:], shapes, ((co, cv), (co, co), (cv, cv))):
        if s is None:
            continue
        ref = zeros(nk, naux, *s) if ctx.symbolic else np.zeros((nk, naux) + s, dtype=complex)
        for i in range(nk):
            for j in range(nk):
                ref[kc[i, j]] = ref[kc[i, j]] + np.einsum("lab,ai,bj->lij", full[i, j], cj(x[i]), y[j])
        ctx.eq(lab, got, ref)


def h_k2gamma(ctx, nk, nao, naux, compact, cplx, threads):
    """Phases form a symmetric matrix, as for the (k,R) phases of an unshifted mesh."""
    kc = conserv(nk)
    if cplx:
        ph, j3c = ctx.cplx("p", (nk, nk)), ctx.cplx("c", (naux, nao, nao, nk, nk))
    else:
        ph, j3c = ctx.real("p", (nk, nk)), ctx.real("c", (naux, nao, nao, nk, nk))
    ph = np.asarray([[ph[max(i, j), min(i, j)] for j in range(nk)] for i in range(nk)])
    n = nk * nao
    ncomp = n * (n + 1) // 2
    res = zeros(nk * naux, ncomp) if compact else zeros(nk * naux, n, n)
    out = kernel(ctx, "j3c_k2gamma", [nk, nao, naux, list(kc.ravel()), ph, j3c, compact, res, zeros(1)], threads, orders(ctx, threads))
    if not out:
        return
    ref = zeros(nk, naux, nk, nao, nk, nao) if ctx.symbolic else np.zeros((nk, naux, nk, nao, nk, nao), dtype=complex)
    for ki in range(nk):
        for kj in range(nk):
            ref = ref + np.einsum("r,lab,i,j->rliajb", ph[kc[ki, kj]], j3c[..., ki, kj], ph[ki], cj(ph[kj]))
    ref = ref.reshape(nk * naux, n, n)
    re_ = (ref + cj(ref)) / 2
    if compact:
        re_ = np.asarray([[x[i, j] for i in range(n) for j in range(i + 1)] for x in re_])
    ctx.eq("real part", out[3], re_)
    if cplx:
        I = imag_unit() if ctx.symbolic else 1j
        im = (ref - cj(ref)) / (2 * I)
        big = out[4][0]
        if not ctx.symbolic:
            ctx.true("largest imaginary part", abs(big - abs(im).max()) < 1e-9)
        else:
            for x in im.ravel():
                x = x.real if hasattr(x, "real") else x
                ctx.true("no imaginary part exceeds the reported one", x <= big)
                ctx.true("no imaginary part exceeds the reported one", -x <= big)


HARNESSES = []


def add(name, fn, tiers=("quick", "thorough"), **p):
    HARNESSES.append(Harness(name, fn, p, ", ".join("%s=%s" % i for i in p.items()), tiers=tiers))


T = ("thorough",)
add("transpose", h_transpose, dims=(2, 3, 2))
add("transpose_b", h_transpose, dims=(3, 1, 2))
add("jk", h_jk, nk=2, nao=2, naux=2, sl=(0, 2), wj=True, wk=True, threads=1)
add("jk_slice_threads", h_jk, nk=2, nao=2, naux=3, sl=(1, 3), wj=True, wk=True, threads=2)
add("jk_3k", h_jk, nk=3, nao=1, naux=2, sl=(0, 1), wj=True, wk=True, threads=2)
add("jk_only_j", h_jk, nk=2, nao=2, naux=1, sl=(0, 1), wj=True, wk=False, threads=3)
add("jk_only_k", h_jk, nk=2, nao=1, naux=2, sl=(0, 2), wj=False, wk=True, threads=3)
add("jk_none", h_jk, nk=1, nao=1, naux=1, sl=(0, 1), wj=False, wk=False, threads=1)
add("jk_large", h_jk, T, nk=3, nao=2, naux=2, sl=(0, 2), wj=True, wk=True, threads=3)
for n1, n2 in ((1, 2), (2, 1), (2, 2), (3, 2), (1, 3)):
    add("ao2mo_%d%d" % (n1, n2), h_ao2mo, nao=2, n1=n1, n2=n2, naux=2, threads=2)
add("ao2mo_more_mos", h_ao2mo, nao=1, n1=3, n2=2, naux=3, threads=1)
add("ao2mo_large", h_ao2mo, T, nao=3, n1=2, n2=3, naux=4, threads=3)
for no, nv, oo, vv in ((1, 2, 1, 1), (2, 1, 0, 0), (2, 1, 1, 0), (2, 1, 0, 1), (1, 2, 0, 1)):
    for u in (0, 1):
        add("kao2gmo_%d%d_%d%d_u%d" % (no, nv, oo, vv, u), h_kao2gmo, nk=2, nao=2, nocc=no, nvir=nv, naux=2, uniq=u, oo=oo, vv=vv, threads=1 + (no + vv + u) % 2)
add("kao2gmo_3k", h_kao2gmo, nk=3, nao=1, nocc=1, nvir=2, naux=2, uniq=1, oo=1, vv=1, threads=2)
add("kao2gmo_large", h_kao2gmo, T, nk=3, nao=2, nocc=2, nvir=3, naux=3, uniq=1, oo=1, vv=1, threads=3)
for c in (0, 1):
    add("k2gamma_%d" % c, h_k2gamma, nk=2, nao=2, naux=2, compact=c, cplx=0, threads=1)
    add("k2gamma_3k_%d" % c, h_k2gamma, nk=3, nao=1, naux=2, compact=c, cplx=0, threads=2)
add("k2gamma_imag", h_k2gamma, T, nk=1, nao=2, naux=1, compact=0, cplx=1, threads=1)
add("k2gamma_imag_threads", h_k2gamma, nk=1, nao=1, naux=2, compact=0, cplx=1, threads=2)
