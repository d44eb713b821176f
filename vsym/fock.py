"""Independent oracle: second quantisation on determinants, with the string/sign convention of
pyscf's FCI vectors (alpha and beta strings, excitation operators a^+_p a_q within one spin)."""
import itertools
import math
from fractions import Fraction
import numpy as np
from pyscf.fci import cistring


def strings(norb, nelec):
    return [int(x) for x in cistring.make_strings(range(norb), nelec)]


def exc(string, p, q):
    """a^+_p a_q |string>: (sign, new string) or None"""
    if not (string >> q) & 1:
        return None
    s = string & ~(1 << q)
    if (s >> p) & 1:
        return None
    lo, hi = min(p, q), max(p, q)
    n = bin(s & (((1 << hi) - 1) & ~((1 << (lo + 1)) - 1))).count("1")
    return (-1 if n % 2 else 1), s | (1 << p)


def apply_exc(state, p, q, spin, c=1):
    out = {}
    for (a, b), v in state.items():
        r = exc(a if spin == 0 else b, p, q)
        if r is None:
            continue
        sg, s = r
        k = (s, b) if spin == 0 else (a, s)
        w = v * c if sg > 0 else v * (-c)
        out[k] = out[k] + w if k in out else w
    return out


def add(x, y):
    out = dict(x)
    for k, v in y.items():
        out[k] = out[k] + v if k in out else v
    return out


def scale(x, c):
    return {k: v * c for k, v in x.items()}


def nz(v):
    return not ((isinstance(v, (int, float)) and v == 0) or (hasattr(v, "d") and not v.d))


def apply_T(state, ops):
    """ops: list of (coefficient, [(p, q, spin), ...])"""
    out = {}
    for c, seq in ops:
        if not nz(c):
            continue
        s = state
        for p, q, spin in seq:
            s = apply_exc(s, p, q, spin)
            if not s:
                break
        if s:
            out = add(out, scale(s, c))
    return out


def exp_T(ref, ops, order):
    out = dict(ref)
    term = dict(ref)
    for n in range(1, order + 1):
        term = scale(apply_T(term, ops), Fraction(1, n))
        if not term:
            break
        out = add(out, term)
    return out


def reference(nocc):
    return {((1 << nocc[0]) - 1, (1 << nocc[1]) - 1): 1}


def to_ci(state, norb, nelec, sym):
    sa, sb = strings(norb, nelec[0]), strings(norb, nelec[1])
    ci = np.empty((len(sa), len(sb)), dtype=object)
    for i, a in enumerate(sa):
        for j, b in enumerate(sb):
            ci[i, j] = state.get((a, b), 0)
    return ci if sym else ci.astype(float)


def ops_uhf(t1, t2, nocc, t3=None, t4=None):
    """Spin-orbital cluster operator from unrestricted amplitudes.
    t1=(a,b); t2=(aa,ab,bb); t3=(aaa,aba,bab,bbb); t4=(aaaa,aaab,abab,abbb,bbbb)"""
    ops = []
    spins = {1: ["a", "b"], 2: ["aa", "ab", "bb"], 3: ["aaa", "aba", "bab", "bbb"],
             4: ["aaaa", "aaab", "abab", "abbb", "bbbb"]}
    for n, t in ((1, t1), (2, t2), (3, t3), (4, t4)):
        if t is None:
            continue
        for sp, arr in zip(spins[n], t):
            if arr is None:
                continue
            pos = {s: [k for k in range(n) if sp[k] == s] for s in "ab"}
            no = [arr.shape[k] for k in range(n)]
            nv = [arr.shape[n + k] for k in range(n)]
            # unique index sets: strictly ordered within each spin
            def ordered(idx):
                return all(idx[p[k]] < idx[p[k + 1]] for p in pos.values() for k in range(len(p) - 1))
            for I in itertools.product(*[range(x) for x in no]):
                if not ordered(I):
                    continue
                for A in itertools.product(*[range(x) for x in nv]):
                    if not ordered(A):
                        continue
                    seq = [(nocc[0 if sp[k] == "a" else 1] + A[k], I[k], 0 if sp[k] == "a" else 1) for k in range(n)]
                    ops.append((arr[I + A], seq))
    return ops


def ops_rhf(t1, t2, nocc, t3=None, t4=None):
    """Spin-adapted cluster operator: sum_n 1/n! t_{ij..}^{ab..} E_ai E_bj ..."""
    ops = []
    for n, t in ((1, t1), (2, t2), (3, t3), (4, t4)):
        if t is None:
            continue
        f = Fraction(1, math.factorial(n))
        for idx in np.ndindex(*t.shape):
            I, A = idx[:n], idx[n:]
            if not nz(t[idx]):
                continue
            for sp in itertools.product((0, 1), repeat=n):
                ops.append((t[idx] * f, [(nocc + A[k], I[k], sp[k]) for k in range(n)]))
    return ops


# ---- density matrices of an FCI vector (contract of pyscf.fci.direct_spin1 / direct_uhf)
def ci_state(ci, norb, nelec):
    sa, sb = strings(norb, nelec[0]), strings(norb, nelec[1])
    ci = np.asarray(ci, dtype=object).reshape(len(sa), len(sb))
    return {(a, b): ci[i, j] for i, a in enumerate(sa) for j, b in enumerate(sb) if nz(ci[i, j])}


def inner(x, y):
    t = 0
    for k, v in x.items():
        if k in y:
            t = t + v * y[k]
    return t


def rdm1s(ci, norb, nelec):
    st = ci_state(ci, norb, nelec)
    out = []
    for s in (0, 1):
        d = np.empty((norb, norb), dtype=object)
        for p in range(norb):
            for q in range(norb):
                # pyscf: dm1[p,q] = <q^+ p>
                d[p, q] = inner(st, apply_exc(st, q, p, s))
        out.append(d)
    return tuple(out)


def rdm12s(ci, norb, nelec):
    """dm2[p,q,r,s] = <p^+ r^+ s q> (reordered), spin blocks aa, ab, bb"""
    st = ci_state(ci, norb, nelec)
    d1 = rdm1s(ci, norb, nelec)
    E = [[[apply_exc(st, p, q, s) for q in range(norb)] for p in range(norb)] for s in (0, 1)]
    blocks = []
    for s1, s2 in ((0, 0), (0, 1), (1, 1)):
        d = np.empty((norb,) * 4, dtype=object)
        for p, q, r, s in np.ndindex(*(norb,) * 4):
            # <E_pq E_rs> - delta_qr <E_ps>; <st|E_pq E_rs|st> = (E_qp st . E_rs st)
            v = inner(E[s1][q][p], E[s2][r][s])
            if s1 == s2 and q == r:
                v = v - inner(st, E[s1][p][s])
            d[p, q, r, s] = v
        blocks.append(d)
    return d1, tuple(blocks)


def contract_1e(f, ci, norb, nelec, fb=None):
    st = ci_state(ci, norb, nelec)
    out = {}
    for s, h in ((0, f), (1, f if fb is None else fb)):
        for p in range(norb):
            for q in range(norb):
                if nz(h[p, q]):
                    out = add(out, scale(apply_exc(st, p, q, s), h[p, q]))
    sa, sb = strings(norb, nelec[0]), strings(norb, nelec[1])
    r = np.empty((len(sa), len(sb)), dtype=object)
    for i, a in enumerate(sa):
        for j, b in enumerate(sb):
            r[i, j] = out.get((a, b), 0)
    return r.reshape(np.shape(ci))


# ---- coupled-cluster expectation values: <0|(1+L) e^-T  O  e^T|0>
def bra_lambda(t1, t2, l1, l2, nocc):
    """The bra <0|(1+L) e^-T as a determinant vector (unrestricted amplitudes, blocks aa,ab,bb)."""
    tops = ops_uhf(t1, t2, nocc)
    dex = lambda ops, sg: [(c * sg, [(q, p, s) for p, q, s in reversed(seq)]) for c, seq in ops]
    ref = reference(nocc)
    left = add(ref, apply_T(ref, ops_uhf(l1, l2, nocc)))
    # (e^-T)^dagger
    td = dex(tops, -1)
    out, term = dict(left), dict(left)
    for n in range(1, 5):
        term = scale(apply_T(term, td), Fraction(1, n))
        if not term:
            break
        out = add(out, term)
    return out


def cc_rdms(t1, t2, l1, l2, nocc, norb, two=True):
    """(dm1a, dm1b), (aa, ab, bb): <p^+ q> and <p^+ r^+ s q>, not symmetrised.
    norb: orbitals per spin (a pair)."""
    ket = exp_T(reference(nocc), ops_uhf(t1, t2, nocc), 4)
    bra = bra_lambda(t1, t2, l1, l2, nocc)
    E = [[[apply_exc(ket, p, q, s) for q in range(norb[s])] for p in range(norb[s])] for s in (0, 1)]
    B = [[[apply_exc(bra, q, p, s) for q in range(norb[s])] for p in range(norb[s])] for s in (0, 1)]
    d1 = []
    for s in (0, 1):
        d = np.empty((norb[s],) * 2, dtype=object)
        for p, q in np.ndindex(*d.shape):
            d[p, q] = inner(bra, E[s][p][q])
        d1.append(d)
    if not two:
        return d1, None
    d2 = []
    for s1, s2 in ((0, 0), (0, 1), (1, 1)):
        d = np.empty((norb[s1],) * 2 + (norb[s2],) * 2, dtype=object)
        for p, q, r, s in np.ndindex(*d.shape):
            v = inner(B[s1][p][q], E[s2][r][s])
            if s1 == s2 and q == r:
                v = v - d1[s1][p, s]
            d[p, q, r, s] = v
        d2.append(d)
    return d1, d2
