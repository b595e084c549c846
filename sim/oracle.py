"""Independent oracles: small executable definitions, written without lie_nn's algorithms."""
import itertools
import math
from fractions import Fraction

import numpy as np
import scipy.linalg as _sl

from . import specs

_svd = getattr(np.linalg.svd, "__wrapped__", np.linalg.svd)
_inv = getattr(np.linalg.inv, "__wrapped__", np.linalg.inv)
_expm = getattr(_sl.expm, "__wrapped__", _sl.expm)
_eigh = getattr(np.linalg.eigh, "__wrapped__", np.linalg.eigh)
_norm = getattr(np.linalg.norm, "__wrapped__", np.linalg.norm)


def scale(*arrs):
    m = 1.0
    for a in arrs:
        a = np.asarray(a)
        if a.size:
            m = max(m, float(np.max(np.abs(a))))
    return m


def close(a, b, tol=1e-7, what="", out=None, sc=None):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        out.append(f"{what}: shape {a.shape}, expected {b.shape}")
        return False
    if a.size == 0:
        return True
    if not np.isfinite(a).all():
        out.append(f"{what}: not finite")
        return False
    d = float(np.max(np.abs(a - b)))
    if d > tol * (sc or scale(a, b)):
        out.append(f"{what}: off by {d:.3g}")
        return False
    return True


def rank(M, tol=1e-7):
    M = np.asarray(M)
    if M.size == 0:
        return 0
    s = _svd(M, compute_uv=False)
    return int((s > tol * max(1.0, s[0])).sum())


def nullity(M, n, tol=1e-7):
    """Dimension of {x: M x = 0}; also the gap between kept and dropped singular values."""
    if M.size == 0:
        return n, np.inf
    s = _svd(M, compute_uv=False)
    s = np.concatenate([s, np.zeros(max(0, n - len(s)))])
    t = tol * max(1.0, s[0] if len(s) else 1.0)
    k = int((s[:n] <= t).sum())
    kept = s[:n][s[:n] > t]
    return k, (float(kept.min()) if len(kept) else np.inf)


def gens(X, H):
    X, H = np.asarray(X), np.asarray(H)
    if X.shape[0] == 0:
        return H
    if H.shape[0] == 0:
        return X
    return np.concatenate([X, H])


def hom_matrix(Y1, Y2):
    """Rows: equations for Q (d2 x d1, row-major) with Y2 Q = Q Y1."""
    d1, d2 = Y1.shape[-1], Y2.shape[-1]
    if len(Y1) == 0:
        return np.zeros((0, d1 * d2))
    return np.concatenate([np.kron(b, np.eye(d1)) - np.kron(np.eye(d2), a.T) for a, b in zip(Y1, Y2)])


def hom_dim(Y1, Y2):
    d1, d2 = Y1.shape[-1], Y2.shape[-1]
    M = hom_matrix(Y1, Y2)
    if M.shape[0] > 2 * M.shape[1] and M.shape[1] > 150:
        G = np.conj(M.T) @ M
        w = _eigh(G)[0]
        return int((w < 1e-9 * max(1.0, w[-1])).sum())
    return nullity(M, d1 * d2)[0]


# ------------------------------------------------------------------ characters / Littlewood-Richardson
def gt_weights(S):
    """Weight multiplicities of the U(n) irrep with highest weight S (Gelfand-Tsetlin patterns)."""
    out = {}

    def rec(row, w):
        if len(row) == 1:
            t = tuple(w + [row[0]])
            out[t] = out.get(t, 0) + 1
            return
        for nxt in itertools.product(*[range(row[i + 1], row[i] + 1) for i in range(len(row) - 1)]):
            rec(nxt, w + [sum(row) - sum(nxt)])
    rec(tuple(S), [])
    return out


def sun_product(S1, S2):
    """{S3 (last entry 0): multiplicity} by peeling highest weights off the product character."""
    n = len(S1)
    c1, c2 = gt_weights(S1), gt_weights(S2)
    prod = {}
    for a, m in c1.items():
        for b, k in c2.items():
            t = tuple(x + y for x, y in zip(a, b))
            prod[t] = prod.get(t, 0) + m * k
    res = {}
    while True:
        prod = {k: v for k, v in prod.items() if v}
        if not prod:
            return res
        top = max(prod)                     # lexicographically largest weight is dominant
        top = tuple(sorted(top, reverse=True))
        m = prod[top]
        key = tuple(x - top[-1] for x in top)
        res[key] = res.get(key, 0) + m
        for w, k in gt_weights(top).items():
            prod[w] = prod.get(w, 0) - m * k
            assert prod[w] >= 0


def product(t, u):
    """Independent product rule: {spec as nested tuple: multiplicity}."""
    f = t[0]
    if f in ("SU2_", "SU3", "SU4", "SUN"):
        return {(f, k): v for k, v in sun_product(tuple(t[1]), tuple(u[1])).items()}
    if f == "prod":
        out = {}
        for xs in itertools.product(*[product(a, b).items() for a, b in zip(t[1:], u[1:])]):
            k = ("prod",) + tuple(x[0] for x in xs)
            m = 1
            for x in xs:
                m *= x[1]
            out[k] = out.get(k, 0) + m
        return out
    from .ops import product_specs
    return {tup(s): 1 for s in product_specs(t, u)}


def tup(s):
    if isinstance(s, (list, tuple)):
        return tuple(tup(x) for x in s)
    return s


def spec_of(ir):
    """The spec of a tabulated irrep object."""
    n = type(ir).__name__
    if n == "TabulatedIrrepProduct":
        return ("prod", spec_of(ir.rep1), spec_of(ir.rep2))
    if n in ("SU2", "SU2Real"):
        return (n, ir.j)
    if n == "SO3":
        return (n, ir.l)
    if n == "O3":
        return (n, ir.l, ir.p)
    if n in ("SL2C", "SO13"):
        return (n, ir.l, ir.k)
    if n == "Z2":
        return (n, ir.p)
    if n in ("SU2_", "SU3", "SU4", "SUN"):
        return (n, tuple(ir.S))
    raise ValueError(n)


def quaternionic(s):
    """Realified irreps: their commutant is not one-dimensional."""
    if s[0] == "SU2Real":
        return 2 * s[1] % 2 == 1
    if s[0] == "prod":
        return any(quaternionic(x) for x in s[1:])
    return False


def has_quaternionic(s):
    """Does a representation spec contain a half-integer SU2Real? (the library does not support their tensor products)"""
    if isinstance(s, (list, tuple)):
        if len(s) == 2 and s[0] == "SU2Real":
            return 2 * s[1] % 2 == 1
        return any(has_quaternionic(x) for x in s)
    return False


# ------------------------------------------------------------------ laws of irreps
def casimir(s):
    """Eigenvalue of the Killing-normalised quadratic Casimir (adjoint = 1), for the simple families."""
    f = s[0]
    if f in ("SU2",):
        j = s[1] / 2
        return j * (j + 1) / 2
    if f in ("SU2Real", "SO3", "O3"):
        j = s[1]
        return j * (j + 1) / 2
    if f in ("SU2_", "SU3", "SU4", "SUN") and len(s[1]) > 1:
        S = s[1]
        n = len(S)
        tot = Fraction(sum(S), n)
        lam = [Fraction(x) - tot for x in S]
        rho = [Fraction(n - 1, 2) - i for i in range(n)]

        def c(l):
            return sum(a * (a + 2 * r) for a, r in zip(l, rho))
        adj = [Fraction(1)] + [Fraction(0)] * (n - 2) + [Fraction(-1)]
        return float(c(lam) / c(adj))
    return None


def algebra_laws(A, out):
    A = np.asarray(A)
    n = A.shape[0]
    if A.shape != (n, n, n):
        out.append(f"algebra has shape {A.shape}")
        return
    close(A, -np.swapaxes(A, 0, 1), 1e-8, "algebra antisymmetry", out)
    J = np.einsum("ijm,mkl->ijkl", A, A)
    J = J + np.einsum("jkil->ijkl", J) + np.einsum("kijl->ijkl", J)
    close(J, np.zeros_like(J), 1e-7, "Jacobi identity", out, sc=scale(A) ** 2)


def closure(A, X, out, tol=1e-8, what="[X,X]=AX"):
    A, X = np.asarray(A), np.asarray(X)
    if A.shape[0] != X.shape[0]:
        out.append(f"{what}: {X.shape[0]} generators for an algebra of dimension {A.shape[0]}")
        return
    if len(X) == 0:
        return
    L = np.einsum("iab,jbc->ijac", X, X)
    L = L - np.swapaxes(L, 0, 1)
    close(L, np.einsum("ijk,kab->ijab", A, X), tol, what, out, sc=scale(X) ** 2)


def irrep_laws(s, rep, out):
    d = specs.spec_dim(s)
    X, H, A = np.asarray(rep.X), np.asarray(rep.H), np.asarray(rep.A)
    if rep.dim != d:
        out.append(f"dim {rep.dim}, expected {d}")
    if X.shape[1:] != (d, d) or H.shape[1:] != (d, d):
        out.append(f"generators of shape {X.shape}, {H.shape} for dimension {d}")
        return
    from .ops import LIE_DIM
    f = s[0]
    ld = lambda x: max(1, len(x[1]) ** 2 - 1) if x[0] == "SUN" else LIE_DIM[x[0]]     # SU(1) is given one (zero) generator
    nd = sum(ld(x) for x in s[1:]) if f == "prod" else ld(s)
    if X.shape[0] != nd or rep.lie_dim != nd:
        out.append(f"{X.shape[0]} continuous generators, lie_dim {rep.lie_dim}, expected {nd}")
    nh = lambda t: sum(nh(x) for x in t[1:]) if t[0] == "prod" else int(t[0] in ("O3", "Z2"))
    if H.shape[0] != nh(s):
        out.append(f"{H.shape[0]} discrete generators, expected {nh(s)}")
    if len(A):
        algebra_laws(A, out)
    closure(A, X, out)
    Y = gens(X, H)
    if len(Y) and d <= 27:
        k = hom_dim(Y, Y)
        want = quat_dim(s)
        if k != want:
            out.append(f"commutant of dimension {k}, expected {want} (not irreducible)")
    for h in H:
        close(h @ h, np.eye(d), 1e-9, "discrete generator squared", out)
        for x in X:
            close(h @ x, x @ h, 1e-9, "discrete and continuous generators commute", out, sc=scale(X))
    if f in ("O3", "Z2"):
        p = s[-1]
        close(H[0], p * np.eye(d), 1e-9, "parity", out)
    c = casimir(s)
    if c is not None and not out:
        K = np.einsum("iab,jba->ij", A, A)          # Killing form (adjoint: (ad_i)_ab = A_iab up to transposition)
        C = np.einsum("ij,iab,jbc->ac", _inv(K), X, X)
        close(C, c * np.eye(d), 1e-7, "Casimir", out)
    if f in ("SL2C", "SO13") and not out:
        J, Y_ = X[:3], X[3:] * (-1j if f == "SO13" else 1)
        l, k = s[1], s[2]
        for sign, j in ((1, l), (-1, k)):
            Z = (J + sign * Y_) / 2
            C = -np.einsum("iab,ibc->ac", Z, Z)
            close(C, j / 2 * (j / 2 + 1) * np.eye(d), 1e-7, f"chiral Casimir {sign:+d}", out)
    if f == "SO13" and s[1] == s[2] and np.iscomplexobj(X):
        out.append("generators of a real irrep are not real")
    if f in ("SO3", "O3", "SU2Real") and np.iscomplexobj(X):
        out.append("generators are not real")


def quat_dim(s):
    if s[0] == "prod":
        a = [quat_dim(x) for x in s[1:]]
        return math.prod(a)
    return 4 if quaternionic(s) else 1


def cg_laws(cg, r1, r2, r3, out, count=None, tol=1e-8):
    """(shape, equivariance, independence, completeness) of a Clebsch-Gordan tensor."""
    d1, d2, d3 = [np.asarray(r.X).shape[1] for r in (r1, r2, r3)]
    cg = np.asarray(cg)
    if cg.ndim != 4 or cg.shape[1:] != (d1, d2, d3):
        out.append(f"CG of shape {cg.shape} for dimensions {(d1, d2, d3)}")
        return
    if count is None:
        X1, X2 = np.asarray(r1.X), np.asarray(r2.X)
        H1, H2 = np.asarray(r1.H), np.asarray(r2.H)
        Y12 = gens(kron_sum(X1, X2), kron_each(H1, H2))
        count = hom_dim(Y12, gens(r3.X, r3.H)) if len(gens(r3.X, r3.H)) else d1 * d2 * d3
    if cg.shape[0] != count:
        out.append(f"{cg.shape[0]} solutions, the multiplicity is {count}")
    if cg.shape[0] == 0:
        return
    if not np.isfinite(cg).all():
        out.append("CG not finite")
        return
    sc = scale(cg) * scale(r1.X, r2.X, r3.X)
    if len(r1.X):
        L = np.einsum("zijk,dlk->zdijl", cg, r3.X)
        Rr = np.einsum("dil,zijk->zdljk", r1.X, cg) + np.einsum("djl,zijk->zdilk", r2.X, cg)
        close(L, Rr, tol, "intertwining equation", out, sc=sc)
    if len(r1.H):
        L = np.einsum("zijk,dlk->zdijl", cg, r3.H)
        Rr = np.einsum("dil,djm,zijk->zdlmk", r1.H, r2.H, cg)
        close(L, Rr, tol, "intertwining equation (discrete)", out, sc=scale(cg) * scale(r1.H) ** 2)
    if rank(cg.reshape(len(cg), -1), 1e-6) != len(cg):
        out.append("solutions are not linearly independent")


def kron_sum(X1, X2):
    d1, d2 = X1.shape[1], X2.shape[1]
    return np.array([np.kron(a, np.eye(d2)) + np.kron(np.eye(d1), b) for a, b in zip(X1, X2)]).reshape(len(X1), d1 * d2, d1 * d2)


def kron_each(H1, H2):
    d = H1.shape[1] * H2.shape[1]
    return np.array([np.kron(a, b) for a, b in zip(H1, H2)]).reshape(len(H1), d, d)


# ------------------------------------------------------------------ permutation-constrained tensors
def parse_formula(f):
    """Group of signed permutations generated by the formula: set of (sign, p) with T[x] = s T[x o p]."""
    parts = [(-1 if p.startswith("-") else 1, p.replace("-", "")) for p in f.split("=")]
    f0 = parts[0][1]
    n = len(f0)
    g = set()
    for s, p in parts:
        g.add((s, tuple(f0.index(c) for c in p)))
    g.add((1, tuple(range(n))))
    while True:
        new = {(s1 * s2, tuple(p1[i] for i in p2)) for s1, p1 in g for s2, p2 in g} | g
        if len(new) == len(g):
            return f0, g
        g = new


def constrained_dim(group, dims):
    """Dimension of {T : T = s T.transpose(p) for (s, p) in the group}: trace of the projector."""
    n = len(dims)
    tot = 0
    for s, p in group:
        # fixed index tuples of the permutation: one free index per cycle
        seen, m = set(), 1
        for i in range(n):
            if i not in seen:
                j = i
                while j not in seen:
                    seen.add(j)
                    j = p[j]
                m *= dims[i]
        tot += s * m
    q, r = divmod(tot, len(group))
    assert r == 0
    return q


def rtp_laws(array, rep_out, lst, factors, group, out):
    """The tensors of the basis are stacked along the last axis; like the Clebsch-Gordan tensors they
    satisfy the intertwining equation with every generator transposed."""
    dims = tuple(np.asarray(r.X).shape[1] for r in factors)
    array = np.asarray(array)
    want = constrained_dim(group, dims)
    if array.shape[:-1] != dims:
        out.append(f"array of shape {array.shape} for factors {dims}")
        return
    D = array.shape[-1]
    if D != want:
        out.append(f"{D} basis tensors, the constrained space has dimension {want}")
    if rep_out.dim != D:
        out.append(f"representation of dimension {rep_out.dim} for {D} basis tensors")
        return
    if not np.isfinite(array).all():
        out.append("array not finite")
        return
    if rank(array.reshape(-1, D), 1e-6) != D:
        out.append("basis tensors are not linearly independent")
    for s, p in group:
        close(np.transpose(array, tuple(p) + (len(dims),)), s * array, 1e-7, f"symmetry under {s:+d}{p}", out)
    Xo, Ho = np.asarray(rep_out.X), np.asarray(rep_out.H)
    n = len(dims)
    for a in range(len(Xo)):
        L = 0
        for i, r in enumerate(factors):
            L = L + np.moveaxis(np.tensordot(np.asarray(r.X)[a].T, array, axes=(1, i)), 0, i)
        close(L, array @ Xo[a].T, 1e-7, f"equivariance under generator {a}", out, sc=scale(array) * scale(Xo, *[r.X for r in factors]))
    for a in range(len(Ho)):
        L = array
        for i, r in enumerate(factors):
            L = np.moveaxis(np.tensordot(np.asarray(r.H)[a].T, L, axes=(1, i)), 0, i)
        close(L, array @ Ho[a].T, 1e-7, f"equivariance under discrete generator {a}", out, sc=scale(array))
    # the list holds the same tensors, irrep by irrep; irreps sorted and distinct
    cat = np.concatenate([np.reshape(x, x.shape[:-2] + (-1,)) for x in lst], axis=-1) if lst else np.zeros(dims + (0,))
    close(cat, array, 1e-12, "list against array", out)
    irs = [m.rep for m in rep_out.irreps]
    for m, x in zip(rep_out.irreps, lst):
        if x.shape[-2:] != (m.mul, m.rep.dim):
            out.append(f"entry of shape {x.shape} for {m}")
    for a, b in zip(irs, irs[1:]):
        if not (a < b):
            out.append(f"output irreps not sorted or not distinct: {a}, {b}")


# ------------------------------------------------------------------ helpers of the utilities
def span_equal(U, V, out, what, tol=1e-6):
    U, V = np.asarray(U), np.asarray(V)
    a, b = rank(U, tol), rank(V, tol)
    c = rank(np.concatenate([U, V]) if len(U) and len(V) else (U if len(U) else V), tol) if (len(U) or len(V)) else 0
    if not (a == b == c):
        out.append(f"{what}: spans differ (dimensions {a}, {b}, together {c})")
