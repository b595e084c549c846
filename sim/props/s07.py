"""S07: the intertwiner solver is complete and reproducible on any backend."""
import numpy as np

from .. import oracle, specs
from ..cases import Cases, Skip
from ..specs import lie

GAP = 0.08


def same_family(rng, maxdim, fam=None, base=None):
    """Two representations that share constituents, in unrelated bases."""
    fam = fam or rng.choice(["SU2", "SO3", "O3", "SL2C", "SO13", "Z2", "SU2_", "SU2Real", "prod", "SU3", "fin", "fin", "u1"])
    base = base or specs.gen_tab(rng, fam, 0)

    def like():
        return specs.gen_tab_like(rng, base, rng.choice([0, 1]))
    common = [like() for _ in range(rng.randint(0, 2))]
    out = []
    for _ in range(2):
        items = common + [like() for _ in range(rng.randint(0 if common else 1, 1))]
        while sum(specs.spec_dim(x) for x in items) > maxdim and len(items) > 1:
            items.pop(rng.randrange(len(items)))
        if sum(specs.spec_dim(x) for x in items) > maxdim:
            items = [specs.gen_tab_like(rng, base, 0)]
        rng.shuffle(items)
        s = items[0] if len(items) == 1 and rng.random() < .6 else ["red", [["mul", rng.randint(1, 2), x] if rng.random() < .2 else x for x in items],
                                                                    rng.choice([None, [rng.choice("rcoupsd"), rng.randint(0, 50)]])]
        u = rng.random()
        if u < .5:
            s = ["cb", s, [rng.choice("rcou"), rng.randint(0, 50)]]
        elif u < .7:
            s = ["gen", s]
        elif u < .78:
            s = ["conj", s]
        out.append(s if specs.spec_dim(s) <= maxdim + 3 else ["gen", items[0]])
    return out


def basis_pair(rng):
    """Two independent families with a prescribed intersection."""
    k, a, b = rng.randint(0, 2), rng.randint(0, 2), rng.randint(0, 2)
    if k + a == 0 or k + b == 0:
        k = 1
    n = k + a + b + rng.randint(0, 2)
    return {"k": "binter", "n": n, "dims": [k, a, b], "seed": rng.randrange(1000), "c": rng.choice("rc"), "shape": rng.choice(["flat", "flat", "tensor"])}


def make_pair(case):
    k, a, b = case["dims"]
    n = case["n"]
    q = specs.qmat(["u" if case["c"] == "c" else "o", case["seed"]], n)
    kind = case["c"]
    m1 = specs.qmat([kind, case["seed"] + 1], k + a)
    m2 = specs.qmat([kind, case["seed"] + 2], k + b)
    B1 = m1 @ q[: k + a]
    B2 = m2 @ np.concatenate([q[:k], q[k + a: k + a + b]])
    if case["shape"] == "tensor":
        B1, B2 = B1.reshape(len(B1), 1, n), B2.reshape(len(B2), 1, n)
    return B1, B2


def ensembles(case):
    """Two ensembles of matrices built from shared random blocks; blocks may differ in one matrix of the ensemble only."""
    n, q = case["n"], "u" if case["c"] == "c" else "o"
    r = specs.rs(case["seed"])

    def block(b):
        d, src, at = b
        z = specs.rs(case["seed"] + 31 * src + 1000 * d)
        B = z.standard_normal((n, d, d)) + (1j * z.standard_normal((n, d, d)) if case["c"] == "c" else 0)
        B = B / np.sqrt(d)
        if case.get("sparse"):          # only few matrices of the ensemble are not zero
            B = B * (np.arange(n) % case["sparse"] == 0)[:, None, None]
        if at is not None:              # equal to the block `src` but for the matrix `at`
            w = specs.rs(case["seed"] + 77 + src)
            B[at % n] = B[at % n] + 1.5 * w.standard_normal((d, d))
        return B
    out = []
    for i, bl in enumerate(case["blocks"]):
        d = sum(b[0] for b in bl)
        X = np.zeros((n, d, d), dtype=complex if case["c"] == "c" else float)
        o = 0
        for b in bl:
            X[:, o: o + b[0], o: o + b[0]] = block(b)
            o += b[0]
        P = specs.qmat([q, case["seed"] + i], d)
        out.append(np.ascontiguousarray(P @ X @ np.conj(P.T)))
    return out


def gen_ensembles(rng, tier):
    n = rng.choice([1, 2, 3, 3, 5, 8, 12, 20, 45])
    md = 5 if n > 12 else (6 if n > 3 else 8)
    pool = [[rng.randint(1, 4), rng.randrange(4), None] for _ in range(rng.randint(1, 3))]
    for b in list(pool):
        if rng.random() < .6:
            pool.append([b[0], b[1], rng.choice([0, -1, -1, rng.randrange(n)])])
    bl = []
    for _ in range(2):
        k = rng.choice([1, 1, 2, 3])
        x = [rng.choice(pool) for _ in range(k)]
        while sum(b[0] for b in x) > md and len(x) > 1:
            x.pop()
        bl.append(x)
    return {"k": "uens", "n": n, "blocks": bl, "seed": rng.randrange(10000), "c": rng.choice("rrc"), "sparse": rng.choice([0, 0, 0, 2, 7])}


def gs_margin(A):
    """Smallest and largest residual norms of an exact Gram-Schmidt: (smallest kept, largest dropped)."""
    Q, kept, dropped = [], [np.inf], [0.0]
    for v in np.asarray(A):
        v = v.copy()
        for _ in range(2):
            for w in Q:
                v = v - (np.conj(w) @ v) * w
        r = np.linalg.norm(v)
        if r > 1e-4:
            Q.append(v / r)
            kept.append(r)
        else:
            dropped.append(r)
    return min(kept), max(dropped)


def orthonormal(Q, out, what):
    Q = np.asarray(Q)
    if len(Q):
        oracle.close(Q @ np.conj(Q.T), np.eye(len(Q)), 1e-8, what + " orthonormal", out)


def hard(n, r, seed, c, u):
    """Orthonormal bases of an r-dimensional space and of its complement; the rows of the projector on the first
    are, at the beginning, nearly dependent on the previous ones."""
    g = np.random.RandomState(seed)
    f = (lambda *s: g.normal(size=s) + 1j * g.normal(size=s)) if c == "c" else (lambda *s: g.normal(size=s))
    V = f(r, n)
    m = max(1, min(r - 1, int(g.uniform(.2, .9) * r), n - r))
    V[:, :m] = np.triu(f(r, r), 1)[:, :m]
    V[np.arange(m), np.arange(m)] = 10.0 ** -g.uniform(min(1, u), u, m)
    V[0, 0] = 1
    Q = np.linalg.svd(V)[2]
    return Q[:r], Q[r:]


def hard_null(n, r, seed, c, u):
    V, W = hard(n, r, seed, c, u)
    return (specs.qmat(["u" if c == "c" else "o", seed], n - r) * np.random.RandomState(seed).uniform(.5, 2, n - r)) @ W


def gen_hard(rng):
    n = rng.randint(2, 30)
    return [n, rng.randint(1, n - 1), rng.randrange(10000), rng.choice("rc"), rng.choice([.5, 2, 3])]


def margin(A, eps):
    """Are the eigenvalues of A^H A clearly on one side of eps?"""
    s2 = np.linalg.svd(np.asarray(A), compute_uv=False) ** 2 if np.size(A) else np.zeros(0)
    return not len(s2) or bool(((s2 > 10 * eps) | (s2 < 1e-13 * s2[0])).all() and 1e-13 * s2[0] < eps / 10)


class S07(Cases):
    id = "S07"
    quick_runs, thorough_runs = 4500, 60000
    rule = ("One case is 1-4 questions to the solver (change of basis, Clebsch-Gordan of generic representations, null space, Gram-Schmidt, basis "
            "extension, basis intersection, structure constants, irreducibility, reality, unitarity) on well-conditioned random inputs, each executed "
            "under a fault-free and 1-3 perturbed backends; answers are compared with an SVD oracle and with each other.")

    def gen(self, rng, tier):
        md = 6 if tier == "quick" else 10
        out = []
        for _ in range(rng.randint(1, 4)):
            k = rng.choice(["infer", "infer", "uinfer", "null", "null", "gs", "extend", "binter", "cggen", "cggen", "irred", "real", "real", "unitary",
                            "makereal", "makereal", "inferalg", "fromgen", "seqnull",
                            "uens", "uens", "bignull", "checkalg", "triplet"])
            if k in ("infer", "uinfer"):
                a, b = same_family(rng, md)
                out.append({"k": k, "a": a, "b": b})
                if k == "uinfer" and rng.random() < .4:
                    out[-1]["eps"] = rng.choice([1e-10, 1e-10, 1e-8, 1e-6, 1e-3])
            elif k == "checkalg":
                out.append({"k": k, "a": same_family(rng, md + 2)[0], "bad": rng.choice([None, None, "X", "A", "one"]), "seed": rng.randrange(100)})
            elif k == "triplet":
                f = rng.choice(["SU2", "SO3", "O3", "SL2C", "Z2", "Z2", "SU2_", "fin"])
                t = specs.gen_tab(rng, f, 0)
                L = [specs.gen_tab_like(rng, t, 0) for _ in range(3)]
                if rng.random() < .4 or f == "fin":
                    L = [["gen", x] if rng.random() < .5 or f == "fin" else ["cb", x, [rng.choice("ruo"), rng.randint(0, 30)]] for x in L]
                out.append({"k": k, "t": L})
            elif k in ("irred", "unitary", "real", "inferalg", "fromgen"):
                out.append({"k": k, "a": same_family(rng, md + 2)[0]})
            elif k == "makereal":
                f = rng.choice(["SU2", "SO3", "O3", "SL2C", "SO13", "SU2_", "SU3", "SU2Real", "prod", "fin"])
                t = specs.gen_tab(rng, f, 1)
                if f == "SL2C" and rng.random() < .6:
                    t = [f, t[1], t[1]]
                if f == "SU3" and rng.random() < .5:
                    t = ["SU3", [2, 1, 0]]
                if specs.spec_dim(t) <= 8:
                    out.append({"k": k, "a": rng.choice([t, ["gen", t], ["cb", t, [rng.choice("curo"), rng.randint(0, 50)]]])})
            elif k in ("null", "gs"):
                m, n = rng.randint(1, 9), rng.randint(1, 9)
                s = ["lowrank", m, n, rng.randint(0, min(m, n)), rng.randrange(10000), rng.choice("rc")]
                if k == "null" and rng.random() < .4:
                    out.append({"k": k, "hard": gen_hard(rng), "eps": rng.choice([1e-10, 1e-10, 1e-8, None])})
                    continue
                if k == "gs" and rng.random() < .4:
                    out.append({"k": k, "hard": gen_hard(rng)})
                    continue
                out.append({"k": k, "m": ["RO", s] if rng.random() < .3 else (["F", s] if rng.random() < .3 else s)})
                if k == "null" and rng.random() < .3:
                    out[-1]["eps"] = rng.choice([1e-10, 1e-8, 1e-6, 1e-2])
            elif k == "uens":
                out.append(gen_ensembles(rng, tier))
            elif k == "bignull":
                m = rng.choice([rng.randint(5, 40), rng.randint(40, 300), rng.randint(500, 1100)])
                n = rng.randint(2, 14)
                pos = [rng.choice([0, -1, -1, -2, rng.randrange(m), rng.randrange(max(0, m - 20), m)]) for _ in range(rng.randint(0, 3))]
                out.append({"k": "null", "m": ["needle", m, n, rng.randint(0, n - 1), sorted(set(x % m for x in pos)), rng.randrange(10000), rng.choice("rc")]})
            elif k == "extend":
                if rng.random() < .4:
                    out.append({"k": k, "hard": gen_hard(rng), "ret": rng.choice("QQE"), "eps": rng.choice([None, None, 1e-6, 1e-10])})
                    continue
                n = rng.randint(1, 6)
                m = rng.randint(1, n)
                out.append({"k": k, "m": ["lowrank", m, n, rng.randint(0, m), rng.randrange(10000), rng.choice("rc")], "ret": rng.choice("QQE")})
            elif k == "binter":
                out.append({"k": k, "hard": gen_hard(rng), "swap": rng.random() < .5} if rng.random() < .4 else basis_pair(rng))
            elif k == "seqnull":
                n = rng.randint(2, 6)
                c = rng.choice("rc")
                L = [["lowrank", rng.randint(1, 3), n, rng.randint(0, 2), rng.randrange(10000), c] for _ in range(rng.randint(1, 4))]
                out.append({"k": k, "l": L, "n": n})
            elif k == "cggen":
                f = rng.choice(["SU2", "SO3", "O3", "SL2C", "SO13", "Z2", "SU2_", "SU2Real", "fin"])
                a, b = same_family(rng, 3, f)
                if f == "fin":          # products of sums of user-defined irreps are not supported
                    a, b = ["gen", a], ["gen", b]
                fa = specs.family(a)
                c = same_family(rng, 5, f, a if fa[0] == "fin" else None)[0]
                if fa == specs.family(c) and not oracle.has_quaternionic([a, b, c]) and specs.spec_dim(a) * specs.spec_dim(b) * specs.spec_dim(c) <= 130:
                    out.append({"k": k, "t": [a, b, c]})
        return out

    def reps(self, *ss):
        return [specs.build(s) for s in ss]

    def run(self, case, conf, out):
        L = lie()
        U = L.util
        k = case["k"]
        if k in ("infer", "uinfer", "uens"):
            if k == "uens":
                Y1, Y2 = ensembles(case)
            else:
                a, b = self.reps(case["a"], case["b"])
                Y1, Y2 = oracle.gens(a.X, a.H), oracle.gens(b.X, b.H)
            if len(Y1) == 0:
                raise Skip
            n, gap = oracle.nullity(oracle.hom_matrix(Y1, Y2), Y1.shape[1] * Y2.shape[1])
            if gap < GAP:
                raise Skip
            if k == "infer":
                Q = L.infer_change_of_basis(a, b)
            else:
                kw = {}
                if case.get("eps"):
                    kw["epsilon"] = case["eps"]
                    if not margin(oracle.hom_matrix(Y1, Y2), case["eps"]):
                        raise Skip
                Q = U.infer_change_of_basis(np.array(Y2, complex if np.iscomplexobj(Y2) else float), np.array(Y1, complex if np.iscomplexobj(Y1) else float), **kw)
            Q = np.asarray(Q)
            if Q.shape[1:] != (Y2.shape[1], Y1.shape[1]):
                out.append(f"shape {Q.shape}")
                return None
            if len(Q) != n:
                out.append(f"{len(Q)} solutions, there are {n}")
            elif n:
                if oracle.rank(Q.reshape(n, -1), 1e-6) != n:
                    out.append("solutions are linearly dependent")
                sc = oracle.scale(Q) * oracle.scale(Y1, Y2)
                oracle.close(np.einsum("aij,bjk->abik", Y2, Q), np.einsum("bij,ajk->abik", Q, Y1), 1e-8, "Y2 Q = Q Y1", out, sc=sc)
            return Q
        if k == "null":
            A = hard_null(*case["hard"]) if "hard" in case else specs.array(case["m"])
            if case.get("eps"):
                if not margin(A, case["eps"]):
                    raise Skip
                N = U.nullspace(A, epsilon=case["eps"])
            else:
                N = U.nullspace(A)
            n, gap = oracle.nullity(A, A.shape[1])
            if len(N) != n:
                out.append(f"{len(N)} vectors, the null space has dimension {n}")
            if len(N):
                oracle.close(A @ N.T, np.zeros((len(A), len(N))), 1e-8, "A N^T = 0", out)
            orthonormal(N, out, "null space")
            return None if "hard" in case else N        # the choice of the basis is ill-conditioned
        if k == "gs" and "hard" in case:
            V = hard(*case["hard"])[0]
            A = np.conj(V.T).copy()
            lo, hi = gs_margin(A)
            if lo < 5e-4 or hi > 1e-9:
                raise Skip
            Q = U.gram_schmidt(A)
            orthonormal(Q, out, "Gram-Schmidt")
            if len(Q) != len(V):
                out.append(f"{len(Q)} rows for rank {len(V)}")
            oracle.close(A @ np.conj(Q.T) @ Q, A, 1e-8, "rows in the span of Gram-Schmidt", out)
            return None
        if k == "extend" and "hard" in case:
            A = hard(*case["hard"])[1]
            n = A.shape[1]
            lo, hi = gs_margin(np.concatenate([A, np.eye(n)]))
            if lo < 5e-4:
                raise Skip
            Q = U.extend_basis(A, returns=case["ret"], **({"epsilon": case["eps"]} if case["eps"] else {}))
            orthonormal(Q, out, "extended basis")
            if len(Q) != (n if case["ret"] == "Q" else n - len(A)):
                out.append(f"{len(Q)} rows for rank {len(A)} in dimension {n}")
            if case["ret"] == "E":
                oracle.close(A @ np.conj(Q.T), np.zeros((len(A), len(Q))), 1e-8, "extension orthogonal", out)
            return None
        if k == "binter" and "hard" in case:
            V = np.ascontiguousarray(hard(*case["hard"])[0])
            B = [np.eye(V.shape[1]), V]
            if case["swap"]:
                B = B[::-1]
            P = U.basis_intersection(*B)
            for p, b in zip(P, B):
                if p.shape != (len(V), len(b)):
                    out.append(f"projection of shape {p.shape}, the intersection has dimension {len(V)}")
                else:
                    oracle.close(p @ b @ np.conj(V.T) @ V, p @ b, 1e-7, "projection in the intersection", out)
                    if oracle.rank(p @ b, 1e-6) != len(V):
                        out.append("projection of lower rank")
            return None
        if k == "gs":
            A = specs.array(case["m"])
            lo, hi = gs_margin(A)
            if lo < 5e-3 or hi > 1e-9:
                raise Skip
            Q = U.gram_schmidt(A)
            orthonormal(Q, out, "Gram-Schmidt")
            oracle.span_equal(A, Q, out, "Gram-Schmidt")
            for i in range(len(A)):     # the first rows span the first rows
                r = oracle.rank(A[: i + 1])
                if r and len(Q) >= r:
                    oracle.span_equal(A[: i + 1], Q[:r], out, f"Gram-Schmidt of the first {i + 1} rows")
            return Q
        if k == "extend":
            A = specs.array(case["m"])
            lo, hi = gs_margin(np.concatenate([A, np.eye(A.shape[1])]))
            r = oracle.rank(A)
            n = A.shape[1]
            if lo < 5e-3 or hi > 1e-9 or (case["ret"] == "E" and r == n):
                raise Skip
            Q = U.extend_basis(A, returns=case["ret"])
            orthonormal(Q, out, "extended basis")
            if len(Q) != (n if case["ret"] == "Q" else n - r):
                out.append(f"{len(Q)} rows for rank {r} in dimension {n}")
            elif case["ret"] == "Q":
                if r:
                    oracle.span_equal(A, Q[:r], out, "extended basis, first rows")
            else:
                oracle.span_equal(np.concatenate([A, Q]), np.eye(n), out, "extension")
                oracle.close(A @ np.conj(Q.T), np.zeros((len(A), len(Q))), 1e-8, "extension orthogonal", out)
            return Q
        if k == "binter":
            B1, B2 = make_pair(case)
            P1, P2 = U.basis_intersection(B1, B2)
            kk = case["dims"][0]
            F1, F2 = B1.reshape(len(B1), -1), B2.reshape(len(B2), -1)
            s = oracle._svd(np.concatenate([F1, F2]), compute_uv=False)
            if np.any((s > 1e-9) & (s < 2e-2)):
                raise Skip
            q = specs.qmat(["u" if case["c"] == "c" else "o", case["seed"]], case["n"])
            for P, F, nm in ((P1, F1, "first"), (P2, F2, "second")):
                if P.shape != (kk, len(F)):
                    out.append(f"{nm} projection of shape {P.shape}, the intersection has dimension {kk}")
                    continue
                if kk:
                    oracle.span_equal(P @ F, q[:kk], out, f"{nm} projection")
            return [P1, P2]
        if k == "seqnull":
            L_ = [specs.array(s) for s in case["l"]]
            full = np.concatenate(L_)
            n, gap = oracle.nullity(full, case["n"])
            if gap < GAP:
                raise Skip
            # every prefix must be well separated too
            for i in range(1, len(L_)):
                if oracle.nullity(np.concatenate(L_[:i]), case["n"])[1] < GAP:
                    raise Skip
            N = U.sequential_nullspace(iter(L_), n)
            if len(N) != n:
                out.append(f"{len(N)} vectors, the null space has dimension {n}")
            elif n:
                if oracle.rank(N, 1e-6) != n:
                    out.append("vectors are dependent")
                oracle.close(full @ N.T, np.zeros((len(full), n)), 1e-8, "A N^T = 0", out)
            return N
        if k == "cggen":
            a, b, c = self.reps(*case["t"])
            Y12 = oracle.gens(oracle.kron_sum(a.X, b.X), oracle.kron_each(a.H, b.H))
            Y3 = oracle.gens(c.X, c.H)
            n, gap = oracle.nullity(oracle.hom_matrix(Y12, Y3), Y12.shape[1] * Y3.shape[1])
            if gap < GAP:
                raise Skip
            cg = L.clebsch_gordan(a, b, c)
            oracle.cg_laws(cg, a, b, c, out, n, tol=1e-7)
            return np.array(cg)
        if k == "irred":
            a, = self.reps(case["a"])
            Y = oracle.gens(a.X, a.H)
            n, gap = oracle.nullity(oracle.hom_matrix(Y, Y), Y.shape[1] ** 2)
            if gap < 1e-3:
                raise Skip
            g = bool(L.is_irreducible(a))
            if g != (n == 1):
                out.append(f"is_irreducible is {g}, the commutant has dimension {n}")
            return g
        if k == "real":
            a, = self.reps(case["a"])
            Y = oracle.gens(a.X, a.H)
            M = oracle.hom_matrix(Y, np.conj(Y))
            n, gap = oracle.nullity(M, Y.shape[1] ** 2)
            if gap < GAP:
                raise Skip
            g = bool(L.is_real(a))
            if n == 0 and g:
                out.append("is_real is True for a representation that is not equivalent to its conjugate")
            if not g and (not np.iscomplexobj(Y) or np.abs(np.imag(Y)).max() < 1e-12):
                out.append("is_real is False for real matrices")
            if n and not g:
                Q = nullvec(M, Y.shape[1])
                if oracle.hom_dim(Y, Y) == 1 and np.trace(Q @ np.conj(Q)).real > 0:
                    out.append("is_real is False for a real representation")
            return None
        if k == "makereal":
            a, = self.reps(case["a"])
            Y = oracle.gens(a.X, a.H)
            if oracle.hom_dim(Y, Y) != 1:
                raise Skip
            M = oracle.hom_matrix(Y, np.conj(Y))
            n, gap = oracle.nullity(M, Y.shape[1] ** 2)
            if gap < GAP:
                raise Skip
            real = bool(n) and (lambda Q: np.trace(Q @ np.conj(Q)).real > 0)(nullvec(M, Y.shape[1]))
            try:
                r = L.make_explicitly_real(a)
            except ValueError as e:
                if real:
                    out.append(f"a real representation is refused: {e}")
                return None
            if not real:
                out.append("a representation without real form is returned as real")
                return None
            X, H = np.asarray(r.X), np.asarray(r.H)
            if np.iscomplexobj(X) and np.abs(X.imag).max(initial=0) > 1e-8:
                out.append("generators are not real")
            if X.shape != np.asarray(a.X).shape or H.shape != np.asarray(a.H).shape:
                out.append("other shapes")
                return None
            oracle.closure(np.asarray(r.A), X, out, 1e-7)
            oracle.close(np.asarray(r.A), np.asarray(a.A), 1e-10, "algebra", out)
            if oracle.hom_dim(Y, oracle.gens(X, H)) != 1:
                out.append("the real form is not equivalent to the representation")
            return [X, H]
        if k == "unitary":
            a, = self.reps(case["a"])
            X, H = np.asarray(a.X), np.asarray(a.H)
            d1 = np.abs(X + np.conj(np.swapaxes(X, 1, 2))).max(initial=0)
            d2 = np.abs(H @ np.conj(np.swapaxes(H, 1, 2)) - np.eye(a.dim)).max(initial=0)
            m = max(d1, d2)
            if 1e-14 < m < 1e-6:
                raise Skip
            g = bool(L.is_unitary(a))
            if g != (m <= 1e-14):
                out.append(f"is_unitary is {g}, the generators deviate by {m:.2g}")
            return g
        if k == "checkalg":
            a, = self.reps(case["a"])
            X, A = np.array(a.X), np.array(a.A)
            r = specs.rs(case["seed"])
            if case["bad"] == "X" and X.size:
                X = X + 1e-3 * r.standard_normal(X.shape)
            elif case["bad"] == "A" and A.size:
                A = A + 1e-3 * r.standard_normal(A.shape)
            elif case["bad"] == "one" and A.size:       # one entry is off
                A[tuple(r.randint(0, n) for n in A.shape)] += .01
            v = []
            oracle.closure(A, X, v, 1e-10)
            w = []
            oracle.closure(A, X, w, 1e-7)
            if bool(v) != bool(w):
                raise Skip
            want = not v
            if not want and np.abs(np.einsum("ijk,kab->ijab", A, X) - (X[:, None] @ X[None] - X[None] @ X[:, None])).max() < 1e-5:
                raise Skip
            g = bool(U.check_algebra_vs_generators(A, X))
            if g != want:
                out.append(f"check_algebra_vs_generators is {g} for {'correct' if want else 'wrong'} generators")
            rep = L.GenericRep(A, X, np.array(a.H))
            try:
                rep.check_algebra_vs_generators()
                ok = True
            except AssertionError:
                ok = False
            if ok != want:
                out.append(f"Rep.check_algebra_vs_generators {'accepts' if ok else 'refuses'} {'correct' if want else 'wrong'} generators")
            return g
        if k == "triplet":
            import contextlib
            import io
            with contextlib.redirect_stdout(io.StringIO()):
                L.check_representation_triplet(*self.reps(*case["t"]))
            return None
        if k in ("inferalg", "fromgen"):
            a, = self.reps(case["a"])
            X = np.asarray(a.X)
            A = np.asarray(a.A)
            s = oracle._svd(X.reshape(len(X), a.dim ** 2), compute_uv=False) if len(X) else np.ones(1)
            if (s > 1e-9).sum() < len(X) or s[-1] < 0.05 or np.abs(np.imag(A)).max(initial=0) > 1e-12:
                raise Skip
            if k == "inferalg":
                B = U.infer_algebra_from_generators(X)
            else:
                g = L.GenericRep.from_generators(X, a.H)
                B = None if g is None else g.A
            if B is None:
                out.append("no algebra found for a faithful representation")
                return None
            oracle.close(B, A.real, 1e-8, "structure constants", out)
            return B
        raise ValueError(k)


def nullvec(M, d):
    """A solution Q (d x d) of M vec(Q) = 0."""
    return np.conj(oracle._svd(M)[2][-1]).reshape(d, d)


PROP = S07()
