"""JSON specifications of representations and arrays, and how to build them.

Representation specs (lists, so that they survive JSON):
  ["SU2", j] ["SU2Real", j] ["SO3", l] ["O3", l, p] ["SL2C", l, k] ["SO13", l, k] ["Z2", p]
  ["SU2_", [a, 0]] ["SU3", [..]] ["SU4", [..]] ["prod", s1, s2(, s3)]        tabulated irreps
  ["mul", m, spec]  ["red", [specs], qspec|None]                              reduced kinds
  ["gen", spec]  ["cb", spec, qspec]  ["conj", spec]  ["dsum", s1, s2]        generic kinds
  ["Snn", n] ["Snt", n] ["Sns", n] ["SONadj", n]  ["mut", spec, seed]
  ["fin", group, k]  ["finreg", group]  irreps and the regular representation of a finite group, as GenericRep
  ["u1", [charges]]  a representation of the one-dimensional Lie algebra
  ["custom", k]  (a Rep subclass defined by the user at run time)
qspec: [kind, seed] with kind in "r" (real), "c" (complex), "o" (orthogonal), "u" (unitary), "p" (permutation), "n" and "m" (within about 1e-5 and 2e-4 of the identity)
Array specs: ["rand", shape, seed, "r"|"c"], ["lowrank", m, n, rank, seed, "r"|"c"], ["int", shape, seed],
  ["eye", n], ["lit", nested], ["X", repspec], ["H", repspec], ["A", repspec], ["table", "Z", n]...
"""
import functools

import numpy as np

TAB = ("SU2", "SU2Real", "SO3", "O3", "SL2C", "SO13", "Z2", "SU2_", "SU3", "SU4", "prod")


def lie():
    import lie_nn
    return lie_nn


def rs(seed):
    return np.random.RandomState(seed % (2**32))


def qmat(q, n):
    kind, seed = q
    r = rs(seed * 7919 + n)
    if n == 0:
        return np.zeros((0, 0))
    if kind in "nm":       # close to the identity
        return np.eye(n) + (1e-5 if kind == "n" else 2e-4) * r.standard_normal((n, n))
    if kind == "s":        # unit determinant, far from orthogonal
        return np.eye(n) + np.triu(r.uniform(-1.5, 1.5, (n, n)) * min(1.0, (3 / n) ** 0.5), 1)
    if kind == "d":        # rescaling of single coordinates
        return np.diag(r.choice([-2.0, -1.0, 0.5, 1.0, 1.0, 3.0], n))
    if kind == "p":
        return np.eye(n)[r.permutation(n)]
    Z = r.standard_normal((n, n))
    if kind in "cu":
        Z = Z + 1j * r.standard_normal((n, n))
    U, _, V = np.linalg.svd(Z)
    if kind in "ou":
        return U @ V
    return (U * r.uniform(0.6, 1.6, n)) @ V


def build(s):
    L = lie()
    I = L.irreps
    k = s[0]
    if k in ("SU2", "SU2Real", "SO3", "Z2"):
        return getattr(I, k)(s[1])
    if k in ("O3", "SL2C", "SO13"):
        return getattr(I, k)(s[1], s[2])
    if k in ("SU2_", "SU3", "SU4"):
        return getattr(I, k)(tuple(s[1]))
    if k == "SUN":
        from lie_nn._src.irreps.sun import SUN
        return SUN(tuple(s[1]))
    if k == "prod":
        return L.group_product(*[build(x) for x in s[1:]])
    if k == "mul":
        return L.MulIrrep(mul=s[1], rep=build(s[2]))
    if k == "red":
        items = [build(x) for x in s[1]]
        d = sum(x.dim for x in items)
        Q = None if s[2] is None else qmat(s[2], d)
        return L.ReducedRep.from_irreps(items, Q)
    if k == "gen":
        return L.GenericRep.from_rep(build(s[1]))
    if k == "cb":
        b = build(s[1])
        return L.change_basis(L.GenericRep.from_rep(b), qmat(s[2], b.dim))
    if k == "conj":
        return L.conjugate(build(s[1]))
    if k == "dsum":
        return L.direct_sum(build(s[1]), build(s[2]))
    if k == "Snn":
        return L.finite.Sn_natural(s[1])
    if k == "Snt":
        return L.finite.Sn_trivial(s[1])
    if k == "Sns":
        return L.finite.Sn_standard(s[1])
    if k == "SONadj":
        from lie_nn._src.irreps.son import SON_adjoint
        return SON_adjoint(s[1])
    if k == "fin":
        H = fin_irreps(s[1])[s[2]]
        return L.GenericRep(np.zeros((0, 0, 0)), np.zeros((0,) + H.shape[1:]), H)
    if k == "finreg":
        H = fin_regular(s[1])
        return L.GenericRep(np.zeros((0, 0, 0)), np.zeros((0,) + H.shape[1:]), H)
    if k == "u1":
        d = len(s[1])
        return L.GenericRep(np.zeros((1, 1, 1)), 1j * np.diag(np.array(s[1], float))[None], np.zeros((0, d, d)))
    if k == "mut":
        b = build(s[1])
        mutate(b, s[2])
        return b
    if k == "custom":
        return custom_class(s[1])()
    raise ValueError(s)


def mutate(rep, seed):
    """In-place change of a user-owned representation: another multiplicity, another basis (in place or by assignment), or
    (generic ones) an exact change of basis of the stored arrays."""
    r = rs(seed)
    if isinstance(rep, lie().MulIrrep):
        rep.mul = mutated_mul(rep.mul, seed)
        return
    if isinstance(rep, lie().ReducedRep):
        if rep.Q is not None and seed % 2:
            rep.Q[...] = rep.Q[r.permutation(len(rep.Q))]
        else:
            d = sum(m.mul * m.rep.dim for m in rep.irreps)
            rep.Q = np.eye(d)[r.permutation(d)]
        return
    d = rep._X.shape[1]
    p = r.permutation(d)
    sgn = r.choice([-1.0, 1.0], d)
    Q = np.eye(d)[p] * sgn
    X = Q @ rep._X @ Q.T
    H = Q @ rep._H @ Q.T
    rep._X[...] = X
    rep._H[...] = H


def mutated_mul(mul, seed):
    return mul % 3 + 1 if seed % 2 else (mul + 1) % 3 + 1


FIN = ("Z2", "Z3", "Z4", "Z5", "V4", "S3", "D4", "Q8", "A4")


def fin_irreps(g):
    """The complex irreducible representations of a small finite group, on a fixed set of generators."""
    def chars(*gens):
        return [np.array([[[z]] for z in c]) for c in gens]

    def cyclic(n):
        w = np.exp(2j * np.pi / n)
        return [np.array([[[w ** k]]]) if 2 * k % n else np.array([[[round((w ** k).real) + 0.0]]]) for k in range(n)]
    if g in ("Z2", "Z3", "Z4", "Z5"):
        return cyclic(int(g[1]))
    if g == "V4":
        return chars((1.0, 1.0), (1.0, -1.0), (-1.0, 1.0), (-1.0, -1.0))
    c, s = np.cos(2 * np.pi / 3), np.sin(2 * np.pi / 3)
    if g == "S3":
        return chars((1.0, 1.0), (1.0, -1.0)) + [np.array([[[c, -s], [s, c]], [[1.0, 0.0], [0.0, -1.0]]])]
    if g == "D4":
        return chars((1.0, 1.0), (1.0, -1.0), (-1.0, 1.0), (-1.0, -1.0)) + [np.array([[[0.0, -1.0], [1.0, 0.0]], [[1.0, 0.0], [0.0, -1.0]]])]
    if g == "Q8":
        return chars((1.0, 1.0), (1.0, -1.0), (-1.0, 1.0), (-1.0, -1.0)) + [np.array([[[1j, 0], [0, -1j]], [[0, 1], [-1, 0]]])]
    if g == "A4":
        w = np.exp(2j * np.pi / 3)
        P = np.array([[0.0, 0.0, 1.0], [1.0, 0.0, 0.0], [0.0, 1.0, 0.0]])
        return chars((1.0, 1.0), (w, 1.0), (w ** 2, 1.0)) + [np.array([P, np.diag([1.0, -1.0, -1.0])])]
    raise ValueError(g)


def fin_regular(g):
    """The regular representation, as permutation matrices of the generators."""
    irr = fin_irreps(g)
    # a faithful representation: the sum of all irreps
    n = len(irr[0])
    d = sum(x.shape[1] for x in irr)
    F = np.zeros((n, d, d), dtype=complex)
    i = 0
    for x in irr:
        F[:, i: i + x.shape[1], i: i + x.shape[1]] = x
        i += x.shape[1]
    els, key = [np.eye(d, dtype=complex)], lambda m: tuple(np.round(m, 6).reshape(-1) + 0.0)
    seen = {key(els[0]): 0}
    for e in els:
        for m in F:
            t = m @ e
            if key(t) not in seen:
                seen[key(t)] = len(els)
                els.append(t)
    R = np.zeros((n, len(els), len(els)))
    for a in range(n):
        for j, e in enumerate(els):
            R[a, seen[key(F[a] @ e)], j] = 1.0
    return R


_custom = {}
KEEP = [False]      # one class per number, as a program that defines its classes once (otherwise a new class every time)


def custom_class(k):
    """A user-defined representation class, as the documentation invites users to write."""
    if KEEP[0]:
        if k not in _custom:
            _custom[k] = _custom_class(k)
        return _custom[k]
    return _custom_class(k)


def _custom_class(k):
    L = lie()

    class MyRep(L.Rep):
        scale = 1.0 + k

        def algebra(self):
            return np.zeros((1, 1, 1))

        def continuous_generators(self):
            return self.scale * np.array([[[0.0, -1.0], [1.0, 0.0]]])

        def discrete_generators(self):
            return np.zeros((0, 2, 2))

        def create_trivial(self):
            return L.GenericRep(self.algebra(), np.zeros((1, 1, 1)), np.zeros((0, 1, 1)))

    MyRep.__name__ = MyRep.__qualname__ = f"MyRep{k}"
    return MyRep


@functools.lru_cache(maxsize=None)
def bad_class(cls, how, seed):
    """A class of irreps as a user writes it, usually with a mistake in its Clebsch-Gordan tensors."""
    class UserIrrep(cls):
        @classmethod
        def clebsch_gordan(c, rep1, rep2, rep3):
            C = np.array(cls.clebsch_gordan(rep1, rep2, rep3))
            r = rs(seed)
            if C.size:
                if how == "entry":
                    i = tuple(r.randint(0, n) for n in C.shape)
                    C[i] = C[i] + r.choice([1e-3, 0.3])
                elif how == "last":
                    C[-1, -1, -1, -1] += 0.05
                elif how == "noise":
                    C = C + 1e-4 * r.standard_normal(C.shape)
                elif how == "swap" and C.shape[1] > 1:
                    C = np.ascontiguousarray(C[:, ::-1])
                elif how == "phase" and C.shape[3] > 1:
                    C[..., -1] *= -1
                elif how == "rel":         # every zero stays zero
                    C[..., r.randint(0, C.shape[3])] *= 1 + r.choice([1e-3, 1e-5, 1e-6, 1e-7, 1e-8])
                elif how == "relall":
                    C = C * (1 + r.choice([1e-3, 1e-6, 1e-7, 1e-8]) * r.standard_normal(C.shape))
                elif how == "cancel":      # wrong, but right on average
                    N = 0.1 * r.standard_normal(C.shape)
                    C = np.concatenate([C + N, C - N])
                elif how == "middle":
                    C = np.concatenate([C, C + 0.1 * r.standard_normal(C.shape), 2 * C])
                elif how == "multiples":   # right
                    C = np.concatenate([C, -C, 3 * C])
                elif how == "onesol":
                    C = np.concatenate([C, C + 0.01 * r.standard_normal(C.shape)])
            return C
    UserIrrep.__name__ = UserIrrep.__qualname__ = cls.__name__
    return UserIrrep


def clone(cls, x):
    """x as an instance of the subclass cls."""
    import dataclasses
    return cls(**{f.name: getattr(x, f.name) for f in dataclasses.fields(x) if f.init})


def array(s):
    k = s[0]
    if k == "rand":
        r = rs(s[2])
        a = r.standard_normal(s[1])
        return a if s[3] == "r" else a + 1j * r.standard_normal(s[1])
    if k == "lowrank":
        m, n, rank, seed, c = s[1:]
        rank = min(rank, m, n)
        r = rs(seed)

        def g(a, b):
            z = r.standard_normal((a, b))
            return z if c == "r" else z + 1j * r.standard_normal((a, b))
        if rank == 0:
            return np.zeros((m, n)) if c == "r" else np.zeros((m, n), dtype=complex)
        U = np.linalg.qr(g(m, rank))[0][:, :rank] if m >= rank else np.eye(m, rank)
        V = np.linalg.qr(g(n, rank))[0][:, :rank]
        return np.ascontiguousarray((U * r.uniform(0.5, 2.0, U.shape[1])) @ V.conj().T[: U.shape[1]])
    if k == "needle":       # rows in a small subspace, and a few rows which alone carry further directions
        m, n, rank, pos, seed, c = s[1:]
        r = rs(seed)

        def gz(a, b):
            z = r.standard_normal((a, b))
            return z if c == "r" else z + 1j * r.standard_normal((a, b))
        q = np.linalg.qr(gz(n, n))[0].T
        rank = min(rank, n)
        a = gz(m, rank) @ q[:rank] * np.sqrt(3.0 / max(m, 1))
        for i, j in enumerate(pos):
            if rank + i < n:
                a[j % m] = q[rank + i] * r.uniform(0.6, 1.6)
        return np.ascontiguousarray(a)
    if k == "tiny":         # the same array with some entries that are pure rounding noise
        a = np.array(array(s[1]))
        r = rs(s[2])
        if a.size and a.dtype.kind in "fc":
            f = a.reshape(-1)
            for i in r.choice(a.size, max(1, a.size // 3), replace=False):
                f[i] = r.choice([1e-13, -1e-13, 1e-15, -3e-16, 1e-12, -0.0, 0.0])
            a = f.reshape(a.shape)
        return a
    if k == "int":
        return rs(s[2]).randint(-3, 4, size=s[1]).astype(float)
    if k == "ints":
        return rs(s[2]).randint(1, 1000, size=s[1])
    if k == "unit":
        return rs(s[2]).uniform(-2, 2, s[1])
    if k == "par":
        return s[3] * rs(s[2]).uniform(-1, 1, s[1])
    if k == "pow":
        return rs(s[2]).randint(-1 if s[2] % 3 == 1 else 0, max(2, int(s[3])), s[1])
    if k == "eye":
        return np.eye(s[1])
    if k == "lit":
        return np.array(s[1])
    if k == "X":
        return build(s[1]).X
    if k == "H":
        return build(s[1]).H
    if k == "A":
        return build(s[1]).A
    if k == "XH":
        r = build(s[1])
        return np.concatenate([r.X, r.H])
    if k == "q":
        return qmat([s[1], s[2]], s[3])
    if k == "RO":
        a = array(s[1])
        a.setflags(write=False)
        return a
    if k == "F":
        return np.asfortranarray(array(s[1]))
    if k == "T":
        return np.ascontiguousarray(array(s[1]).T)
    if k == "strided":      # every second element of a larger buffer
        a = array(s[1])
        b = np.zeros(a.shape[:-1] + (2 * a.shape[-1],), dtype=a.dtype)
        b[..., ::2] = a
        return b[..., ::2]
    if k == "cx":
        return array(s[1]).astype(complex)
    if k == "as":           # the same bytes in another shape
        a = array(s[1])
        if a.size % max(1, s[2]) or a.ndim != 2 or s[2] < 1:
            return a
        return np.ascontiguousarray(a).reshape(s[2], -1)
    if k == "near":         # almost the same numbers
        a = array(s[1])
        z = rs(s[2]).standard_normal(a.shape)
        return a + s[3] * z
    if k == "graded":       # singular values far apart: the numerical rank depends on the tolerance
        m, n, idx, seed, c = s[1:]
        idx = idx[: min(m, n)]
        r = rs(seed)

        def h(k):
            z = r.standard_normal((k, k))
            return np.linalg.qr(z if c == "r" else z + 1j * r.standard_normal((k, k)))[0]
        return np.ascontiguousarray((h(m)[:, : len(idx)] * np.array([(1.0, 0.5, 0.1, 0.02, 0.003, 1e-5)[i % 6] for i in idx])) @ h(n)[: len(idx)])
    if k == "table":
        n = s[2]
        i = np.arange(n)
        if s[1] == "Z":
            return (i[:, None] + i[None, :]) % n
        import itertools
        perms = list(itertools.permutations(range(n)))
        ix = {p: i for i, p in enumerate(perms)}
        return np.array([[ix[tuple(a[b[j]] for j in range(n))] for b in perms] for a in perms])
    if k == "clusters":
        r = rs(s[2])
        c = r.randint(0, 5, s[1]).astype(float)
        return c + 1e-12 * r.standard_normal(s[1])
    raise ValueError(s)


def is_rep(s):
    return True


# ---------------------------------------------------------------- random specs
def gen_tab(rng, fam=None, size=1):
    """A tabulated irrep spec. size: 0 tiny, 1 small, 2 larger."""
    f = fam or rng.choice(["SU2", "SU2", "SO3", "SO3", "O3", "SU2Real", "SL2C", "SO13", "Z2", "SU2_", "prod"])
    b = (1, 2, 4, 6)[size]
    if f == "SU2":
        return [f, rng.randint(0, b + 1)]
    if f == "SO3":
        return [f, rng.randint(0, b)]
    if f == "SU2Real":
        return [f, rng.choice([0, 1] if rng.random() < .2 else [x / 2 for x in range(0, b + 2)])]
    if f == "O3":
        return [f, rng.randint(0, b), rng.choice([1, -1])]
    if f in ("SL2C", "SO13"):
        b = min(b, 4)
    if f == "SL2C":
        return rng.choice([[f, l, k] for l in range(b + 1) for k in range(b + 1) if l + k <= b + 1])
    if f == "SO13":
        return rng.choice([[f, l, k] for l in range(b + 1) for k in range(b + 1) if (l + k) % 2 == 0 and l + k <= b + 1])
    if f == "Z2":
        return [f, rng.choice([1, -1])]
    if f == "SU2_":
        return [f, [rng.randint(0, min(b, 4)), 0]]
    if f == "SU3":
        return [f, rng.choice([[0, 0, 0], [1, 0, 0], [1, 1, 0]] + ([[2, 0, 0], [2, 1, 0]] if size > 1 else []))]
    if f == "SU4":
        return [f, rng.choice([[0, 0, 0, 0], [1, 0, 0, 0]])]
    if f == "SUN":
        return [f, list(rng.choice(SUN_SMALL[rng.choice([1, 2, 2, 3, 3])]))]
    if f == "fin":
        g = rng.choice(FIN)
        return ["fin", g, rng.randrange(len(fin_irreps(g)))]
    if f == "u1":
        return ["u1", [rng.randint(-3, 3)]]
    if f == "prod":
        fs = ["SU2", "SO3", "O3", "Z2"]
        return ["prod", gen_tab(rng, rng.choice(fs), 0), gen_tab(rng, rng.choice(fs), 0)]
    raise ValueError(f)


SUN_SMALL = {1: [(0,)], 2: [(0, 0), (1, 0), (2, 0)], 3: [(0, 0, 0), (1, 0, 0), (1, 1, 0)]}


def family(s):
    """Specs with equal family have the same algebra and discrete group."""
    k = s[0]
    if k in ("mul", "cb"):
        return family(s[2] if k == "mul" else s[1])
    if k == "red":
        return family(s[1][0])
    if k in ("gen", "conj", "dsum", "mut"):
        return family(s[1])
    if k == "prod":
        return ("prod",) + tuple(family(x) for x in s[1:])
    if k in ("Snn", "Snt", "Sns"):
        return ("Sn", s[1])
    if k == "custom":
        return ("custom",)
    if k in ("fin", "finreg"):
        return ("fin", s[1])
    if k == "SUN":
        return ("SUN", len(s[1]))
    return (k,)


def gen_tab_like(rng, s, size=1):
    f = family(s)
    if f[0] == "prod":
        return ["prod"] + [gen_tab_like(rng, x, 0) for x in s[1:]] if s[0] == "prod" else ["prod"] + [gen_tab(rng, x[0], 0) for x in f[1:]]
    if f[0] == "fin":
        return ["fin", f[1], rng.randrange(len(fin_irreps(f[1])))]
    if f[0] == "SUN":
        return ["SUN", list(rng.choice(SUN_SMALL[f[1]]))]
    return gen_tab(rng, f[0], size)


def root(s):
    return root(s[1]) if s[0] == "mut" else s


def spec_dim(s):
    k = s[0]
    if k == "SU2":
        return s[1] + 1
    if k == "SU2Real":
        return int(2 * s[1] + 1) * (1 if s[1] == int(s[1]) else 2)
    if k in ("SO3", "O3"):
        return 2 * s[1] + 1
    if k in ("SL2C", "SO13"):
        return (s[1] + 1) * (s[2] + 1)
    if k == "Z2":
        return 1
    if k in ("SU2_", "SU3", "SU4", "SUN"):
        from fractions import Fraction
        S = s[1]
        d = Fraction(1)
        for i in range(len(S)):
            for j in range(i + 1, len(S)):
                d *= 1 + Fraction(S[i] - S[j], j - i)
        return int(d)
    if k == "prod":
        d = 1
        for x in s[1:]:
            d *= spec_dim(x)
        return d
    if k == "mul":
        return s[1] * spec_dim(s[2])
    if k == "red":
        return sum(spec_dim(x) for x in s[1])
    if k == "mut" and root(s)[0] == "mul":
        m = lambda x: x[1] if x[0] == "mul" else mutated_mul(m(x[1]), x[2])
        return m(s) * spec_dim(root(s)[2])
    if k in ("gen", "conj", "mut", "cb"):
        return spec_dim(s[1])
    if k == "dsum":
        return spec_dim(s[1]) + spec_dim(s[2])
    if k == "Snn":
        return s[1]
    if k == "Snt":
        return 1
    if k == "Sns":
        return s[1] - 1
    if k == "SONadj":
        return s[1]
    if k == "custom":
        return 2
    if k == "fin":
        return fin_irreps(s[1])[s[2]].shape[1]
    if k == "finreg":
        return len(fin_regular(s[1])[0])
    if k == "u1":
        return len(s[1])
    raise ValueError(s)


def gen_rep_like(rng, base, kind=None, maxdim=8):
    """A rep spec of the family of the tabulated spec `base`."""
    for _ in range(50):
        kind_ = kind or rng.choice(["tab", "tab", "mul", "red", "red", "redq", "gen", "cb", "conj", "dsum"])
        t = gen_tab_like(rng, base)
        if kind_ == "tab":
            s = t
        elif kind_ == "mul":
            s = ["mul", rng.randint(1, 3), t]
        elif kind_ in ("red", "redq"):
            items = []
            for _ in range(rng.randint(1, 3)):
                x = gen_tab_like(rng, base, rng.choice([0, 1]))
                items.append(["mul", rng.randint(1, 2), x] if rng.random() < .5 else x)
            s = ["red", items, None if kind_ == "red" else [rng.choice("rcoupsdm"), rng.randint(0, 5)]]
        elif kind_ == "gen":
            s = ["gen", t]
        elif kind_ == "cb":
            s = ["cb", t, [rng.choice("rcou"), rng.randint(0, 5)]]
        elif kind_ == "conj":
            s = ["conj", t]
        elif kind_ == "dsum":
            s = ["dsum", t, gen_tab_like(rng, base, 0)]
        if spec_dim(s) <= maxdim:
            return s
    return gen_tab_like(rng, base, 0)
