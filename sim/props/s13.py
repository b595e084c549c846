"""S13: tensor products and other composites are exact on any backend."""
import json

import numpy as np

from .. import ops, oracle, specs
from ..cases import Cases
from ..specs import lie

FAMS = ["SU2", "SU2", "SO3", "SO3", "O3", "O3", "SL2C", "SO13", "Z2", "SU2_", "SU2Real", "SU3", "Sn", "custom", "fin", "fin", "u1"]


# A type fixes the algebra and the discrete group: ["t", family], ["gp", type, type], ["ca", type, qspec]
def dim(e):
    k = e[0]
    if k == "leaf":
        return specs.spec_dim(e[1])
    if k in ("tp", "gp"):
        return dim(e[1]) * dim(e[2])
    if k == "gp3":
        return dim(e[1]) * dim(e[2]) * dim(e[3])
    if k == "ds":
        return dim(e[1]) + dim(e[2])
    if k == "pow":
        return dim(e[1]) ** e[2]
    return dim(e[1])


def tdim(t):
    """Dimension of the algebra of a type."""
    if t[0] == "gp":
        return sum(tdim(x) for x in t[1:])
    if t[0] == "ca":
        return tdim(t[1])
    return {"Sn": 0, "custom": 1, "fin": 0}[t[1]] if t[1] in ("Sn", "custom", "fin") else ops.LIE_DIM[t[1]]


def gen_type(rng, depth=1):
    u = rng.random()
    if depth and u < .25:
        return ["gp", gen_type(rng, 0), gen_type(rng, 0)]
    if depth and u < .3:
        return ["gp", gen_type(rng, 0), gen_type(rng, 0), gen_type(rng, 0)]
    if depth and u < .42:
        t = gen_type(rng, 0)
        return ["ca", t, [rng.choice("rosdp"), rng.randint(0, 40)]]
    f = rng.choice(FAMS)
    return ["t", f, rng.choice([2, 3, 3, 4]) if f == "Sn" else rng.choice(specs.FIN) if f == "fin" else 0]


def gen_leaf(rng, t, maxdim):
    f = t[1]
    if f == "Sn":
        n = t[2]
        return rng.choice([["Snn", n], ["Snt", n], ["Sns", n], ["gen", ["Snn", n]], ["cb", ["Sns", n], [rng.choice("rcou"), rng.randint(0, 9)]]])
    if f == "custom":
        return ["custom", rng.randint(0, 2)]
    if f in ("fin", "u1"):      # irreps given as generic representations
        b = ["fin", t[2], 0] if f == "fin" else ["u1", [1]]
        if rng.random() < .25:
            return rng.choice([specs.gen_tab_like(rng, b), ["u1", [rng.randint(-3, 3) for _ in range(rng.randint(1, 3))]] if f == "u1" else
                               ["finreg", t[2]] if t[2] in ("Z2", "Z3", "Z4", "V4") else ["fin", t[2], 0]])
        s = specs.gen_rep_like(rng, b, maxdim=maxdim)
        return ["gen", s] if s[0] in ("mul", "red") else s
    for _ in range(30):
        s = specs.gen_rep_like(rng, specs.gen_tab(rng, f, 0), maxdim=maxdim)
        if not oracle.has_quaternionic(s):
            return s
    return specs.gen_tab(rng, f, 0) if f != "SU2Real" else ["SU2Real", 0]


def gen_expr(rng, t, maxdim, depth):
    for _ in range(30):
        e = gen1(rng, t, maxdim, depth)
        if e is not None and dim(e) <= maxdim:
            return e
    return None


def gen1(rng, t, maxdim, depth):
    if t[0] == "t" and (depth == 0 or rng.random() < .12):
        return ["leaf", gen_leaf(rng, t, min(maxdim, rng.choice([3, 5, 8])))]
    if t[0] == "gp" and (depth <= 1 or rng.random() < .35):
        if len(t) == 3:
            a, b = gen_expr(rng, t[1], max(2, maxdim // 2), rng.choice([0, 0, depth - 1]) if depth else 0), gen_expr(rng, t[2], max(2, maxdim // 2), 0)
            return a and b and ["gp", a, b]
        xs = [gen_expr(rng, x, max(2, maxdim // 3), 0) for x in t[1:]]
        return ["gp3"] + xs if all(xs) else None
    if t[0] == "ca" and (depth <= 1 or rng.random() < .4):
        a = gen_expr(rng, t[1], maxdim, max(0, depth - 1))
        return a and ["ca", a, t[2]]
    k = rng.choice(["tp", "tp", "tp", "tp", "ds", "cb", "cb", "conj", "pow", "gen"])
    d = max(0, depth - 1)
    if k in ("tp", "ds"):
        m = maxdim // 2 if k == "tp" else maxdim - 1
        a, b = gen_expr(rng, t, max(1, m), d), gen_expr(rng, t, max(1, m), rng.choice([0, d]))
        if rng.random() < .5:
            a, b = b, a
        return a and b and [k, a, b]
    a = gen_expr(rng, t, maxdim if k != "pow" else max(2, int(maxdim ** .5)), d)
    if a is None:
        return None
    if k == "cb":
        return ["cb", a, [rng.choice("rcoupsdnm"), rng.randint(0, 60)]]
    if k == "pow":
        return ["pow", a, rng.choice([0, 1, 2, 2, 3, 3, 4])]
    return [k, a]


def block(ms):
    """Block-diagonal stacks of matrices."""
    n = sum(m.shape[1] for m in ms)
    k = ms[0].shape[0]
    out = np.zeros((k, n, n), dtype=np.result_type(*[m.dtype for m in ms]))
    i = 0
    for m in ms:
        d = m.shape[1]
        out[:, i:i + d, i:i + d] = m
        i += d
    return out


def conjby(Q, m):
    return Q @ m @ oracle._inv(Q)


def model_leaf(s):
    """(A, X, H) of a leaf by the definition of its kind, from the tables of its irreps."""
    k = s[0]
    if k == "mul":
        A, X, H = model_leaf(s[2])
        return A, block([X] * s[1]), block([H] * s[1])
    if k == "red":
        ms = [model_leaf(x) for x in s[1]]
        X, H = block([m[1] for m in ms]), block([m[2] for m in ms])
        if s[2] is not None:
            Q = specs.qmat(s[2], X.shape[1])
            X, H = conjby(Q, X), conjby(Q, H)
        return ms[0][0], X, H
    if k == "gen":
        return model_leaf(s[1])
    if k == "cb":
        A, X, H = model_leaf(s[1])
        Q = specs.qmat(s[2], X.shape[1])
        return A, conjby(Q, X), conjby(Q, H)
    if k == "conj":
        A, X, H = model_leaf(s[1])
        return A, np.conj(X), np.conj(H)
    if k == "dsum":
        a, b = model_leaf(s[1]), model_leaf(s[2])
        return a[0], block([a[1], b[1]]), block([a[2], b[2]])
    r = specs.build(s)
    return np.array(r.A), np.array(r.X), np.array(r.H)


def tpm(a, b):
    return a[0], oracle.kron_sum(a[1], b[1]), oracle.kron_each(a[2], b[2])


def gpm(a, b):
    n1, n2 = len(a[0]), len(b[0])
    A = np.zeros((n1 + n2,) * 3, dtype=np.result_type(a[0], b[0]))
    A[:n1, :n1, :n1], A[n1:, n1:, n1:] = a[0], b[0]
    d1, d2 = a[1].shape[1], b[1].shape[1]
    e1, e2 = np.eye(d1), np.eye(d2)

    def both(u, v):
        l = [np.kron(x, e2) for x in u] + [np.kron(e1, x) for x in v]
        return np.array(l).reshape(len(l), d1 * d2, d1 * d2)
    return A, both(a[1], b[1]), both(a[2], b[2])


def cam(a, q):
    Q = specs.qmat(q, len(a[0]))
    return (np.einsum("ia,jb,abc,ck->ijk", Q, Q, a[0], oracle._inv(Q)) if len(Q) else a[0], np.einsum("ia,auv->iuv", Q, a[1]), a[2])


def grp(rep, c, h):
    return rep.exp_map(np.array(c), np.array(h, dtype=int))


class S13(Cases):
    id = "S13"
    quick_runs, thorough_runs = 4000, 80000
    rule = ("One case is 1-3 random expressions over tensor products and powers, direct sums, basis changes, algebra changes, group products of two or "
            "three factors, conjugates and generic copies, whose leaves are representations of every kind; the library's object for every node is "
            "compared with the generators the definition prescribes (built from the leaves by the independent model), and the group element it "
            "exponentiates to with the product law. Run under a fault-free and 1-3 perturbed backends, some after other work.")

    def gen(self, rng, tier):
        md = rng.choice([9, 16, 24]) if tier == "quick" else rng.choice([16, 32, 48])
        out = []
        for _ in range(rng.randint(1, 3)):
            t = gen_type(rng)
            e = gen_expr(rng, t, md if "SU3" not in json.dumps(t) else min(md, 18), rng.choice([1, 1, 2, 2, 3]))
            if e:
                out.append({"k": "expr", "e": e, "s": rng.randrange(1000)})
        return out

    def gen_conf(self, rng):
        c = super().gen_conf(rng)
        if rng.random() < .3:
            c["warm"] = [ops.gen_op(rng, ops.Ctx(rng), ["tp", "tptab", "cb", "ca", "gprod", "tpow", "dsum", "X", "red"] if "red" in ops.OPS else
                                    ["tp", "tptab", "cb", "ca", "gprod", "tpow", "dsum", "X"]) for _ in range(rng.randint(1, 3))]
        return c

    def ev(self, e, out, memo, r):
        """(library object, model) of a node; the checks of the node are appended to out."""
        L = lie()
        k = e[0]
        if k == "leaf":
            o, m = specs.build(e[1]), model_leaf(e[1])
        elif k in ("tp", "ds", "gp"):
            (a, ma), (b, mb) = self.ev(e[1], out, memo, r), self.ev(e[2], out, memo, r)
            o = {"tp": L.tensor_product, "ds": L.direct_sum, "gp": L.group_product}[k](a, b)
            m = {"tp": tpm, "gp": gpm, "ds": lambda a, b: (a[0], block([a[1], b[1]]), block([a[2], b[2]]))}[k](ma, mb)
        elif k == "gp3":
            xs = [self.ev(x, out, memo, r) for x in e[1:]]
            o = L.group_product(*[x[0] for x in xs])
            m = gpm(gpm(xs[0][1], xs[1][1]), xs[2][1])
        elif k == "pow":
            a, ma = self.ev(e[1], out, memo, r)
            o = L.tensor_power(a, e[2])
            m = (ma[0], np.zeros((len(ma[1]), 1, 1)), np.ones((len(ma[2]), 1, 1)))
            for _ in range(e[2]):
                m = tpm(ma, m)
        elif k == "cb":
            a, ma = self.ev(e[1], out, memo, r)
            Q = specs.qmat(e[2], ma[1].shape[1])
            o = L.change_basis(a, Q)
            m = (ma[0], conjby(Q, ma[1]), conjby(Q, ma[2]))
        elif k == "ca":
            a, ma = self.ev(e[1], out, memo, r)
            o = L.change_algebra(a, specs.qmat(e[2], len(ma[0])))
            m = cam(ma, e[2])
        elif k == "conj":
            a, ma = self.ev(e[1], out, memo, r)
            o, m = L.conjugate(a), (ma[0], np.conj(ma[1]), np.conj(ma[2]))
        elif k == "gen":
            a, m = self.ev(e[1], out, memo, r)
            o = L.GenericRep.from_rep(a)
        else:
            raise ValueError(k)
        self.laws(e, o, m, out, r)
        if k in ("tp", "ds", "gp") and len(m[1]) <= 15 and not out:
            n = len(m[1])
            c = r.uniform(-.7, .7, n)
            h = r.randint(-2, 7, len(m[2]))
            D = grp(o, c, h)
            if k == "gp":
                n1, h1 = len(ma[1]), len(ma[2])
                D2 = np.kron(grp(a, c[:n1], h[:h1]), grp(b, c[n1:], h[h1:]))
            elif k == "tp":
                D2 = np.kron(grp(a, c, h), grp(b, c, h))
            else:
                D2 = block([grp(a, c, h)[None], grp(b, c, h)[None]])[0]
            oracle.close(D, D2, 1e-7, f"group element of {k}", out)
        return o, m

    def laws(self, e, o, m, out, r):
        if out:
            return
        k = e[0] if e[0] != "leaf" else f"leaf {json.dumps(e[1])}"
        d = m[1].shape[1]
        if o.dim != d:
            out.append(f"{k}: dimension {o.dim}, expected {d}")
            return
        if o.lie_dim != len(m[0]):
            out.append(f"{k}: lie_dim {o.lie_dim}, expected {len(m[0])}")
        oracle.close(o.A, m[0], 1e-8, f"{k}: algebra", out)
        oracle.close(o.X, m[1], 1e-7, f"{k}: continuous generators", out)
        oracle.close(o.H, m[2], 1e-7, f"{k}: discrete generators", out)
        if e[0] in ("tp", "ds", "pow", "ca", "gp", "gp3") and not out:
            oracle.closure(m[0], np.asarray(o.X), out, 1e-7, f"{k}: [X,X]=AX")
        if type(o).__name__ == "ReducedRep" and not out:
            if sum(x.mul * x.rep.dim for x in o.irreps) != d:
                out.append(f"{k}: irreps of total dimension {sum(x.mul * x.rep.dim for x in o.irreps)} for dimension {d}")
        if not out and d <= 24:
            c = r.uniform(-.7, .7, len(m[1]))
            h = r.randint(-2, 7, len(m[2]))
            D = oracle._expm(np.einsum("a,aij->ij", c, m[1])) if len(c) else np.eye(d)
            for x, n in reversed(list(zip(m[2], h))):
                for _ in range(abs(n)):
                    D = (x if n > 0 else oracle._inv(x)) @ D
            oracle.close(grp(o, c, h), D, 1e-7 * max(1.0, np.abs(D).max()), f"{k}: exponential", out)

    def may_raise(self, case, conf, exc):
        e = json.dumps(case["e"])
        # documented as not implemented: the trivial irrep of a product of tabulated irreps, and of SUN (what SU2_ * SU2_ yields)
        return exc.startswith("NotImplementedError") and '"pow"' in e and ('"gp' in e or '"SU2_"' in e or '"SU3"' in e)

    def run(self, case, conf, out):
        r = np.random.RandomState(case["s"])
        o, m = self.ev(case["e"], out, {}, r)
        return {"A": np.array(o.A, complex), "X": np.array(o.X, complex), "H": np.array(o.H, complex)}

    def shrink_case(self, case):
        if case["e"][0] == "leaf":
            return
        for sub in case["e"][1:]:
            if isinstance(sub, list) and sub and sub[0] in ("leaf", "tp", "ds", "gp", "gp3", "pow", "cb", "ca", "conj", "gen"):
                yield dict(case, e=sub)

        def rec(e):
            for i, sub in enumerate(e[1:], 1):
                if isinstance(sub, list) and sub and sub[0] in ("leaf", "tp", "ds", "gp", "gp3", "pow", "cb", "ca", "conj", "gen") and e[0] != "leaf":
                    if e[0] in ("conj", "gen", "cb"):
                        yield sub
                    for x in rec(sub):
                        yield e[:i] + [x] + e[i + 1:]
        for x in rec(case["e"]):
            yield dict(case, e=x)


PROP = S13()
