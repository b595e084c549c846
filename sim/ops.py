"""The catalogue of public operations. An op is JSON: {"op": name, "a": [arg, ...], "s": stream seed}.

Argument encodings: {"r": repspec} a fresh representation, {"m": arrayspec} a fresh array,
{"o": i} the i-th shared object, {"f": name} a callback, anything else literally.
"""
import itertools
import json

import numpy as np

from . import specs
from .specs import lie

OPS = {}


class Op:
    def __init__(self, name, fn, gen, w, owned, alias, random, pure_cb, tags):
        self.name, self.fn, self.gen, self.w = name, fn, gen, w
        self.owned = owned      # returned arrays belong to the caller
        self.alias = alias      # result may legitimately refer to its arguments
        self.random = random    # documented to draw random numbers
        self.tags = tags


def op(name, gen, w=1.0, owned=True, alias=False, random=False, tags=()):
    def deco(fn):
        OPS[name] = Op(name, fn, gen, w, owned, alias, random, None, set(tags))
        return fn
    return deco


R = lambda s: {"r": s}
A = lambda s: {"m": s}


class Ctx:
    """What an op generator may draw from (swarm: a few families per run)."""

    def __init__(self, rng, heavy=0.0, fams=None, size=1):
        allf = ["SU2", "SO3", "O3", "SU2Real", "SL2C", "SO13", "Z2", "SU2_", "prod"]
        self.fams = fams or rng.sample(allf, rng.randint(1, 3))
        if rng.random() < heavy:
            self.fams.append("SU3")
        if fams is None and rng.random() < .08:
            self.fams.append("SUN")
        self.size = size
        self.rng = rng

    def tab(self, fam=None, size=None):
        return specs.gen_tab(self.rng, fam or self.rng.choice(self.fams), self.size if size is None else size)

    def small(self):
        return self.tab(size=0)

    def rep(self, base=None, **k):
        if base is None and self.rng.random() < .1:
            base = specs.gen_tab(self.rng, self.rng.choice(["fin", "fin", "u1"]))
        return specs.gen_rep_like(self.rng, base or self.small(), **k)


def callback(name, sim=None, hook=None):
    if name is None:
        return None
    from lie_nn.util import round_to_sqrt_rational
    base = {"id": lambda x: x, "sqrt": round_to_sqrt_rational,
            "r12": lambda x: np.round(x, 12), "copy": lambda x: np.array(x)}[name]
    if hook is None:
        return base

    def f(x):
        hook()
        return base(x)
    return f


# ------------------------------------------------------------------ representation queries
def g_rep(c):
    return [R(c.rep() if c.rng.random() < .6 else c.tab())]


def g_tab(c):
    return [R(c.tab())]


def g_tab2(c):
    t = c.tab()
    return [R(t), R(specs.gen_tab_like(c.rng, t, c.size))]


def g_fin(c):
    if c.rng.random() < .4:
        t = specs.gen_tab(c.rng, "fin")
        return [R(c.rng.choice([t, ["finreg", t[1]], ["u1", [c.rng.randint(-2, 2) for _ in range(c.rng.randint(1, 3))]]]))]
    return [R(c.rng.choice([["Snn", c.rng.randint(1, 4)], ["Snt", c.rng.randint(1, 4)], ["Sns", c.rng.randint(2, 4)]]))]


def g_anyrep(c):
    u = c.rng.random()
    if u < .15:
        return g_fin(c)
    if u < .2:
        return [R(["custom", c.rng.randint(0, 2)])]
    return g_rep(c)


@op("X", g_anyrep, 3)
def _(r):
    return r.X


@op("H", g_anyrep, 1.5)
def _(r):
    return r.H


@op("A", g_anyrep, 1.5)
def _(r):
    return r.A


@op("dims", g_anyrep, 1)
def _(r):
    return (r.dim, r.lie_dim, bool(r.is_trivial()), repr(r))


def g_exp(c):
    a = g_anyrep(c)
    r = c.rng
    return a + [A(["par", lie_dim(a[0]["r"]), r.randint(0, 9), r.choice([1.0, 1.0, 1e-3, 4.0, 0.0])]),
                A(["pow", n_discrete(a[0]["r"]), r.randint(0, 9), r.choice([2, 3, 4, 6])])]


@op("exp", g_exp, 1.2)
def _(r, c, d):
    return r.exp_map(c, d)


@op("checkalg", g_anyrep, .5)
def _(r):
    return r.check_algebra_vs_generators()


@op("trivial", g_anyrep, .7)
def _(r):
    t = r.create_trivial()
    return (t.X, t.H, t.dim)


@op("classq", lambda c: [c.rng.choice(["SU2", "SO3", "O3", "SL2C", "SO13", "Z2", "SU2_", "SU2Real", "SU3", "SU4"]), c.rng.randint(1, 6)], .8)
def _(fam, n):
    cls = getattr(lie().irreps, fam)
    out = [repr(x) for x in itertools.islice(cls.iterator(), n)]
    return (out, repr(cls.create_trivial()), cls.algebra() if fam in ("SU2", "SO3", "O3", "SL2C", "SO13", "Z2", "SU2Real") else None) \
        if fam != "Z2" else (out, repr(cls.create_trivial()))


@op("mulrule", g_tab2, 1.5)
def _(a, b):
    return [repr(x) for x in a * b]


@op("order", g_tab2, .7)
def _(a, b):
    def lt(x, y):
        return bool(x < y)
    return (lt(a, b), lt(b, a), a == b, b == a, hash(a) == hash(b) if a == b else None, repr(a), repr(b), getattr(a, "is_scalar", lambda: None)())


STR = {"SU2": ["0", "1", "2", "3"], "SO3": ["0", "1", "2"], "O3": ["0e", "0o", "1o", "1e", "2e"], "SL2C": ["(0,0)", "(1,0)", "(1,1)"],
       "SO13": ["(0,0)", "(1,1)", "(2,0)"], "Z2": ["e", "o"], "SU2_": ["(1,0)", "(2,0)"], "SU3": ["(1,0,0)", "(0,0,0)"]}


@op("fromstr", lambda c: (lambda f: [f, " + ".join((f"{c.rng.randint(1, 3)}x" if c.rng.random() < .5 else "") + c.rng.choice(STR[f])
    for _ in range(c.rng.randint(1, 3)))])(c.rng.choice(["SU2", "SO3", "O3", "SL2C", "SO13", "Z2", "SU2_"])), .8)
def _(fam, s):
    s = s.replace(" ", "") if fam not in ("O3", "Z2") else s.replace(" + ", "+")
    r = lie().ReducedRep.from_string(s, getattr(lie().irreps, fam))
    return (repr(r), r.dim, r.X, r.H)


@op("iterdrop", lambda c: g_tab2(c) + [c.rng.randint(0, 3)], .6)
def _(a, b, k):
    it = type(a).iterator() if type(a).__name__ != "TabulatedIrrepProduct" else iter(())
    pr = iter(a * b)
    out = [repr(x) for x in itertools.islice(it, k)] + [repr(x) for x in itertools.islice(pr, k)]
    for g in (it, pr):
        if hasattr(g, "close"):
            g.close()
    return out


# ------------------------------------------------------------------ Clebsch-Gordan and intertwiners
def g_cg(c):
    t = c.tab()
    u = specs.gen_tab_like(c.rng, t, c.size)
    if c.rng.random() < .7:
        try:
            outs = product_specs(t, u)
            if outs:
                return [R(t), R(u), R(c.rng.choice(outs))]
        except Exception:
            pass
    return [R(t), R(u), R(specs.gen_tab_like(c.rng, t, c.size))]


def product_specs(t, u):
    """Independent product rule for specs of closed-form families."""
    f = t[0]
    if f == "SU2":
        return [[f, j] for j in range(abs(t[1] - u[1]), t[1] + u[1] + 1, 2)]
    if f == "SO3":
        return [[f, j] for j in range(abs(t[1] - u[1]), t[1] + u[1] + 1)]
    if f == "O3":
        return [[f, j, t[2] * u[2]] for j in range(abs(t[1] - u[1]), t[1] + u[1] + 1)]
    if f == "SU2Real":
        return [[f, x / 2] for x in range(int(2 * abs(t[1] - u[1])), int(2 * (t[1] + u[1])) + 1, 2)]
    if f in ("SL2C", "SO13"):
        return [[f, l, k] for l in range(abs(t[1] - u[1]), t[1] + u[1] + 1, 2) for k in range(abs(t[2] - u[2]), t[2] + u[2] + 1, 2)]
    if f == "Z2":
        return [[f, t[1] * u[1]]]
    if f == "SU2_":
        return [[f, [j, 0]] for j in range(abs(t[1][0] - u[1][0]), t[1][0] + u[1][0] + 1, 2)]
    if f == "prod":
        return [["prod"] + list(x) for x in itertools.product(*[product_specs(a, b) for a, b in zip(t[1:], u[1:])])]
    return None


@op("cg", g_cg, 3)
def _(a, b, c):
    return lie().clebsch_gordan(a, b, c)


def g_cg_gen(c):
    t = c.small()
    k = ["gen", "cb", "tab", "redq", "mul"]
    return [R(c.rep(t, kind=c.rng.choice(["gen", "cb"]), maxdim=4)), R(c.rep(t, kind=c.rng.choice(k), maxdim=4)), R(c.rep(t, kind=c.rng.choice(k), maxdim=4)),
            {"f": c.rng.choice(["id", "sqrt", "r12"])}]


@op("cggen", g_cg_gen, 1.5)
def _(a, b, c, f):
    return lie().clebsch_gordan(a, b, c, round_fn=f)


@op("cgcls", g_cg, 1)
def _(a, b, c):
    return type(a).clebsch_gordan(a, b, c)


def g_common(c, maxdim=6):
    """Two representations with common constituents: several intertwiners."""
    t = c.small() if c.rng.random() < .8 else specs.gen_tab(c.rng, c.rng.choice(["fin", "u1"]))
    items = [specs.gen_tab_like(c.rng, t, 0) for _ in range(c.rng.randint(1, 2))]
    out = []
    for _ in range(2):
        L = items + ([c.rng.choice(items)] if c.rng.random() < .6 else []) + ([specs.gen_tab_like(c.rng, t, 0)] if c.rng.random() < .3 else [])
        while sum(specs.spec_dim(x) for x in L) > maxdim and len(L) > 1:
            L.pop()
        c.rng.shuffle(L)
        r = ["red", L, c.rng.choice([None, None, [c.rng.choice("rcoupsdm"), c.rng.randint(0, 3)]])]
        out.append(R(r if c.rng.random() < .5 else ["gen", r]))
    return out


def g_rep2(c, maxdim=6):
    if c.rng.random() < .35:
        return g_common(c, maxdim)
    t = c.small() if c.rng.random() < .93 else specs.gen_tab(c.rng, c.rng.choice(["fin", "u1"]))
    return [R(c.rep(t, maxdim=maxdim)), R(c.rep(t, maxdim=maxdim))]


@op("infer", lambda c: g_rep2(c) + [{"f": c.rng.choice(["id", "id", "sqrt"])}], 1.5)
def _(a, b, f):
    return lie().infer_change_of_basis(a, b, round_fn=f)


@op("triplet", lambda c: g_cg(c), .7)
def _(a, b, c):
    return lie().check_representation_triplet(a, b, c)


@op("badtrip", lambda c: g_cg(c) + [c.rng.choice(["entry", "last", "noise", "swap", "phase", "onesol", "cancel"]), c.rng.randint(0, 9)], .3)
def _(a, b, c, how, seed):
    """The triplet check on a user's class of irreps whose Clebsch-Gordan tensors are (usually) wrong."""
    cls = specs.bad_class(type(a), how, seed)
    x, y, z = [specs.clone(cls, r) if type(r) is type(a) else r for r in (a, b, c)]
    try:
        lie().check_representation_triplet(x, y, z)
    except AssertionError:
        return "refused"
    return "accepted"


@op("badalg", lambda c: g_anyrep(c) + [c.rng.randint(0, 9), c.rng.random() < .5], .3)
def _(r, seed, method):
    """The check of a representation in which one number is wrong."""
    X, n = np.array(r.X), np.random.RandomState(seed)
    if X.size:
        X[tuple(n.randint(0, k) for k in X.shape)] += 0.1
    try:
        if method:
            lie().GenericRep(r.A, X, r.H).check_algebra_vs_generators()
        else:
            lie().util.check_algebra_vs_generators(r.A, X, assert_=True)
    except AssertionError:
        return "refused"
    return "accepted"


@op("irred", lambda c: [R(c.rep(maxdim=6))], 1)
def _(r):
    return bool(lie().is_irreducible(r))


@op("isreal", lambda c: [R(c.rep(maxdim=6))], .7)
def _(r):
    return bool(lie().is_real(r))


@op("isunitary", lambda c: [R(c.rep(maxdim=8))], .7)
def _(r):
    return bool(lie().is_unitary(r))


@op("makereal", lambda c: [R(c.rep(maxdim=5, kind=c.rng.choice(["tab", "cb", "gen"])))], .8)
def _(r):
    q = lie().make_explicitly_real(r)
    return (q.X, q.H)


# ------------------------------------------------------------------ composites
def rep_out(r):
    return r


def g_tp(c):
    t = c.small()
    return [R(c.rep(t, maxdim=5)), R(c.rep(t, maxdim=5))]


@op("tp", g_tp, 3, alias=True)
def _(a, b):
    return lie().tensor_product(a, b)


@op("tptab", g_tab2, 1.5, alias=True)
def _(a, b):
    return lie().tensor_product(a, b)


@op("tpow", lambda c: [R(c.rep(maxdim=3)), c.rng.randint(0, 3)], 1, alias=True)
def _(a, n):
    return lie().tensor_power(a, n)


@op("dsum", g_rep2, 1, alias=True)
def _(a, b):
    return lie().direct_sum(a, b)


@op("conj", g_anyrep, 1, alias=True)
def _(a):
    return lie().conjugate(a)


def g_cb(c):
    s = c.rep(maxdim=8)
    return [R(s), A(["q", c.rng.choice("rcoupsdm"), c.rng.randint(0, 9), specs.spec_dim(s)])]


@op("cb", g_cb, 1.5, alias=True)
def _(r, Q):
    return lie().change_basis(r, Q)


LIE_DIM = {"SU2": 3, "SO3": 3, "O3": 3, "SU2Real": 3, "SL2C": 6, "SO13": 6, "Z2": 0, "SU2_": 3, "SU3": 8, "SU4": 15, "u1": 1}


def lie_dim(s):
    return lie_dim_of(specs.family(s))


def lie_dim_of(f):
    if f[0] == "prod":
        return sum(lie_dim_of(x) for x in f[1:])
    if f[0] == "SUN":
        return f[1] ** 2 - 1 if f[1] > 1 else 1
    if f[0] == "SONadj":
        return f[1] * (f[1] - 1) // 2
    return {"custom": 1}.get(f[0], LIE_DIM.get(f[0], 0))


def g_ca(c):
    s = c.rep(maxdim=6)
    return [R(s), A(["q", c.rng.choice("rosdp"), c.rng.randint(0, 9), lie_dim(s)])]


@op("ca", g_ca, 1, alias=True)
def _(r, Q):
    return lie().change_algebra(r, Q)


@op("gprod", lambda c: [R(c.rep(maxdim=3)), R(c.rep(maxdim=3))], 1, alias=True)
def _(a, b):
    return lie().group_product(a, b)


@op("gprod3", lambda c: [R(c.small()), R(c.small()), R(c.small())], .5, alias=True)
def _(a, b, d):
    r = lie().group_product(a, b, d)
    return (r.dim, r.X, r.H, r.A)


def g_reduce(c):
    t = c.tab(c.rng.choice(["SU2", "SO3", "O3", "SL2C"]), 0)
    return [R(["gen", ["red", [t, specs.gen_tab_like(c.rng, t, 0)], [c.rng.choice("rou"), c.rng.randint(0, 3)]]])]


@op("reduce", g_reduce, .7, random=True, alias=True)
def _(r):
    return lie().reduce(r)


@op("reducetab", lambda c: [R(c.rep(kind=c.rng.choice(["tab", "mul", "red", "redq"])))], .5, random=True, alias=True)
def _(r):
    return lie().reduce(r)


@op("fromgen", lambda c: [R(c.rep(maxdim=4))], .6, alias=True)
def _(r):
    g = lie().GenericRep.from_generators(r.X, r.H)
    return None if g is None else (g.A, g.X, g.H)


# ------------------------------------------------------------------ reduced tensor-product bases
FORMULAS = ["ij=ji", "ij=-ji", "ij", "ijk=jik", "ijk=-jik", "ijk=jki", "ijk=jik=ikj", "ijk=-jki", "ijk=kji", "ab=ba", "ji=ij", "ijk=ikj", "ijk=-ikj", "ijk"]


def g_rtp(c):
    f = c.rng.choice(FORMULAS)
    t = c.tab(c.rng.choice([x for x in c.fams if x not in ("SU3", "SU4", "SUN", "prod", "SU2Real")] or ["SO3"]), c.rng.choice([0, 1]))
    n = len(f.split("=")[0])
    md = 4 if n > 2 else 6
    s = specs.gen_rep_like(c.rng, t, kind=c.rng.choice(["tab", "mul", "red", "redq"]), maxdim=md)
    if "=" in f:
        return [f, {"kw": {f[0]: R(s)} if len(set(f.replace("=", "").replace("-", ""))) and same_orbit(f) else {i: R(s) for i in f.split("=")[0]}}]
    return [f, {"kw": {i: R(s) for i in f}}]


def same_orbit(f):
    parts = [p.replace("-", "") for p in f.split("=")]
    seen = {parts[0][0]}
    while True:
        n = len(seen)
        for p in parts:
            for a, b in zip(parts[0], p):
                if a in seen or b in seen:
                    seen |= {a, b}
        if len(seen) == n:
            return len(seen) == len(parts[0])


@op("rtp", g_rtp, 2.5, tags=["cache"])
def _(f, kw):
    o = lie().reduced_tensor_product_basis(f, **kw)
    return (repr(o.rep), o.array, list(o.list))


def g_rtpl(c):
    t = c.tab(c.rng.choice([x for x in c.fams if x not in ("SU3", "SU4", "SUN", "prod", "SU2Real")] or ["SO3"]), 0)
    return [[R(specs.gen_rep_like(c.rng, t, kind=c.rng.choice(["tab", "mul", "red", "redq"]), maxdim=4)) for _ in range(c.rng.randint(2, 3))]]


@op("rtpl", g_rtpl, 1, tags=["cache"])
def _(l):
    o = lie().reduced_tensor_product_basis(l)
    return (repr(o.rep), o.array, list(o.list))


def g_sym(c):
    t = c.tab(c.rng.choice([x for x in c.fams if x not in ("SU3", "SU4", "SUN", "prod", "SU2Real")] or ["SO3"]), c.rng.choice([0, 1]))
    n = c.rng.choice([1, 2, 2, 3, 3])
    if c.rng.random() < .06:
        return [R(specs.gen_tab(c.rng, c.rng.choice(["SU2", "Z2", "SU2_", "O3"]), 0)), c.rng.choice([4, 4, 5])]
    return [R(specs.gen_rep_like(c.rng, t, kind=c.rng.choice(["tab", "mul", "red", "redq"]), maxdim=4 if n > 2 else 6)), n]


@op("sym", g_sym, 2.5, tags=["cache"])
def _(r, n):
    o = lie().reduced_symmetric_tensor_product_basis(r, n)
    return (repr(o.rep), o.array, list(o.list))


LONG = ["ijkl=jikl=klij", "ijkl=-jikl=-ijlk=klij", "ijkl=jikl=jkli", "ijkl=-jikl=-jkli", "ijklm=jiklm=jklmi", "ijklm=-jiklm=jklmi", "ijklm=jklmi",
        "ijklmn=-jiklmn=klijmn=ijklnm", "ijklmn=jiklmn=jklimn=ijklnm", "ijklmnop=jiklmnop=klijmnop=ijklnmop=ijklmnpo", "ijklmn=jkilmn=ijkmnl=jiklmn", "i", "ij=ji=-ji"]


@op("germinate", lambda c: [c.rng.choice(FORMULAS if c.rng.random() < .5 else LONG)], 1.2, tags=["cache"], owned=False)
def _(f):
    from lie_nn._src import reduced_tensor_product as m
    a, b = m.germinate_perm_repr(f)
    return (a, sorted(b))


# ------------------------------------------------------------------ linear-algebra utilities
def tinied(c, a, p=.3):
    """Sometimes: the same array, with rounding noise in some entries."""
    return {"m": ["tiny", a["m"], c.rng.randint(0, 9)]} if c.rng.random() < p else a


def g_lr(c):
    m, n = c.rng.randint(1, 6), c.rng.randint(1, 6)
    if c.rng.random() < .35:
        s = ["graded", m, n, [c.rng.randint(0, 5) for _ in range(min(m, n))], c.rng.randint(0, 20), c.rng.choice("rc")]
    else:
        s = ["lowrank", m, n, c.rng.randint(0, min(m, n)), c.rng.randint(0, 20), c.rng.choice("rc")]
    return tinied(c, A([c.rng.choice(["F", "strided"]), s] if c.rng.random() < .25 else s), .12)


EPS = [1e-4, 2e-3, 0.1, 1e-6]


def eps(c, default=None):
    """A tolerance argument: nearly always the default."""
    return c.rng.choice(EPS) if c.rng.random() < .3 else default


def tol(e):
    return {} if e is None else {"epsilon": e}


@op("nullspace", lambda c: [g_lr(c), {"f": c.rng.choice(["id", "id", "sqrt", "r12", "copy"])}, eps(c)], 2)
def _(a, f, e):
    return lie().util.nullspace(a, round_fn=f, **tol(e))


@op("gs", lambda c: [g_lr(c), {"f": c.rng.choice(["id", "id", "r12"])}, eps(c)], 1.2)
def _(a, f, e):
    return lie().util.gram_schmidt(a, round_fn=f, **tol(e))


@op("extend", lambda c: [A(["lowrank", 2, 4, 2, c.rng.randint(0, 20), c.rng.choice("rc")]), c.rng.choice(["Q", "E"]), eps(c)], 1)
def _(a, r, e):
    return lie().util.extend_basis(a, returns=r, **tol(e))


def g_seqnull(c):
    n, k = c.rng.randint(2, 6), c.rng.choice("rc")
    m = c.rng.randint(1, 6)
    d = c.rng.randint(0, n) if c.rng.random() < .4 else max(0, n - c.rng.randint(1, m))
    if c.rng.random() < .1:         # long: the same constraint again and again, the others last
        a = A(["lowrank", 2, n, 1, c.rng.randint(0, 20), k])
        return [[a] * c.rng.choice([40, 70, 110]) + [A(["lowrank", 2, n, 1, c.rng.randint(0, 20), k]) for _ in range(2)], max(0, n - 2 - c.rng.randint(0, 1)), eps(c)]
    return [[A(["lowrank", c.rng.randint(1, 3), n, 1, c.rng.randint(0, 20), k]) for _ in range(m)], d, eps(c)]


@op("seqnull", g_seqnull, 1.2)
def _(l, d, e):
    return lie().util.sequential_nullspace(iter(l), d, **tol(e))


@op("icb", lambda c: [A(["XH", c.rep(maxdim=4)]), A(["XH", c.rep(maxdim=4)])], .6)
def _(a, b):
    return lie().util.infer_change_of_basis(a, b)


@op("icb1", lambda c: (lambda s: [A(["XH", s]), A(["XH", s]), eps(c)])(c.rep(maxdim=5)), .8)
def _(a, b, e):
    return lie().util.infer_change_of_basis(a, b, **tol(e))


@op("binter", lambda c: (lambda k: [A(["rand", [c.rng.randint(1, 3), 4], c.rng.randint(0, 9), k]), A(["rand", [c.rng.randint(1, 3), 4], c.rng.randint(0, 9), k]), eps(c)])(c.rng.choice("rc")), 1)
def _(a, b, e):
    return lie().util.basis_intersection(a, b, **tol(e))


@op("inferalg", lambda c: [A(["X", c.rep(maxdim=4)])], .7)
def _(a):
    return lie().util.infer_algebra_from_generators(a)


@op("round", lambda c: [tinied(c, A(["unit", c.rng.choice([[3], [2, 2], [5]]), c.rng.randint(0, 30)])), c.rng.choice([4096, 64, 1000])], 1)
def _(a, d):
    return lie().util.round_to_sqrt_rational(a, d)


@op("rounds", lambda c: [c.rng.choice([0.5, 0.7071067811865476, -1.7320508075688772, 0.0, 0.3]), 4096], .2)
def _(a, d):
    return str(lie().util.round_to_sqrt_rational_sympy(np.float64(a), d))


@op("ratio", lambda c: [tinied(c, A(["unit", [4], c.rng.randint(0, 30)]))], .5)
def _(a):
    return tuple(lie().util.as_approx_integer_ratio(a))


@op("limden", lambda c: [A(["ints", [4], c.rng.randint(0, 30)]), A(["ints", [4], c.rng.randint(0, 30)]), c.rng.choice([10, 100])], .5)
def _(n, d, m):
    g = np.gcd(n, d)
    return np.asarray(lie().util.limit_denominator(n // g, d // g, m))


@op("vmap", lambda c: [A(["rand", [3, 2, 2], c.rng.randint(0, 9), "r"]), A(["rand", [3, 2, 2], c.rng.randint(0, 9), "r"])], .5)
def _(a, b):
    return lie().util.vmap(lie().util.commutator)(a, b)


@op("udsum", lambda c: [A(["rand", [2, c.rng.randint(1, 3), 2], c.rng.randint(0, 9), "c"]), A(["rand", [2, 2, c.rng.randint(1, 3)], c.rng.randint(0, 9), "r"]), A(["eye", 2])], .6)
def _(a, b, d):
    return lie().util.direct_sum(a, b, d)


@op("blockd", lambda c: [A(["rand", [2, c.rng.randint(1, 3), 2], c.rng.randint(0, 9), "r"]), A(["rand", [2, 2, 2], c.rng.randint(0, 9), "r"])], .5)
def _(a, b):
    return lie().util.block_diagonal([a, b])


@op("kron", lambda c: [A(["rand", [c.rng.randint(1, 3), 2], c.rng.randint(0, 9), "c"]), A(["rand", [2, 2], c.rng.randint(0, 9), "r"]), A(["eye", 2])], .5)
def _(a, b, d):
    return lie().util.kron(a, b, d)


@op("psign", lambda c: [c.rng.sample(range(4), 4)], .3)
def _(p):
    return int(lie().util.permutation_sign(tuple(p)))


@op("uniq", lambda c: [A(["clusters", [c.rng.randint(1, 8)], c.rng.randint(0, 9)])], .6)
def _(a):
    return tuple(lie().util.unique_with_tol(a, tol=1e-6))


@op("regular", lambda c: [A(["table", c.rng.choice(["Z", "Z", "S"]), c.rng.randint(1, 3)])], .4)
def _(t):
    return lie().util.regular_representation(t)


@op("decomp", lambda c: [A(["XH", ["red", [["SU2", c.rng.randint(0, 1)], ["SU2", c.rng.randint(0, 2)]], [c.rng.choice("ou"), c.rng.randint(0, 3)]]])], .5, random=True)
def _(x):
    return lie().util.decompose_rep_into_irreps(x)


@op("uirred", lambda c: [A(["XH", c.rep(maxdim=4)])], .4)
def _(x):
    return bool(lie().util.is_irreducible(x))


@op("ucheck", lambda c: (lambda s: [A(["A", s]), A(["X", s])])(c.rep(maxdim=5)), .5)
def _(a, x):
    return bool(lie().util.check_algebra_vs_generators(a, x))


@op("fourvec", lambda c: [], .2)
def _():
    r = lie().irreps.SO13.four_vector()
    return (r.A, r.X, r.H)


# ------------------------------------------------------------------ permutations and root data
def _perm():
    from lie_nn._src.discrete_groups import perm
    return perm


@op("perm", lambda c: [c.rng.randint(1, 4), c.rng.randint(0, 23), c.rng.randint(0, 23)], .5)
def _(n, i, j):
    p = _perm()
    import math
    a, b = p.from_int(i % math.factorial(n), n), p.from_int(j % math.factorial(n), n)
    return (a, b, p.compose(a, b), p.inverse(a), p.to_int(a), sorted(p.to_cycles(a)), p.sign(b), sorted(p.germinate({a, b})), p.is_group(p.group(n)) if n < 4 else None)


@op("roots", lambda c: [c.rng.choice("ABCD"), c.rng.randint(2, 4)], .4)
def _(g, n):
    from lie_nn._src.lie_algebra_utils import structure_algebra
    return {k: (np.asarray(v) if not isinstance(v, str) else v) for k, v in structure_algebra(g, n).items()}


@op("sondim", lambda c: [c.rng.choice(["SON", "SPN"]), [c.rng.randint(0, 2) for _ in range(c.rng.randint(2, 4))]], .3)
def _(f, S):
    import importlib
    m = importlib.import_module("lie_nn._src.irreps." + f.lower())
    r = getattr(m, f)(tuple(S))
    return (r.dim, r.is_scalar())


@op("sonadj", lambda c: [c.rng.choice([4, 6])], .1)
def _(n):
    from lie_nn._src.irreps.son import SON_adjoint
    return SON_adjoint(n).X


# ------------------------------------------------------------------ heavy SU(N)
@op("sun", lambda c: [R(c.rng.choice([["SU3", [1, 0, 0]], ["SU3", [1, 1, 0]], ["SU2_", [1, 0]], ["SU2_", [2, 0]], ["SU3", [0, 0, 0]]]))], .5, tags=["heavy"])
def _(r):
    return (r.X, r.H, r.A, r.dim)


@op("suncg", lambda c: c.rng.choice([[R(["SU2_", [1, 0]]), R(["SU2_", [1, 0]]), R(["SU2_", [c.rng.choice([0, 2]), 0]])],
                                    [R(["SU2_", [1, 0]]), R(["SU2_", [2, 0]]), R(["SU2_", [1, 0]])],
                                    [R(["SU2_", [2, 0]]), R(["SU2_", [1, 0]]), R(["SU2_", [3, 0]])]]), .5, tags=["heavy"])
def _(a, b, c):
    return lie().clebsch_gordan(a, b, c)


@op("sunmod", lambda c: [c.rng.choice([[1, 0], [2, 0], [2, 1, 0], [3, 1, 0], [2, 0, 0]]), c.rng.choice([[1, 0], [1, 1, 0], [2, 0, 0]])], .5)
def _(S, S2):
    from lie_nn._src.irreps import sun
    S, S2 = tuple(S), tuple(S2)
    Ms = list(sun.S_to_Ms(S))
    return (sun.dim(S), Ms, [sun.M_to_index(m) for m in Ms], sun.index_to_M(S, 0), list(sun.S_to_Ss(S)), [sun.M_to_z_weight(m) for m in Ms],
            sorted(set(sun.mul_rep(S, S2))) if len(S) == len(S2) else None)


def g_sunbig(c):
    """Irreps of SU(N) up to N = 8: what does not need their matrices."""
    n = c.rng.choice([2, 3, 4, 5, 5, 6, 7, 8])

    def w():
        S = [0] * n
        for _ in range(c.rng.randint(0, 2)):
            k = c.rng.choice([1, 1, 1, n - 1, c.rng.randint(1, n - 1)])
            S = [x + (i < k) for i, x in enumerate(S)]
        return S
    for _ in range(20):
        a, b = w(), w()
        if specs.spec_dim(["SUN", a]) <= 60 and specs.spec_dim(["SUN", b]) <= 60:
            return [a, b]
    return [[1] + [0] * (n - 1)] * 2


@op("sunbig", g_sunbig, .7)
def _(a, b):
    from lie_nn._src.irreps import sun
    A, B = sun.SUN(tuple(a)), sun.SUN(tuple(b))
    Ms = list(itertools.islice(sun.S_to_Ms(A.S), 12))
    return (A.dim, B.dim, A.lie_dim if len(a) < 4 else None, A.is_scalar(), [repr(x) for x in A * B], A < B, A == B, hash(A) == hash(B), A.H.shape, repr(sun.SUN.from_string(
        "(" + ",".join(map(str, a)) + ")")), [sun.M_to_index(m) for m in Ms], [sun.index_to_M(A.S, i) for i in (0, A.dim - 1)], [sun.M_to_z_weight(m) for m in Ms])


# ------------------------------------------------------------------ decode / run / normalise
class ArgError(Exception):
    pass


class Unbuilt:
    """A shared object whose construction raises; built anew by every operation that uses it."""

    def __init__(self, spec):
        self.spec = spec


def decode(a, objs, sim=None, hook=None):
    if isinstance(a, dict):
        if "r" in a:
            return specs.build(a["r"])
        if "m" in a:
            return specs.array(a["m"])
        if "o" in a:
            x = objs[a["o"]]
            return decode(x.spec, objs) if isinstance(x, Unbuilt) else x
        if "f" in a:
            return callback(a["f"], sim, hook)
        if "kw" in a:       # equal specs in one request denote one object
            memo = {}
            out = {}
            for k, v in a["kw"].items():
                j = json.dumps(v)
                if j not in memo:
                    memo[j] = decode(v, objs, sim, hook)
                out[k] = memo[j]
            return out
    if isinstance(a, list):
        return [decode(x, objs, sim, hook) for x in a]
    return a


def subst(a, objspecs):
    """Replace object references by what they denote (for the reference run)."""
    if isinstance(a, dict):
        if "o" in a:
            return objspecs[a["o"]]
        if "kw" in a:
            return {"kw": {k: subst(v, objspecs) for k, v in a["kw"].items()}}
        return a
    if isinstance(a, list):
        return [subst(x, objspecs) for x in a]
    return a


def is_rep(x):
    return isinstance(x, lie().Rep)


def norm(x):
    """A value as plain data: arrays copied, representations replaced by what they answer."""
    if isinstance(x, np.ndarray):
        return x.copy()
    if is_rep(x):
        d = {"kind": type(x).__name__, "dim": x.dim, "X": np.array(x.X), "H": np.array(x.H), "A": np.array(x.A)}
        if type(x).__name__ == "ReducedRep":
            d["irreps"] = [repr(i) for i in x.irreps]
            d["Q"] = None if x.Q is None else np.array(x.Q)
        return d
    if isinstance(x, tuple) and hasattr(x, "_fields"):
        return {k: norm(getattr(x, k)) for k in x._fields}
    if isinstance(x, (list, tuple)):
        return [norm(y) for y in x]
    if isinstance(x, dict):
        return {k: norm(v) for k, v in x.items()}
    if isinstance(x, np.generic):
        return x.item()
    return x


def run_op(o, objs=(), sim=None, hook=None):
    """Execute one op. Returns (status, raw value or exception)."""
    fn = OPS[o["op"]].fn
    args = [decode(a, objs, sim, hook) for a in o["a"]]
    return fn(*args), args


TOL = 1e-8


def same(a, b, tol=TOL):
    """None if equal (to rounding), else a short reason."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
            return f"{type(a).__name__} vs {type(b).__name__}"
        if a.shape != b.shape:
            return f"shape {a.shape} vs {b.shape}"
        if a.dtype != b.dtype:
            return f"dtype {a.dtype} vs {b.dtype}"
        if a.size == 0:
            return None
        if a.dtype.kind in "biuO":
            return None if np.array_equal(a, b) else "values differ"
        with np.errstate(all="ignore"):
            ok = np.isclose(a, b, rtol=tol, atol=tol * max(1.0, float(np.nanmax(np.abs(b))) if np.isfinite(b).any() else 1.0), equal_nan=True)
        if ok.all():
            return None
        d = np.abs(a - b)
        return f"values differ by {float(np.nanmax(d)) if np.isfinite(d).any() else float('nan'):.3g}"
    if isinstance(a, dict) and isinstance(b, dict):
        if list(a.keys()) != list(b.keys()) and set(a) != set(b):
            return "keys differ"
        for k in a:
            r = same(a[k], b[k], tol)
            if r:
                return f"{k}: {r}"
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return f"length {len(a)} vs {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            r = same(x, y, tol)
            if r:
                return f"[{i}] {r}"
        return None
    if isinstance(a, (float, complex)) and isinstance(b, (float, complex)):
        if a == b or (a != a and b != b):
            return None
        return None if abs(a - b) <= tol * max(1.0, abs(b)) else f"{a} vs {b}"
    if type(a) is not type(b) and not (isinstance(a, (int, bool)) and isinstance(b, (int, bool))):
        return f"{type(a).__name__} {str(a)[:60]} vs {type(b).__name__} {str(b)[:60]}"
    return None if a == b else f"{str(a)[:80]} vs {str(b)[:80]}"


# ------------------------------------------------------------------ generation helpers
def gen_op(rng, ctx, names=None, exclude=()):
    pool = [OPS[n] for n in names] if names else [o for o in OPS.values()]
    pool = [o for o in pool if o.name not in exclude and not (("heavy" in o.tags) and not names and rng.random() < .7)]
    tot = sum(o.w for o in pool)
    u = rng.random() * tot
    for o in pool:
        u -= o.w
        if u <= 0:
            break
    return {"op": o.name, "a": o.gen(ctx), "s": rng.randrange(1000)}


def _leaves(x, path=()):
    if isinstance(x, dict):
        for k, v in x.items():
            if k == "f":
                continue
            yield from _leaves(v, path + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from _leaves(v, path + (i,))
    else:
        yield path, x


def _put(x, path, v):
    if not path:
        return v
    if isinstance(x, dict):
        return {k: (_put(w, path[1:], v) if k == path[0] else w) for k, w in x.items()}
    return [(_put(w, path[1:], v) if i == path[0] else w) for i, w in enumerate(x)]


def _reps_in(a):
    if isinstance(a, dict):
        if "r" in a:
            yield a["r"]
        elif "kw" in a:
            for v in a["kw"].values():
                yield from _reps_in(v)
    elif isinstance(a, list):
        for x in a:
            yield from _reps_in(x)


def _mats_in(a):
    if isinstance(a, dict):
        if "m" in a:
            yield a["m"]
    elif isinstance(a, list):
        for x in a:
            yield from _mats_in(x)


def _specs_in(a):
    """Every representation spec, nested ones too."""
    def sub(s):
        yield s
        for x in s[1:]:
            if isinstance(x, list) and x and isinstance(x[0], str) and (x[0] in specs.TAB or x[0] in ("mul", "red", "gen", "cb", "conj", "dsum")):
                yield from sub(x)
            elif isinstance(x, list):
                for y in x:
                    if isinstance(y, list) and y and isinstance(y[0], str):
                        yield from sub(y)
    for s in _reps_in(a):
        yield from sub(s)


SWAP = {
    "SO3": lambda s: [["SU2Real", float(s[1])], ["O3", s[1], 1], ["O3", s[1], -1], ["SU2", 2 * s[1]], ["SU2", s[1]]],
    "O3": lambda s: [["SO3", s[1]], ["SU2Real", float(s[1])]],
    "SU2": lambda s: [["SU2_", [s[1], 0]], ["SU2Real", s[1] / 2]] + ([["SO3", s[1] // 2]] if s[1] % 2 == 0 else []) + [["SO3", s[1]]],
    "SU2Real": lambda s: [["SU2", int(2 * s[1])]] + ([["SO3", int(s[1])]] if s[1] == int(s[1]) else []),
    "SU2_": lambda s: [["SU2", s[1][0]]],
    "SL2C": lambda s: [["SO13", s[1], s[2]]],
    "SO13": lambda s: [["SL2C", s[1], s[2]]],
}


def swap_family(rng, o):
    """The same labels in another family of groups."""
    o2 = json.loads(json.dumps(o))
    fams = {s[0] for s in _specs_in(o2["a"]) if s[0] in SWAP}
    if len(fams) != 1:
        return None
    k = rng.random()
    for s in _specs_in(o2["a"]):
        if s[0] in SWAP:
            L = SWAP[s[0]](s)
            s[:] = L[int(k * len(L)) % len(L)]
    if len({s[0] for s in _specs_in(o2["a"]) if s[0] in specs.TAB}) != 1:
        return None
    return o2


def rename(rng, o):
    """The same formula in other letters (or with the letters exchanged)."""
    o = json.loads(json.dumps(o))
    f = o["a"][0]
    old = sorted(set(f) - set("-="))
    new = rng.choice([old, list("xyzw"), list("abcd"), old[::-1]])[:len(old)]
    if rng.random() < .5:
        rng.shuffle(new)
    m = dict(zip(old, new))
    if len(o["a"]) > 1:
        o["a"][1]["kw"] = {m.get(k, k): v for k, v in o["a"][1]["kw"].items()}
    o["a"][0] = "".join(m.get(x, x) for x in f)
    return o


LIGHT = {"X", "H", "A", "dims", "exp", "checkalg", "trivial", "mulrule", "order", "iterdrop", "cg", "cgcls", "conj", "isunitary"}


def sibling(rng, o):
    """An op that differs from `o` in one small respect (or exchanges arguments)."""
    u = rng.random()
    if o["op"] in ("rtp", "germinate") and rng.random() < .3:
        return rename(rng, o)
    if u < .15 and len(o["a"]) >= 2:
        i, j = rng.sample(range(len(o["a"])), 2)
        a = list(o["a"])
        if type(a[i]) is type(a[j]) and set(a[i] if isinstance(a[i], dict) else ()) == set(a[j] if isinstance(a[j], dict) else ()):
            a[i], a[j] = a[j], a[i]
            return {**o, "a": a}
    if u < .3 and any("r" in a for a in o["a"] if isinstance(a, dict)):
        # same op on another kind of the same representation
        i = rng.choice([i for i, a in enumerate(o["a"]) if isinstance(a, dict) and "r" in a])
        s = o["a"][i]["r"]
        if s[0] in specs.TAB:
            s2 = rng.choice([["gen", s], ["mul", 1, s], ["red", [s], None], ["mul", 2, s], ["cb", s, [rng.choice("rc"), rng.randint(0, 3)]]])
            if specs.spec_dim(s2) <= 8:
                return {**o, "a": [({"r": s2} if k == i else a) for k, a in enumerate(o["a"])]}
    if u < .4:
        # same arguments, another op of the same arity
        sig = [sorted(a) if isinstance(a, dict) else type(a).__name__ for a in o["a"]]
        cands = {"X": ["H", "A", "dims", "conj", "irred", "isreal", "isunitary", "trivial", "checkalg"], "cg": ["cgcls", "triplet"], "sym": ["sym"],
                 "tp": ["dsum", "gprod"], "tptab": ["mulrule", "order", "tp"], "nullspace": ["gs"]}.get(o["op"])
        if cands:
            return {**o, "op": rng.choice(cands)}
    w = rng.random()
    if w < .12:
        k = [i for i, a in enumerate(o["a"]) if a is None or (isinstance(a, float) and a in EPS)]
        if k and o["op"] in ("nullspace", "gs", "extend", "seqnull", "icb1", "binter"):
            return {**o, "a": [(rng.choice([e for e in EPS + [None] if e != a]) if i in k else a) for i, a in enumerate(o["a"])]}
    elif w < .3:
        k = [i for i, a in enumerate(o["a"]) if isinstance(a, dict) and "m" in a]
        if k:
            i = rng.choice(k)
            m = o["a"][i]["m"]
            two = m[0] in ("lowrank", "graded", "rand", "F", "T", "strided", "eye", "tiny")
            m2 = rng.choice([["F", m], ["cx", m], ["near", m, rng.randint(0, 3), rng.choice([1e-5, 1e-6, 1e-7])], ["strided", m], ["tiny", m, rng.randint(0, 9)]]
                            + ([["T", m], ["as", m, rng.choice([1, 2, 3, 4])]] if two and o["op"] in ("nullspace", "gs") else []))
            return {**o, "a": [({"m": m2} if j == i else a) for j, a in enumerate(o["a"])]}
    elif w < .38:
        o2 = swap_family(rng, o)
        if o2 is not None and plausible(o2):
            return o2
    elif w < .45:
        o2 = json.loads(json.dumps(o))
        q = [s for s in _specs_in(o2["a"]) if (s[0] == "cb" and len(s) > 2) or (s[0] == "red" and s[2])]
        if q:
            x = rng.choice(q)
            x[2] = [rng.choice("rcoupsdn"), x[2][1]] if rng.random() < .7 else ([x[2][0], x[2][1] + 1])
            return o2
    leaves = [(p, v) for p, v in _leaves(o["a"]) if isinstance(v, (int, float)) and not isinstance(v, bool) and v not in EPS]
    if not leaves:
        return json.loads(json.dumps(o))
    p, v = rng.choice(leaves)
    if isinstance(v, int):
        v2 = rng.choice([v + 1, v - 1, -v, 0, 1]) if v else rng.choice([1, 1, 2])
        if v in (1, -1) and rng.random() < .5:
            v2 = -v
    else:
        v2 = rng.choice([v + 0.5, v - 0.5, v + 1.0, v * (1 + 1e-3)])
    o2 = {**o, "a": _put(o["a"], p, v2)}
    return o2 if plausible(o2) else json.loads(json.dumps(o))


def plausible(o, maxdim=9):
    if o["op"] in LIGHT:
        maxdim = 13
    try:
        for s in _reps_in(o["a"]):
            if not (0 <= specs.spec_dim(s) <= maxdim) or not valid_spec(s):
                return False
        for m in _mats_in(o["a"]):
            if m[0] in ("X", "H", "A", "XH") and not (valid_spec(m[1]) and specs.spec_dim(m[1]) <= 8):
                return False
            if any(isinstance(v, (int, float)) and (v < 0 or v > 3000) for p, v in _leaves(m)):
                return False
            if array_size(m) > 200:
                return False
            if m[0] == "table" and m[2] > 3:
                return False
        if o["op"] == "sym" and not (1 <= o["a"][1] <= 3):
            return False
        if o["op"] == "tpow" and not (0 <= o["a"][1] <= 3):
            return False
        if o["op"] in ("sunmod", "sunbig", "sondim", "sonadj", "roots", "classq", "seqnull"):
            return False
        reps = list(_reps_in(o["a"]))
        if o["op"] in ("sym", "rtp") and any(specs.spec_dim(s) > 6 for s in reps):
            return False
        if o["op"] in ("cggen", "tp", "infer", "dsum", "tpow", "gprod") and any(specs.spec_dim(s) > 6 for s in reps):
            return False
        return True
    except Exception:
        return False


def array_size(m):
    """Size of the array a spec denotes, without running the library."""
    if m[0] in ("X", "H", "A", "XH"):
        d, n, h = specs.spec_dim(m[1]), lie_dim(m[1]), n_discrete(m[1])
        return {"X": n * d * d, "H": h * d * d, "A": n ** 3, "XH": (n + h) * d * d}[m[0]]
    if m[0] in ("RO", "F", "T", "strided", "cx", "as", "near", "tiny"):
        return array_size(m[1])
    return specs.array(m).size


def n_discrete(s):
    """Number of discrete generators of a representation spec."""
    def of(f):
        k = f[0]
        if k == "prod":
            return sum(of(x) for x in f[1:])
        if k == "fin":
            return len(specs.fin_irreps(f[1])[0])
        if k == "Sn":
            return 0 if f[1] < 2 else 1 if f[1] == 2 else 2
        return {"O3": 1, "Z2": 1}.get(k, 0)
    return of(specs.family(s))


def valid_spec(s):
    k = s[0]
    if k == "SU2Real":
        return 0 <= s[1] <= (6 if s[1] == int(s[1]) else 3) and 2 * s[1] == int(2 * s[1])
    if k in ("SU2", "SO3"):
        return 0 <= s[1] <= 6
    if k == "O3":
        return 0 <= s[1] <= 6 and s[2] in (1, -1)
    if k in ("SL2C", "SO13"):
        return min(s[1], s[2]) >= 0 and s[1] + s[2] <= 4 and (k == "SL2C" or (s[1] + s[2]) % 2 == 0)
    if k == "Z2":
        return s[1] in (1, -1)
    if k in ("SU2_", "SU3", "SU4"):
        S = s[1]
        return all(a >= b for a, b in zip(S, S[1:])) and S[-1] == 0 and S[0] <= 3 and len(S) == {"SU2_": 2, "SU3": 3, "SU4": 4}[k]
    if k == "SUN":
        S = s[1]
        return 1 <= len(S) <= 3 and all(a >= b for a, b in zip(S, S[1:])) and S[-1] == 0 and specs.spec_dim(s) <= 6
    if k == "prod":
        return all(valid_spec(x) for x in s[1:])
    if k == "mul":
        return 1 <= s[1] <= 4 and valid_spec(s[2])
    if k == "red":
        return all(valid_spec(x) for x in s[1]) and (s[2] is None or s[2][1] >= 0)
    if k in ("gen", "conj"):
        return valid_spec(s[1])
    if k == "cb":
        return valid_spec(s[1]) and s[2][1] >= 0
    if k == "dsum":
        return valid_spec(s[1]) and valid_spec(s[2])
    if k in ("Snn", "Snt"):
        return 1 <= s[1] <= 5
    if k == "Sns":
        return 2 <= s[1] <= 5
    if k == "custom":
        return 0 <= s[1] <= 5
    if k == "fin":
        return s[1] in specs.FIN and 0 <= s[2] < len(specs.fin_irreps(s[1]))
    if k == "finreg":
        return s[1] in specs.FIN
    if k == "u1":
        return 1 <= len(s[1]) <= 4 and all(-4 <= x <= 4 for x in s[1])
    return False


def share(rng, tasks, p=0.6):
    """Turn equal fresh arguments into references to shared objects. Returns objspecs."""
    objs, index = [], {}

    def walk(a):
        if isinstance(a, dict):
            if "r" in a or "m" in a:
                key = json.dumps(a)
                if key in index:
                    return {"o": index[key]}
                if rng.random() < p:
                    index[key] = len(objs)
                    objs.append(a)
                    return {"o": index[key]}
                return a
            if "kw" in a:
                memo = {}
                for v in a["kw"].values():
                    j = json.dumps(v)
                    if j not in memo:
                        memo[j] = walk(v)
                return {"kw": {k: memo[json.dumps(v)] for k, v in a["kw"].items()}}
            return a
        if isinstance(a, list):
            return [walk(x) for x in a]
        return a

    out = [[{**o, "a": [walk(a) for a in o["a"]]} for o in t] for t in tasks]
    return out, objs
