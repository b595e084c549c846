"""S06: irreps and their Clebsch-Gordan tables are exact on any backend."""
import numpy as np

from .. import oracle, specs
from ..cases import Cases
from ..specs import lie

FAMS = ["SU2", "SU2", "SO3", "SO3", "O3", "O3", "SU2Real", "SU2Real", "SL2C", "SL2C", "SO13", "SO13", "SO13", "Z2", "SU2_", "SU3", "SU3", "SU4", "SUN", "prod", "prod"]


def gen_irrep(rng, f, big):
    b = big
    if f == "SU2":
        return [f, rng.randint(0, 5 + 4 * b)]
    if f == "SO3":
        return [f, rng.randint(0, 3 + 3 * b)]
    if f == "O3":
        return [f, rng.randint(0, 3 + 3 * b), rng.choice([1, -1])]
    if f == "SU2Real":
        return [f, rng.randint(0, 5 + 3 * b) / 2] if rng.random() < .8 else [f, rng.randint(0, 3)]
    if f in ("SL2C", "SO13"):
        while True:
            l, k = rng.randint(0, 3 + b), rng.randint(0, 3 + b)
            if l + k <= 4 + 2 * b and (f == "SL2C" or (l + k) % 2 == 0):
                return [f, l, k]
    if f == "Z2":
        return [f, rng.choice([1, -1])]
    if f == "SU2_":
        return [f, [rng.randint(0, 5), 0]]
    if f == "SU3":
        return [f, rng.choice([[0, 0, 0], [1, 0, 0], [1, 1, 0], [2, 0, 0], [2, 1, 0], [2, 2, 0], [3, 0, 0]] + ([[3, 1, 0], [3, 2, 0], [3, 3, 0], [4, 2, 0]] if b else []))]
    if f == "SU4":
        return [f, rng.choice([[0, 0, 0, 0], [1, 0, 0, 0], [1, 1, 0, 0], [1, 1, 1, 0]] + ([[2, 0, 0, 0], [2, 1, 1, 0]] if b else []))]
    if f == "SUN":
        return [f, rng.choice(SUN5 + SUN6[:2] + [[0], [1, 0], [1, 0, 0], [2, 1, 0]])]
    if f == "prod":
        fs = ["SU2", "SO3", "O3", "Z2", "SU2_", "SL2C"]
        n = rng.choice([2, 2, 2, 3])
        return ["prod"] + [specs.gen_tab(rng, rng.choice(fs), 0 if n == 3 else rng.choice([0, 1])) for _ in range(n)]
    raise ValueError(f)


SUN5 = [[0, 0, 0, 0, 0], [1, 0, 0, 0, 0], [1, 1, 0, 0, 0], [1, 1, 1, 0, 0], [1, 1, 1, 1, 0], [2, 1, 1, 1, 0]]
SUN6 = [[1, 0, 0, 0, 0, 0], [1, 1, 1, 1, 1, 0], [1, 1, 0, 0, 0, 0]]


def gen_deep(rng):
    """Larger irreps than the random draw of families reaches: the tables are computed by formulas with sums that cancel."""
    f = rng.choice(["SU2", "SU2", "SO3", "O3", "SU2Real", "SL2C", "SU2_", "SU3", "SU4", "SO13"])
    if f == "SO13":
        return {"k": "irrep", "s": rng.choice([[f, 4, 4], [f, 4, 2], [f, 5, 3], [f, 6, 2], [f, 1, 7], [f, 3, 5]] + ([[f, 5, 5]] if rng.random() < .3 else []))}
    if f == "SU2":
        s = lambda: [f, rng.randint(16, 44)]
    elif f == "SO3":
        s = lambda: [f, rng.randint(5, 9)]
    elif f == "SU2Real":
        s = lambda: [f, rng.randint(5, 9)]
    elif f == "O3":
        s = lambda: [f, rng.randint(5, 9), rng.choice([1, -1])]
    elif f == "SL2C":
        s = lambda: [f, rng.randint(1, 5), rng.randint(1, 4)]
    elif f == "SU2_":
        s = lambda: [f, [rng.randint(5, 8), 0]]
    elif f == "SU3":
        s = lambda: [f, rng.choice([[4, 1, 0], [4, 2, 0], [4, 3, 0], [4, 4, 0], [5, 0, 0], [5, 2, 0], [6, 3, 0]])]
    else:
        s = lambda: [f, rng.choice([[2, 1, 0, 0], [2, 2, 0, 0], [3, 0, 0, 0], [2, 2, 1, 0], [3, 2, 1, 0]])]
    a = s()
    if f in ("SU3", "SU4") or rng.random() < .2:
        return {"k": "irrep", "s": a} if specs.spec_dim(a) <= 64 else None
    b = s()
    cs = sorted(oracle.product(oracle.tup(a), oracle.tup(b)), key=repr)
    lim = 70000 if f == "SU2" else 5000
    cs = [c for c in cs if specs.spec_dim(a) * specs.spec_dim(b) * specs.spec_dim(jlist(c)) <= lim]
    return {"k": "cg", "t": [a, b, jlist(rng.choice(cs))]} if cs else None


def gen_multi(rng):
    """Products of groups in which the factors have several paths (half-integer SU2Real, SU(3))."""
    def one():
        u = rng.random()
        if u < .6:
            return [["SU2Real", x] for x in rng.choice([[.5, .5, 0], [.5, 0, .5], [0, .5, .5], [.5, .5, 1]])]
        if u < .7:
            return [["SU3", [2, 1, 0]]] * 3
        f = rng.choice(["SU2", "SO3", "Z2"])
        t = [specs.gen_tab(rng, f, 0) for _ in range(2)]
        cs = sorted(oracle.product(oracle.tup(t[0]), oracle.tup(t[1])), key=repr)
        return t + [jlist(rng.choice(cs))]
    for _ in range(20):
        fs = [one() for _ in range(rng.choice([2, 2, 2, 3]))]
        t = [["prod"] + list(x) for x in zip(*fs)]
        if np.prod([float(specs.spec_dim(x)) for x in t]) <= 5000:
            return {"k": "cg", "t": t}
    return None


def paths(t):
    """The number of paths, where it is cheap to tell (None otherwise)."""
    if t[0][0] == "prod":
        n = 1
        for f in zip(*[x[1:] for x in t]):
            m = paths(f)
            if m is None:
                r = [specs.build(x) for x in f]
                if np.prod([x.dim for x in r]) > 1200:
                    return None
                m = oracle.hom_dim(oracle.kron_sum(np.asarray(r[0].X), np.asarray(r[1].X)), np.asarray(r[2].X))
            n *= m
        return n
    if any(oracle.quaternionic(oracle.tup(x)) for x in t):
        return None
    return oracle.product(oracle.tup(t[0]), oracle.tup(t[1])).get(oracle.tup(t[2]), 0)


def weights(rng, n, top):
    """A random highest weight of SU(n), last entry 0."""
    return sorted([rng.randint(0, top) for _ in range(n - 1)], reverse=True) + [0]


def gen_wide(rng):
    """Dimensions and product rules only: cheap, so far beyond the irreps whose tables can be computed."""
    f = rng.choice(["SU2", "SO3", "O3", "SU2Real", "SL2C", "SO13", "SU2_", "SU3", "SU3", "SU4", "SUN", "SUN", "SUN"])
    n = {"SU2_": 2, "SU3": 3, "SU4": 4}.get(f) or rng.choice([1, 2, 3, 4, 5, 5, 6, 6, 7])

    def one(top):
        if f in ("SU2_", "SU3", "SU4", "SUN"):
            return [f, weights(rng, n, top)]
        if f == "SU2Real":
            return [f, rng.randint(0, 120) / 2]
        if f == "O3":
            return [f, rng.randint(0, 60), rng.choice([1, -1])]
        if f == "SL2C":
            return [f, rng.randint(0, 25), rng.randint(0, 25)]
        if f == "SO13":
            l, k = rng.randint(0, 25), rng.randint(0, 12)
            return [f, l, 2 * k + l % 2]
        return [f, rng.randint(0, 90)]
    if rng.random() < .6:
        return {"k": "dims", "s": [one(rng.choice([1, 2, 4, 9, 30])) for _ in range(rng.randint(4, 16))]}
    top = {2: 40, 3: 7, 4: 3, 5: 2, 6: 1, 7: 1}.get(n, 0)
    for _ in range(20):
        a, b = one(top), one(top)
        if f not in ("SU3", "SU4", "SUN") or specs.spec_dim(a) * specs.spec_dim(b) <= 6000:
            return {"k": "mul", "a": a, "b": b}


def like(rng, s, big):
    if s[0] == "SUN":
        return [s[0], rng.choice([x for x in SUN5 + SUN6[:2] + [[0], [1, 0], [1, 0, 0], [1, 1, 0], [2, 1, 0]] if len(x) == len(s[1])])]
    if s[0] == "prod":
        return ["prod"] + [specs.gen_tab(rng, x[0], rng.choice([0, 1])) for x in s[1:]]
    return gen_irrep(rng, s[0], big)


def jlist(t):
    return [jlist(x) for x in t] if isinstance(t, (tuple, list)) else t


def canon(s):
    """Group products nest to the left; SU(N) irreps compare by their weights."""
    s = oracle.tup(s)
    if s[0] in ("SU2_", "SU3", "SU4", "SUN"):
        return ("SUN", s[1])
    if s[0] != "prod":
        return s
    acc = canon(s[1])
    for x in s[2:]:
        acc = ("prod", acc, canon(x))
    return acc


class S06(Cases):
    id = "S06"
    quick_runs, thorough_runs = 1400, 30000
    rule = ("One case is 1-3 checks (an irrep, a Clebsch-Gordan triple, or a whole product) drawn over all families and executed under a fault-free "
            "and 1-3 perturbed linear-algebra backends (backward-stable rounding, phases, orders and rotations in degenerate eigenspaces); the laws "
            "are evaluated under every backend and the tables compared. Non-trivial: at least one law evaluation. Distinct: different cases or faults.")

    def gen(self, rng, tier):
        big = 1 if tier != "quick" or rng.random() < .1 else 0
        out = []
        if rng.random() < .05:
            c = gen_deep(rng)
            return [c] if c else []
        if rng.random() < .1:
            c = gen_wide(rng)
            return [c] if c else []
        if rng.random() < .05:
            c = gen_multi(rng)
            return [c] if c else []
        for _ in range(rng.choice([1, 2, 3])):
            f = rng.choice(FAMS)
            s = gen_irrep(rng, f, big)
            u = rng.random()
            if u < .3:
                out.append({"k": "irrep", "s": s})
                continue
            t = like(rng, s, big)
            if u < .45:
                out.append({"k": "mul", "a": s, "b": t})
                continue
            lim = {"SU3": 1100, "SU4": 1100, "SUN": 700, "SU2_": 1100, "SO13": 500, "SU2Real": 800, "prod": 1500}.get(f, 4000)
            if tier != "quick" or rng.random() < .02:
                lim *= 4
            if f == "SUN" and len(s[1]) > 4 and specs.spec_dim(s) * specs.spec_dim(t) > 110:      # minutes
                continue
            if rng.random() < .82:
                cs = sorted(oracle.product(oracle.tup(s), oracle.tup(t)), key=repr)
                cs = [c for c in cs if specs.spec_dim(jlist(c)) * specs.spec_dim(s) * specs.spec_dim(t) <= lim]
                if not cs:
                    continue
                c = jlist(rng.choice(cs))
            else:
                c = like(rng, s, big)
            if specs.spec_dim(c) * specs.spec_dim(s) * specs.spec_dim(t) <= lim:
                out.append({"k": "cg", "t": [s, t, c], "own": rng.random() < .3})
        return out

    def run(self, case, conf, out):
        if case["k"] == "irrep":
            r = specs.build(case["s"])
            oracle.irrep_laws(case["s"], r, out)
            if case["s"][0] not in ("prod", "SUN"):
                t = r.create_trivial()
                if t.dim != 1 or np.abs(np.asarray(t.X)).max(initial=0) > 1e-12 or any(abs(h[0, 0] - 1) > 1e-12 for h in np.asarray(t.H)):
                    out.append(f"create_trivial() is {t}: not trivial")
                if np.asarray(t.X).shape[0] != np.asarray(r.X).shape[0] or np.asarray(t.H).shape[0] != np.asarray(r.H).shape[0]:
                    out.append("create_trivial() has other generators")
                if bool(r.is_trivial()) != (canon(case["s"]) == canon(oracle.spec_of(t))):
                    out.append(f"is_trivial() is {r.is_trivial()}")
            if np.asarray(r.X).shape[0]:
                r.check_algebra_vs_generators()
            return {"X": np.array(r.X), "H": np.array(r.H), "A": np.array(r.A)}
        if case["k"] == "dims":
            for t in case["s"]:
                r = specs.build(t)
                if r.dim != specs.spec_dim(t) or type(r.dim) is not int:
                    out.append(f"{r}.dim is {r.dim!r}, expected {specs.spec_dim(t)}")
                if hasattr(r, "is_scalar") and t[0] not in ("O3",) and bool(r.is_scalar()) != (specs.spec_dim(t) == 1):
                    out.append(f"{r}.is_scalar() is {r.is_scalar()}")
            return [specs.build(t).dim for t in case["s"]]
        if case["k"] == "mul":
            a, b = specs.build(case["a"]), specs.build(case["b"])
            got = [canon(oracle.spec_of(x)) for x in a * b]
            want = {canon(k): v for k, v in oracle.product(oracle.tup(case["a"]), oracle.tup(case["b"])).items()}
            if len(set(got)) != len(got):
                out.append(f"{got}: an irrep is listed twice")
            if set(got) != set(want):
                out.append(f"lists {sorted(got)}, expected {sorted(want)}")
            return [repr(x) for x in got]
        if case["k"] == "cg":
            a, b, c = [specs.build(x) for x in case["t"]]
            if case.get("own"):       # the third irrep as the product itself lists it
                c = next((x for x in a * b if canon(oracle.spec_of(x)) == canon(case["t"][2])), c)
            cg = lie().clebsch_gordan(a, b, c)
            count = paths(case["t"])
            if count is None and np.prod([a.dim, b.dim, c.dim]) > 1200:
                count = len(cg)
            oracle.cg_laws(cg, a, b, c, out, count)
            return np.array(cg)

    def shrink_case(self, case):
        return ()


PROP = S06()
