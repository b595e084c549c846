"""S12: reduced tensor-product bases are exact and canonical."""
import itertools
import json

import numpy as np

from .. import fresh, oracle, specs
from ..cases import Cases
from ..specs import lie

FAMS = ["SU2", "SO3", "SO3", "SO3", "O3", "O3", "O3", "SL2C", "SO13", "Z2", "SU2_", "SU3", "SU2Real", "prod"]
FIXED = ["ij=ji", "ij=-ji", "ijk=jik=ikj", "ijk=-jik=-ikj", "ijkl=jikl=klij", "ijkl=-jikl=-ijlk=klij", "ijk=jki", "ijkl=ilkj", "ijkl=jilk",
         "ijkl=jkli", "ijk=-kji", "abcd=badc=cdab", "ijk=kij", "ij", "ijk"]


def gen_formula(rng):
    if rng.random() < .12:           # a few generators that take many compositions to make the whole group
        n = rng.choice([4, 4, 4, 5])
        L = list("ijklm"[:n])
        gens = [L[:i] + [L[i + 1], L[i]] + L[i + 2:] for i in range(n - 1)]
        u = rng.random()
        if u < .3:
            gens = [L[1:] + L[:1], [L[1], L[0]] + L[2:]]
        elif u < .5:
            gens = [L[1:] + L[:1]] + ([L[::-1]] if rng.random() < .5 else [])
        rng.shuffle(gens)
        s = rng.choice(["", "", "-"])
        return "=".join(["".join(L)] + [s + "".join(g) for g in gens])
    if rng.random() < .5:
        f = rng.choice(FIXED)
        if rng.random() < .4:        # other letters, possibly in another alphabetical order
            L = sorted(set(f) - set("=-"))
            M = rng.sample("abcdefghijklmnopqrstuvwxyz", len(L))
            f = "".join(dict(zip(L, M)).get(c, c) for c in f)
        return f
    n = rng.choice([2, 3, 3, 3, 4, 4, 5])
    L = rng.sample("abcdefghijklmnopqrstuvwxyz", n) if rng.random() < .5 else list("ijklm"[:n])
    parts = ["".join(L)]
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        p = list(L)
        u = rng.random()
        if u < .5:
            a, b = rng.sample(range(n), 2)
            p[a], p[b] = p[b], p[a]
        else:
            rng.shuffle(p)
        parts.append(rng.choice(["", "", "-"]) + "".join(p))
    return "=".join(parts)


def orbits(f0, group):
    n = len(f0)
    rep = list(range(n))
    for _, p in group:
        for i, j in enumerate(p):
            a, b = rep[i], rep[j]
            if a != b:
                rep = [min(a, b) if r in (a, b) else r for r in rep]
    return rep


def factor(rng, base, maxdim, size):
    for _ in range(60):
        t = specs.gen_tab_like(rng, base, rng.choice([0, size]))
        k = rng.choice(["tab", "tab", "mul", "red", "red", "redq", "redq"])
        if k == "tab":
            s = t
        elif k == "mul":
            s = ["mul", rng.randint(1, 3), t]
        else:
            items = [(["mul", rng.randint(1, 2), x] if rng.random() < .4 else x) for x in
                     [specs.gen_tab_like(rng, base, rng.choice([0, 0, size])) for _ in range(rng.randint(1, 3))]]
            s = ["red", items, [rng.choice("rcoupsd"), rng.randint(0, 200)] if k == "redq" else None]
        if specs.spec_dim(s) <= maxdim and not oracle.has_quaternionic(s):
            return s
    return None


def stretch(L):
    """Condition number of the product of the bases: what rounding errors are multiplied with (squared, by the library)."""
    return np.prod([np.linalg.cond(specs.qmat(s[2], specs.spec_dim(s))) if s[0] == "red" and s[2] else 1.0 for s in L])


class S12(Cases):
    id = "S12"
    set_seam = True
    quick_runs, thorough_runs = 1000, 30000
    nconf = (1, 2, 2, 3)
    rule = ("One case is 1-2 requests (random signed-permutation formula over 2-5 indices, list, or symmetric power; random factors with multiplicities "
            "and bases) executed under the natural configuration and 1-3 others: seeded iteration order of every set the library builds, earlier "
            "requests that warmed its caches, perturbed backends, and (in some runs) a fresh process with another hash seed. Laws (exact symmetry, "
            "equivariance, independence, completeness by the trace of the symmetriser, sorted irreps, list = array) are checked on every "
            "configuration and the arrays compared.")
    stubs = ("iteration order of sets (seeded), linear-algebra backend (real LAPACK results moved within their admissible freedom); nothing else is stubbed")

    def prepare(self):
        fresh.prepare(self)

    def one(self, rng, lim, fam=None):
        for _ in range(40):
            f = fam or rng.choice(FAMS)
            lim = min(lim, {"SO13": 64, "SU3": 130}.get(f, lim))
            base = specs.gen_tab(rng, f, 0)
            k = rng.choice(["rtp", "rtp", "rtp", "sym", "rtpl"])
            if k == "sym":
                n = rng.choice([1, 2, 2, 3, 3, 4, 5])
                s = factor(rng, base, int(lim ** (1 / n)), 1)
                if s and stretch([s] * n) < 300:
                    return {"k": k, "r": s, "n": n}
                continue
            if k == "rtpl":
                n = rng.choice([1, 2, 2, 3, 4])
                l = [factor(rng, base, 6, 1) for _ in range(n)]
                if all(l) and np.prod([specs.spec_dim(s) for s in l]) <= lim and stretch(l) < 300:
                    return {"k": k, "l": l}
                continue
            f = gen_formula(rng)
            f0, g = oracle.parse_formula(f)
            rep = orbits(f0, g)
            by = {r: factor(rng, base, 6, 1) for r in set(rep)}
            if not all(by.values()) or np.prod([specs.spec_dim(by[r]) for r in rep]) > lim or len(g) * np.prod([specs.spec_dim(by[r]) for r in rep]) > 20000 or stretch([by[r] for r in rep]) >= 300:
                continue
            style = rng.random()
            kw = {}
            for r in sorted(set(rep)):
                idx = [i for i in range(len(f0)) if rep[i] == r]
                # a factor named by several letters has to be one and the same ReducedRep object
                for i in (idx if style < .5 and by[r][0] == "red" else [rng.choice(idx)]):
                    kw[f0[i]] = by[r]
            return {"k": k, "f": f, "kw": kw, "fac": [by[r] for r in rep]}

    def gen(self, rng, tier):
        lim = rng.choice([40, 100, 260]) if tier == "quick" else rng.choice([100, 260, 700])
        out = [c for c in [self.one(rng, lim) for _ in range(rng.choice([1, 1, 2]))] if c]
        return out

    def gen_conf(self, rng):
        if rng.random() < .1:
            return {"hashseed": rng.randrange(3)}
        c = {}
        if rng.random() < .75:
            c["order"] = rng.randrange(1, 1 << 30)
        if rng.random() < .5:
            c.update(super().gen_conf(rng))
        if rng.random() < .5:
            c["warm"] = []
            for _ in range(rng.randint(1, 3)):
                w = self.one(rng, 60)
                if w:
                    c["warm"].append({"op": w["k"], "a": [w["f"], {"kw": {i: {"r": s} for i, s in w["kw"].items()}}] if w["k"] == "rtp" else
                                      ([[{"r": s} for s in w["l"]]] if w["k"] == "rtpl" else [{"r": w["r"]}, w["n"]])})
        return c

    def scenario(self, seed, ref, tier):
        scn = super().scenario(seed, ref, tier)
        if scn:
            import random
            rng = random.Random(seed * 31 + 7)
            for c in scn["confs"][1:]:      # sometimes warm with a near-copy of the request itself
                if rng.random() < .3 and "hashseed" not in c:
                    case = rng.choice(scn["cases"])
                    if case["k"] == "rtp":
                        c.setdefault("warm", []).insert(0, {"op": "rtp", "a": [case["f"], {"kw": {i: {"r": s} for i, s in case["kw"].items()}}]})
        return scn

    def call_config(self, scn, conf):
        if conf and "hashseed" in conf:
            return fresh.call("config", {"prop": self.id, "scn": scn, "conf": conf}, conf["hashseed"])
        return super().call_config(scn, conf)

    def group(self, case):
        if case["k"] == "rtp":
            return oracle.parse_formula(case["f"])[1], case["fac"]
        if case["k"] == "sym":
            return {(1, p) for p in itertools.permutations(range(case["n"]))}, [case["r"]] * case["n"]
        return {(1, tuple(range(len(case["l"]))))}, case["l"]

    def may_raise(self, case, conf, exc):
        g, fac = self.group(case)
        return oracle.constrained_dim(g, [specs.spec_dim(s) for s in fac]) == 0

    def run(self, case, conf, out):
        L = lie()
        g, fac = self.group(case)
        if case["k"] == "rtp":
            memo = {}
            kw = {}
            for i, s in case["kw"].items():
                j = json.dumps(s)
                if j not in memo:
                    memo[j] = specs.build(s)
                kw[i] = memo[j]
            o = L.reduced_tensor_product_basis(case["f"], **kw)
        elif case["k"] == "sym":
            o = L.reduced_symmetric_tensor_product_basis(specs.build(case["r"]), case["n"])
        else:
            o = L.reduced_tensor_product_basis([specs.build(s) for s in case["l"]])
        reps = {}
        factors = []
        for s in fac:
            j = json.dumps(s)
            if j not in reps:
                reps[j] = specs.build(s)
            factors.append(reps[j])
        oracle.rtp_laws(o.array, o.rep, o.list, factors, g, out)
        return {"rep": [repr(m) for m in o.rep.irreps], "array": np.array(o.array), "list": [np.array(x) for x in o.list]}


PROP = S12()
