"""S08: reduction of a representation is valid for every random draw."""
import json

import numpy as np

from .. import boot, ops, oracle, rngseam, specs
from ..cases import Cases, Skip
from ..specs import lie

FAMS = ["SU2", "SU2", "SO3", "O3", "SL2C", "SO13", "Z2", "SU2_", "prod", "fin", "fin", "u1"]


def constituents(s):
    """[(irrep spec, multiplicity)] of a representation spec built from tabulated irreps."""
    k = s[0]
    out = []
    if k == "red":
        for x in s[1]:
            out += constituents(x)
    elif k == "mul":
        for t, m in constituents(s[2]):
            out.append((t, m * s[1]))
    elif k in ("gen", "cb"):
        out = constituents(s[1])
    elif k == "dsum":
        out = constituents(s[1]) + constituents(s[2])
    elif k == "ctp":         # product of two irreps of SU(2) or SO(3), as a plain representation
        (f, a), (_, b) = s[1:3]
        out = [([f, j], 1) for j in range(abs(a - b), a + b + 1, 2 if f == "SU2" else 1)]
    elif k == "finreg":
        out = [(["fin", s[1], i], x.shape[1]) for i, x in enumerate(specs.fin_irreps(s[1]))]
    elif k == "u1":
        out = [(["u1", [q]], 1) for q in s[1]]
    else:
        out = [(s, 1)]
    acc = {}
    for t, m in out:
        key = json.dumps(t)
        acc[key] = acc.get(key, 0) + m
    return [(json.loads(k), m) for k, m in acc.items()]


def tie(case, conf, X):
    """Draws for which eigenvalues of the random combination are (nearly) tied or defective."""
    Q = None
    saved = boot.SEAM.numeric
    boot.SEAM.numeric = None
    try:
        n = np.linalg.norm(X, axis=(1, 2), keepdims=True)
        Q = lie().util.infer_change_of_basis(X / np.where(n > 0, n, 1.0), X / np.where(n > 0, n, 1.0), epsilon=1e-10)
    except Exception:
        return None
    finally:
        boot.SEAM.numeric = saved
    if len(Q) < 2:
        return None
    r = np.random.RandomState(conf["draw"])
    delta = conf["delta"]

    def disc(w, i, j):
        ev = np.linalg.eigvals(np.einsum("n,nij->ij", w, Q))
        ev = np.array(sorted(ev, key=lambda z: (round(z.real, 9), round(z.imag, 9))))
        return ev[i] - ev[j]
    best = None
    for _ in range(8):
        w0, w1 = r.uniform(.05, .95, len(Q)), r.uniform(.05, .95, len(Q))
        d = X.shape[1]
        ev0 = np.linalg.eigvals(np.einsum("n,nij->ij", w0, Q))
        vals = []
        for t in np.linspace(0, 1, 9):
            w = w0 + t * (w1 - w0)
            ev = np.linalg.eigvals(np.einsum("n,nij->ij", w, Q))
            dist = np.abs(ev[:, None] - ev[None]) + 10.0 * (np.abs(ev[:, None] - ev[None]) < 1e-9)
            vals.append(dist.min())
        k = int(np.argmin(vals))
        lo, hi = max(0, k - 1) / 8, min(8, k + 1) / 8
        for _ in range(60):         # golden-section search for the closest approach
            a, b = lo + (hi - lo) * .382, lo + (hi - lo) * .618
            fa, fb = [(lambda ev: (np.abs(ev[:, None] - ev[None]) + 10.0 * (np.abs(ev[:, None] - ev[None]) < 1e-13)).min())(
                np.linalg.eigvals(np.einsum("n,nij->ij", w0 + t * (w1 - w0), Q))) for t in (a, b)]
            if fa < fb:
                hi = b
            else:
                lo = a
        t = (lo + hi) / 2 + delta
        w = w0 + t * (w1 - w0)
        if w.min() >= 0 and w.max() < 1:
            best = w
            break
    return best


def build(s):
    if s[0] == "ctp":
        r1, r2 = specs.build(s[1]), specs.build(s[2])
        X = np.array([np.kron(x, np.eye(r2.dim)) + np.kron(np.eye(r1.dim), y) for x, y in zip(r1.X, r2.X)])
        if s[3]:
            Q = specs.qmat(s[3], X.shape[1])
            X = Q @ X @ np.linalg.inv(Q)
        return lie().GenericRep(np.array(r1.A), X, np.zeros((0,) + X.shape[1:]))
    return specs.build(s)


class S08(Cases):
    id = "S08"
    quick_runs, thorough_runs = 3600, 20000
    nconf = (2, 3, 4)
    rule = ("One case is a direct sum of known irreps (with multiplicities, in a well-conditioned real, complex, orthogonal or unitary basis), reduced "
            "under several simulated configurations: streams of random draws (uniform, close together, tiny, one dominant, sorted, near one, and "
            "solved so that eigenvalues of the random combination tie or nearly tie) and perturbed linear-algebra backends. The result must equal the "
            "input and consist of the right irreducible blocks; an exception is a permitted answer to an unlucky draw, not to several uniform ones.")

    def gen(self, rng, tier):
        md = 7 if tier == "quick" else 10
        big = rng.random() < .1
        if big:
            md = 14 if tier == "quick" else 20
        if rng.random() < .04:
            f = rng.choice(["SU2", "SO3"])
            a, b = [[f, rng.randint(1, 4 if f == "SU2" else 2)] for _ in "ab"]
            return [{"k": rng.choice(["reduce", "reduce", "decomp"]), "a": ["ctp", a, b, rng.choice([None, [rng.choice("rcou"), rng.randint(0, 1000)]])]}]
        for _ in range(30):
            if rng.random() < .07:      # blocks that are visible, in some of which the irreps are mixed
                f = rng.choice(FAMS)
                base = specs.gen_tab(rng, f, 0)
                parts = []
                for _ in range(rng.randint(2, 3)):
                    s = ["red", [specs.gen_tab_like(rng, base, 0) for _ in range(rng.choice([1, 2, 2, 3]))], None]
                    parts.append(["cb", s, [rng.choice("rcou"), rng.randint(0, 1000)]] if rng.random() < .7 else ["gen", s])
                s = parts[0]
                for x in parts[1:]:
                    s = ["dsum", s, x]
                if rng.random() < .4:
                    s = ["cb", s, ["p", rng.randint(0, 1000)]]
                if 2 <= specs.spec_dim(s) <= md + 2:
                    return [{"k": rng.choice(["reduce", "reduce", "decomp"]), "a": s}]
                continue
            if rng.random() < .06:
                g = rng.choice(["Z2", "Z3", "Z4", "Z5", "V4", "S3"] + (["D4", "Q8"] if tier != "quick" else []))
                s = rng.choice([["finreg", g], ["cb", ["finreg", g], [rng.choice("rcou"), rng.randint(0, 1000)]]])
                return [{"k": rng.choice(["reduce", "reduce", "decomp"]), "a": s}]
            f = rng.choice(FAMS)
            base = specs.gen_tab(rng, f, 0)
            items = []
            for _ in range(rng.randint(1, 6 if big else 4)):
                t = specs.gen_tab_like(rng, base, rng.choice([0, 0, 1]))
                items.append(["mul", rng.randint(1, 5 if big else 3), t] if rng.random() < .35 else t)
            s = ["red", items, rng.choice([None, [rng.choice("rrccoup"), rng.randint(0, 1000)]])]
            d = specs.spec_dim(s)
            if 1 <= d <= md + 4 and rng.random() < .18:      # already in reduced form
                if rng.random() < .25:
                    s = ["mul", rng.randint(1, 3), specs.gen_tab_like(rng, base, 1)]
                elif rng.random() < .7:
                    s[2] = [rng.choice("rcoupsdn"), rng.randint(0, 1000)]
                return [{"k": "reduce", "a": s}]
            if 1 <= d <= md:
                s = rng.choice([["gen", s], ["gen", s], ["cb", s, [rng.choice("rcou"), rng.randint(0, 1000)]]]) if s[2] is None or rng.random() < .5 else ["gen", s]
                c = {"k": rng.choice(["reduce", "reduce", "decomp"]), "a": s}
                if f in ("SU2", "SO3", "O3", "O3", "prod", "u1", "SL2C") and rng.random() < .2:     # other units
                    c["scale"] = [rng.choice([1e-6, 1e-4, 1e-2, 30.0, 1e3]), rng.random() < .5]
                return [c]
        return None

    def gen_conf(self, rng):
        c = {"draw": rng.randrange(1 << 30), "mode": rng.choice(["plain", "plain", "close", "tiny", "onehot", "sorted", "high", "lit", "lit"])}
        if c["mode"] == "lit":
            c["delta"] = rng.choice([0.0, 0.0, 1e-12, 1e-11, 1e-10, 1e-9, 1e-8, 1e-6, 1e-4])
        if rng.random() < .6:
            c.update({k: v for k, v in super().gen_conf(rng).items()})
        return c

    def comparable(self, case, conf):
        return False

    def may_raise(self, case, conf, exc):
        return True

    def across(self, scn, res, viol):
        plain = [i for i, c in enumerate(scn["confs"]) if not c or c.get("mode") == "plain"]
        for j, case in enumerate(scn["cases"]):
            ex = [res[i]["cases"][j]["exc"] for i in plain]
            if ex and all(ex) and not res[0]["cases"][j]["skip"]:
                # one more look: other uniform draws
                more = [self.call_config(scn, {"draw": 7777 + i}) for i in range(4)]
                if all(m["cases"][j]["exc"] for m in more):
                    viol.append({"class": "raises:" + case["k"], "detail": f"{json.dumps(case)}: raises for every draw: {ex[0]}"})

    def run(self, case, conf, out):
        rep = build(case["a"])
        X, H = np.array(rep.X), np.array(rep.H)
        c = np.ones(len(X))
        if case.get("scale"):
            u, half = case["scale"]
            n = ops.lie_dim(case["a"])
            parts = [ops.lie_dim_of(x) for x in specs.family(case["a"])[1:]] if specs.family(case["a"])[0] == "prod" else [n]
            c[:parts[0] if half else n] = u
            A = np.einsum("i,j,ijk,k->ijk", c, c, np.array(rep.A), 1 / c)
            X = c[:, None, None] * X
            rep = lie().GenericRep(A, X, H)
        Y = oracle.gens(X, H)
        if len(Y) == 0:
            raise Skip
        if conf.get("mode") == "lit":
            st = rngseam.CUR[None]
            st.lit = tie(case, conf, np.array(Y))
        want = constituents(case["a"])
        cc = np.concatenate([c, np.ones(len(H))])[:, None, None]
        X0 = X / c[:, None, None]
        sc = oracle.scale(Y / cc)
        if case["k"] == "reduce":
            r = lie().reduce(rep)
            if r.dim != rep.dim or np.asarray(r.X).shape != X.shape or np.asarray(r.H).shape != H.shape:
                out.append(f"dimension {r.dim} with generators {np.asarray(r.X).shape}, {np.asarray(r.H).shape}; expected {X.shape}, {H.shape}")
                return None
            oracle.close(r.A, rep.A, 1e-9 * c.min(initial=1.0), "algebra", out)
            Q = np.eye(rep.dim) if r.Q is None else np.asarray(r.Q)
            if Q.shape != (rep.dim, rep.dim) or not np.isfinite(Q).all() or oracle.rank(Q, 1e-7) != rep.dim:
                out.append("Q is not invertible")
                return None
            tol = 1e-6 * np.linalg.cond(Q)
            oracle.close(np.asarray(r.X) / c[:, None, None], X0, tol, "the reduced representation differs from the original", out, sc=sc)
            oracle.close(r.H, H, tol, "the reduced representation differs from the original (discrete)", out, sc=sc)
            blocks = []
            for m in r.irreps:
                blocks += [oracle.gens(m.rep.X, m.rep.H)] * m.mul
        else:
            blocks = lie().util.decompose_rep_into_irreps(np.array(Y, complex) if np.iscomplexobj(Y) else Y)
        if sum(b.shape[1] for b in blocks) != rep.dim:
            out.append(f"blocks of dimensions {[b.shape[1] for b in blocks]} for dimension {rep.dim}")
            return None
        blocks = [b / cc for b in blocks]
        left = {json.dumps(t): m for t, m in want}
        for b in blocks:
            if not np.isfinite(b).all():
                out.append("a block is not finite")
                return None
            k, gap = oracle.nullity(oracle.hom_matrix(b, b), b.shape[1] ** 2, 1e-4)
            if k != 1:
                out.append(f"a block of dimension {b.shape[1]} is reducible (commutant of dimension {k})")
                return None
            hit = None
            for t in left:
                ir = specs.build(json.loads(t))
                if ir.dim == b.shape[1]:
                    Z = oracle.gens(ir.X, ir.H)
                    if oracle.nullity(oracle.hom_matrix(b, Z), b.shape[1] ** 2, 1e-4)[0] == 1:
                        hit = t
                        break
            if hit is None:
                out.append(f"a block of dimension {b.shape[1]} is none of the constituents {want}")
                return None
            left[hit] -= 1
        if any(left.values()):
            out.append(f"constituents missing or in excess: {left}")
        return None


PROP = S08()
