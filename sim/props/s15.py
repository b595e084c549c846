"""S15: the validators accept exactly what is a representation."""
import contextlib
import io
import json
import sys

import numpy as np

from .. import engine, oracle, specs
from ..cases import Cases, Skip
from ..specs import lie

FAMS = ["SU2", "SU2", "SO3", "SO3", "O3", "SL2C", "SO13", "SU2_", "SU2Real", "SU3", "prod", "fin", "u1", "Z2"]
TOLS = [None, None, None, {"rtol": 1e-10, "atol": 1e-10}, {"rtol": 0.0, "atol": 1e-6}, {"rtol": 1e-3, "atol": 1e-9}, {"rtol": 1e-5, "atol": 1e-2}, {"atol": 1e-4}, {"rtol": 1e-4}]


class Broken(io.TextIOBase):
    """Standard output whose reader is gone."""

    def __init__(self, n):
        self.n = n

    def writable(self):
        return True

    def write(self, s):
        self.n -= 1
        if self.n < 0:
            raise BrokenPipeError(32, "Broken pipe")
        return len(s)


def excess(l, r, tol):
    """Largest deviation in units of what is tolerated; a mismatch of shapes is infinite."""
    t = {"rtol": 1e-10, "atol": 1e-10, **(tol or {})}
    l, r = np.asarray(l), np.asarray(r)
    if l.shape != r.shape:
        return np.inf
    return (np.abs(l - r) / (t["atol"] + t["rtol"] * np.abs(r))).max(initial=0.0)


def alg_excess(A, X, tol):
    """Deviation from [X_i, X_j] = A_ijk X_k."""
    A, X = np.asarray(A), np.asarray(X)
    n = len(X)
    if A.shape != (n, n, n):
        return np.inf
    m = 0.0
    for i in range(n):
        for j in range(n):
            m = max(m, excess(X[i] @ X[j] - X[j] @ X[i], sum((A[i, j, k] * X[k] for k in range(n)), np.zeros_like(X[i])), tol))
    return m


def cg_excess(C, X1, X2, X3, tol):
    m = 0.0
    for z in range(len(C)):
        for d in range(len(X3)):
            l = np.einsum("ijk,lk->ijl", C[z], X3[d])
            r = np.einsum("li,ljk->ijk", X1[d], C[z]) + np.einsum("lj,ilk->ijk", X2[d], C[z])
            m = max(m, excess(l, r, tol))
    return m


def verdict(e):
    """True / False, or Skip when the deviation is within a factor of what is tolerated."""
    if 0.02 < e < 50:
        raise Skip
    return bool(e < 1)


class S15(Cases):
    id = "S15"
    quick_runs, thorough_runs = 5000, 60000
    nconf = (1, 1, 2)
    rule = ("One case is 1-3 requests to the validators: a history of in-place and assigned changes of one representation, checked after each by the function, "
            "the asserting function and the method at several tolerances; a triple of representations (valid, with altered generators or structure constants, "
            "or of a user-defined class with a mistake in its Clebsch-Gordan tensors); structure constants of closed, nearly closed and arbitrary families of matrices; "
            "unitarity; triviality. Each runs fault-free and under 1-2 other configurations: a perturbed backend, a backend call that fails, a standard output that "
            "is broken, earlier validations. The verdict is compared with the residual computed from the definition. Non-trivial: a verdict was decided.")
    stubs = "linear-algebra backend (real LAPACK results moved within their admissible freedom, or failing), standard output (broken pipe); nothing else is stubbed"

    def base(self, rng, maxdim=6, fams=FAMS):
        for _ in range(40):
            f = rng.choice(fams)
            t = specs.gen_tab(rng, f, rng.choice([0, 0, 1]))
            if specs.spec_dim(t) <= maxdim:
                return t

    def variant(self, rng, t):
        k = rng.choice(["gen", "gen", "cb", "dsum", "mul", "conj"])
        if k == "cb":
            return ["cb", t, [rng.choice("rcousd"), rng.randint(0, 99)]]
        if k == "dsum":
            return ["gen", ["red", [t, specs.gen_tab_like(rng, t, 0)], rng.choice([None, [rng.choice("rcou"), rng.randint(0, 99)]])]] if t[0] in specs.TAB else ["gen", t]
        if k == "mul":
            return ["gen", ["mul", rng.randint(1, 2), t]] if t[0] in specs.TAB else ["gen", t]
        if k == "conj":
            return ["gen", ["conj", t]]
        return ["gen", t]

    def gen(self, rng, tier):
        out = []
        md = 6 if tier == "quick" else 10
        for _ in range(rng.randint(1, 3)):
            k = rng.choice(["seq", "seq", "triplet", "triplet", "usercg", "usercg", "infer", "unitary", "trivial", "shape"])
            t = self.base(rng, md)
            if t is None:
                continue
            s = rng.randrange(10000)
            if k == "seq":
                steps = []
                for _ in range(rng.randint(1, 6)):
                    steps.append({"do": rng.choice(["X1", "X1", "Xall", "A1", "A1", "Aanti", "swapX", "scaleX", "undo", "undo", "basis", "assignX", "assignA", "none", "imag", "H", "last", "corner"]),
                                  "seed": rng.randrange(1000), "amt": rng.choice([1e-5, 1e-3, .1, 1.0, "rel", "rel"]), "tol": rng.choice(TOLS)})
                out.append({"k": k, "a": self.variant(rng, t), "steps": steps, "scale": rng.choice([1.0, 1.0, 1.0, .01, 30.0, 300.0])})
            elif k == "triplet":
                f = rng.choice(["SU2", "SO3", "O3", "SL2C", "Z2", "SU2_", "fin", "u1", "SU2Real"])
                t = specs.gen_tab(rng, f, 0)
                if f == "SU2Real":
                    t = [f, int(t[1])]
                if t[0] == "u1":
                    L = [["u1", [rng.randint(-2, 2) for _ in range(rng.randint(1, 2))]] for _ in range(3)]
                else:
                    L = [specs.gen_tab_like(rng, t, 0) for _ in range(3)]
                if f == "SU2Real":
                    L = [[f, int(x[1])] for x in L]
                if rng.random() < .5 or f in ("fin", "u1"):
                    L = [["gen", x] if rng.random() < .5 or f in ("fin", "u1") else ["cb", x, [rng.choice("ruo"), rng.randint(0, 30)]] for x in L]
                if np.prod([specs.spec_dim(x) for x in L]) <= 130:
                    out.append({"k": k, "t": L, "bad": rng.choice([None, None, "X", "A", "Arest", "last", "short"]), "which": rng.randrange(3), "seed": s, "tol": rng.choice(TOLS)})
            elif k == "usercg":
                f = rng.choice(["SU2", "SO3", "O3", "SL2C", "SO13", "SU2_", "SU3"])
                t = specs.gen_tab(rng, f, 0)
                L = [specs.gen_tab_like(rng, t, 0) for _ in range(2)]
                out.append({"k": k, "t": L, "pick": rng.randrange(4), "how": rng.choice([None, "entry", "last", "noise", "swap", "phase", "onesol", "cancel", "middle", "multiples", "rel", "rel", "relall"]), "seed": s, "tol": rng.choice(TOLS)})
            elif k == "infer":
                out.append({"k": k, "a": self.variant(rng, t), "bad": rng.choice([None, None, "noise", "one", "random", "drop", "combine", "dependent", "last"]), "seed": s,
                            "round": rng.choice([None, None, "id", "r12"]), "from": rng.random() < .5})
            elif k == "unitary":
                out.append({"k": k, "a": self.variant(rng, t), "bad": rng.choice([None, None, "X", "H", "one", "imag", "last"]), "amt": rng.choice([1e-3, .1]), "seed": s})
            elif k == "trivial":
                out.append({"k": k, "a": t if rng.random() < .5 else self.variant(rng, t), "triv": rng.random() < .6, "bad": rng.choice([None, None, "X", "H", "tiny"]), "seed": s})
            elif k == "shape":
                out.append({"k": k, "a": self.variant(rng, t), "bad": rng.choice(["A", "X", "Xrow"]), "seed": s})
        return out

    def gen_conf(self, rng):
        u = rng.random()
        if u < .45:
            return super().gen_conf(rng)
        c = {}
        if u < .75:
            c["fail"] = [rng.choice([0, 0, 1, 2, 3, 5, 8, 13, 30]), rng.choice(["LinAlgError", "MemoryError", "FloatingPointError", "KeyboardInterrupt"])]
        if u > .65:
            c["stdout"] = rng.choice([0, 1, 2, 4])
        if rng.random() < .4:
            w = [self.base(rng, 5, FAMS[:9]) for _ in range(2)]
            c["warm"] = [{"op": rng.choice(["checkalg", "X", "A"]), "a": [{"r": x}]} for x in w if x] + [{"op": "triplet", "a": [{"r": w[0]}] * 3}][: rng.randint(0, 1)]
        return c

    def call_config(self, scn, conf):
        if not conf or not ("fail" in conf or "stdout" in conf):
            return super().call_config(scn, conf)
        from .. import pool
        return pool.fork_call(lambda: self.faulty(scn, conf), self.timeout())

    def faulty(self, scn, conf):
        """The configuration with a failing backend call per case and / or a broken standard output."""
        from .. import boot, cases
        from .. import perturb
        outs = {"cases": [], "calls": 0, "count": {}, "draws": 0}
        install, old = perturb.install, sys.stdout

        class Fail(cases.Counter):
            def call(self, name, orig, args, kwargs):
                self.calls += 1
                if conf.get("fail") and self.calls == conf["fail"][0] + 1:
                    outs["count"]["fail:" + conf["fail"][1]] = outs["count"].get("fail:" + conf["fail"][1], 0) + 1
                    raise engine.make_exc(conf["fail"][1])
                return orig(*args, **kwargs)
        for i, case in enumerate(scn["cases"]):
            one = {**scn, "cases": [case]}
            b = Fail()
            cases_install = lambda _, b=b: install(b)
            try:
                perturb.install = cases_install
                if "stdout" in conf:
                    sys.stdout = Broken(conf["stdout"])
                    outs["count"]["broken-stdout"] = outs["count"].get("broken-stdout", 0) + 1
                try:
                    r = cases.run_config(self, one, {k: v for k, v in conf.items() if k == "warm" and i == 0})
                except BaseException as e:          # KeyboardInterrupt passes through
                    r = {"cases": [{"value": None, "exc": f"{type(e).__name__}: {e}", "skip": False, "laws": [], "inlib": True, "tb": ""}]}
            finally:
                perturb.install = install
                sys.stdout = old
            outs["calls"] += b.calls
            outs["cases"] += r["cases"]
        return outs

    def may_raise(self, case, conf, exc):
        if conf and "fail" in conf and exc.startswith(conf["fail"][1] + ":"):
            return True
        return bool(conf and "stdout" in conf and exc.startswith("BrokenPipeError"))

    def comparable(self, case, conf):
        return not (conf and ("fail" in conf or "stdout" in conf))

    # ------------------------------------------------------------------ the verdicts
    def ask(self, fn, *a, faulty=False, **k):
        """True: accepted, False: refused with AssertionError (or anything else that is no injected fault)."""
        try:
            r = fn(*a, **k)
            return True if r is None else bool(r)
        except AssertionError:
            return False

    def three(self, A, X, H, tol, out, what, rep=None):
        L = lie()
        want = verdict(alg_excess(A, X, tol))
        kw = tol or {}
        for name, fn in (("check_algebra_vs_generators", lambda: L.util.check_algebra_vs_generators(A, X, **kw)),
                         ("check_algebra_vs_generators(assert_=True)", lambda: L.util.check_algebra_vs_generators(A, X, assert_=True, **kw)),
                         ("Rep.check_algebra_vs_generators", lambda: (rep or L.GenericRep(A, X, H)).check_algebra_vs_generators(**kw))):
            got = self.ask(fn)
            if got != want:
                out.append(f"{name} {'accepts' if got else 'refuses'} {what} (deviation {alg_excess(A, X, tol):.3g} of what is tolerated, {tol})")
        return want

    def run(self, case, conf, out):
        L = lie()
        U = L.util
        k = case["k"]
        r = specs.rs(case.get("seed", 0))
        if k == "seq":
            a = specs.build(case["a"])
            A, X, H = case["scale"] * np.array(a.A), case["scale"] * np.array(a.X), np.array(a.H)
            rep = L.GenericRep(A.copy(), X.copy(), H.copy())
            good = (A.copy(), X.copy(), H.copy())
            vals = [self.three(rep.A, rep.X, rep.H, None, out, "the representation")]
            for i, s in enumerate(case["steps"]):
                change(rep, s, good)
                try:
                    vals.append(self.three(rep.A, rep.X, rep.H, s["tol"], out, f"the representation after step {i} ({s['do']})", rep))
                except Skip:
                    vals.append(None)
            return [v for v in vals]
        if k == "triplet":
            L3 = [specs.build(s) for s in case["t"]]
            w, b = case["which"], case["bad"]
            if b:
                x = L3[w]
                A, X, H = np.array(x.A), np.array(x.X), np.array(x.H)
                if not X.size:
                    raise Skip
                if b == "X":
                    X = X + 1e-2 * r.standard_normal(X.shape)
                elif b == "A":
                    A = A + 1e-2 * r.standard_normal(A.shape)
                elif b == "Arest":          # consistent with itself, but of another algebra
                    X, A = 2.0 * X, 2.0 * A
                    if not A.any():
                        raise Skip
                elif b == "last":
                    X[-1, -1, -1] += .02
                elif b == "short":
                    if len(X) < 2:
                        raise Skip
                    X, A = X[:1], np.zeros((1, 1, 1))
                L3[w] = L.GenericRep(A, X, H)
            tol = case["tol"]
            es = [alg_excess(x.A, x.X, tol) for x in L3] + [excess(L3[0].A, L3[1].A, tol), excess(L3[0].A, L3[2].A, tol)]
            want = verdict(max(es))
            if not want and max(es) < 1e3:
                raise Skip
            # a slack tolerance lets slightly wrong generators through to the solver, whose answer is then not defined
            if want and (max(es) > 1e-4 or b and not L3[w].A.any()):     # (of an abelian algebra everything is a representation)
                raise Skip
            with mute():
                got = self.ask(lambda: L.check_representation_triplet(*L3, **(tol or {}))) if want else not self.refuses(lambda: L.check_representation_triplet(*L3, **(tol or {})), conf)
            if got != want:
                out.append(f"check_representation_triplet {'accepts' if got else 'refuses'} a {'valid' if want else 'wrong'} triple")
            return got
        if k == "usercg":
            a, b = [specs.build(s) for s in case["t"]]
            outs = list(a * b)
            c = outs[case["pick"] % len(outs)]
            C = np.asarray(type(a).clebsch_gordan(a, b, c))
            if C.size > 700:
                raise Skip
            cls = specs.bad_class(type(a), case["how"], case["seed"])
            x = [specs.clone(cls, y) for y in (a, b, c)]
            C = np.asarray(cls.clebsch_gordan(*x))
            want = verdict(cg_excess(C, np.asarray(a.X), np.asarray(b.X), np.asarray(c.X), case["tol"]))
            with mute():
                if want:
                    got = self.ask(lambda: L.check_representation_triplet(*x, **(case["tol"] or {})))
                else:
                    got = not self.refuses(lambda: L.check_representation_triplet(*x, **(case["tol"] or {})), conf)
            if got != want:
                out.append(f"check_representation_triplet {'accepts' if got else 'refuses'} {'correct' if want else 'wrong'} Clebsch-Gordan tensors")
            return got
        if k == "infer":
            a = specs.build(case["a"])
            X = np.array(a.X)
            b = case["bad"]
            if len(X) == 0:
                raise Skip
            if b == "noise":
                X = X + 1e-2 * r.standard_normal(X.shape)
            elif b == "one":
                X[r.randint(len(X)), r.randint(X.shape[1]), r.randint(X.shape[1])] += 1e-2
            elif b == "last":
                X[-1, -1, -1] += 1e-2
            elif b == "random":
                X = r.standard_normal(X.shape)
            elif b == "drop":
                X = X[:-1]
            elif b == "combine":
                X = np.einsum("ij,jab->iab", specs.qmat(["r", case["seed"]], len(X)), X)
            elif b == "dependent":
                X = np.concatenate([X, X[:1] - 2 * X[-1:]])
            n = len(X)
            fn = {None: {}, "id": {"round_fn": lambda x: x}, "r12": {"round_fn": lambda x: np.round(x, 12)}}[case["round"]]
            if case["from"]:
                g = L.GenericRep.from_generators(X, np.array(a.H), **fn)
                B = None if g is None else g.A
                if g is not None and not (np.array_equal(g.X, X) and np.array_equal(g.H, a.H)):
                    out.append("from_generators changed the generators")
            else:
                B = U.infer_algebra_from_generators(X, **fn)
            if B is not None:
                B = np.asarray(B)
                if alg_excess(B, X, {"rtol": 1e-7, "atol": 1e-7}) > 1:
                    out.append(f"structure constants that the generators do not satisfy ({alg_excess(B, X, None):.3g} of what is tolerated)")
                if np.iscomplexobj(B) and np.abs(B.imag).max(initial=0) > 1e-9:
                    raise Skip
            if n == 0:
                return B
            # independent generators whose brackets are real combinations of them have an algebra
            M = X.reshape(n, -1)
            M = np.concatenate([M.real, M.imag], 1) if np.iscomplexobj(M) else M
            sv = oracle._svd(M, compute_uv=False)
            br = np.array([[x @ y - y @ x for y in X] for x in X]).reshape(n * n, -1)
            br = np.concatenate([br.real, br.imag], 1) if np.iscomplexobj(br) else br
            c = np.linalg.lstsq(M.T, br.T, rcond=1e-9)[0]
            res = np.abs(M.T @ c - br.T).max(initial=0)
            if 1e-12 < res < 1e-4:
                raise Skip
            if res >= 1e-4 and B is not None:
                out.append(f"an algebra is returned though the brackets leave the span of the generators by {res:.2g}")
            if res <= 1e-12 and sv[min(n, len(sv)) - 1] > 0.05 and n <= len(sv) and sv[0] < 40 and B is None:
                out.append("no algebra for independent generators that close")
            return B if b in (None, "combine") and B is not None and sv[min(n, len(sv)) - 1] > 0.05 and n <= len(sv) else None
        if k == "unitary":
            a = specs.build(case["a"])
            X, H = np.array(a.X), np.array(a.H)
            b, e = case["bad"], case["amt"]
            if b == "X" and X.size:
                X = X + e * r.standard_normal(X.shape)
            elif b == "H" and H.size:
                H = H + e * r.standard_normal(H.shape)
            elif b in ("one", "last"):
                T = X if X.size and (r.rand() < .6 or not H.size) else H
                if T.size:
                    i = tuple(n - 1 for n in T.shape) if b == "last" else tuple(r.randint(0, n) for n in T.shape)
                    T[i] += e
            elif b == "imag" and X.size:
                X = X.astype(complex)
                X[:, np.arange(X.shape[1]), np.arange(X.shape[1])] += e     # exp(X) grows
            d1 = np.abs(X + np.conj(np.swapaxes(X, 1, 2))).max(initial=0)
            d2 = np.abs(H @ np.conj(np.swapaxes(H, 1, 2)) - np.eye(a.dim)).max(initial=0)
            m = max(d1, d2)
            if 1e-14 < m < 1e-4:
                raise Skip
            g = bool(L.is_unitary(L.GenericRep(np.array(a.A), X, H)))
            if g != (m <= 1e-14):
                out.append(f"is_unitary is {g}, the generators deviate by {m:.2g}")
            return g
        if k == "trivial":
            a = specs.build(case["a"])
            if case["triv"]:
                try:
                    a = a.create_trivial()
                except NotImplementedError:
                    raise Skip
            if case["bad"]:
                X, H = np.array(a.X), np.array(a.H)
                T = X if case["bad"] != "H" and X.size else H
                if T.size:
                    T[tuple(r.randint(0, n) for n in T.shape)] += 1e-9 if case["bad"] == "tiny" else .5
                a = L.GenericRep(np.array(a.A), X, H)
            X, H = np.asarray(a.X), np.asarray(a.H)
            want = X.shape[1] == 1 and not X.any() and bool((H == 1).all())
            g = bool(a.is_trivial())
            if g != want:
                out.append(f"is_trivial is {g}: dimension {X.shape[1]}, X {X.reshape(-1)[:4]}, H {H.reshape(-1)[:4]}")
            return g
        if k == "shape":
            a = specs.build(case["a"])
            A, X, H = np.array(a.A), np.array(a.X), np.array(a.H)
            if len(X) < 2:
                raise Skip
            if case["bad"] == "A":
                A = A[:-1, :-1, :-1]
            elif case["bad"] == "X":
                X = X[:-1]
            else:
                X = np.concatenate([X, X[:1]])
            for name, fn in (("function", lambda: U.check_algebra_vs_generators(A, X)), ("asserting function", lambda: U.check_algebra_vs_generators(A, X, assert_=True)),
                             ("method", lambda: L.GenericRep(A, X, H).check_algebra_vs_generators())):
                try:
                    got = fn()
                    got = True if got is None else bool(got)
                except Exception as e:
                    if conf and "fail" in conf and type(e).__name__ == conf["fail"][1]:
                        raise
                    got = False
                if got:
                    out.append(f"check_algebra_vs_generators ({name}) accepts {len(X)} generators for an algebra of dimension {len(A)}")
            return False
        raise ValueError(k)

    def refuses(self, fn, conf):
        """True if fn raises. A failing backend or terminal may be what it raises."""
        try:
            fn()
        except Exception as e:
            if isinstance(e, AssertionError):
                return True
            if conf and (("fail" in conf and type(e).__name__ == conf["fail"][1]) or ("stdout" in conf and isinstance(e, BrokenPipeError))):
                return True
            return True
        return False

    def shrink_case(self, case):
        if case["k"] == "seq":
            for i in range(len(case["steps"])):
                yield {**case, "steps": case["steps"][:i] + case["steps"][i + 1:]}


class mute:
    """Swallow the diagnostics, unless the standard output is the broken one of the simulation."""

    def __enter__(self):
        self.c = None
        if not isinstance(sys.stdout, Broken):
            self.c = contextlib.redirect_stdout(io.StringIO())
            self.c.__enter__()

    def __exit__(self, *a):
        if self.c:
            self.c.__exit__(*a)


def change(rep, s, good):
    """One step of a history of changes of a representation the user owns."""
    r = specs.rs(s["seed"])
    X, A, H = rep._X, rep._A, rep._H
    do, e = s["do"], s["amt"]
    if e == "rel":              # a few hundred times what is tolerated
        m = max(np.abs(X).max(initial=0.0), 1e-9)
        t = {"rtol": 1e-10, "atol": 1e-10, **(s["tol"] or {})}
        e = min(200.0 * (t["atol"] / m + t["rtol"] * m), m)
    if do == "undo":
        rep._A, rep._X, rep._H = (g.copy() for g in good)
        return
    if do == "basis":
        rep._X = np.ascontiguousarray(X[:, ::-1, ::-1])
        return
    if do == "H" and H.size:
        H[tuple(r.randint(0, n) for n in H.shape)] += e
    if not X.size:
        return
    at = lambda T: tuple(r.randint(0, n) for n in T.shape)
    if do == "X1":
        X[at(X)] += e
    elif do == "last":
        X[-1] *= 1 + e
    elif do == "corner":
        A[-1, -1, -1] += e
    elif do == "imag":
        rep._X = X + 1j * e * r.standard_normal(X.shape)
    elif do == "Xall":
        X[...] = X + e * r.standard_normal(X.shape)
    elif do == "A1":
        A[at(A)] += e
    elif do == "Aanti":
        A[...] = np.swapaxes(A, 0, 1)
    elif do == "swapX":
        X[...] = X[r.permutation(len(X))]
    elif do == "scaleX":
        X[...] = X * (1 + e)
    elif do == "assignX":
        rep._X = X + e * r.standard_normal(X.shape)
    elif do == "assignA":
        rep._A = A + e * r.standard_normal(A.shape)


PROP = S15()
