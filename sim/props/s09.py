"""S09: streamed constraints are consumed lazily, once and in order."""
import gc
import json
import random

import numpy as np

from .. import engine, hist, history, ops, perturb, rngseam
from ..specs import lie

RAISE = ["ValueError", "KeyboardInterrupt", "MemoryError", "LinAlgError", "InjectedError", "InjectedBase", "TimeoutError", "OSError", "SystemExit",
         "RuntimeError", "RuntimeError", "StopAsyncIteration", "IndexError", "KeyError", "LookupError", "TypeError", "AttributeError", "AssertionError",
         "NotImplementedError", "GeneratorExit", "ZeroDivisionError", "UserWarning", "EOFError", "CouldNot"]
EXC = ["KeyboardInterrupt", "MemoryError", "InjectedError", "InjectedBase"]
SOURCES = ["gen", "gen", "gen", "iter", "iter", "getitem", "list", "tuple", "listsub", "map", "chain"]


def unitary(r, d, cplx):
    Z = r.standard_normal((d, d)) + (1j * r.standard_normal((d, d)) if cplx else 0)
    return np.linalg.qr(Z)[0]


def matrices(s):
    """The matrices of a stream and the rows (of a well-conditioned basis) each prefix constrains."""
    r = np.random.RandomState(s["seed"])
    d = s["d"]
    B = unitary(r, d, s["cplx"])
    B = np.diag(r.uniform(.8, 1.25, d)) @ B
    mats, news = [], []
    used = 0
    for m in s["mats"]:
        new = min(m["new"], d - used)
        old = min(m["old"], used)
        idx = list(range(used, used + new)) + sorted(r.permutation(used)[:old].tolist())
        rows = len(idx) + (m["extra"] if idx else m["zero"])
        cp = s["cplx"] and not m.get("real")
        if idx:
            C = unitary(r, max(rows, len(idx)), s["cplx"])[:, :len(idx)]
            A = C @ np.diag(r.uniform(.7, 1.6, len(idx))) @ B[idx]
            if m["zero"]:
                A = np.concatenate([A, np.zeros((m["zero"], d), A.dtype)])
        else:
            A = np.zeros((rows, d))
        if not cp and not np.iscomplexobj(B):
            A = A.real
        A = np.asarray(A, np.complex128 if np.iscomplexobj(A) else np.float64)
        if m.get("fortran"):
            A = np.asfortranarray(A)
        if s.get("pad"):
            A = np.concatenate([A, np.zeros((max(0, s["pad"] - len(A)), d), A.dtype)])
        used += new
        mats.append(A)
        news.append(used)
    return mats, B, news


class End(Exception):
    pass


class Source:
    """A stream: logs every pull, may scribble over what it handed out, call back, fail or end."""

    def __init__(self, spec, sim, task, bad):
        self.spec = spec
        self.mats, self.B, self.used = matrices(spec)
        self.orig = [m.copy() for m in self.mats]
        self.out = list(self.mats)
        self.buf = {}
        self.sim, self.task, self.bad = sim, task, bad
        self.pos = 0
        self.pulls = 0
        self.active = False     # a consumer is running
        self.ended = False
        self.raised = None
        self.failed_now = False
        self.depth = 0
        self.src = spec["src"]
        if self.src in ("list", "tuple"):
            self.obj = list(self.out) if self.src == "list" else tuple(self.out)
        elif self.src == "listsub":
            me = self

            class L(list):
                def __iter__(self):
                    return me.counter()

            self.obj = L(self.out)
        elif self.src == "getitem":
            me = self

            class G:
                def __getitem__(self, i):
                    if not isinstance(i, int) or i != me.pos:
                        me.bad("order", f"{me.show()}: matrix {i} is asked for when {me.pos} is next")
                    try:
                        return me.pull()
                    except StopIteration:
                        raise IndexError(i) from None
            self.obj = G()
        elif self.src == "iter":
            me = self

            class It:
                def __iter__(self):
                    return self

                def __next__(self):
                    return me.pull()
            self.obj = It()
        elif self.src == "map":
            self.obj = map(lambda _: self.pull(True), iter(int, 1))     # endless unless pull says End
        elif self.src == "chain":
            import itertools
            self.obj = itertools.chain(self.gen(), self.gen())
        else:
            self.obj = self.gen()

    def show(self):
        return json.dumps(self.spec)

    def gen(self):
        while True:
            try:
                m = self.pull()
            except StopIteration:
                return
            yield m

    def counter(self):
        if self.pos:
            self.bad("order", f"{self.show()}: the input is iterated a second time")
        return self.gen()

    def pull(self, raw=False):
        self.sim.point(1)
        self.pulls += 1
        if not self.active:
            self.bad("late-pull", f"{self.show()}: a matrix is pulled after the answer was returned")
        if self.raised is not None:
            if self.failed_now:
                self.bad("pull-after-raise", f"{self.show()}: pulled again after the stream raised")
            self.ended = True
            raise StopIteration
        if self.spec["scribble"] in (1, 2):
            for m in self.out[:self.pos]:
                if m.size:
                    m.flat[:] = np.nan if self.spec["scribble"] == 1 else 7.5
        if self.pos == self.spec.get("fail_at", -1):
            t = self.task
            t.shield += 1
            try:
                self.raised = engine.make_exc(self.spec["fail"])
            finally:
                t.shield -= 1
            self.failed_now = True
            raise self.raised
        if self.pos >= len(self.out):
            self.ended = True
            raise StopIteration
        if self.spec.get("reenter") and self.depth == 0 and self.pos == self.spec["reenter"]["at"]:
            self.depth = 1
            self.reenter(self.spec["reenter"])
            self.depth = 0
        i = self.pos
        self.pos += 1
        self.sim.point(2)
        if self.spec["scribble"] == 3:      # one buffer for all matrices of a shape, refilled for each
            A = self.orig[i]
            b = self.buf.get((A.shape, A.dtype))
            if b is None:
                b = self.buf[A.shape, A.dtype] = np.empty_like(A)
                self.mats.append(b)
                self.orig.append(b)
            b[...] = A
            return b
        return self.out[i]

    def reenter(self, e):
        n = len(self.sim.fired_list)
        out = history.plain_op(e["o"], ())
        hit = [f for f in self.sim.fired_list[n:] if f[0] == self.task.idx and f[2] in EXC]
        if hit:                 # interrupted inside the nested call: the producer passes it on
            t = self.task
            t.shield += 1
            try:
                x = engine.make_exc(hit[0][2])
            finally:
                t.shield -= 1
            raise x
        d = history.diff(out, e["ref"])
        if d:
            self.bad("nested-answer", f"{history.show(e['o'])} called by the producer: {d}")


def kernel(B, used):
    """Orthonormal basis (columns) of {x : B[:used] x = 0}."""
    d = B.shape[1]
    if used == 0:
        return np.eye(d, dtype=B.dtype)
    return np.linalg.svd(B[:used])[2][used:].conj().T


class S09:
    id = "S09"
    level = "exploration"
    set_seam = False
    quick_runs, thorough_runs = 4000, 100000
    explicit = staticmethod(hist.make_explicit)
    rule = ("One case is one simulated run: 1-4 threads each consume 1-3 streams of constraint matrices (generators, iterators, old-style sequences, lists, "
            "endless maps; real and complex, redundant, rank-deficient, zero and empty blocks) with the sequential null-space solver, several calls continuing "
            "on one stream, under a seeded schedule with preemption inside the solver and the producers. Producers overwrite what they handed out, call the "
            "library, raise at any pull or end early; the solver is interrupted at any step and runs on perturbed linear-algebra backends. "
            "Checked: pull log, returned span, identity of exceptions. Non-trivial: at least one call was decided.")

    def gen_stream(self, rng, ref, tier):
        d = rng.choice([1, 2, 3, 4, 5, 6, 8] + ([12, 16] if tier != "quick" or rng.random() < .2 else []))
        mats = []
        n = rng.choice([0, 1, 1, 2, 3, 4, 5, 6, 8])
        for _ in range(n):
            u = rng.random()
            m = {"new": rng.choice([0, 1, 1, 1, 2, 2, 3, d]) if u > .15 else 0, "old": rng.choice([0, 0, 1, 2, 3]), "extra": rng.choice([0, 0, 1, 3]),
                 "zero": rng.choice([0, 0, 0, 1, 2])}
            if rng.random() < .2:
                m["fortran"] = 1
            mats.append(m)
        if rng.random() < .03:      # a long stream that is settled near its end, if at all
            d = rng.choice([2, 3, 4])
            n = rng.choice([70, 130, 260, 300, 520])
            late = {rng.randrange(n * 9 // 10, n) for _ in range(d)}
            mats = [{"new": int(i in late or rng.random() < .004), "old": rng.choice([0, 1, 1, 2]), "extra": 0, "zero": rng.choice([0, 0, 1])} for i in range(n)]
        s = {"d": d, "mats": mats, "cplx": int(rng.random() < .4), "seed": rng.randrange(1 << 30), "src": rng.choice(SOURCES), "scribble": rng.choice([0, 1, 1, 2, 3, 3])}
        if rng.random() < .4:
            s["pad"] = rng.choice([3, 5, d, d + 2])
        if s["src"] in ("list", "tuple", "map"):
            s["scribble"] = 0
        if s["src"] not in ("list", "tuple") and rng.random() < .25:
            s["fail_at"], s["fail"] = rng.randint(0, n), rng.choice(RAISE)
        if s.get("fail") == "IndexError" and s["src"] == "getitem" or s.get("fail") == "GeneratorExit" and s["src"] in ("gen", "chain", "listsub"):
            s["fail"] = "ValueError"        # these would end the iteration
        if s["src"] == "map" and "fail_at" not in s:
            s["fail_at"], s["fail"] = n, rng.choice(RAISE)
        if s["src"] not in ("list", "tuple") and n and rng.random() < .3:
            for _ in range(5):
                o = ops.gen_op(rng, ops.Ctx(rng), ["nullspace", "gs", "binter", "seqnull", "seqnull", "cg", "infer", "mulrule", "tptab", "perm"])
                o = hist.strip_callbacks(o)
                if hist.usable(ref, o, 15000) and ref(o)["out"][0] == "ok":
                    s["reenter"] = {"at": rng.randrange(n), "o": o}
                    break
        return s

    def scenario(self, seed, ref, tier):
        rng = random.Random(seed)
        nt = rng.choice([1, 1, 1, 2, 3, 4])
        tasks, streams, faults = [], [], []
        for i in range(nt):
            L = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                streams.append(self.gen_stream(rng, ref, tier))
                s = streams[-1]
                for _ in range(1 if s["src"] in ("list", "tuple", "listsub", "getitem") else rng.choice([1, 1, 1, 2, 3])):
                    L.append({"s": len(streams) - 1, "dim": rng.choice([0, 0, 1, 1, 2, 3, rng.randint(0, s["d"]), s["d"] + 1]),
                              "eps": rng.choice([None, None, 1e-4, 1e-5, 1e-6, 1e-2]), "round": rng.choice([None, None, None, "id", "raise"]), "rk": rng.randint(1, 6)})
            tasks.append(L)
            for j in range(len(L)):
                for _ in range(2):
                    if nt > 1 and rng.random() < .3:
                        faults.append({"task": i, "op": j, "step": rng.randint(1, 120), "kind": "park"})
                if rng.random() < .12:
                    faults.append({"task": i, "op": j, "step": rng.randint(1, rng.choice([20, 100, 400])), "kind": "exc", "exc": rng.choice(EXC)})
                if rng.random() < .05:
                    faults.append({"task": i, "op": j, "step": rng.randint(1, 100), "kind": "act", "act": "gc"})
        n = sum(map(len, tasks))
        out = {"streams": streams, "tasks": tasks, "perturb": rng.choice([None, {"seed": rng.randrange(1 << 30), "amount": rng.choice([1.0, 4.0])}]),
               "plan": {"grain": rng.choice(["line", "line", "call", "instr"]), "sched": hist.sched(rng, 200 * n), "faults": faults, "cap": 400_000}}
        return out

    def refs_needed(self, scn):
        return [s["reenter"]["o"] for s in scn["streams"] if s.get("reenter")]

    def execute(self, scn, refs):
        gc.disable()
        viol = []
        stat = {"calls": 0, "pulls": 0, "raised": 0, "short": 0, "answers": 0, "interrupted": 0, "nested": 0}
        util = lie().util

        def bad(cls, detail):
            if len(viol) < 10:
                viol.append({"class": cls, "detail": detail})

        def body(i, L):
            def run(sim, t):
                rngseam.set_stream(i, rngseam.Stream(i))
                src = {}
                mark = [0]
                for j, c in enumerate(L):
                    if c["s"] not in src:
                        spec = dict(scn["streams"][c["s"]])
                        if spec.get("reenter"):
                            spec["reenter"] = {**spec["reenter"], "ref": refs[history.key(spec["reenter"]["o"])]["out"]}
                            stat["nested"] += 1
                        x = Source(spec, sim, t, bad)
                        x.spec = spec if "reenter" not in spec else {**spec, "reenter": {k: v for k, v in spec["reenter"].items()}}
                        x.show = lambda spec=scn["streams"][c["s"]]: json.dumps(spec)
                        src[c["s"]] = x
                    x = src[c["s"]]
                    mark[0] = len(sim.fired_list)
                    start, p0 = x.pos, x.pulls
                    kw = {}
                    if c["eps"] is not None:
                        kw["epsilon"] = c["eps"]
                    cbe = []
                    if c["round"]:
                        cnt = [0]

                        def fn(a, c=c):
                            sim.point(3)
                            cnt[0] += 1
                            if c["round"] == "raise" and cnt[0] == c["rk"]:
                                cbe.append(engine.make_exc("InjectedError"))
                                raise cbe[0]
                            return a
                        kw["round_fn"] = fn
                    already = x.ended or x.raised is not None
                    res = exc = None
                    x.active, x.failed_now = True, False
                    try:
                        sim.begin_op(t, j)
                        res = util.sequential_nullspace(x.obj, c["dim"], **kw)
                    except engine.SimAbort:
                        raise
                    except BaseException as e:
                        exc = e
                    finally:
                        t.faults = []
                        sim._arm(t)
                    x.active = False
                    t.shield += 1
                    try:
                        stat["calls"] += 1
                        stat["pulls"] += x.pulls - p0
                        self.judge(scn, c, x, start, res, exc, cbe, t, sim, mark[0], already, bad, stat)
                    finally:
                        t.shield -= 1
            return run

        with history.quiet(), perturb.install(perturb.Backend(scn["perturb"]["seed"], scn["perturb"]["amount"]) if scn["perturb"] else None):
            sim = engine.Sim(scn["plan"], actions={"gc": lambda s, t, f: gc.collect()})
            for i, L in enumerate(scn["tasks"]):
                sim.spawn(body(i, L))
            sim.run()
            for v in sim.violations:
                bad(v["class"], v["detail"])
        for k in ("raised", "short"):
            if stat[k]:
                sim.fired["stream-" + k] = stat[k]
        return {"violations": viol, "hash": sim.hash, "steps": sim.step, "segments": sim.segments, "switches": sim.switches, "sig": sim.switch_sig,
                "fired": sim.fired, "fired_list": sim.fired_list, "compared": stat["answers"], "interrupted": stat["interrupted"], "nested": stat["nested"],
                "probes": stat}

    def judge(self, scn, c, x, start, res, exc, cbe, t, sim, mark, already, bad, stat):
        what = f"sequential_nullspace({x.show()}, {c['dim']}) from matrix {start}"
        mine = [f for f in sim.fired_list[mark:] if f[0] == t.idx and f[2] in EXC]
        if mine:
            stat["interrupted"] += 1
            if exc is None:
                bad("interrupt-lost", f"{what}: {mine[0][2]} in {mine[0][3]} is swallowed")
            elif type(exc).__name__ not in {f[2] for f in mine}:
                bad("interrupt-lost", f"{what}: {mine[0][2]} reached the caller as {type(exc).__name__}: {exc}")
            x.ended = True      # a generator that was interrupted is over
            x.dead = True
            return
        if getattr(x, "dead", False):
            return              # the stream was interrupted earlier; what it still yields is not defined
        for a, b in zip(x.mats, x.orig):
            if not x.spec["scribble"] and not np.array_equal(a, b):
                bad("argument-modified", f"{what}: a matrix of the stream was written to")
                break
        if x.src in ("list", "tuple") and (len(x.obj) != len(x.out) or any(a is not b for a, b in zip(x.obj, x.out))):
            bad("argument-modified", f"{what}: the list of matrices was changed")
        # reference: the smallest prefix whose null space is small enough
        d = x.spec["d"]
        before = x.used[start - 1] if start else 0
        rel = None
        n = len(x.out)
        base = self.rank_from(x, start)
        for k in range(start + 1, n + 1):
            if d - base(k) <= c["dim"]:
                rel = k
                break
        fail_at = x.spec.get("fail_at", -1)
        if cbe:
            if exc is not cbe[0]:
                bad("callback-exception", f"{what}: the exception of round_fn became {type(exc).__name__}: {exc}")
            x.dead = True
            return
        if fail_at >= start and (rel is None or fail_at < rel) and not already:
            stat["raised"] += 1
            if x.raised is None:
                bad("stops-early", f"{what}: returned after {x.pos - start} matrices, the null space is still larger than {c['dim']} ({exc!r})")
            elif exc is not x.raised:
                bad("stream-exception", f"{what}: {type(x.raised).__name__} raised by the stream reached the caller as {type(exc).__name__ if exc else 'a result'}: {exc}")
            return
        if already:
            if x.src == "map" or type(exc) is not ValueError:
                if x.src in ("gen", "iter", "chain"):
                    bad("exhausted", f"{what}: on an exhausted stream gives {exc!r} instead of ValueError")
            x.dead = True
            return
        if rel is None:
            stat["short"] += 1
            if type(exc) is not ValueError:
                bad("exhausted", f"{what}: the constraints leave more than {c['dim']} dimensions; got {exc!r}" + (f" / a result of shape {np.shape(res)}" if exc is None else ""))
            elif x.src not in ("list", "tuple") and x.pos != n:
                bad("stops-early", f"{what}: ValueError after {x.pos} of {n} matrices")
            return
        if exc is not None:
            bad("raises", f"{what}: {type(exc).__name__}: {exc}")
            x.dead = True
            return
        if x.src not in ("list", "tuple") and x.pos != rel:
            bad("pulls-too-many" if x.pos > rel else "stops-early", f"{what}: pulled {x.pos - start} matrices instead of {rel - start}")
        stat["answers"] += 1
        S = np.asarray(res)
        r = base(rel)
        if S.shape != (d - r, d):
            bad("wrong-span", f"{what}: shape {S.shape} instead of {(d - r, d)}")
            return
        if not np.isfinite(S).all():
            bad("wrong-span", f"{what}: not finite")
            return
        if S.size:
            sv = np.linalg.svd(S)[1]
            if sv[-1] < 1e-6 * max(sv[0], 1e-30) or sv[-1] < 1e-6:
                bad("dependent", f"{what}: rows are not linearly independent (singular values {sv})")
            for k in range(start, rel):
                if x.orig[k].size and np.abs(x.orig[k] @ S.T).max() > 1e-7 * sv[0]:
                    bad("wrong-span", f"{what}: a vector returned is not annihilated by matrix {k} ({np.abs(x.orig[k] @ S.T).max():.2e})")
                    break
        if any(res is m or (isinstance(res, np.ndarray) and np.shares_memory(res, m)) for m in x.mats if m.size):
            bad("aliased", f"{what}: the result shares memory with a matrix of the stream")

    def rank_from(self, x, start):
        """Rank of the matrices start..k-1 together (a later call on one stream sees only those)."""
        cache = {}

        def f(k):
            if k not in cache:
                M = np.concatenate([m for m in x.orig[start:k]]) if k > start else np.zeros((0, x.spec["d"]))
                cache[k] = int((np.linalg.svd(M)[1] > 1e-3).sum()) if M.shape[0] else 0
            return cache[k]
        return f

    def nontrivial(self, scn, res):
        return res["compared"] + res["interrupted"] > 0 or res["probes"]["raised"] + res["probes"]["short"] > 0

    def signature(self, scn, res):
        return (json.dumps(scn["streams"]), json.dumps(scn["tasks"]), res["sig"], json.dumps(res["fired_list"]))

    def describe(self, scn):
        return scn

    def shrink(self, scn):
        def cp():
            return json.loads(json.dumps(scn))
        n = len(scn["tasks"])
        for i in range(n):
            if n > 1:
                c = cp()
                del c["tasks"][i]
                c["plan"]["faults"] = [dict(f, task=f["task"] - (f["task"] > i)) for f in c["plan"]["faults"] if f["task"] != i]
                hist.fix_sched(c, i)
                yield c
        for i in range(n):
            for j in range(len(scn["tasks"][i])):
                c = cp()
                del c["tasks"][i][j]
                c["plan"]["faults"] = [dict(f, op=f["op"] - (f["op"] > j and f["task"] == i)) for f in c["plan"]["faults"] if (f["task"], f["op"]) != (i, j)]
                yield c
        for i in range(len(scn["plan"]["faults"])):
            c = cp()
            del c["plan"]["faults"][i]
            yield c
        if scn["perturb"]:
            c = cp()
            c["perturb"] = None
            yield c
        used = {c["s"] for t in scn["tasks"] for c in t}
        for i in used:
            s = scn["streams"][i]
            for k in ("reenter",):
                if k in s:
                    c = cp()
                    del c["streams"][i][k]
                    yield c
            for j in range(len(s["mats"])):
                c = cp()
                del c["streams"][i]["mats"][j]
                yield c
            for k in ("cplx", "scribble"):
                if s[k]:
                    c = cp()
                    c["streams"][i][k] = 0
                    yield c
        s = scn["plan"]["sched"]
        if s.get("policy") not in ("serial", "explicit"):
            c = cp()
            c["plan"]["sched"] = {"policy": "serial"}
            yield c
        if scn["plan"]["grain"] != "line":
            c = cp()
            c["plan"]["grain"] = "line"
            yield c


PROP = S09()
