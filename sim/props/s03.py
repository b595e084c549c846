"""S03: a failing numerical backend never yields a wrong answer."""
import random

from .. import hist, ops
from ..hist import History


CAN = {"MemoryError": "MemoryError", "LinAlgError": "LinAlgError", "FloatingPointError": "FloatingPointError", "ArithmeticError": "FloatingPointError",
       "ValueError": "LinAlgError", "RuntimeError": "InjectedError", "Exception": "MemoryError", "BaseException": "MemoryError", "OSError": "OSError"}


def site_fault(rng, r, f):
    """One failing call, chosen uniformly over the call sites of the operation; rather a site with an except clause around it."""
    prot = [s for s in r["sites"] if s[3] is not None]
    s = rng.choice(prot if prot and rng.random() < .7 else r["sites"])
    a, b = s[0], s[1]
    n = rng.choice([a, b, rng.randint(a, b)])
    exc = rng.choice(["LinAlgError", "LinAlgError", "MemoryError", "FloatingPointError", "ValueError"] if s[2] else ["MemoryError", "FloatingPointError"])
    fits = [CAN[x] for x in s[3] or [] if x in CAN]
    if fits and rng.random() < .7:
        exc = rng.choice(fits)
        if exc == "LinAlgError" and not s[2]:
            exc = "MemoryError"
    return {**f, "step": n, "exc": exc, **({"rest": 1} if b > a and rng.random() < .35 else {})}


class S03(History):
    id = "S03"
    quick_runs, thorough_runs = 2600, 40000
    level = "fault_enumeration"
    rule = ("One case is one simulated run in which one to four calls from lie_nn into NumPy/SciPy fail (LinAlgError, MemoryError, "
            "FloatingPointError at linear-algebra routines; MemoryError, FloatingPointError at any numerical or allocating call) inside one or several operations; an operation that still "
            "returns must return the reference answer, and the same operation without fault is run again afterwards. Non-trivial: a backend "
            "call really failed inside an operation.")

    def scenario(self, seed, ref, tier):
        rng = random.Random(seed)
        ctx = ops.Ctx(rng, heavy=.03)
        names = None
        if rng.random() < .5:
            names = ["rtp", "sym", "cggen", "infer", "nullspace", "gs", "seqnull", "extend", "binter", "reduce", "irred", "isreal", "isunitary",
                     "makereal", "decomp", "exp", "cg", "icb1", "inferalg", "fromgen", "uirred", "cb", "ca", "tp"]
        p = hist.pool(rng, ref, rng.randint(1, 2), ctx, names, sib=.6, guard=.5)
        p = [o for o in p if ref(o)["num"]]
        if not p:
            return None
        t = [rng.choice(p) for _ in range(rng.randint(1, 3))]
        faults = []
        for j, o in enumerate(t):
            if j and rng.random() < .3:
                continue
            r = ref(o)
            for _ in range(rng.choice([1, 1, 1, 2, 4])):
                u = rng.random()
                if u < .5 and r["sites"]:
                    faults.append(site_fault(rng, r, {"task": 0, "op": j, "kind": "num"}))
                elif u < .75 and r["numlog"]:
                    faults.append({"task": 0, "op": j, "kind": "num", "step": rng.choice(r["numlog"]),
                                   "exc": rng.choice(["LinAlgError", "LinAlgError", "MemoryError", "FloatingPointError", "ValueError"])})
                else:
                    faults.append({"task": 0, "op": j, "kind": "num", "step": rng.randint(1, r["num"]),
                                   "exc": rng.choice(["MemoryError", "MemoryError", "FloatingPointError"])})
            if rng.random() < .15:      # the failure persists: every later backend call of the operation fails too
                k = rng.choice(r["numlog"]) if r["numlog"] else rng.randint(1, r["num"])
                faults += [{"task": 0, "op": j, "kind": "num", "step": n, "exc": "LinAlgError"} for n in r["numlog"] if n >= k][:40]
        post = [o for o in dict.fromkeys(map(repr, t))]
        post = [eval(o) for o in post]
        warm = [rng.choice(p)] if rng.random() < .2 else []
        (tt, objs) = ops.share(rng, [t, warm, post], p=rng.choice([0, 1.0]))
        total = sum(ref(o)["steps"] for o in t)
        return {"objs": objs, "warm": tt[1], "tasks": [tt[0]], "post": tt[2], "nested": [],
                "plan": {"grain": "line", "num": True, "sched": {"policy": "serial"}, "faults": faults, "cap": 60 * total + 200_000},
                "opt": {"args": True, "convert_ok": True}}

    def nontrivial(self, scn, res):
        return res["interrupted"] > 0


PROP = S03()
