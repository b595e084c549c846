"""S04: arguments are read-only, results are private."""
import random

from .. import hist, ops
from ..hist import History


def readonly(rng, a):
    if isinstance(a, dict) and "m" in a and rng.random() < .3:
        return {"m": ["RO", a["m"]]}
    return a


class S04(History):
    id = "S04"
    quick_runs, thorough_runs = 1800, 30000
    rule = ("One case is one simulated run of 1-3 threads x 3-8 operations on shared representations and arrays; buffers returned by completed "
            "operations are overwritten (NaN, constants, zero) at chosen steps - between operations and in the middle of other calls - and all "
            "inputs are overwritten at the end. Every operation is compared with a fresh process, every result retained and re-checked, every "
            "argument fingerprinted bytewise before and after; some inputs are read-only arrays. Non-trivial: a returned buffer was overwritten "
            "and an operation was compared.")

    def scenario(self, seed, ref, tier):
        rng = random.Random(seed)
        ctx = ops.Ctx(rng, heavy=.02)
        names = None
        u = rng.random()
        if u < .3:
            names = ["rtp", "sym", "rtpl"]
        elif u < .5:
            names = ["X", "A", "H", "cg", "cgcls", "trivial", "mulrule", "exp", "classq", "dims"]
        elif u < .65:
            names = ["tp", "cb", "ca", "dsum", "conj", "X", "H", "A", "reducetab", "exp", "isreal"]
        elif u < .8:
            names = ["nullspace", "gs", "extend", "seqnull", "binter", "infer", "icb1", "round", "kron", "udsum", "vmap", "blockd", "inferalg", "uniq", "decomp"]
        p = hist.pool(rng, ref, rng.randint(1, 4), ctx, names, sib=.7, cap=30_000)
        if not p:
            return None
        p = [{**o, "a": [readonly(rng, a) for a in o["a"]]} for o in p]
        nt = rng.choice([1, 1, 2, 3])
        tasks = [[rng.choice(p) for _ in range(rng.randint(2, 5))] for _ in range(nt)]
        post = [rng.choice(p) for _ in range(rng.randint(1, 3))]
        (tt, objs) = ops.share(rng, tasks + [post], p=rng.choice([.3, 1.0, 1.0]))
        post = tt[nt]
        tasks2 = []
        faults = []
        for i in range(nt):
            L = []
            for o, o0 in zip(tt[i], tasks[i]):
                j = len(L)
                L.append(o)
                if rng.random() < .35:
                    faults.append({"task": i, "op": j, "step": hist.place(rng, ref(o0)), "kind": "act", "act": "scribble", "seed": rng.randrange(1000), "n": rng.choice([1, 2, 4])})
                if nt > 1 and rng.random() < .3:
                    faults.append({"task": i, "op": j, "step": hist.place(rng, ref(o0)), "kind": "park"})
                if rng.random() < .45:
                    L.append({"op": "!scribble", "a": [rng.randrange(1000)]})
            tasks2.append(L)
        total = sum(ref(o)["steps"] for t in tasks for o in t)
        every = rng.choice([0, 0, max(1, total // 600)])
        return {"objs": objs, "warm": [], "tasks": tasks2, "post": post, "nested": [],
                "plan": {"grain": "line", "sched": hist.sched(rng, total) if nt > 1 else {"policy": "serial"}, "faults": faults, "cap": 60 * total + 200_000,
                         "observe_every": every},
                "opt": {"args": True, "scribble": True, "live": every > 0}}

    def nontrivial(self, scn, res):
        return res["scribbles"] > 0 and res["compared"] > 0


PROP = S04()
