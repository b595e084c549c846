"""S01: concurrent callers get the answers they would get alone."""
import random

from .. import hist, ops
from ..hist import History


class S01(History):
    id = "S01"
    quick_runs, thorough_runs = 1400, 20000
    rule = ("One case is one simulated run: 2-4 threads x 1-3 operations drawn from a pool of near-identical operations on shared and private "
            "objects, one schedule (random walk / PCT / long parks at chosen source locations, at line, call or bytecode granularity), "
            "optional interruptions, clock jumps, garbage collections, cache evictions and signal handlers which call the library in the middle of a call; in a quarter of the runs user callbacks call back "
            "into the library. A case is non-trivial when at least one operation completed and was compared while the baton changed hands "
            "or a nested call ran; distinct means a different (operations, switch points, faults) signature.")

    def scenario(self, seed, ref, tier):
        rng = random.Random(seed)
        ctx = ops.Ctx(rng, heavy=.03)
        nt = rng.choice([2, 2, 2, 3, 4])
        mode = rng.random()
        names = None
        if mode < .2:
            names = ["rtp", "sym", "rtpl", "germinate"]
        elif mode < .32:
            names = ["cg", "cgcls", "X", "A", "H", "triplet", "mulrule", "trivial", "exp"]
        elif mode < .42:
            names = ["tp", "tptab", "tpow", "dsum", "cb", "ca", "gprod", "conj"]
        elif mode < .55:
            names = ["nullspace", "gs", "cggen", "infer", "seqnull", "extend", "binter", "icb1"]
        p = hist.pool(rng, ref, rng.randint(1, 4), ctx, names, sib=.75)
        if not p:
            return None
        tasks = [[rng.choice(p) for _ in range(rng.randint(1, 3))] for _ in range(nt)]
        warm = [rng.choice(p) for _ in range(rng.randint(1, 2))] if rng.random() < .3 else []
        post = [rng.choice(p) for _ in range(rng.randint(0, 2))]
        nested = []
        if rng.random() < .25:
            o = ops.gen_op(rng, ctx, ["cggen", "infer", "nullspace", "gs"])
            if hist.usable(ref, o):
                if not hist.has_callback(o) or rng.random() < .5:
                    o = ops.gen_op(rng, ctx, ["nullspace", "cggen"])
                if hist.usable(ref, o):
                    tasks[0][0] = o
                    nested = [hist.strip_callbacks(x) for x in [o] + rng.sample(p, min(len(p), 2)) if ref(x)["steps"] < 8000]
                    nested = [x for x in nested if hist.usable(ref, x)]
        total = sum(ref(o)["steps"] for t in tasks for o in t)
        (tasks2, objs) = ops.share(rng, tasks + [warm, post, nested], p=rng.choice([0, .5, 1.0]))
        warm, post, nested = tasks2[nt:]
        tasks2 = tasks2[:nt]
        faults = []
        for i in range(nt):
            for j, o in enumerate(tasks[i]):
                r = ref(o)
                if rng.random() < .45:
                    for _ in range(rng.choice([1, 1, 2])):
                        f = {"task": i, "op": j, "kind": "park"}
                        h = hist.hot_fault(rng, r, f) if rng.random() < .8 else None
                        faults.append(h or {**f, "step": hist.place(rng, r)})
                if rng.random() < .06:
                    faults.append({"task": i, "op": j, "step": hist.place(rng, r), "kind": "clock", "by": rng.choice([-3600.0, 1e6, 1e-3])})
                if rng.random() < .06:
                    faults.append({"task": i, "op": j, "step": hist.place(rng, r), "kind": "act", "act": "gc"})
                if rng.random() < .08:
                    faults.append({"task": i, "op": j, "step": hist.place(rng, r), "kind": "act", "act": "evict", "seed": rng.randrange(99), "all": rng.random() < .5})
        if rng.random() < .2:
            i = rng.randrange(nt)
            j = rng.randrange(len(tasks[i]))
            faults.append({"task": i, "op": j, "step": hist.place(rng, ref(tasks[i][j])), "kind": "exc",
                           "exc": rng.choice(["KeyboardInterrupt", "MemoryError", "InjectedError", "InjectedBase", "SystemExit"])})
        if rng.random() < .2:       # a signal handler, in the middle of a call
            for _ in range(rng.choice([1, 1, 2])):
                i = rng.randrange(nt)
                j = rng.randrange(len(tasks[i]))
                o = rng.choice(tasks[i] + p)
                if ref(o)["steps"] < 20_000 and not ops.OPS[o["op"]].random:
                    f = {"task": i, "op": j, "kind": "act", "act": "call", "o": hist.strip_callbacks(o)}
                    if hist.usable(ref, f["o"]):
                        h = hist.hot_fault(rng, ref(tasks[i][j]), f) if rng.random() < .6 else None
                        faults.append(h or {**f, "step": hist.place(rng, ref(tasks[i][j]))})
        grain = "line" if rng.random() < .7 else rng.choice(["call", "instr"])
        return {"objs": objs, "probes": hist.probes(rng, ref), "warm": warm, "tasks": tasks2, "post": post, "nested": nested,
                "plan": {"grain": grain, "sched": hist.sched(rng, total), "faults": faults, "cap": 40 * total + 200_000},
                "opt": {"args": True}}

    def nontrivial(self, scn, res):
        return res["compared"] > 0 and (res["switches"] > 0 or res["nested"] > 0)


PROP = S01()
