"""S02: an interrupted operation leaves no trace."""
import random

from .. import hist, ops
from ..hist import History

KINDS = ["KeyboardInterrupt", "MemoryError", "InjectedError", "InjectedBase", "SystemExit", "ValueError", "RecursionError", "TimeoutError", "OSError"]


class S02(History):
    id = "S02"
    quick_runs, thorough_runs = 2400, 40000
    level = "fault_enumeration"
    rule = ("One case is one simulated run in which one to three operations are abandoned by an exception at a chosen step (chosen per source "
            "location so that rare lines are hit as often as loops, or at a user callback), followed in the same process by retries of the "
            "same operations and by probes with neighbouring arguments, each compared with a fresh process. Non-trivial: at least one "
            "exception was actually raised inside an operation and at least one later operation was compared.")

    def scenario(self, seed, ref, tier):
        rng = random.Random(seed)
        ctx = ops.Ctx(rng, heavy=.03)
        mode = rng.random()
        names = None
        if mode < .25:
            names = ["rtp", "sym", "rtpl", "germinate"]
        elif mode < .4:
            names = ["nullspace", "gs", "cggen", "infer", "seqnull", "extend", "binter", "triplet", "reduce"]
        p = hist.pool(rng, ref, rng.randint(1, 3), ctx, names, sib=.8, guard=.3)
        if not p:
            return None
        nt = 1 if rng.random() < .7 else 2
        tasks = []
        for i in range(nt):
            t = []
            for _ in range(rng.randint(1, 3)):
                t.append(rng.choice(p))
            tasks.append(t)
        victim = rng.choice(tasks[0])
        tasks[0].append(victim)                     # retry in the same thread
        warm = [rng.choice(p)] if rng.random() < .25 else []
        post = [victim, rng.choice(p)]
        if rng.random() < .5:
            s = ops.sibling(rng, victim)
            if hist.usable(ref, s):
                post.append(s)
        for _ in range(2):
            s = hist.probe(rng, ref) if rng.random() < .35 else None
            if s:
                post.append(s)
        total = sum(ref(o)["steps"] for t in tasks for o in t)
        (tt, objs) = ops.share(rng, tasks + [warm, post], p=rng.choice([0, .5, 1.0]))
        warm, post = tt[nt:]
        faults, cbr = [], []
        n = rng.choice([1, 1, 1, 2, 3])
        for _ in range(n):
            i = rng.randrange(nt)
            j = rng.randrange(max(1, len(tasks[i]) - (i == 0)))
            o = tasks[i][j]
            if hist.has_callback(o) and rng.random() < .4:
                cbr.append({"task": i, "op": j, "n": rng.choice([1, 1, 2, 5]), "exc": rng.choice(KINDS)})
            else:
                f = {"task": i, "op": j, "kind": "exc", "exc": rng.choice(KINDS[:5] if rng.random() < .8 else KINDS)}
                h = hist.hot_fault(rng, ref(o), f, guard=True) if rng.random() < .6 else None
                faults.append(h or {**f, "step": hist.place(rng, ref(o))})
        if rng.random() < .1:
            faults.append({"task": 0, "op": 0, "step": hist.place(rng, ref(tasks[0][0])), "kind": "act", "act": "gc"})
        grain = "line" if rng.random() < .6 else rng.choice(["call", "instr"])
        if grain != "line":                         # finer grains have more steps: spread the faults over them
            k = {"call": 2, "instr": 7}[grain]
            for f in faults:
                f["step"] = max(1, int(f["step"] * rng.uniform(1, k))) if "at" not in f else 0
        return {"objs": objs, "probes": hist.probes(rng, ref), "warm": warm, "tasks": tt[:nt], "post": post, "nested": [], "cb_raise": cbr,
                "plan": {"grain": grain, "sched": hist.sched(rng, total) if nt > 1 else {"policy": "serial"}, "faults": faults, "cap": 60 * total + 200_000},
                "opt": {"args": True, "globals": True}}

    def nontrivial(self, scn, res):
        return res["interrupted"] > 0 and res["compared"] > 0


PROP = S02()
