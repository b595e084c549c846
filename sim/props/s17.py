"""S17: a process forked in the middle of calls answers correctly."""
import json
import random

from .. import hist, ops
from ..hist import History


class S17(History):
    id = "S17"
    quick_runs, thorough_runs = 1200, 25000
    level = "fault_enumeration"
    rule = ("One case is one simulated run of 1-4 threads x 1-3 operations during which the process really forks, 1-3 times, at chosen steps of one thread while "
            "the others are parked in the middle of theirs (some calls were abandoned by an exception before). In the child only the forking thread exists; it runs "
            "1-4 operations - those in progress, near-copies and probes - each compared with a fresh process, and must finish. The parent's operations are compared "
            "as well. Non-trivial: a child was forked and answered.")

    def scenario(self, seed, ref, tier):
        rng = random.Random(seed)
        ctx = ops.Ctx(rng, heavy=.02)
        names = None
        u = rng.random()
        if u < .25:
            names = ["rtp", "sym", "rtpl", "germinate"]
        elif u < .4:
            names = ["cg", "cgcls", "X", "A", "H", "mulrule", "trivial", "exp", "tp", "tptab"]
        elif u < .5:
            names = ["nullspace", "gs", "cggen", "infer", "seqnull", "extend", "binter"]
        p = hist.pool(rng, ref, rng.randint(1, 4), ctx, names, sib=.7, cap=25_000, guard=.2)
        if not p:
            return None
        nt = rng.choice([1, 2, 2, 3, 4])
        tasks = [[rng.choice(p) for _ in range(rng.randint(1, 3))] for _ in range(nt)]
        warm = [rng.choice(p)] if rng.random() < .25 else []
        post = [rng.choice(p)] if rng.random() < .4 else []
        child = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            L = [rng.choice(rng.choice(tasks)) for _ in range(rng.randint(1, 2))]
            if rng.random() < .5:
                s = ops.sibling(rng, rng.choice(L))
                if hist.usable(ref, s, 25_000):
                    L.append(s)
            if rng.random() < .3:
                s = hist.probe(rng, ref, 20_000)
                if s:
                    L.append(s)
            child.append(L)
        total = sum(ref(o)["steps"] for t in tasks for o in t)
        tt, objs = ops.share(rng, tasks + [warm, post] + child, p=rng.choice([0, .5, 1.0]))
        faults = []
        for k, L in enumerate(tt[nt + 2:]):
            i = rng.randrange(nt)
            j = rng.randrange(len(tasks[i]))
            f = {"task": i, "op": j, "kind": "act", "act": "fork", "ops": L}
            h = hist.hot_fault(rng, ref(tasks[i][j]), f) if rng.random() < .5 else None
            faults.append(h or {**f, "step": hist.place(rng, ref(tasks[i][j]))})
        for i in range(nt):
            for j, o in enumerate(tasks[i]):
                if nt > 1 and rng.random() < .6:
                    f = {"task": i, "op": j, "kind": "park"}
                    h = hist.hot_fault(rng, ref(o), f, guard=True) if rng.random() < .8 else None
                    faults.append(h or {**f, "step": hist.place(rng, ref(o))})
                if rng.random() < .12:
                    faults.append({"task": i, "op": j, "step": hist.place(rng, ref(o)), "kind": "exc", "exc": rng.choice(["KeyboardInterrupt", "MemoryError", "InjectedError"])})
        return {"objs": objs, "warm": tt[nt], "tasks": tt[:nt], "post": tt[nt + 1], "nested": [],
                "plan": {"grain": "line" if rng.random() < .7 else rng.choice(["call", "instr"]), "sched": hist.sched(rng, total), "faults": faults, "cap": 40 * total + 200_000},
                "opt": {"args": True}}

    def nontrivial(self, scn, res):
        return res["forks"] > 0

    def shrink(self, scn):
        yield from super().shrink(scn)
        for i, f in enumerate(scn["plan"]["faults"]):
            for k in range(len(f.get("ops", [])) if len(f.get("ops", [])) > 1 else 0):
                c = json.loads(json.dumps(scn))
                del c["plan"]["faults"][i]["ops"][k]
                yield c


PROP = S17()
