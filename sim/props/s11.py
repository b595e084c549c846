"""S11: process-wide state is left alone, even for a moment."""
import random

from .. import hist, ops
from ..hist import History


class S11(History):
    id = "S11"
    quick_runs, thorough_runs = 1500, 25000
    rule = ("One case is one simulated run of 1-3 threads x 1-4 operations, some abandoned by an exception; process-wide state is snapshot before "
            "and after, and its cheap part (random state, print options, error handling, warning filters, recursion limit, streams, gc, switch "
            "interval) every k simulated steps from inside the running operations; draws from random generators by operations that are not "
            "documented as random are flagged. Non-trivial: at least one operation ran to its end under observation.")

    def scenario(self, seed, ref, tier):
        rng = random.Random(seed)
        ctx = ops.Ctx(rng, heavy=.03)
        p = hist.pool(rng, ref, rng.randint(1, 4), ctx, None, sib=.3, cap=25_000, want_ok=.6)
        if rng.random() < .1:      # one long operation
            p = hist.pool(rng, ref, 1, ctx, rng.choice([["germinate"], ["germinate"], ["rtp", "sym"], ["seqnull"], None]), cap=130_000, want_ok=.6)
        if not p:
            return None
        nt = rng.choice([1, 1, 2, 3]) if max(ref(o)["steps"] for o in p) <= 25_000 else 1
        tasks = [[rng.choice(p) for _ in range(rng.randint(1, 4) if nt > 1 or len(p) > 1 else 1)] for _ in range(nt)]
        (tt, objs) = ops.share(rng, tasks, p=rng.choice([0, 1.0]))
        faults = []
        for i in range(nt):
            for j, o in enumerate(tasks[i]):
                if rng.random() < .2:
                    faults.append({"task": i, "op": j, "step": hist.place(rng, ref(o)), "kind": "exc", "exc": rng.choice(["KeyboardInterrupt", "MemoryError", "InjectedError"])})
                if rng.random() < .1:
                    faults.append({"task": i, "op": j, "step": hist.place(rng, ref(o)), "kind": "clock", "by": rng.choice([-1e5, 1e7])})
        total = sum(ref(o)["steps"] for t in tasks for o in t)
        every = max(1, min(rng.choice([1, 3, 7, 20]), 10**9), total // 1500)
        return {"objs": objs, "warm": [], "tasks": tt, "post": [], "nested": [],
                "plan": {"grain": "line", "sched": hist.sched(rng, total), "faults": faults, "cap": 60 * total + 200_000, "observe_every": every},
                "opt": {"args": True, "live": True, "globals": True, "rng": True, "output": True}}

    def nontrivial(self, scn, res):
        return res["completed"] > 0


PROP = S11()
