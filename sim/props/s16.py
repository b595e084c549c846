"""S16: repeating work accumulates nothing."""
import array
import atexit
import gc
import json
import logging
import os
import random
import sys
import threading
import tracemalloc
import warnings

from .. import engine, hist, history, ops, rngseam, specs
from ..hist import History

REPS = 9            # repetitions every run makes
SETTLE = 4          # the first ones may fill caches
MORE = 180          # further repetitions when something keeps growing: a bounded cache stops


def measure():
    gc.collect()
    gc.collect()
    return {"memory": tracemalloc.get_traced_memory()[0], "objects": len(gc.get_objects()), "threads": threading.active_count(),
            "file descriptors": len(os.listdir("/proc/self/fd")), "modules": len(sys.modules), "exit handlers": atexit._ncallbacks(),
            "warning filters": len(warnings.filters), "gc callbacks": len(gc.callbacks), "log handlers": len(logging.root.handlers),
            "import hooks": len(sys.meta_path) + len(sys.path_hooks) + len(sys.path)}


EVERY = 20          # ... counted every so often; each of the last intervals must show growth
LEAST = {"memory": 48}   # per repetition, to tell growth from the allocator's free lists and resized tables


class Log:
    """Measurements in memory allocated beforehand, so that keeping them does not show in them."""

    def __init__(self, keys, n):
        self.rows = {k: array.array("q", [0] * n) for k in keys}
        self.n = 0

    def add(self):
        m = measure()
        for k in m:
            self.rows[k][self.n] = m[k]
        self.n += 1

    def grows(self, key, start, each):
        v = self.rows[key]
        return all(v[i + 1] - v[i] >= each * LEAST.get(key, 1) for i in range(start, self.n - 1))


class S16(History):
    id = "S16"
    quick_runs, thorough_runs = 800, 15000
    rule = ("One case is one simulated run of 1-3 threads x 1-4 operations, some of them interrupted at seeded steps, hit by a failing backend call or raising from "
            "the user's callback, repeated 9 times in one process with equal but newly built arguments and the same schedule and faults; results are dropped. After each repetition, "
            "garbage is collected and live memory (tracemalloc, numpy buffers included), tracked objects, threads, file descriptors, modules, exit handlers, warning filters, "
            "gc callbacks and import hooks are counted. What still grows after the fourth repetition is repeated 180 times more: only growth that does not end is reported. "
            "Non-trivial: at least one operation completed and one of the repetitions was measured.")

    def scenario(self, seed, ref, tier):
        rng = random.Random(seed)
        ctx = ops.Ctx(rng, heavy=.01)
        p = hist.pool(rng, ref, rng.randint(1, 4), ctx, None, sib=.5, cap=6_000, want_ok=.7)
        if not p:
            return None
        nt = rng.choice([1, 1, 1, 2, 3])
        tasks = [[rng.choice(p) for _ in range(rng.randint(1, 3))] for _ in range(nt)]
        tt, objs = ops.share(rng, tasks, p=rng.choice([0, 0, 1.0]))
        faults = []
        num = False
        cb = []
        for i in range(nt):
            for j, o in enumerate(tasks[i]):
                u = rng.random()
                if u < .3:
                    faults.append({"task": i, "op": j, "step": hist.place(rng, ref(o)), "kind": "exc",
                                   "exc": rng.choice(["KeyboardInterrupt", "MemoryError", "InjectedError", "InjectedBase", "RecursionError"])})
                elif u < .45 and ref(o)["num"]:
                    faults.append({"task": i, "op": j, "n": rng.randint(1, ref(o)["num"]), "kind": "num", "exc": rng.choice(["LinAlgError", "MemoryError"])})
                    num = True
                elif u < .6 and hist.has_callback(o):
                    cb.append({"task": i, "op": j, "n": rng.randint(1, 4), "exc": "InjectedError"})
        total = sum(ref(o)["steps"] for t in tasks for o in t)
        plan = {"grain": "line", "sched": hist.sched(rng, total) if nt > 1 else {"policy": "serial"}, "faults": faults, "cap": 60 * total + 200_000}
        if num:
            plan["num"] = True
        return {"objs": objs, "tasks": tt, "plan": plan, "cb_raise": cb}

    def refs_needed(self, scn):
        return []

    def once(self, scn, stat):
        objs = [history.buildable(a) for a in scn["objs"]]
        sim = engine.Sim(scn["plan"])
        cbn = {}

        def body(i, L):
            def run(sim, t):
                for j, o in enumerate(L):
                    op = ops.OPS[o["op"]]
                    rngseam.set_stream(t.idx, rngseam.Stream(o.get("s", 0)))

                    def hook(i=i, j=j):
                        sim.point()
                        cbn[i, j] = cbn.get((i, j), 0) + 1
                        for f in scn["cb_raise"]:
                            if f["task"] == i and f["op"] == j and cbn[i, j] == f["n"]:
                                sim._count("callback-raises")
                                raise engine.make_exc(f["exc"])
                    try:
                        sim.begin_op(t, j)
                        args = [ops.decode(a, objs, sim, hook) for a in o["a"]]
                        op.fn(*args)
                        stat[0] += 1
                    except engine.SimAbort:
                        raise
                    except BaseException:
                        stat[1] += 1
                    finally:
                        t.faults, t.numfaults, t.numrest, t.at = [], [], {}, []
                        args = None
                        sim._arm(t)
            return run
        for i, L in enumerate(scn["tasks"]):
            sim.spawn(body(i, L))
        with history.quiet():
            sim.run()
        return sim

    def execute(self, scn, refs):
        viol = []
        specs.KEEP[0] = True    # the dispatcher remembers every class it has seen: repetitions are about the same classes
        gc.collect()
        gc.disable()
        gc.freeze()          # what was there before the first repetition is neither searched nor counted
        stat = [0, 0]
        out = None
        keys = list(measure())
        ms, far = Log(keys, REPS), Log(keys, MORE // EVERY + 1)
        tracemalloc.start(1)
        steps = 0
        fired = {}
        for r in range(REPS):
            sim = self.once(scn, stat)
            steps += sim.step
            for k, v in sim.fired.items():
                fired[k] = fired.get(k, 0) + v
            if out is None:
                out = {"hash": sim.hash, "segments": sim.segments, "switches": sim.switches, "sig": sim.switch_sig, "fired_list": sim.fired_list}
                for v in sim.violations:
                    viol.append({"class": v["class"], "detail": v["detail"]})
            sim = None
            ms.add()
        bad = [k for k in keys if ms.grows(k, SETTLE, 1)]
        more = 0
        if bad and not viol:
            far.add()
            for r in range(MORE):
                sim = self.once(scn, stat)
                steps += sim.step
                sim = None
                more += 1
                if more % EVERY == 0:
                    far.add()
                    bad = [k for k in bad if far.grows(k, 0, EVERY)]
                    if not bad:
                        break
            for k in bad:
                per = (far.rows[k][far.n - 1] - far.rows[k][0]) / (EVERY * (far.n - 1))
                viol.append({"class": "accumulates:" + k, "detail": f"every repetition leaves {per:.1f} more {'bytes' if k == 'memory' else k} behind, after {REPS + more} repetitions of "
                                 f"{[history.show(o) for t in scn['tasks'] for o in t]} (interruptions: {out['fired_list']})"})
        tracemalloc.stop()
        return {"violations": viol, **out, "steps": steps, "fired": fired, "completed": stat[0], "interrupted": stat[1], "compared": REPS + more, "repetitions": REPS + more, "growth": list(ms.rows["memory"])}

    def nontrivial(self, scn, res):
        return res["completed"] > 0


PROP = S16()
