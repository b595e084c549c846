"""S05: answers do not depend on the history of the process."""
import random

from .. import hist, ops
from ..hist import History


class S05(History):
    id = "S05"
    quick_runs, thorough_runs = 1500, 25000
    rule = ("One case is one simulated run of a history of 6-30 operations drawn from a small pool of near-identical requests (one leaf "
            "argument, one array dtype, one kind of representation or the order of the arguments differs), interleaved with changes in place "
            "of user-owned representations, dropping and rebuilding every object, garbage collection, eviction of every or some memoised "
            "results, definition of new representation classes and permutation of the whole history. Every operation is compared with the same "
            "operation in a fresh process. Non-trivial: at least two operations compared.")

    def scenario(self, seed, ref, tier):
        rng = random.Random(seed)
        ctx = ops.Ctx(rng, heavy=.03)
        names = None
        u = rng.random()
        if u < .3:
            names = ["rtp", "sym", "rtpl", "germinate"]
        elif u < .45:
            names = ["X", "A", "H", "cg", "cgcls", "trivial", "mulrule", "order", "classq", "iterdrop", "dims"]
        elif u < .6:
            names = ["tp", "tptab", "cb", "ca", "dsum", "conj", "irred", "isreal", "isunitary", "infer", "cggen", "dims"]
        elif u < .72:
            names = ["nullspace", "gs", "seqnull", "extend", "icb1", "round", "limden", "ratio", "kron", "udsum", "inferalg", "uniq", "regular", "perm", "psign"]
        elif u < .8:
            names = ["sunmod", "suncg", "sun", "roots", "sondim", "perm", "X", "dims"]
        p = hist.pool(rng, ref, rng.randint(2, 6), ctx, names, sib=.7, cap=30_000)
        if not p:
            return None
        while rng.random() < .3:
            o = hist.probe(rng, ref, 30_000)
            if o:
                p.append(o)
        n = rng.randint(4, 20)
        L = [rng.choice(p) for _ in range(n)]
        nt = 1 if rng.random() < .9 else 2
        post = [rng.choice(p) for _ in range(2)]
        (tt, objs) = ops.share(rng, [L, post], p=rng.choice([0, .5, 1.0]))
        L, post = tt
        mut = [i for i, s in enumerate(objs) if hist.obj_mutable(s)]
        out = []
        touched = set()
        pm = rng.choice([.12, .12, .3])
        for o in L:
            v = rng.random()
            if v < pm and mut and nt == 1:
                i = rng.choice(mut)
                touched.add(i)
                users = [x for x in L if refers(x["a"], i)]
                if users and rng.random() < .4:
                    out.append(rng.choice(users))
                out.append({"op": "!mutate", "a": [i, rng.randrange(1000)]})
                if users and rng.random() < .6:
                    out.append(rng.choice(users))
            elif v < pm + .05:
                out.append({"op": "!drop", "a": []})
            elif v < pm + .13:
                out.append({"op": "!evict", "a": [rng.randrange(99), rng.random() < .5]})
            elif v < pm + .15:
                out.append({"op": "!define", "a": [rng.randrange(4)]})
            out.append(o)
        if any(o["op"] == "!drop" for o in out) and touched:
            out = [o for o in out if o["op"] != "!drop"]
        tasks = [out] if nt == 1 else [out[: len(out) // 2], out[len(out) // 2:]]
        total = sum(ref(o)["steps"] for o in tt0(L, objs))
        return {"objs": objs, "probes": hist.probes(rng, ref), "warm": [], "tasks": tasks, "post": post, "nested": [],
                "plan": {"grain": "line", "sched": hist.sched(rng, total), "faults": [], "cap": 60 * total + 400_000},
                "opt": {"args": not touched}}

    def nontrivial(self, scn, res):
        return res["compared"] > 1


def refers(a, i):
    if isinstance(a, dict):
        return a.get("o") == i or any(refers(x, i) for x in a.values())
    return isinstance(a, list) and any(refers(x, i) for x in a)


def tt0(L, objs):
    return [{**o, "a": ops.subst(o["a"], objs)} for o in L]


PROP = S05()
