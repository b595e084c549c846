"""Shared scenario helpers of the history-type properties (S01-S05, S11, S14)."""
import json
import random

from . import history, hot, ops, pool as forks, specs

HEAVY_STEPS = 60_000      # operations longer than this are not used in multi-operation histories


def strip_callbacks(o):
    def w(a):
        if isinstance(a, dict):
            if "f" in a:
                return {"f": "id"}
            if "kw" in a:
                return {"kw": {k: w(v) for k, v in a["kw"].items()}}
        if isinstance(a, list):
            return [w(x) for x in a]
        return a
    return {**o, "a": [w(a) for a in o["a"]]}


def has_callback(o):
    return any(isinstance(a, dict) and "f" in a for a in o["a"])


def usable(ref, o, cap=HEAVY_STEPS):
    r = ref(o)
    return r["steps"] <= cap and r["out"][0] != "abort"


# ------------------------------------------------------------------ guidance
# Functions that touch state outliving a call -> operations that execute them. Only says where to look.
HOT = {}
GUARD = {}
FAMS = ["SU2", "SO3", "O3", "SU2Real", "SL2C", "SO13", "Z2", "SU2_", "SU3", "SUN", "prod"]


def survey(refs, workers):
    """Reference runs of a few operations of every kind; they also fill the cache of references."""
    if not any(hot.worth_a_survey()):
        return
    rng = random.Random(20260731)
    todo = {}
    for name in sorted(ops.OPS):
        for f in FAMS:
            for size in (0, 3):
                if f in ("SU3", "SUN") and (size or name not in ("X", "H", "A", "dims", "cg", "mulrule", "rtp", "sym", "tp")):
                    continue
                o = ops.gen_op(rng, ops.Ctx(rng, fams=[f], size=size if f != "prod" else 0), [name])
                if size == 0 or ops.plausible(o):
                    k = todo.setdefault((name, f if list(ops._reps_in(o["a"])) else "-"), [])
                    if len(k) < 6:
                        k.append(o)
    L = [o for k in sorted(todo) for o in todo[k]]
    res = {}

    def got(i, r):
        if r[0] == "ok":
            res[i] = r[1]
    forks.parallel(lambda i: refs(L[i]), range(len(L)), workers, got)
    HOT.clear()
    GUARD.clear()
    for i, o in enumerate(L):
        r = res.get(i)
        if r is None:
            continue
        refs.d[history.key(o)] = r
        if r["steps"] > HEAVY_STEPS or r["out"][0] == "abort":
            continue
        for loc in r["hot"]:
            HOT.setdefault(loc[0] + ":" + loc[2], {}).setdefault(o["op"], []).append(o)
        for loc in r["guard"]:
            if loc[2].split(".")[-1] in hot.KNOWN_GUARD:
                continue
            GUARD.setdefault(loc[0] + ":" + loc[2], {}).setdefault(o["op"], []).append(o)
        for site in r["sites"]:
            if site[3] is not None and site[4].split(".")[-1] not in hot.KNOWN_GUARD:
                GUARD.setdefault("site:" + site[4], {}).setdefault(o["op"], []).append(o)


def hot_pick(rng, table, fn=None):
    fn = fn or rng.choice(sorted(table))
    d = table[fn]
    return json.loads(json.dumps(rng.choice(d[rng.choice(sorted(d))])))


def probe(rng, ref, cap=HEAVY_STEPS):
    """An operation with no relation to the pool: one that touches lasting state, or one that shows a default tolerance or setting."""
    for _ in range(6):
        if HOT and rng.random() < .5:
            o = hot_pick(rng, HOT)
        else:
            o = ops.gen_op(rng, ops.Ctx(rng), SENTINELS)
            if o["op"] in ("nullspace", "gs") and rng.random() < .7:
                m, n = rng.randint(2, 5), rng.randint(2, 5)
                o["a"][0] = {"m": ["graded", m, n, [rng.randint(0, 5) for _ in range(min(m, n))], rng.randint(0, 20), rng.choice("rc")]}
                o["a"][-1] = None
        if usable(ref, o, cap) and ref(o)["out"][0] == "ok":
            return o
    return None


def probes(rng, ref, n=8):
    """Operations that touch lasting state, run after a history that has left some behind (see history.Run.run)."""
    L = [hot_pick(rng, HOT) for _ in range(n)] if HOT else []
    return [o for o in L if usable(ref, o, 20_000) and ref(o)["out"][0] == "ok"]


SENTINELS = ["nullspace", "nullspace", "gs", "gs", "seqnull", "binter", "extend", "round", "ratio", "germinate", "rtp", "dims", "uniq", "cggen", "isunitary"]


def pool(rng, ref, n, ctx=None, names=None, exclude=(), cap=HEAVY_STEPS, sib=0.6, want_ok=0.85, guard=0.0):
    """n operations, many of them near-copies of each other (same inputs, one difference)."""
    table = fn = None
    if HOT and rng.random() < .6:
        table = HOT
    elif GUARD and rng.random() < guard:
        table = GUARD
    if table is not None:
        fn = rng.choice(sorted(table))
        out = []
        tries = 0
        while len(out) < n and tries < 20 * n:
            tries += 1
            o = hot_pick(rng, table, fn)
            if out and rng.random() < sib:
                o = rng.choice(out)
                o = (ops.swap_family(rng, o) if rng.random() < .3 else None) or ops.sibling(rng, o)
                if not ops.plausible(o):
                    continue
            if o["op"] not in exclude and usable(ref, o, cap) and (ref(o)["out"][0] == "ok" or rng.random() < .1):
                out.append(o)
        if out:
            return out
    return pool_(rng, ref, n, ctx, names, exclude, cap, sib, want_ok)


def hot_fault(rng, r, f, guard=False):
    """Place fault f at a source location the reference run says is hot; None if there is none."""
    u = rng.random()
    if r["span"] and u < .3:
        return {**f, "step": rng.randint(r["span"][0], r["span"][1] + 2)}
    locs = (r["hot"] if u < .7 else r["hotfn"]) or (r["guard"] if guard else None)
    if not locs:
        return None
    loc = rng.choice(locs)
    return {**f, "at": loc[:2], "nth": rng.choice([1, 1, 1, 2, 3]), "after": rng.random() < .5, "step": 0}


def pool_(rng, ref, n, ctx=None, names=None, exclude=(), cap=HEAVY_STEPS, sib=0.6, want_ok=0.85):
    """n operations, many of them near-copies of each other (same inputs, one difference)."""
    ctx = ctx or ops.Ctx(rng)
    out = []
    tries = 0
    while len(out) < n and tries < 20 * n:
        tries += 1
        if out and rng.random() < sib:
            o = ops.sibling(rng, rng.choice(out))
        else:
            o = ops.gen_op(rng, ctx, names, exclude)
        if o["op"] in exclude or (names and o["op"] not in names and o["op"] not in
                                  ("H", "A", "dims", "conj", "trivial", "cgcls", "triplet", "dsum", "gprod", "mulrule", "order", "gs")):
            continue
        if not usable(ref, o, cap):
            continue
        if ref(o)["out"][0] != "ok" and rng.random() < want_ok:
            continue
        out.append(o)
    return out


def place(rng, r, bias=0.75):
    """A step inside the operation with reference r: half of the time chosen per source location."""
    n = max(1, r["steps"])
    if r["locs"] and rng.random() < bias:
        a, b = r["locs"][rng.randrange(len(r["locs"]))]
        k = rng.choice([a, b, a + 1, b + 1, rng.randint(a, b)])
        return max(1, min(k, n))
    return rng.randint(1, n)


def sched(rng, est):
    u = rng.random()
    if HOT and u < .4:
        return {"policy": "hot", "seed": rng.randrange(1 << 30), "p": rng.choice([.0005, .002, .01])}
    u = rng.random()
    if u < .45:
        return {"policy": "random", "seed": rng.randrange(1 << 30), "p": rng.choice([.002, .01, .05, .2, .5])}
    if u < .85:
        return {"policy": "pct", "seed": rng.randrange(1 << 30), "depth": rng.choice([1, 2, 3, 5]), "est": max(10, est)}
    return {"policy": "serial"}


def obj_mutable(s):
    """A shared object spec whose arrays the user owns (so `!mutate` is legitimate)."""
    return isinstance(s, dict) and "r" in s and s["r"][0] in ("gen", "cb", "conj", "mul", "red") and specs.family(s["r"])[0] not in ("custom",)


def shrink(scn):
    """Candidate simplifications, coarse to fine."""
    def cp():
        return json.loads(json.dumps(scn))
    n = len(scn["tasks"])
    for k in ("nested", "warm", "post", "probes", "cb_raise"):
        L = scn.get(k) or []
        if len(L) > 1:
            c = cp()
            c[k] = []
            yield c
            c = cp()
            c[k] = L[: len(L) // 2]
            yield c
            c = cp()
            c[k] = L[len(L) // 2:]
            yield c
        for i in range(len(L)):
            c = cp()
            del c[k][i]
            yield c
    if n > 1:
        for i in range(n):
            c = cp()
            del c["tasks"][i]
            c["plan"]["faults"] = [dict(f, task=f["task"] - (f["task"] > i)) for f in c["plan"].get("faults", []) if f["task"] != i]
            c["cb_raise"] = [dict(f, task=f["task"] - (f["task"] > i)) for f in c.get("cb_raise", []) if f["task"] != i]
            fix_sched(c, i)
            yield c
    for i in range(n):
        L = scn["tasks"][i]
        spans = [(a, min(len(L), a + w)) for w in (len(L) // 2, len(L) // 4, 1) if w >= 1 for a in range(0, len(L), w)]
        seen = set()
        for a, b in spans:
            if (a, b) in seen or (b - a == len(L) and n == 1 and len(L) <= 1):
                continue
            seen.add((a, b))
            c = cp()
            del c["tasks"][i][a:b]

            def keep(f):
                return not (f["task"] == i and a <= f["op"] < b)

            def mv(f):
                return dict(f, op=f["op"] - (b - a)) if f["task"] == i and f["op"] >= b else f
            c["plan"]["faults"] = [mv(f) for f in c["plan"].get("faults", []) if keep(f)]
            c["cb_raise"] = [mv(f) for f in c.get("cb_raise", []) if keep(f)]
            yield c
    F = scn["plan"].get("faults", [])
    for i in range(len(F)):
        c = cp()
        del c["plan"]["faults"][i]
        yield c
    s = scn["plan"].get("sched", {})
    if s.get("policy") not in ("serial", "explicit"):
        c = cp()
        c["plan"]["sched"] = {"policy": "serial"}
        yield c
    if s.get("policy") == "explicit":
        G = s["segments"]
        w = len(G) // 2
        while w >= 1:
            for a in range(0, len(G), w):
                c = cp()
                c["plan"]["sched"]["segments"] = G[:a] + G[a + w:]
                yield c
            w //= 2
    if scn["plan"].get("grain", "line") != "line":
        c = cp()
        c["plan"]["grain"] = "line"
        yield c


def fix_sched(c, i):
    s = c["plan"].get("sched", {})
    if s.get("policy") == "explicit":
        s["segments"] = [[a - (a > i), u] for a, u in s["segments"] if a != i]


def make_explicit(scn, result):
    c = json.loads(json.dumps(scn))
    c["plan"]["sched"] = {"policy": "explicit", "segments": merge(result["segments"])}
    c["plan"]["faults"] = [f for f in c["plan"].get("faults", []) if f["kind"] != "park"]
    return c


def merge(segs):
    out = []
    for a, u in segs:
        if out and out[-1][0] == a:
            out[-1] = [a, u]
        else:
            out.append([a, u])
    return out


class History:
    """Base of the properties decided by histories of operations."""
    level = "exploration"
    set_seam = False

    def survey(self, refs, workers):
        survey(refs, workers)

    def refs_needed(self, scn):
        return history.needed_refs(scn)

    def execute(self, scn, refs):
        return history.Run(scn, refs).run()

    def shrink(self, scn):
        return shrink(scn)

    def explicit(self, scn, result):
        return make_explicit(scn, result)

    def nontrivial(self, scn, res):
        return res["compared"] > 0

    def signature(self, scn, res):
        return (json.dumps(scn["tasks"]), res["sig"], json.dumps(res["fired_list"]))

    def tasks_str(self, scn):
        return [[history.show(o) if not o["op"].startswith("!") else o["op"] + str(o["a"]) for o in t] for t in scn["tasks"]]
