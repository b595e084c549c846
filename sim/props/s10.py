"""S10: lazy enumerations are independent of each other."""
import gc
import itertools
import json
import random

from .. import engine, hist, history, oracle, ops, rngseam, specs
from ..specs import lie

FAMS = ["SU2", "SO3", "O3", "SU2Real", "SL2C", "SO13", "Z2", "SU2_", "SU3", "SU4"]
ALL = FAMS + ["prod", "SUN"]
EXC = ["KeyboardInterrupt", "MemoryError", "InjectedError", "InjectedBase", "RecursionError"]
ITEMS = 40

# what every enumeration must have reached after ITEMS irreps
REACH = {
    "SU2": [("SU2", j) for j in range(12)], "SO3": [("SO3", j) for j in range(12)],
    "O3": [("O3", j, p) for j in range(8) for p in (1, -1)], "SU2Real": [("SU2Real", j / 2) for j in range(12)],
    "SL2C": [("SL2C", l, k) for l in range(4) for k in range(4) if l + k < 4],
    "SO13": [("SO13", l, k) for l in range(5) for k in range(5) if (l + k) % 2 == 0 and l + k <= 4],
    "Z2": [("Z2", 1), ("Z2", -1)], "SU2_": [("SU2_", (j, 0)) for j in range(12)],
    "SU3": [("SU3", (a, b, 0)) for a in range(4) for b in range(a + 1)], "SU4": [("SU4", (a, b, c, 0)) for a in range(3) for b in range(a + 1) for c in range(b + 1)],
}
TRIVIAL = {"SU2": 0, "SO3": 0, "SU2Real": 0, "Z2": 1, "SU2_": (0, 0), "SU3": (0, 0, 0), "SU4": (0, 0, 0, 0)}


def trivial(f):
    if f == "O3":
        return ("O3", 0, 1)
    if f in ("SL2C", "SO13"):
        return (f, 0, 0)
    return (f, TRIVIAL[f])


def sub_spec(ir):
    """Spec of an item; products of SU(N) irreps are irreps of the base class."""
    return oracle.spec_of(ir)


def key(spec):
    """Identity of an irrep, the subclasses of SUN not distinguished."""
    if spec[0] == "prod":       # however the factors are associated
        ks = [key(x) for x in spec[1:]]
        return ("prod",) + tuple(y for k in ks for y in (k[1:] if k[0] == "prod" else (k,)))
    if spec[0] in ("SU2_", "SU3", "SU4", "SUN"):
        return ("SUN", tuple(spec[1]))
    return tuple(spec)


def gen_sun(rng, n, top):
    """An irrep of SU(n) in the class for any n (it has products, and no enumeration)."""
    return ["SUN", sorted([rng.randint(0, top) for _ in range(n - 1)], reverse=True) + [0]]


def gen_prod(rng, depth=1):
    """A product of irreps of any classes, two or three factors."""
    out = ["prod"]
    for _ in range(2 if depth and rng.random() < .75 else 3 if depth and rng.random() < .5 else 2):
        u = rng.random()
        if depth and u < .2:
            out.append(gen_prod(rng, 0))
        else:
            out.append(specs.gen_tab(rng, rng.choice(FAMS), rng.choice([0, 1])))
            if out[-1][0] == "SU4":
                out[-1] = ["SU4", [1, 0, 0, 0]]
    return out


def open_enum(e):
    if e["kind"] == "iter":
        return iter(getattr(lie().irreps, e["fam"]).iterator())
    a, b = specs.build(e["a"]), specs.build(e["b"])
    return iter(a * b)


def model(f):
    """The irreps of a class, written down independently; a class may enumerate them in any order its own < sorts them."""
    if f == "Z2":
        yield from [(f, 1), (f, -1)]
    for n in itertools.count(0) if f != "Z2" else ():
        if f in ("SU2", "SO3"):
            yield (f, n)
        elif f == "SU2Real":
            yield (f, n / 2)
        elif f == "O3":
            yield from [(f, n, (-1) ** n), (f, n, -(-1) ** n)]
        elif f == "SL2C":
            yield from [(f, l, n - l) for l in range(n + 1)]
        elif f == "SO13":
            yield from [(f, l, 2 * n - l) for l in range(2 * n + 1)]
        elif f == "SU2_":
            yield (f, (n, 0))
        elif f == "SU3":
            yield from [(f, (n, b, 0)) for b in range(n + 1)]
        elif f == "SU4":
            yield from [(f, (n, b, c, 0)) for b in range(n + 1) for c in range(b + 1)]


def gen_far(rng, fams):
    """Long enumerations and products of large irreps, consumed in turns."""
    out = []
    for _ in range(rng.randint(1, 3)):
        f = rng.choice([x for x in fams if x != "prod"] or FAMS)
        if f != "SUN" and rng.random() < .5:
            out.append({"kind": "iter", "fam": f, "n": rng.choice([50, 150, 400, 1500])})
            continue
        if f == "SUN":
            n, top = rng.choice([(2, 60), (3, 7), (4, 3), (5, 2), (6, 1), (7, 1)])
            w = lambda: gen_sun(rng, n, top)
        elif f in ("SU2_", "SU3", "SU4"):
            n, top = {"SU2_": (2, 90), "SU3": (3, 7), "SU4": (4, 3)}[f]
            w = lambda: [f, sorted([rng.randint(0, top) for _ in range(n - 1)], reverse=True) + [0]]
        elif f == "SU2Real":
            w = lambda: [f, rng.randint(0, 120) / 2]
        elif f == "O3":
            w = lambda: [f, rng.randint(0, 60), rng.choice([1, -1])]
        elif f in ("SL2C", "SO13"):
            w = lambda: (lambda l, k: [f, l, 2 * k + l % 2 if f == "SO13" else k])(rng.randint(0, 20), rng.randint(0, 10))
        elif f == "Z2":
            w = lambda: [f, rng.choice([1, -1])]
        else:
            w = lambda: [f, rng.randint(0, 90)]
        a, b = w(), w()
        if specs.spec_dim(a) * specs.spec_dim(b) <= (5000 if f in ("SU3", "SU4", "SUN") else 10**9):
            out.append({"kind": "prod", "a": a, "b": b})
    return {"enums": out, "chunk": rng.randint(1, 60)}


def run_far(far, bad):
    its = [open_enum(e) for e in far["enums"]]
    got = [[] for _ in its]
    live = set(range(len(its)))
    while live:
        for i in sorted(live):
            e = far["enums"][i]
            part = list(itertools.islice(its[i], min(far["chunk"], e["n"] - len(got[i])) if e["kind"] == "iter" else far["chunk"]))
            got[i] += part
            if not part or len(got[i]) == e.get("n"):
                live.discard(i)
    for e, rs in zip(far["enums"], got):
        ks = [key(oracle.tup(sub_spec(x))) for x in rs]
        if len(set(ks)) != len(ks):
            bad("duplicate", f"{json.dumps(e)} lists {[k for k in ks if ks.count(k) > 1][0]} twice")
        if e["kind"] == "iter":
            n = e["n"] if e["fam"] != "Z2" else 2
            if len(ks) != n:
                bad("ended-early", f"{e['fam']}.iterator() ended after {len(ks)} irreps")
            for x in itertools.islice(model(e["fam"]), n // 2):
                if key(x) not in ks:
                    bad("missing", f"{e['fam']}.iterator() has not reached {x} after {n} irreps")
                    break
            for a, b in zip(rs, rs[1:]):
                if not (a < b) or b < a or a == b:
                    bad("order", f"{e['fam']}.iterator() is not strictly increasing: {a}, {b}")
                    break
        else:
            p = {key(x) for x in oracle.product(oracle.tup(e["a"]), oracle.tup(e["b"]))}
            if p != set(ks):
                bad("product", f"{json.dumps(e)}: missing {sorted(p - set(ks))[:4]}, not in the decomposition {sorted(set(ks) - p)[:4]}")
    return sum(map(len, got))


class Enum:
    def __init__(self, spec):
        self.spec = spec
        self.turn = 0
        self.it = None
        self.pos = 0
        self.dead = False       # closed, interrupted or abandoned
        self.items = []
        self.end = False


class S10:
    id = "S10"
    level = "exploration"
    set_seam = False
    quick_runs, thorough_runs = 3500, 100000
    explicit = staticmethod(hist.make_explicit)
    rule = ("One case is one simulated run: 1-6 enumerations (iterator() of a class, or the product of two irreps; several of the same) are opened, "
            "advanced, paused, handed to another thread, exhausted, advanced beyond the end, closed or dropped half-way by 1-4 simulated threads, with "
            "other operations, interruptions, garbage collections and cache evictions in between, under a seeded schedule that can preempt "
            "inside the enumerating code. One case in ten goes on to long enumerations (up to 1500 irreps) and products of large irreps, consumed in turns. Every item is compared with the same position of the same enumeration run alone in a fresh process, "
            "and with the independent product rule. Non-trivial: at least two enumerations were advanced, or one by two threads.")

    def gen_enum(self, rng, fams, pool):
        if pool and rng.random() < .5:
            e = dict(rng.choice(pool))
            if e["kind"] == "prod" and rng.random() < .4:
                if rng.random() < .5:
                    e["a"], e["b"] = e["b"], e["a"]
                else:
                    e["b"] = specs.gen_tab_like(rng, e["a"], 1) if e["a"][0] != "SUN" else gen_sun(rng, len(e["a"][1]), 1)
            return e
        f = rng.choice(fams)
        if f not in ("prod", "SUN") and rng.random() < .5:
            return {"kind": "iter", "fam": f}
        if f == "SUN":
            n = rng.choice([1, 2, 3, 4, 5, 5, 6])
            return {"kind": "prod", "a": gen_sun(rng, n, 1 if n > 3 else 2), "b": gen_sun(rng, n, 1 if n > 3 else 2)}
        if f == "prod":
            t = gen_prod(rng)
            return {"kind": "prod", "a": t, "b": specs.gen_tab_like(rng, t, 0)}
        t = specs.gen_tab(rng, f, rng.choice([1, 1, 2]) if f != "SU4" else 0)
        return {"kind": "prod", "a": t, "b": specs.gen_tab_like(rng, t, rng.choice([1, 2]) if f not in ("SU3", "SU4") else 0)}

    def scenario(self, seed, ref, tier):
        rng = random.Random(seed)
        fams = rng.sample(ALL, rng.randint(1, 3))
        enums = []
        for _ in range(rng.randint(1, 6)):
            enums.append(self.gen_enum(rng, fams, enums))
        nt = rng.choice([1, 1, 2, 3, 4])
        tasks = [[] for _ in range(nt)]
        seq = [0] * len(enums)
        ctx = ops.Ctx(rng)
        n = rng.randint(3, 24)
        for _ in range(n):
            i = rng.randrange(len(enums))
            t = rng.randrange(nt)
            u = rng.random()
            if seq[i] == 0:
                ev = {"e": i, "do": "open"}
            elif u < .7:
                ev = {"e": i, "do": "next", "n": rng.choice([1, 1, 1, 2, 3, 6, 12])}
            elif u < .76:
                ev = {"e": i, "do": "rest"}
            elif u < .83:
                ev = {"e": i, "do": rng.choice(["close", "drop", "drop", "throw"])}
            elif u < .9:
                ev = {"e": i, "do": "reopen"}
            elif u < .95:
                ev = {"e": -1, "do": "act", "act": rng.choice(["gc", "evict"])}
            else:
                o = ops.gen_op(rng, ctx, ["mulrule", "classq", "tptab", "iterdrop", "trivial", "cg", "order"])
                if not hist.usable(ref, o, 20000):
                    continue
                ev = {"e": -1, "do": "op", "o": o}
            if ev["e"] >= 0:
                ev["turn"] = seq[i]
                seq[i] += 1
            tasks[t].append(ev)
        faults = []
        for i, L in enumerate(tasks):
            for j in range(len(L)):
                if rng.random() < .3:
                    faults.append({"task": i, "op": j, "step": rng.randint(1, 12), "kind": "park"})
                if L[j]["do"] in ("next", "rest", "open") and rng.random() < .06:
                    faults.append({"task": i, "op": j, "step": rng.randint(1, 12), "kind": "exc", "exc": rng.choice(EXC)})
                if rng.random() < .05:
                    faults.append({"task": i, "op": j, "step": rng.randint(1, 12), "kind": "act", "act": rng.choice(["gc", "evict"])})
        far = gen_far(rng, fams) if rng.random() < .1 else None
        return {"enums": enums, "tasks": tasks, "far": far, "plan": {"grain": rng.choice(["line", "line", "call", "instr"]), "sched": hist.sched(rng, 12 * n),
                                                         "faults": faults, "cap": 400_000}}

    def refs_needed(self, scn):
        out = [ref_op(e) for e in scn["enums"]]
        return out + [ev["o"] for t in scn["tasks"] for ev in t if ev["do"] == "op"]

    def execute(self, scn, refs):
        gc.disable()
        viol = []

        def bad(cls, detail):
            if len(viol) < 10:
                viol.append({"class": cls, "detail": detail})

        want = []
        for e in scn["enums"]:
            out = refs[history.key(ref_op(e))]["out"]
            if out[0] != "ok":
                bad("enumeration-fails", f"{json.dumps(e)}: alone in a fresh process: {out}")
                want.append([])
            else:
                want.append([oracle.tup(x) for x in out[1]])
            if out[0] == "ok":
                self.laws(e, want[-1], bad)
        E = [Enum(e) for e in scn["enums"]]
        stat = {"items": 0, "handover": 0, "last": {}, "compared": 0, "advanced": set()}

        def step(sim, t, ev):
            x = E[ev["e"]]
            if ev["do"] in ("open", "reopen"):
                x.it = open_enum(x.spec)
                x.pos, x.dead, x.end, x.items = 0, False, False, []
                return
            if x.it is None or x.dead:
                return
            if ev["do"] in ("next", "rest"):
                if stat["last"].get(ev["e"], t.idx) != t.idx:
                    stat["handover"] += 1
                stat["last"][ev["e"]] = t.idx
                stat["advanced"].add(ev["e"])
                n = ev.get("n", ITEMS)
                w = want[ev["e"]]
                fin = len(w) < ITEMS        # a finite enumeration
                for _ in range(n):
                    if not fin and x.pos >= ITEMS:
                        break
                    try:
                        it = next(x.it)
                    except StopIteration:
                        if not (fin and x.pos >= len(w)):
                            bad("ended-early", f"{json.dumps(x.spec)} ended after {x.pos} items instead of {len(w)}")
                            x.dead = True
                        x.end = True
                        if ev["do"] == "next":
                            continue        # asking again must say StopIteration again
                        break
                    t.shield += 1
                    try:
                        stat["items"] += 1
                        if x.end:
                            bad("resurrected", f"{json.dumps(x.spec)} yields {it} after it ended")
                        s = oracle.tup(sub_spec(it))
                        if x.pos >= len(w):
                            bad("too-long", f"{json.dumps(x.spec)} yields {s} at position {x.pos}, alone it has {len(w)} items")
                            x.dead = True
                            break
                        elif s != w[x.pos]:
                            bad("wrong-item", f"{json.dumps(x.spec)} yields {s} at position {x.pos}; alone in a fresh process: {w[x.pos]}")
                            x.dead = True
                            break
                        stat["compared"] += 1
                        x.pos += 1
                    finally:
                        t.shield -= 1
            elif ev["do"] == "close":
                if hasattr(x.it, "close"):
                    x.it.close()
                x.dead = True
            elif ev["do"] == "throw":
                if hasattr(x.it, "throw"):
                    e = engine.make_exc("InjectedError")
                    try:
                        x.it.throw(e)
                        bad("throw-swallowed", f"{json.dumps(x.spec)} swallows an exception thrown into it")
                    except engine.InjectedError as g:
                        if g is not e:
                            bad("throw-replaced", f"{json.dumps(x.spec)} replaces an exception thrown into it")
                x.dead = True
            elif ev["do"] == "drop":
                x.it = None
                gc.collect()

        def body(i, L):
            def run(sim, t):
                for j, ev in enumerate(L):
                    nf = len(sim.fired_list)
                    mine = lambda: [f for f in sim.fired_list[nf:] if f[0] == i and f[2] in EXC]
                    x = E[ev["e"]] if ev["e"] >= 0 else None
                    if x is not None and x.turn != ev["turn"]:
                        sim.block(lambda: x.turn == ev["turn"], "enumeration handed over")
                    try:
                        sim.begin_op(t, j)
                        if ev["do"] == "act":
                            t.shield += 1
                            try:
                                act(ev["act"])
                            finally:
                                t.shield -= 1
                        elif ev["do"] == "op":
                            rngseam.set_stream(i, rngseam.Stream(ev["o"].get("s", 0)))
                            out = history.plain_op(ev["o"], ())
                            if mine():
                                continue
                            d = history.diff(out, refs[history.key(ev["o"])]["out"])
                            if d:
                                bad("wrong-answer", f"{history.show(ev['o'])}: {d}")
                        else:
                            step(sim, t, ev)
                    except engine.SimAbort:
                        raise
                    except BaseException as e:
                        m = mine()
                        if not m:
                            bad("raises", f"{ev} of {json.dumps(x.spec if x else None)}: {type(e).__name__}: {e}")
                        elif type(e).__name__ not in {f[2] for f in m}:
                            bad("interrupt-lost", f"{m[0][2]} inside {json.dumps(x.spec)} reached the caller as {type(e).__name__}: {e}")
                        if x is not None:
                            x.dead = True       # a generator that raised is over
                            if ev["do"] in ("open", "reopen"):
                                x.it = None
                    finally:
                        t.faults = []
                        sim._arm(t)
                        if x is not None:
                            x.turn += 1
            return run

        def act(name):
            if name == "gc":
                gc.collect()
            else:
                for _, c in history.repo_caches():
                    c.cache_clear()

        with history.quiet():
            sim = engine.Sim(scn["plan"], actions={"gc": lambda s, t, f: gc.collect(), "evict": lambda s, t, f: act("evict")})
            for i, L in enumerate(scn["tasks"]):
                sim.spawn(body(i, L))
            sim.run()
            for v in sim.violations:
                bad(v["class"], v["detail"])
            # afterwards a fresh enumeration starts from the beginning
            if not viol:
                for e, w in zip(scn["enums"], want):
                    try:
                        got = [oracle.tup(sub_spec(x)) for x in itertools.islice(open_enum(e), ITEMS)]
                    except BaseException as ex:
                        bad("raises", f"{json.dumps(e)} afterwards: {type(ex).__name__}: {ex}")
                        continue
                    if got != w:
                        k = next((i for i, (a, b) in enumerate(zip(got, w)) if a != b), min(len(got), len(w)))
                        bad("wrong-item", f"{json.dumps(e)} enumerated afterwards differs at position {k} from the same in a fresh process")
            nfar = 0
            if not viol and scn.get("far"):
                try:
                    nfar = run_far(scn["far"], bad)
                except BaseException as ex:
                    bad("raises", f"{json.dumps(scn['far'])}: {type(ex).__name__}: {ex}")
        return {"violations": viol, "hash": sim.hash, "steps": sim.step, "segments": sim.segments, "switches": sim.switches, "sig": sim.switch_sig,
                "fired": sim.fired, "fired_list": sim.fired_list, "compared": stat["compared"], "handover": stat["handover"], "advanced": len(stat["advanced"]),
                "probes": {"far_items": nfar, "items": stat["items"], "handovers": stat["handover"]}}

    def laws(self, e, w, bad):
        ks = [key(x) for x in w]
        if len(set(ks)) != len(ks):
            bad("duplicate", f"{json.dumps(e)} lists {[k for k in ks if ks.count(k) > 1][0]} twice")
        if e["kind"] == "iter":
            f = e["fam"]
            if not w or key(w[0]) != key(trivial(f)):
                bad("trivial", f"{f}.iterator() starts with {w[:1]}, not with the trivial irrep")
            for x in REACH[f]:
                if key(x) not in ks:
                    bad("missing", f"{f}.iterator() has not reached {x} after {ITEMS} irreps")
                    break
            rs = [specs.build(x) for x in w]
            for a, b in zip(rs, rs[1:]):
                if not (a < b) or (b < a) or a == b:
                    bad("order", f"{f}.iterator() is not strictly increasing: {a}, {b}")
                    break
        else:
            p = oracle.product(oracle.tup(e["a"]), oracle.tup(e["b"]))
            if len(w) < ITEMS and {key(x) for x in p} != set(ks):
                bad("product", f"{json.dumps(e)} lists {sorted(ks)}, expected {sorted(key(x) for x in p)}")

    def nontrivial(self, scn, res):
        return res["advanced"] > 1 or res["handover"] > 0

    def signature(self, scn, res):
        return (json.dumps([scn["enums"], scn["tasks"], scn.get("far")]), res["sig"], json.dumps(res["fired_list"]))

    def tasks_str(self, scn):
        return [[f"{ev['do']} {scn['enums'][ev['e']] if ev['e'] >= 0 else ev.get('act') or ev['o']}" for ev in t] for t in scn["tasks"]]

    def shrink(self, scn):
        def cp():
            return json.loads(json.dumps(scn))
        for k in range(len(scn["enums"])):      # drop every event of an enumeration
            if any(ev["e"] == k for t in scn["tasks"] for ev in t):
                c = cp()
                for i, t in enumerate(scn["tasks"]):
                    keep = [j for j, ev in enumerate(t) if ev["e"] != k]
                    c["plan"]["faults"] = [f if f["task"] != i else dict(f, op=keep.index(f["op"])) for f in c["plan"]["faults"] if f["task"] != i or f["op"] in keep]
                    c["tasks"][i] = [t[j] for j in keep]
                if any(c["tasks"]):
                    yield c
        for i, t in enumerate(scn["tasks"]):
            for j, ev in enumerate(t):
                if ev["do"] == "open":
                    continue
                c = cp()
                del c["tasks"][i][j]
                if ev["e"] >= 0:
                    for u in c["tasks"]:
                        for x in u:
                            if x["e"] == ev["e"] and x["turn"] > ev["turn"]:
                                x["turn"] -= 1
                c["plan"]["faults"] = [f if f["task"] != i or f["op"] < j else dict(f, op=f["op"] - 1) for f in c["plan"]["faults"]
                                       if not (f["task"] == i and f["op"] == j)]
                if any(c["tasks"]):
                    yield c
        for i in range(len(scn["plan"]["faults"])):
            c = cp()
            del c["plan"]["faults"][i]
            yield c
        if scn.get("far"):
            c = cp()
            c["far"] = None
            yield c
            for i in range(len(scn["far"]["enums"])):
                if len(scn["far"]["enums"]) > 1:
                    c = cp()
                    del c["far"]["enums"][i]
                    yield c
            if any(scn["tasks"]):
                c = cp()
                c["tasks"], c["plan"]["faults"] = [[]], []
                yield c
        s = scn["plan"]["sched"]
        if s.get("policy") not in ("serial", "explicit"):
            c = cp()
            c["plan"]["sched"] = {"policy": "serial"}
            yield c
        if s.get("policy") == "explicit":
            G = s["segments"]
            w = len(G) // 2
            while w >= 1:
                for a in range(0, len(G), w):
                    c = cp()
                    c["plan"]["sched"]["segments"] = G[:a] + G[a + w:]
                    yield c
                w //= 2


def ref_op(e):
    return {"op": "enum", "a": [e], "s": 0}


@ops.op("enum", None, 0)
def _enum(e):
    return [list(sub_spec(x)) for x in itertools.islice(open_enum(e), ITEMS)]


PROP = S10()
