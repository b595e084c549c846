"""S14: saved representations survive a restart."""
import copy
import gc
import json
import pickle
import random

import numpy as np

from .. import engine, fresh, hist, history, ops, oracle, rngseam, specs
from ..specs import lie

HOWS = ["p0", "p1", "p2", "p3", "p4", "p5", "p5", "oob", "copy", "deep", "deep"]
EXC = ["KeyboardInterrupt", "MemoryError", "InjectedError", "InjectedBase"]
UNARY = ["X", "H", "A", "dims", "exp", "conj", "trivial", "irred", "isreal", "isunitary", "checkalg"]


def build_extra(e):
    """Objects that are results of the library."""
    L = lie()
    k = e[0]
    if k == "tp":
        return L.tensor_product(specs.build(e[1]), specs.build(e[2]))
    if k == "tpow":
        return L.tensor_power(specs.build(e[1]), e[2])
    if k == "item":
        it = list(specs.build(e[1]) * specs.build(e[2]))
        return it[e[3] % len(it)]
    if k == "items":
        return list(specs.build(e[1]) * specs.build(e[2]))
    if k == "triv":
        return specs.build(e[1]).create_trivial()
    if k == "rtp":
        return L.reduced_tensor_product_basis("ij=ji", i=specs.build(e[1]))
    if k == "sym":
        return L.reduced_symmetric_tensor_product_basis(specs.build(e[1]), e[2])
    if k == "reduce":
        rngseam.set_stream(None, rngseam.Stream(5))
        return L.reduce(specs.build(e[1]))
    if k == "real":
        return L.make_explicitly_real(specs.build(e[1]))
    if k == "fromstr":
        return L.ReducedRep.from_string(e[1], getattr(L.irreps, e[2]))
    if k == "r":
        return specs.build(e[1])
    raise ValueError(e)


def save(x, how):
    if how == "copy":
        return ["live", copy.copy(x)]
    if how == "deep":
        return ["live", copy.deepcopy(x)]
    if how == "oob":
        bufs = []
        data = pickle.dumps(x, protocol=5, buffer_callback=bufs.append)
        return ["oob", data, [bytes(b.raw()) for b in bufs]]
    return ["bytes", pickle.dumps(x, protocol=int(how[1]))]


def load(s):
    if s[0] == "live":
        return s[1]
    if s[0] == "oob":
        return pickle.loads(s[1], buffers=[bytearray(b) for b in s[2]])
    return pickle.loads(s[1])


def irreps_in(x, out=None):
    """The tabulated irreps an object consists of."""
    if out is None:
        out = []
    L = lie()
    if isinstance(x, L.TabulatedIrrep):
        out.append(x)
    elif isinstance(x, L.MulIrrep):
        irreps_in(x.rep, out)
    elif isinstance(x, L.ReducedRep):
        for m in x.irreps:
            irreps_in(m, out)
    elif isinstance(x, (list, tuple)):
        for y in x:
            irreps_in(y, out)
    return out


def value(x):
    """An object as plain data, its type included."""
    if isinstance(x, (list, tuple)) and not hasattr(x, "_fields"):
        return [value(y) for y in x]
    n = ops.norm(x)
    d = {"type": type(x).__module__ + "." + type(x).__qualname__, "norm": n}
    L = lie()
    if isinstance(x, (L.TabulatedIrrep, L.MulIrrep)):
        d["repr"] = repr(x)
    if isinstance(x, L.MulIrrep):
        d["rep"] = value(x.rep)
        d["mul"] = int(x.mul)
    if isinstance(x, L.ReducedRep):
        d["irreps"] = [value(m) for m in x.irreps]
    return d


def order(a, b):
    """How two irreps compare, as the caller sees it."""
    try:
        lt, gt = bool(a < b), bool(b < a)
    except Exception as e:
        return type(e).__name__
    return (lt, gt, bool(a == b), bool(a != b))


def same_irrep(r, o, what, bad):
    """r (restored) and o (original, or built here) are the same irrep."""
    if type(r) is not type(o):
        bad("type", f"{what}: {type(r).__name__} instead of {type(o).__name__}")
        return
    if not (r == o and o == r) or r != o:
        bad("not-equal", f"{what}: {r} is not equal to {o}")
    elif hash(r) != hash(o):
        bad("hash", f"{what}: {r} and {o} are equal but their hashes differ")
    elif {o: 1}.get(r) != 1 or {r: 1}.get(o) != 1 or r not in {o} or len({r, o}) != 1:
        bad("hash", f"{what}: {r} is not found under {o}")
    elif repr(r) != repr(o):
        bad("not-equal", f"{what}: prints {r} instead of {o}")
    elif order(r, o)[:2] != (False, False) and not isinstance(order(r, o), str):
        bad("order", f"{what}: {r} and {o} are equal but ordered")


def decide(payload, saves, bad, where):
    """Restore everything that was saved and question it. saves: {id: saved}; runs here or in a fresh process."""
    objspecs = payload["objs"]
    for o in payload.get("warm", []):
        history.plain_op(o, [history.buildable(a) for a in objspecs])
    restored = {}
    for i, s in saves.items():
        meta = payload["saves"][i]
        what = f"{where}: {describe(payload, meta)}"
        try:
            r = load(s)
        except BaseException as e:
            bad("restore-fails", f"{what}: {type(e).__name__}: {e}")
            continue
        if meta["as"] == "dict":
            keys = list(r)
            for k in keys:
                if k not in r or r.get(k) is None:
                    bad("hash", f"{what}: a key of the restored dictionary is not found in it")
                    break
            r = [k for k, v in sorted(r.items(), key=lambda kv: kv[1])] if len(r) else []
        elif meta["as"] == "set":
            if any(k not in r for k in list(r)):
                bad("hash", f"{what}: an element of the restored set is not found in it")
            fr = [payload_obj(objspecs, k) for k in meta["o"]]
            if set(fr) != set(r) or any(f not in r for f in fr):
                bad("hash", f"{what}: the restored set differs from the same set built here")
            continue
        items = r if meta["as"] in ("list", "dict") else [r]
        if len(items) != len(meta["o"]):
            bad("not-equal", f"{what}: {len(items)} objects restored")
            continue
        for k, x in zip(meta["o"], items):
            restored.setdefault(k, []).append((i, x, what))
    for k, L in restored.items():
        try:
            f = payload_obj(objspecs, k)
        except Exception as e:
            bad("raises", f"{where}: {json.dumps(objspecs[k])} cannot be built: {type(e).__name__}: {e}")
            continue
        for i, x, what in L:
            try:
                d = ops.same(value(x), payload["value"][k])
            except Exception as e:
                d = f"{type(e).__name__}: {e}"
            if d:
                bad("not-equal", f"{what}: restored object {k} differs from the original: {d}")
                continue
            a, b = irreps_in(x), irreps_in(f)
            for p, q in zip(a, b):
                same_irrep(p, q, what, bad)
            for n, (p, q) in enumerate(zip(a, b)):
                for p2, q2 in list(zip(a, b))[n + 1:]:
                    want = order(q, q2)
                    if order(p, p2) != want or order(p, q2) != want or order(q, p2) != want:
                        bad("order", f"{what}: {p} and {p2} are ordered differently from the same irreps built here")
    # operations on mixtures of restored and newly built objects
    r = random.Random(payload["mix"])
    asked = 0
    for o, want in payload["post"]:
        objs = []
        used = []
        for k, a in enumerate(objspecs):
            if k in restored and r.random() < .8:
                i, x, what = r.choice(restored[k])
                objs.append(x)
                used.append(k)
            else:
                objs.append(history.buildable(a) if "x" not in a else payload_obj(objspecs, k))
        out = history.plain_op(o, objs)
        asked += 1
        d = history.diff(out, want)
        if d:
            bad("wrong-answer", f"{where}: {history.show(o)} with objects {used} restored ({json.dumps([objspecs[k] for k in used])}): {d}")
    return asked


def payload_obj(objspecs, k):
    a = objspecs[k]
    return build_extra(a["x"]) if "x" in a else ops.decode(a, ())


def describe(payload, meta):
    return f"{json.dumps([payload['objs'][k] for k in meta['o']])} saved by {meta['how']} as {meta['as']}"


class S14:
    id = "S14"
    level = "exploration"
    set_seam = False
    quick_runs, thorough_runs = 1500, 40000
    explicit = staticmethod(hist.make_explicit)
    rule = ("One case is one simulated run: 1-3 threads use representations of all kinds (and results of the library) while 1-6 saves (every pickle "
            "protocol, out-of-band buffers, copy, deepcopy; alone, in lists, as dictionary keys and set elements) are taken before, between and in the "
            "middle of operations, some of which are interrupted. Everything saved is restored in the same process and in a fresh interpreter with "
            "another hash seed, compared with the original, compared and mixed with newly built objects, questioned with further operations and overwritten. "
            "Non-trivial: at least one save was restored in a fresh interpreter.")

    def prepare(self):
        fresh.prepare(self)

    def fresh(self, payload):
        gc.disable()
        viol = []
        with history.quiet():
            n = decide(payload, payload["saved"], lambda c, d: viol.append({"class": c, "detail": d}), f"hash seed {payload['hs']}")
        return viol[:10], n

    def gen_extra(self, rng, ctx):
        t = ctx.small() if rng.random() < .3 else specs.gen_tab(rng, rng.choice(["SU2", "SO3", "O3", "SL2C", "Z2", "SU2_", "SU3", "prod"]), 0)
        u = specs.gen_tab_like(rng, t, 0)
        k = rng.choice(["tp", "tp", "tpow", "item", "item", "items", "triv", "rtp", "sym", "reduce", "real", "fromstr"])
        big = specs.family(t)[0] in ("SU3", "SU4", "SUN", "SU2_", "prod", "SU2Real")
        if k in ("tp", "item", "items"):
            if oracle.has_quaternionic([t, u]):
                return ["item", t, u, 0]
            m = lambda s: s if k != "tp" or rng.random() < .5 else rng.choice([["mul", 2, s], ["gen", s], ["red", [s], ["r", rng.randint(0, 5)]]])
            return [k, m(t), m(u)] + ([rng.randint(0, 5)] if k == "item" else [])
        if k in ("rtp", "sym", "reduce", "tpow", "triv", "real") and big:
            return ["item", t, u, 0]
        if k == "tpow":
            return ["tpow", t, rng.randint(1, 2)]
        if k == "triv":
            return ["triv", t]
        if k == "rtp":
            return ["rtp", t]
        if k == "sym":
            return ["sym", t, 2]
        if k == "real":
            return ["real", ["SO3", rng.randint(0, 2)]] if rng.random() < .5 else ["real", ["SO13", 1, 1]]
        if k == "reduce":
            return ["reduce", ["gen", ["red", [t, u], None]]]
        return ["fromstr", rng.choice(["0+1", "2x1+0", "1"]), "SO3"] if rng.random() < .7 else ["fromstr", "1e+2x0o", "O3"]

    def scenario(self, seed, ref, tier):
        rng = random.Random(seed)
        ctx = ops.Ctx(rng, heavy=.02)
        nt = rng.choice([1, 1, 1, 2, 3])
        names = rng.choice([None, UNARY + ["tp", "dsum", "tptab", "mulrule", "order", "cg", "infer", "cb"], ["cg", "tptab", "mulrule", "order", "X", "A", "trivial"],
                            ["rtp", "sym", "rtpl", "tp", "X"], UNARY])
        p = hist.pool(rng, ref, rng.randint(2, 5), ctx, names, sib=.5, cap=20_000)
        p = [hist.strip_callbacks(o) for o in p]
        p = [o for o in p if hist.usable(ref, o, 20_000) and not ops.OPS[o["op"]].random and list(ops._reps_in(o["a"]))
             and not any(specs.family(s)[0] == "custom" for s in ops._reps_in(o["a"]))]
        if not p:
            return None
        tasks = [[rng.choice(p) for _ in range(rng.randint(1, 3))] for _ in range(nt)]
        post = [rng.choice(p) for _ in range(rng.randint(1, 4))]
        warm = [rng.choice(p) for _ in range(rng.choice([0, 0, 1]))]
        zwarm = [rng.choice(p) for _ in range(rng.choice([0, 0, 1]))]
        tt, objs = ops.share(rng, tasks + [post, warm, zwarm], p=1.0)
        tasks2, post, warm, zwarm = tt[:nt], tt[nt], tt[nt + 1], tt[nt + 2]
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            objs.append({"x": self.gen_extra(rng, ctx)})
        if rng.random() < .5:
            f = rng.choice(["SU2", "SO3", "O3", "SL2C", "SO13", "Z2", "SU2_", "SU3", "SU4", "SU2Real", "prod"])
            for _ in range(rng.randint(1, 4)):
                objs.append({"x": ["r", specs.gen_tab(rng, f, rng.choice([0, 1]))]})
        can = [k for k, a in enumerate(objs) if "r" in a or "x" in a]
        tab = [k for k in can if (objs[k]["x"][0] in ("item", "triv") and not objs[k]["x"][0] == "triv" or objs[k]["x"][0] == "r" if "x" in objs[k] else objs[k]["r"][0] in specs.TAB)]
        saves = []
        for _ in range(rng.randint(1, 6)):
            how = rng.choice(HOWS)
            u = rng.random()
            if u < .6 or not tab:
                m = {"as": "one", "o": [rng.choice(can)], "how": how}
            elif u < .8:
                m = {"as": "list", "o": [rng.choice(can) for _ in range(rng.randint(2, 4))], "how": how}
            else:
                m = {"as": rng.choice(["dict", "set"]), "o": sorted(set(rng.choice(tab) for _ in range(rng.randint(1, 4)))), "how": how}
            m["hash"] = int(rng.random() < .6)
            saves.append(m)
        faults = []
        when = []
        for i in range(len(saves)):
            t = rng.randrange(nt)
            j = rng.randrange(len(tasks[t]))
            if rng.random() < .65:
                faults.append({"task": t, "op": j, "step": hist.place(rng, ref(tasks[t][j])), "kind": "act", "act": "save", "k": i})
                when.append("during")
            else:
                when.append(rng.choice(["start", "end"]))
        for i in range(nt):
            for j in range(len(tasks[i])):
                r = ref(tasks[i][j])
                if nt > 1 and rng.random() < .4:
                    faults.append({"task": i, "op": j, "step": hist.place(rng, r), "kind": "park"})
                if rng.random() < .12:
                    faults.append({"task": i, "op": j, "step": hist.place(rng, r), "kind": "exc", "exc": rng.choice(EXC)})
                if rng.random() < .06:
                    faults.append({"task": i, "op": j, "step": hist.place(rng, r), "kind": "act", "act": rng.choice(["gc", "evict"]), "all": True})
        total = sum(ref(o)["steps"] for t in tasks for o in t)
        return {"objs": objs, "saves": saves, "when": when, "warm": warm, "zwarm": zwarm, "tasks": tasks2, "post": post, "mix": rng.randrange(1 << 30),
                "hs": rng.randrange(3), "plan": {"grain": "line", "sched": hist.sched(rng, total) if nt > 1 else {"policy": "serial"}, "faults": faults,
                                                "cap": 40 * total + 200_000}}

    def refs_needed(self, scn):
        out = []
        for o in scn["post"] + scn["warm"] + scn["zwarm"] + [o for t in scn["tasks"] for o in t]:
            out.append({**o, "a": ops.subst(o["a"], scn["objs"])})
        return out

    def execute(self, scn, refs):
        gc.disable()
        viol = []

        def bad(cls, detail):
            if len(viol) < 10:
                viol.append({"class": cls, "detail": detail})
        st = {"saved": 0, "during": 0, "questions": 0, "fresh_questions": 0, "inter": 0}
        objspecs = scn["objs"]
        saved = {}

        def want(o):
            return refs[history.key({**o, "a": ops.subst(o["a"], objspecs)})]["out"]

        with history.quiet():
            objs = []
            for k in range(len(objspecs)):
                try:
                    objs.append(payload_obj(objspecs, k))
                except Exception as e:
                    if "x" in objspecs[k]:
                        bad("raises", f"{json.dumps(objspecs[k])}: {type(e).__name__}: {e}")
                    objs.append(ops.Unbuilt(objspecs[k]))
            if viol:
                return self.result(viol, None, st)
            values = {k: value(objs[k]) for m in scn["saves"] for k in m["o"] if not isinstance(objs[k], ops.Unbuilt)}
            payload = {"objs": objspecs, "saves": scn["saves"], "value": values, "post": [(o, want(o)) for o in scn["post"]], "mix": scn["mix"], "hs": scn["hs"],
                       "warm": scn["zwarm"]}

            def do_save(i, where):
                m = scn["saves"][i]
                if any(isinstance(objs[k], ops.Unbuilt) for k in m["o"]):
                    return
                xs = [objs[k] for k in m["o"]]
                if m["hash"]:
                    for x in irreps_in(xs):
                        hash(x)
                x = xs[0] if m["as"] == "one" else xs if m["as"] == "list" else set(xs) if m["as"] == "set" else {y: n for n, y in enumerate(xs)}
                if m["as"] == "dict" and len(x) != len(xs):
                    return
                f0 = history.fingerprint(xs)
                try:
                    saved[i] = save(x, m["how"])
                    st["saved"] += 1
                    st["during"] += where == "during"
                except BaseException as e:
                    bad("save-fails", f"{describe(payload, m)} ({where}): {type(e).__name__}: {e}")
                    return
                if not history.fp_same(f0, history.fingerprint(xs)):
                    bad("original-modified", f"{describe(payload, m)}: saving modified the original")

            for o in scn["warm"]:
                history.plain_op(o, objs)
            for i, w in enumerate(scn["when"]):
                if w == "start":
                    do_save(i, w)

            def body(i, L):
                def run(sim, t):
                    for j, o in enumerate(L):
                        n = len(sim.fired_list)
                        rngseam.set_stream(i, rngseam.Stream(o.get("s", 0)))
                        sim.begin_op(t, j)
                        try:
                            out = history.plain_op(o, objs)
                        finally:
                            t.faults = []
                            sim._arm(t)
                        t.shield += 1
                        if not any(f[0] == i and f[2] in EXC for f in sim.fired_list[n:]):
                            d = history.diff(out, want(o))
                            if d:
                                bad("wrong-answer", f"{history.show(o)} while objects are being saved: {d}")
                        else:
                            st["inter"] += 1
                        t.shield -= 1
                return run

            def evict(sim, t, f):
                for _, c in history.repo_caches():
                    c.cache_clear()

            sim = engine.Sim(scn["plan"], actions={"save": lambda s, t, f: do_save(f["k"], "during"), "gc": lambda s, t, f: gc.collect(), "evict": evict})
            for i, L in enumerate(scn["tasks"]):
                sim.spawn(body(i, L))
            sim.run()
            for v in sim.violations:
                bad(v["class"], v["detail"])
            for i, w in enumerate(scn["when"]):
                if w == "end":
                    do_save(i, w)
            if viol:
                return self.result(viol, sim, st)
            # the crash: a fresh interpreter with another hash seed
            cross = {i: s for i, s in saved.items() if s[0] != "live"}
            if cross:
                # the copies too are saved once more, so that copies of copies are restored as well
                v, n = fresh.call("prop", {**payload, "saved": cross}, scn["hs"])
                st["fresh_questions"] += n
                for x in v:
                    bad(x["class"], x["detail"])
            live = {i: s for i, s in saved.items() if s[0] == "live"}
            if live and not viol:
                again = {}
                for i, s in live.items():
                    try:
                        again[i] = ["bytes", pickle.dumps(s[1], protocol=4)]
                    except BaseException as e:
                        bad("save-fails", f"a copy of {describe(payload, scn['saves'][i])}: {type(e).__name__}: {e}")
                if again:
                    v, n = fresh.call("prop", {**payload, "saved": again}, scn["hs"] + 1)
                    st["fresh_questions"] += n
                    for x in v:
                        bad(x["class"], "copied, then saved: " + x["detail"])
            # restored here, next to the original
            if saved and not viol:
                st["questions"] += decide({**payload, "warm": []}, saved, bad, "same process")
            if not viol:
                self.independent(scn, payload, saved, objs, values, bad)
        return self.result(viol, sim, st)

    def independent(self, scn, payload, saved, objs, values, bad):
        """Overwriting a restored object leaves the original and other restored ones as they are, and conversely."""
        def intact(k, x, what):
            try:
                d = ops.same(value(x), values[k])
            except Exception as e:
                d = f"{type(e).__name__}: {e}"
            if d:
                bad("not-independent", f"{what}: {d}")
                return False
            return True
        pairs = []
        for i, s in saved.items():
            m = scn["saves"][i]
            if m["as"] not in ("one", "list") or m["how"] == "copy":
                continue
            r = [load(s) for _ in range(2)] if s[0] != "live" else [copy.deepcopy(s[1]), s[1]]
            pairs.append((m, r))
        for m, (r1, r2) in pairs:
            xs1 = [r1] if m["as"] == "one" else r1
            xs2 = [r2] if m["as"] == "one" else r2
            for a in history.arrays_all(xs1):
                history.scribble(history.base_of(a), 1)
            for k, x in zip(m["o"], xs2):
                intact(k, x, f"{describe(payload, m)}: overwriting one restored object changes another")
            for k in m["o"]:
                if not intact(k, objs[k], f"{describe(payload, m)}: overwriting the restored object changes the original"):
                    return
        for m, (r1, r2) in pairs:
            for k in m["o"]:
                for a in history.arrays_all(objs[k]):
                    history.scribble(history.base_of(a), 1)
        for m, (r1, r2) in pairs:
            for k, x in zip(m["o"], [r2] if m["as"] == "one" else r2):
                if not intact(k, x, f"{describe(payload, m)}: overwriting the original changes the restored object"):
                    return

    def result(self, viol, sim, st):
        if sim is None:
            return {"violations": viol, "hash": 0, "steps": 0, "segments": [], "switches": 0, "sig": 0, "fired": {}, "fired_list": [], "compared": 0, "probes": st}
        return {"violations": viol, "hash": sim.hash, "steps": sim.step, "segments": sim.segments, "switches": sim.switches, "sig": sim.switch_sig,
                "fired": {**sim.fired, "crash-restart": int(st["fresh_questions"] > 0), "save-during-call": st["during"]}, "fired_list": sim.fired_list,
                "compared": st["questions"] + st["fresh_questions"], "interrupted": st["inter"], "probes": st}

    def nontrivial(self, scn, res):
        return res["probes"]["fresh_questions"] > 0

    def signature(self, scn, res):
        return (json.dumps(scn["tasks"]), json.dumps(scn["objs"]), json.dumps(scn["saves"]), res["sig"], json.dumps(res["fired_list"]))

    def describe(self, scn):
        return scn

    def shrink(self, scn):
        def cp():
            return json.loads(json.dumps(scn))
        if len(scn["tasks"]) > 1:
            for i in range(len(scn["tasks"])):
                c = cp()
                del c["tasks"][i]
                c["when"] = ["start" if any(f.get("k") == n and f["kind"] == "act" and f["act"] == "save" and f["task"] == i for f in c["plan"]["faults"]) else w
                             for n, w in enumerate(c["when"])]
                c["plan"]["faults"] = [dict(f, task=f["task"] - (f["task"] > i)) for f in c["plan"]["faults"] if f["task"] != i]
                hist.fix_sched(c, i)
                yield c
        for n, w in enumerate(scn["when"]):
            if w == "during":
                for w2 in ("start", "end"):
                    c = cp()
                    c["when"][n] = w2
                    c["plan"]["faults"] = [f for f in c["plan"]["faults"] if not (f["kind"] == "act" and f["act"] == "save" and f["k"] == n)]
                    yield c
        if len(scn["saves"]) > 1:
            for n in range(len(scn["saves"])):
                c = cp()
                del c["saves"][n], c["when"][n]
                c["plan"]["faults"] = [dict(f, k=f["k"] - (f["k"] > n)) if f.get("act") == "save" else f for f in c["plan"]["faults"]
                                       if not (f.get("act") == "save" and f["k"] == n)]
                yield c
        for n, m in enumerate(scn["saves"]):
            if m["as"] == "list":
                for k in m["o"]:
                    c = cp()
                    c["saves"][n].update({"as": "one", "o": [k]})
                    yield c
            elif len(m["o"]) > 1:
                for k in range(len(m["o"])):
                    c = cp()
                    del c["saves"][n]["o"][k]
                    yield c
        for i, L in enumerate(scn["tasks"]):
            for j in range(len(L)):
                if len(L) > 1 and not any(f["task"] == i and f["op"] == j and f.get("act") == "save" for f in scn["plan"]["faults"]):
                    c = cp()
                    del c["tasks"][i][j]
                    c["plan"]["faults"] = [dict(f, op=f["op"] - (f["task"] == i and f["op"] > j)) for f in c["plan"]["faults"] if (f["task"], f["op"]) != (i, j)]
                    yield c
        for i, f in enumerate(scn["plan"]["faults"]):
            if f.get("act") != "save":
                c = cp()
                del c["plan"]["faults"][i]
                yield c
        for k in ("post", "warm", "zwarm"):
            for i in range(len(scn[k])):
                c = cp()
                del c[k][i]
                yield c
        s = scn["plan"]["sched"]
        if s.get("policy") not in ("serial", "explicit"):
            c = cp()
            c["plan"]["sched"] = {"policy": "serial"}
            yield c


PROP = S14()
