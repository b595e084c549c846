"""Base of the properties decided by executing cases under several simulated backends (S06-S08, S12, S13).

A scenario is a list of cases and a list of configurations. The first configuration is fault free; each
other one fixes a perturbed linear-algebra backend, a stream of random draws, an order of set iteration
and a history of earlier calls. Every configuration runs in its own forked process. The laws of the
property are checked on every configuration; results that must be a function of the arguments alone are
compared with the fault-free configuration.
"""
import json
import random
import zlib

import numpy as np

from . import boot, ops, perturb, pool, rngseam


class Skip(Exception):
    pass


class Counter:
    """The unperturbed backend: counts calls."""

    def __init__(self):
        self.calls = 0
        self.count = {}

    def call(self, name, orig, args, kwargs):
        self.calls += 1
        return orig(*args, **kwargs)


def digest(x):
    if isinstance(x, np.ndarray):
        return zlib.crc32(repr((x.shape, x.dtype.kind)).encode())
    if isinstance(x, dict):
        return zlib.crc32(repr(sorted((k, digest(v)) for k, v in x.items())).encode())
    if isinstance(x, (list, tuple)):
        return zlib.crc32(repr([digest(v) for v in x]).encode())
    return zlib.crc32(repr(x).encode())


def bits(x):
    if isinstance(x, np.ndarray):
        return zlib.crc32(np.ascontiguousarray(x).tobytes())
    if isinstance(x, dict):
        return zlib.crc32(repr(sorted((k, bits(v)) for k, v in x.items())).encode())
    if isinstance(x, (list, tuple)):
        return zlib.crc32(repr([bits(v) for v in x]).encode())
    return zlib.crc32(repr(x).encode())


def run_config(prop, scn, conf):
    conf = conf or {}
    if "perturb" in conf:
        b = perturb.Backend(conf["perturb"], conf.get("amount", 1.0), tuple(conf.get("kinds", ("round", "phase", "order"))))
    else:
        b = Counter()
    boot.SEAM.rng = lambda full, orig, args, kwargs: rngseam.draw(None, None, full, args, kwargs)
    rngseam.set_stream(None, rngseam.Stream(conf.get("draw", 11), conf.get("mode", "plain")))
    if prop.set_seam:
        boot.ORDER.seed = conf.get("order")
    out = []
    with perturb.install(b):
        for o in conf.get("warm", []):
            try:
                ops.run_op(o)
            except Exception:
                pass
        for case in scn["cases"]:
            v = []
            r = {"value": None, "exc": None, "skip": False}
            try:
                r["value"] = prop.run(case, conf, v)
            except Skip:
                r["skip"] = True
            except Exception as e:      # also: a result so wrong that the laws can not be evaluated
                import traceback
                r["exc"] = f"{type(e).__name__}: {str(e)[:200]}"
                fr = [f for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith(boot.PREFIX)]
                r["inlib"] = bool(fr)
                r["tb"] = "".join(traceback.format_exception(e))[-1500:]
            r["laws"] = v
            out.append(r)
    st = rngseam.CUR.get(None)
    return {"cases": out, "calls": b.calls, "count": b.count, "draws": st.draws if st else 0}


class Cases:
    level = "exploration"
    set_seam = False
    explicit = None
    compare_tol = 1e-7
    stubs = "linear-algebra backend (real LAPACK results moved within their admissible freedom), random source (seeded); nothing else is stubbed"
    nconf = (1, 1, 2, 3)

    def refs_needed(self, scn):
        return []

    def gen_conf(self, rng):
        kinds = rng.choice([["round", "phase", "order"], ["round", "phase", "order"], ["phase", "order"], ["round"]])
        return {"perturb": rng.randrange(1 << 30), "amount": rng.choice([1.0, 1.0, 4.0, 0.25]), "kinds": kinds}

    def scenario(self, seed, ref, tier):
        rng = random.Random(seed)
        cases = self.gen(rng, tier)
        if not cases:
            return None
        return {"cases": cases, "confs": [None] + [self.gen_conf(rng) for _ in range(rng.choice(self.nconf))]}

    def timeout(self):
        return 100

    def execute(self, scn, refs):
        viol = []
        res = []
        for conf in scn["confs"]:
            res.append(self.call_config(scn, conf))
        compared = 0
        law_runs = 0
        h = 0
        skipped = 0
        for ci, (conf, r) in enumerate(zip(scn["confs"], res)):
            for i, (case, c) in enumerate(zip(scn["cases"], r["cases"])):
                name = case["k"]
                if c["skip"]:
                    skipped += 1
                    continue
                h = zlib.crc32(repr((h, bits(c["value"]), c["exc"])).encode())
                if c["exc"] is not None:
                    if not self.may_raise(case, conf, c["exc"]):
                        viol.append({"class": f"raises:{name}", "detail": f"{json.dumps(case)} under {conf}: {c['exc']}"})
                    continue
                law_runs += 1
                for d in c["laws"][:3]:
                    viol.append({"class": f"law:{name}", "detail": f"{json.dumps(case)} under {conf}: {d}"})
                c0 = res[0]["cases"][i]
                if ci and c0["exc"] is None and not c0["skip"] and self.comparable(case, conf) and not c["laws"]:
                    compared += 1
                    d = ops.same(c["value"], c0["value"], self.compare_tol)
                    if d:
                        viol.append({"class": f"unstable:{name}", "detail": f"{json.dumps(case)}: under {conf} differs from the fault-free result: {d}"})
        self.across(scn, res, viol)
        fired = {}
        for r in res:
            for k, v in r["count"].items():
                fired[k] = fired.get(k, 0) + v
            if r["draws"]:
                fired["draws"] = fired.get("draws", 0) + r["draws"]
        for conf in scn["confs"]:
            for k in ("order", "hashseed"):
                if conf and conf.get(k) is not None:
                    fired[k + "_config"] = fired.get(k + "_config", 0) + 1
        return {"violations": viol, "steps": sum(r["calls"] for r in res), "switches": 0, "fired": fired, "fired_list": [],
                "compared": compared, "checks": law_runs, "numeric_calls": sum(r["calls"] for r in res), "hash": h, "sig": h,
                "perturbed": sum(1 for c in scn["confs"] if c), "skipped_cases": skipped}

    def call_config(self, scn, conf):
        return pool.fork_call(lambda: run_config(self, scn, conf), self.timeout())

    def across(self, scn, res, viol):
        """Laws over all configurations of a run."""

    def may_raise(self, case, conf, exc):
        return False

    def comparable(self, case, conf):
        return True

    def nontrivial(self, scn, res):
        return res["checks"] > 0

    def signature(self, scn, res):
        return json.dumps(scn, sort_keys=True)

    def describe(self, scn):
        return scn

    def shrink_case(self, case):
        return ()

    def shrink(self, scn):
        def cp():
            return json.loads(json.dumps(scn))
        for i in range(len(scn["cases"])):
            if len(scn["cases"]) > 1:
                c = cp()
                c["cases"] = [scn["cases"][i]]
                yield c
        for i in range(1, len(scn["confs"])):
            c = cp()
            del c["confs"][i]
            yield c
        for i in range(1, len(scn["confs"])):
            conf = scn["confs"][i]
            for k in conf:
                if k == "kinds" and len(conf[k]) > 1:
                    for j in range(len(conf[k])):
                        c = cp()
                        del c["confs"][i]["kinds"][j]
                        yield c
                elif k == "warm" and conf[k]:
                    for j in range(len(conf[k])):
                        c = cp()
                        del c["confs"][i]["warm"][j]
                        yield c
                elif k in ("order", "hashseed", "mode", "perturb"):
                    c = cp()
                    del c["confs"][i][k]
                    yield c
        for i, case in enumerate(scn["cases"]):
            for s in self.shrink_case(case):
                c = cp()
                c["cases"][i] = s
                yield c
