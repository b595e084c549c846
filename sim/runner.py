"""Search driver: seeded runs over worker processes, minimisation, replay files, evidence."""
import gc
import json
import os
import re
import sys
import time
import zlib

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)

from sim import boot, pool  # noqa: E402

RUN_TIMEOUT = float(os.environ.get("SIM_TIMEOUT", 60))
MIN_BUDGET = 45.0


class RefCache:
    """References (one pristine forked process per distinct operation), kept per worker."""

    def __init__(self):
        self.d = {}
        self.spent = 0

    def __call__(self, o):
        from sim import history
        k = history.key(o)
        r = self.d.get(k)
        if r is None:
            try:
                r = pool.fork_call(lambda: history.reference(o), RUN_TIMEOUT)
            except pool.ChildTimeout:
                r = {"out": ("abort", "timeout", ""), "steps": 10**9, "locs": [], "draws": [], "num": 0, "numlog": [],
                     "hot": [], "guard": [], "hotfn": [], "span": None, "sites": []}
            if len(self.d) > 6000:
                self.d.clear()
            self.d[k] = r
            self.spent += 1
        return r


REFS = RefCache()


def execute(prop, scn, timeout=RUN_TIMEOUT):
    from sim import history
    refs = {history.key(o): REFS(o) for o in prop.refs_needed(scn)}
    return pool.fork_call(lambda: prop.execute(scn, refs), timeout)


def one(prop, seed, tier):
    t0 = time.monotonic()
    before = REFS.spent
    scn = prop.scenario(seed, REFS, tier)
    if scn is None:
        return {"skip": True, "refs": REFS.spent - before}
    try:
        res = execute(prop, scn)
    except pool.ChildTimeout:
        try:
            res = execute(prop, scn, 2 * RUN_TIMEOUT)
        except pool.ChildTimeout:
            if os.environ.get("SIM_KEEP"):
                json.dump(scn, open(f"/tmp/hang-{seed}.json", "w"))
            res = {"violations": [{"class": "hang", "detail": f"a run does not end within {2 * RUN_TIMEOUT} s"}]}
            return {"viol": res["violations"], "scn": scn, "refs": 0, "res": res, "seed": seed, "sig": 0, "nontrivial": True}
    except pool.ChildError as e:
        if "MemoryError" in str(e) and "fork" in str(e):
            raise
        return {"error": str(e), "scn": scn, "seed": seed}
    sig = zlib.crc32(repr(prop.signature(scn, res)).encode())
    out = {"viol": res["violations"], "sig": sig, "nontrivial": bool(prop.nontrivial(scn, res)), "seed": seed,
           "refs": REFS.spent - before, "dt": time.monotonic() - t0,
           "res": {k: v for k, v in res.items() if k not in ("segments",) or res["violations"]}}
    if res["violations"]:
        out["scn"] = scn
    elif seed % 37 == 5 or seed % 1000003 < 3:
        out["scn"] = scn
    return out


# ------------------------------------------------------------------ known findings
def known_findings(pid):
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) match=/(.*?)/ what=(.*)", line.strip())
            if m and m.group(1) == pid:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out


def is_known(v, known):
    s = f"{v['class']} {v.get('op', '')} {v['detail']}"
    return any(rx.search(s) for rx, _ in known)


# ------------------------------------------------------------------ minimisation
def vclass(v):
    return (v["class"], v.get("op"))


def minimise(prop, scn, viol, known):
    end = time.monotonic() + MIN_BUDGET
    want = {v["class"] for v in viol}

    def bad(c):
        try:
            r = execute(prop, c, 60)
        except (pool.ChildTimeout, pool.ChildError):
            return None
        vs = [v for v in r["violations"] if v["class"] in want and not is_known(v, known)]
        return (r, vs) if vs else None

    got = bad(scn)
    if got is None:
        return scn, viol, 0
    reproduced = 1
    best = scn
    res, vs = got
    if prop.explicit is not None and res.get("segments"):
        c = prop.explicit(best, res)
        g = bad(c)
        if g:
            best, (res, vs) = c, g
    progress = True
    while progress and time.monotonic() < end:
        progress = False
        for c in prop.shrink(best):
            if time.monotonic() > end:
                break
            try:
                g = bad(c)
            except Exception:
                g = None
            if g:
                best, (res, vs) = c, g
                progress = True
                break
    return best, vs, reproduced


# ------------------------------------------------------------------ main
def main(pid):
    t0 = time.monotonic()
    sys.setswitchinterval(1000)
    tier = os.environ.get("VERIF_TIER", "quick")
    vseed = int(os.environ.get("VERIF_SEED", "1"))
    from sim import props
    prop = props.load(pid)
    boot.boot(set_seam=prop.set_seam)
    from sim import history, ops, specs  # noqa: F401
    workers = int(os.environ.get("SIM_WORKERS", min(8, os.cpu_count() or 8)))
    if hasattr(prop, "prepare"):
        prop.prepare()
    if hasattr(prop, "survey"):
        prop.survey(REFS, workers)
    gc.collect()
    gc.freeze()
    known = known_findings(pid)
    n = prop.quick_runs if tier == "quick" else prop.thorough_runs
    n = int(os.environ.get("SIM_RUNS", n))
    soft = float(os.environ.get("SIM_DEADLINE", 540 if tier == "quick" else 36000))
    seeds = [vseed * 1000003 + i for i in range(n)]
    agg = {"runs": 0, "skipped": 0, "steps": 0, "switches": 0, "fired": {}, "sigs": set(), "ntsigs": set(), "extra": {}, "refs": 0, "hash": {}}
    found, errors, samples, knownhit = [], [], [], set()

    def on_result(seed, r):
        kind, r = r
        if kind == "error":
            errors.append((seed, r))
            return
        agg["refs"] += r.get("refs", 0)
        if r.get("skip"):
            agg["skipped"] += 1
            return
        if "error" in r:
            errors.append((seed, r["error"]))
            return
        agg["runs"] += 1
        res = r["res"]
        if os.environ.get("SIM_SLOW") and r.get("dt", 0) > float(os.environ["SIM_SLOW"]):
            print("slow", seed, round(r["dt"], 2), file=sys.stderr)
        agg["steps"] += res.get("steps", 0)
        agg["switches"] += res.get("switches", 0)
        for k, v in res.get("fired", {}).items():
            agg["fired"][k] = agg["fired"].get(k, 0) + v
        for k in ("completed", "interrupted", "compared", "scribbles", "nested", "evictions", "checks", "numeric_calls", "perturbed"):
            if k in res:
                agg["extra"][k] = agg["extra"].get(k, 0) + res[k]
        for k, v in res.get("probes", {}).items():
            agg["extra"].setdefault("probes", {})
            agg["extra"]["probes"][k] = agg["extra"]["probes"].get(k, 0) + v
        agg["sigs"].add(r["sig"])
        if r["nontrivial"]:
            agg["ntsigs"].add(r["sig"])
        agg["hash"][seed] = (res.get("hash"), res.get("sig"), r["sig"])
        new = [v for v in r["viol"] if not is_known(v, known)]
        for v in r["viol"]:
            if is_known(v, known):
                knownhit.add(v["class"])
        if new:
            found.append((seed, r["scn"], new))
        elif "scn" in r and len(samples) < 3:
            samples.append({"seed": seed, "case": prop.describe(r["scn"]) if hasattr(prop, "describe") else
                            {"tasks": prop.tasks_str(r["scn"]), "plan": r["scn"]["plan"]}, "steps": res.get("steps"), "fired": res.get("fired_list")})

    def worker(seed):
        return one(prop, seed, tier)

    left = pool.parallel(worker, seeds, workers, on_result, stop=lambda: bool(found) or len(errors) > 20, deadline=t0 + soft)
    for rx, what in known:
        print(f"KNOWN-FINDING: property={pid} {what}")
    wall_search = time.monotonic() - t0
    code = 0
    if found:
        seed, scn, viol = min(found, key=lambda x: x[0])
        small, vs, rep = minimise(prop, scn, viol, known)
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        path = os.path.join(ROOT, "replays", f"{pid}-{seed}.json")
        with open(path, "w") as fh:
            json.dump({"property": pid, "seed": seed, "scenario": small, "violations": vs, "reproduced": bool(rep)}, fh, indent=1)
        for v in vs[:3]:
            print(f"  {v['class']}: {v['detail']}")
        print(f"VIOLATION property={pid} replay={path}")
        code = 1
    if errors:
        code = code or 2    # a violation that was found stands
        for s, e in errors[:5]:
            print(f"harness error at seed {s}:\n{e}", file=sys.stderr)
    if os.environ.get("SIM_DUMP"):
        with open(os.environ["SIM_DUMP"], "w") as fh:
            json.dump({str(k): v for k, v in sorted(agg["hash"].items())}, fh)
    wall = time.monotonic() - t0
    cov = {
        "evaluations": agg["runs"], "distinct_nontrivial": len(agg["ntsigs"]), "rule": prop.rule, "samples": samples,
        "planned_runs": n, "not_run_before_soft_deadline": left, "seeds": [seeds[0], seeds[-1]] if seeds else [],
        "runs_per_hour": round(agg["runs"] / max(wall_search, 1e-9) * 3600), "skipped_seeds": agg["skipped"],
        "simulated_steps": agg["steps"], "simulated_time_s": round(agg["steps"] * 1e-6, 3),
        "context_switches": agg["switches"], "faults_fired": dict(sorted(agg["fired"].items())),
        "distinct_interleavings": len(agg["sigs"]),
        "interleaving_measure": "distinct (operations, source location of every context switch, faults fired) signatures",
        "reference_executions": agg["refs"],
        "real_components": "all of lie_nn (from /repo's working tree), NumPy, SciPy, SymPy, multipledispatch, CPython threads",
        "stub_components": prop.stubs if hasattr(prop, "stubs") else "scheduler, locks created by lie_nn, clock, random source (seeded); nothing else is stubbed",
        **agg["extra"],
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{pid}.json"), "w") as fh:
        json.dump({"property": pid, "tier": tier, "seed": vseed, "level": prop.level, "coverage": cov, "wall_s": round(wall, 2),
                   "violations": 1 if found else 0, "assumptions": getattr(prop, "assumptions", [])}, fh, indent=1)
    print(f"{pid}: {agg['runs']} runs, {len(agg['ntsigs'])} distinct non-trivial, {agg['steps']} simulated steps, {agg['switches']} switches, "
          f"faults {sum(agg['fired'].values())}, refs {agg['refs']}, skipped {agg['skipped']}, left {left}, errors {len(errors)}, {wall:.1f} s")
    sys.stdout.flush()
    return code


def replay(path):
    sys.setswitchinterval(1000)
    d = json.load(open(path))
    from sim import props
    prop = props.load(d["property"])
    boot.boot(set_seam=prop.set_seam)
    from sim import history, ops, specs  # noqa: F401
    if hasattr(prop, "prepare"):
        prop.prepare()
    gc.collect()
    gc.freeze()
    res = execute(prop, d["scenario"])
    for v in res["violations"]:
        print(f"  {v['class']}: {v['detail']}")
    if res["violations"]:
        print(f"VIOLATION property={d['property']} replay={path}")
        return 1
    print("no violation")
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[2]) if sys.argv[1] == "check" else replay(sys.argv[2]))
