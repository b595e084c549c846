"""Executor for the state-related properties: concurrent, interrupted, aliased histories of operations.

A scenario (JSON):
  objs    argument specs shared by the operations
  warm    operations run before the simulation starts (each checked)
  tasks   one list of operations per simulated thread
  post    operations run afterwards (each checked): retries and probes
  probes  further ones, run only if the library's module-level state differs from what it was before the tasks
  nested  operations run from inside user callbacks ({"f": ..} arguments), round robin
  plan    see engine.Sim
  opt     which checks are on
Every completed operation is compared with the reference: the same operation, alone, in a fresh process.
"""
import functools
import gc
import io
import json
import os
import random
import select
import signal
import sys
import time

import numpy as np

from . import boot, engine, hot, ops, rngseam, specs


def key(o):
    return json.dumps(o, sort_keys=True)


def describe_exc(e):
    return ("exc", type(e).__name__, str(e)[:160])


# ------------------------------------------------------------------------- reference runs
def reference(o, want_steps=True):
    """Runs in a forked child: the op alone in a pristine library. Returns outcome and step data."""
    gc.disable()
    res = {}

    def body(sim, t):
        rngseam.set_stream(t.idx, rngseam.Stream(o.get("s", 0)))
        sim.begin_op(t, 0)
        try:
            raw, _ = ops.run_op(o, (), sim, (lambda: sim.point()))
            res["out"] = ("ok", ops.norm(raw))
        except engine.SimAbort:
            raise
        except BaseException as e:
            res["out"] = describe_exc(e)

    sim = engine.Sim({"grain": "line", "locate": True, "cap": 3_000_000})
    sim.spawn(body)
    with quiet():
        sim.run()
    if sim.violations:
        res["out"] = ("abort", sim.violations[0]["class"], "")
    steps = sim.tasks[0].steps
    locs = sorted(set(tuple(v) for v in sim.locs.values()))
    if len(locs) > 400:
        locs = locs[:: len(locs) // 400 + 1]
    hotl, guard, hotfn, span = [], [], [], None
    for (c, line), v in sim.locs.items():
        h, w = hot.lines(c)
        if h or w:
            loc = [hot.rel(c.co_filename), line, c.co_qualname]
            if line in h or w:
                hotl.append(loc)
                span = [min(v[0], span[0]), max(v[1], span[1])] if span else list(v)
            hotfn.append(loc)
        if line in hot.guarded(c.co_filename):
            guard.append([hot.rel(c.co_filename), line, c.co_qualname])
    sites = []
    for v in sim.numsites.values():
        sites.append(v[:3] + [None if v[3] is None else sorted(set(v[3])), v[4]])
    sites.sort(key=lambda v: (v[:2], v[4]))
    draws = [d for d in rngseam.CUR.get(0, rngseam.Stream(0)).log]
    return {"out": res["out"], "steps": steps, "locs": locs, "draws": draws, "num": sim.tasks[0].numcalls, "numlog": sim.numlog,
            "hot": sorted(hotl), "guard": sorted(guard), "hotfn": sorted(hotfn), "span": span, "sites": sites}


class quiet:
    """Send what lie_nn prints to a buffer (checked by S11)."""

    def __enter__(self):
        self.o, self.e = sys.stdout, sys.stderr
        self.bo, self.be = io.StringIO(), io.StringIO()
        sys.stdout, sys.stderr = self.bo, self.be
        return self

    def __exit__(self, *a):
        sys.stdout, sys.stderr = self.o, self.e


# ------------------------------------------------------------------------- fingerprints
def fingerprint(x, depth=0):
    """The state of an argument: bytes of arrays, attributes of representations."""
    if isinstance(x, np.ndarray):
        return ("arr", x.shape, str(x.dtype), x.tobytes())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(fingerprint(y, depth + 1) for y in x)
    if isinstance(x, dict):
        return ("dict",) + tuple((k, fingerprint(v, depth + 1)) for k, v in x.items())
    if hasattr(x, "__dict__") and depth < 6 and not callable(x):
        return ("obj", type(x).__name__, {k: fingerprint(v, depth + 1) for k, v in vars(x).items()})
    if callable(x):
        return ("fn",)
    return ("lit", repr(x))


def fp_same(before, after):
    """Attributes added after construction (memoisation) are not the caller's business."""
    if isinstance(before, tuple) and before and before[0] == "obj":
        return before[1] == after[1] and all(k in after[2] and fp_same(v, after[2][k]) for k, v in before[2].items())
    if isinstance(before, tuple) and isinstance(after, tuple) and before and before[0] in ("list", "tuple", "dict"):
        return len(before) == len(after) and all(
            fp_same(a, b) if isinstance(a, tuple) and isinstance(b, tuple) else a == b for a, b in zip(before, after))
    if isinstance(before, tuple) and len(before) == 2 and isinstance(before[1], tuple):
        return before[0] == after[0] and fp_same(before[1], after[1])
    return before == after


def arrays_in(x, out=None, depth=0):
    """Writable float/complex arrays directly contained in a returned value (not inside representations)."""
    if out is None:
        out = []
    if isinstance(x, np.ndarray):
        out.append(x)
    elif isinstance(x, (list, tuple)) and depth < 5:
        for y in x:
            arrays_in(y, out, depth + 1)
    elif isinstance(x, dict) and depth < 5:
        for y in x.values():
            arrays_in(y, out, depth + 1)
    return out


def rep_private(x):
    """Fresh arrays a representation hands out on query and does not store."""
    from lie_nn import TabulatedIrrep, MulIrrep, ReducedRep
    if isinstance(x, (TabulatedIrrep, MulIrrep, ReducedRep)):
        return [x.X, x.H] + ([x.A] if isinstance(x, TabulatedIrrep) else [])
    if type(x).__name__ in ("Sn_natural", "Sn_standard", "Sn_trivial"):
        return [x.X, x.H, x.A]
    return []


# arrays of derived representations that are computed, not passed on
FRESH = {"dsum": "XH", "conj": "XH", "tp": "XHQ", "tptab": "XHQ", "cb": "XH", "ca": "X", "gprod": "XHA"}


def rep_fresh(o, x):
    """Arrays a derived representation consists of and shares with nobody."""
    from lie_nn import GenericRep, ReducedRep
    names = FRESH.get(o["op"], "")
    if isinstance(x, GenericRep):
        return [getattr(x, n) for n in names if n != "Q"]
    if isinstance(x, ReducedRep) and "Q" in names and x.Q is not None:
        return [x.Q]
    return []


def scribble(a, seed):
    if not a.flags.writeable or a.size == 0:
        return False
    mode = seed % 3
    with np.errstate(all="ignore"):
        if a.dtype.kind == "c":
            a[...] = (np.nan + 1j, 7.25 - 3j, 0.0)[mode]
        elif a.dtype.kind == "f":
            a[...] = (np.nan, -7.25, 0.0)[mode]
        elif a.dtype.kind in "iu":
            a[...] = 99
        else:
            return False
    return True


# ------------------------------------------------------------------------- global state
def global_state():
    import random as pyrandom
    import threading
    import warnings
    st = np.random.get_state()
    return {
        "np.random": hash((st[0], st[1].tobytes(), st[2], st[3])),
        "random": hash(pyrandom.getstate()),
        "printoptions": json.dumps(np.get_printoptions(), default=str, sort_keys=True),
        "errstate": json.dumps(np.geterr(), sort_keys=True),
        "errcall": repr(np.geterrcall()),
        "warnings": hash(tuple((f[0], str(f[1]), f[2].__name__, str(f[3]), f[4]) for f in warnings.filters)),
        "showwarning": id(warnings.showwarning),
        "recursionlimit": sys.getrecursionlimit(),
        "environ": hash(tuple(sorted(os.environ.items()))),
        "cwd": os.getcwd(),
        "stdout": id(sys.stdout),
        "stderr": id(sys.stderr),
        "hooks": (id(sys.excepthook), id(sys.displayhook)),
        "gc": (gc.isenabled(), gc.get_threshold()),
        "switchinterval": sys.getswitchinterval(),
        "syspath": tuple(sys.path),
        "threads": threading.active_count(),
        "decimal": _decimal(),
        "locale": _locale(),
        "bufsize": np.getbufsize(),
        "trace": (sys.gettrace() is None, sys.getprofile() is None),
        "umask": _umask(),
    }


def _decimal():
    import decimal
    c = decimal.getcontext()
    return (c.prec, c.rounding)


def _locale():
    import locale
    return locale.setlocale(locale.LC_NUMERIC)


def _umask():
    u = os.umask(0o22)
    os.umask(u)
    return u


# per-thread settings (context variables) must also be right as seen by each task
THREAD_LOCAL = ("errstate", "errcall", "printoptions", "decimal")


def repo_caches():
    out = []
    for name, m in sorted(sys.modules.items()):
        if name.startswith("lie_nn"):
            for k, v in sorted(vars(m).items()):
                if hasattr(v, "cache_clear") and callable(getattr(v, "cache_clear")):
                    out.append((name + "." + k, v))
    return out


# ------------------------------------------------------------------------- executor
class Run:
    def __init__(self, scn, refs):
        self.scn = scn
        self.refs = refs
        self.opt = scn.get("opt", {})
        self.viol = []
        self.retained = []      # [(where, raw, norm)]
        self.owned = []         # arrays that may be overwritten
        self.completed = 0
        self.interrupted = 0
        self.scribbles = 0
        self.compared = 0
        self.nested_i = 0
        self.nest_depth = 0
        self.history = []
        self.evictions = 0
        self.mutations = 0
        self.forks = 0
        self.live = {}          # task -> (operation, arrays passed to it, their bytes and flags)

    def bad(self, cls, detail, **k):
        if len(self.viol) < 20:
            self.viol.append({"class": cls, "detail": detail, **k})

    def ref(self, o):
        return self.refs[key({**o, "a": ops.subst(o["a"], self.objspecs)})]["out"]

    # one operation in the context of a task (or outside the simulation, sim=None)
    def do_op(self, o, where, sim=None, t=None, j=0, expect=True):
        op = ops.OPS[o["op"]]
        stream = rngseam.Stream(o.get("s", 0))
        rngseam.set_stream(None if t is None else t.idx, stream)
        hook = (lambda: self.callback(sim, t, where))
        before = None
        args = None
        n_fired = len(sim.fired_list) if sim else 0
        th0 = None
        out = None
        raw = None
        try:
            if sim is not None:
                sim.begin_op(t, j)
            args = [ops.decode(a, self.objs, sim, hook) for a in o["a"]]
            if self.opt.get("globals"):
                sh(t, 1)
                th0 = thread_state()
                sh(t, -1)
            sh(t, 1)
            if self.opt.get("args"):
                before = fingerprint(args)
            if self.opt.get("live") and sim is not None:
                self.live_args(t, args)
            if self.opt.get("scribble"):
                pre = [base_of(a) for a in arrays_all(args)]
            sh(t, -1)
            try:
                raw = op.fn(*args)
                out = ("ok", ops.norm(raw))
            finally:
                if sim is not None:
                    self.live.pop(t.idx, None)
                    t.faults = []
                    t.numfaults = []
                    t.numrest = {}
                    t.at = []
                    sim._arm(t)
        except engine.SimAbort:
            raise
        except BaseException as e:
            if sim is None and isinstance(e, (SystemExit, KeyboardInterrupt)):
                pass
            out = describe_exc(e)
        sh(t, 1)
        try:
            mine = [f for f in (sim.fired_list[n_fired:] if sim else []) if f[0] == t.idx and f[2] in EXC]
            self.history.append((where, o["op"], out[0], bool(mine)))
            if before is not None and not fp_same(before, fingerprint(args)):
                self.bad("argument-modified", f"{where}: {show(o)} modified its arguments", op=o["op"])
            if th0 is not None:
                th1 = thread_state()
                for k in th0:
                    if th0[k] != th1[k]:
                        self.bad("global-state", f"{where}: {show(o)} left {k} changed: {th0[k][:60]} -> {th1[k][:60]}", op=o["op"])
            expected = self.ref(o)
            if mine:
                self.interrupted += 1
                kinds = {f[2] for f in mine}
                if out[0] == "exc" and out[1] in kinds:
                    pass                                    # the injected exception reached the caller
                elif out[0] == "exc" and out == expected:
                    pass
                elif out[0] == "exc" and self.opt.get("convert_ok", False) and not (kinds & MUST):
                    pass                                    # converted to another exception: still an error
                elif out[0] == "ok" and not (kinds & MUST):
                    r = ops.same(out[1], expected[1], TOL) if expected[0] == "ok" else "should raise " + expected[1]
                    if r:
                        self.bad("wrong-after-fault", f"{where}: {show(o)} with {sorted(kinds)} injected returned a wrong answer ({r})", op=o["op"])
                else:
                    self.bad("interrupt-lost", f"{where}: {sorted(kinds)} injected at {mine[0][3]} in {show(o)} did not reach the caller (got {out[0]} {out[1] if out[0] == 'exc' else ''})", op=o["op"])
                return out
            self.completed += 1
            if expect:
                self.compared += 1
                r = diff(out, expected)
                if r:
                    self.bad("wrong-answer", f"{where}: {show(o)}: {r}", op=o["op"])
            if self.opt.get("rng"):
                used = [d for d in stream.log if not d.endswith(":seeded") and (not op.random or d.rsplit(".", 1)[1] in ENTROPY or not d.startswith("numpy."))]
                if used:
                    self.bad("global-rng-used", f"{where}: {show(o)} drew from {used[0]}" + (" rather than numpy's global generator" if op.random else ""), op=o["op"])
            if out[0] == "ok" and self.opt.get("scribble"):
                self.retain(o, op, where, raw, out[1], args, pre)
            return out
        finally:
            sh(t, -1)

    def retain(self, o, op, where, raw, nrm, args, pre):
        entry = {"where": where, "o": o, "raw": raw, "norm": nrm, "dirty": False, "alias": op.alias, "args": args}
        self.retained.append(entry)
        if not op.owned:
            return
        alias = set()
        if op.alias or o["op"] in STORED:       # may hand out arrays its arguments were built from
            alias = {id(a) for a in pre}
        for a in arrays_in(raw):
            if id(base_of(a)) in alias:
                continue
            self.owned.append((a, entry, False))
        reps = [raw] if ops.is_rep(raw) else []
        for r in reps:
            for a in rep_private(r):
                self.owned.append((a, entry, True))
            for a in rep_fresh(o, r):
                self.owned.append((a, entry, False))

    def scribble_now(self, sim, t, f):
        """Overwrite some buffers the caller owns; the results they came from are expected to change, nothing else."""
        r = random.Random(f.get("seed", 0))
        live = [x for x in self.owned if x[0].flags.writeable]
        if not live:
            return
        k = min(len(live), f.get("n", 2))
        for a, entry, private in r.sample(live, k):
            others = [] if private or entry["alias"] or entry["o"]["op"] in STORED or entry["dirty"] else [
                b for b in arrays_in(entry["raw"]) if b is not a and b.size]
            before = [b.tobytes() for b in others]
            if scribble(a, r.randrange(3)):
                self.scribbles += 1
                if any(b.tobytes() != x for b, x in zip(others, before)):
                    self.bad("result-aliased", f"{show(entry['o'])} ({entry['where']}) returned several arrays which share memory: writing one changed another", op=entry["o"]["op"])
                if not private:
                    entry["dirty"] = True
                    # whatever other entries share this buffer legitimately? none: results are private
            self.owned = [x for x in self.owned if x[0] is not a]

    def scribble_inputs(self):
        """Overwrite every input array; results already returned must not change."""
        seen = set()
        fresh = [(e, a, a.tobytes()) for e in self.retained if not e["dirty"] for a in rep_fresh(e["o"], e["raw"])]
        for e in self.retained:
            if e["alias"]:
                e["dirty"] = True
            for a in arrays_all(e["args"]):
                b = base_of(a)
                if id(b) not in seen:
                    seen.add(id(b))
                    if scribble(b, 1):
                        self.scribbles += 1
        for e, a, b in fresh:
            if a.tobytes() != b:
                self.bad("result-changed", f"overwriting an input changed the result of {show(e['o'])} obtained at {e['where']}", op=e["o"]["op"])
        for e in self.retained:     # query results of representations whose arrays were just overwritten
            if ops.is_rep(e["raw"]):
                e["dirty"] = True
            elif e["o"]["op"] in STORED:
                e["dirty"] = True
        self.check_retained("after its inputs were overwritten")

    def check_retained(self, where):
        for e in self.retained:
            if e["dirty"]:
                continue
            try:
                now = ops.norm(e["raw"])
            except Exception as ex:  # a representation that no longer answers
                self.bad("result-changed", f"{where}: result of {show(e['o'])} ({e['where']}) no longer usable: {type(ex).__name__}", op=e["o"]["op"])
                continue
            r = ops.same(now, e["norm"])
            if r:
                self.bad("result-changed", f"{where}: result of {show(e['o'])} obtained at {e['where']} changed later ({r})", op=e["o"]["op"])
                e["dirty"] = True

    def callback(self, sim, t, where):
        """Invoked whenever lie_nn calls a user callback."""
        if sim is not None:
            sim.point()
            if self.live:
                t.shield += 1
                self.check_live(f"{where}, in a callback")
                t.shield -= 1
            self.cb_count = getattr(self, "cb_count", 0) + 1
            for f in self.scn.get("cb_raise", []):
                if f["task"] == t.idx and f["op"] == t.op and not f.get("done") and self.cb_count >= f["n"] and where.startswith("task"):
                    f["done"] = True
                    sim._count("callback-raises:" + f["exc"])
                    sim.fired_list.append([t.idx, t.steps, f["exc"], "callback"])
                    raise engine.make_exc(f["exc"])
        nested = self.scn.get("nested") or []
        if nested and self.nest_depth < 2 and self.nested_i < len(nested) * 2:
            o = nested[self.nested_i % len(nested)]
            self.nested_i += 1
            self.nest_depth += 1
            keep = rngseam.CUR.get(None if t is None else t.idx)
            n_fired = len(sim.fired_list) if sim else 0
            try:
                out = plain_op(o, self.objs)
                mine = [f for f in (sim.fired_list[n_fired:] if sim else []) if f[0] == t.idx and f[2] in EXC]
                if mine and out[0] == "exc":
                    raise engine.make_exc(mine[0][2])       # the user's callback lets the interruption through
                r = diff(out, self.ref(o)) if not mine else None
                if r:
                    self.bad("wrong-answer", f"{where}: nested {show(o)} called from a callback: {r}", op=o["op"])
            finally:
                self.nest_depth -= 1
                rngseam.set_stream(None if t is None else t.idx, keep)

    # -------------------------------------------------------------------- acts (harness actions at a step)
    def act_gc(self, sim, t, f):
        gc.collect()

    def act_evict(self, sim, t, f):
        cs = repo_caches()
        if cs:
            r = random.Random(f.get("seed", 0))
            for _, c in (cs if f.get("all") else r.sample(cs, r.randint(1, len(cs)))):
                c.cache_clear()
                self.evictions += 1

    def act_call(self, sim, t, f):
        """A signal handler or finaliser that runs in the middle of a call and itself calls the library."""
        o = f["o"]
        self.nested_i += 1
        keep = rngseam.CUR.get(t.idx)
        try:
            r = diff(plain_op(o, self.objs), self.ref(o))
            if r:
                self.bad("wrong-answer", f"{show(o)} called by a signal handler while task {t.idx} is at {sim.loc[0]}: {r}", op=o["op"])
        finally:
            rngseam.set_stream(t.idx, keep)

    def act_fork(self, sim, t, f):
        """The process forks here: only this thread exists in the child, whatever the others were doing."""
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rd)
                signal.alarm(FORK_WAIT + 20)
                self.viol = []
                self.live = {}
                for i, o in enumerate(f["ops"]):
                    self.outside(o, f"child[{i}] forked at {sim.loc[0]}")
                data = json.dumps(self.viol)
            except BaseException as e:
                data = json.dumps([{"class": "harness", "detail": f"{type(e).__name__}: {e}"}])
            with os.fdopen(wr, "w") as fh:
                fh.write(data)
            os._exit(0)
        os.close(wr)
        self.forks += 1
        buf = b""
        end = time.monotonic() + FORK_WAIT
        while True:
            left = end - time.monotonic()
            if left <= 0 or not select.select([rd], [], [], left)[0]:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(rd)
                self.bad("fork:hang", f"the child forked while task {t.idx} is at {sim.loc[0]} does not finish {[show(o) for o in f['ops']]}")
                return
            b = os.read(rd, 1 << 16)
            if not b:
                break
            buf += b
        os.close(rd)
        status = os.waitpid(pid, 0)[1]
        if not buf or status:
            self.bad("fork:crash", f"the child forked while task {t.idx} is at {sim.loc[0]} died with status {status}")
            return
        for v in json.loads(buf):
            if v["class"] == "harness":
                raise RuntimeError(v["detail"])
            self.bad("fork:" + v["class"], v["detail"], **({"op": v["op"]} if "op" in v else {}))
        self.compared += len(f["ops"])

    def live_args(self, t, args):
        """Remember the arguments of the call that starts, to look at them while it runs."""
        L, size = [], 0
        for a in arrays_all(args):
            if size + a.nbytes <= 40_000:
                size += a.nbytes
                L.append((a, a.tobytes(), a.flags.writeable))
        self.live[t.idx] = L

    def check_live(self, where):
        for i, L in list(self.live.items()):
            for a, b, w in L:
                if a.flags.writeable != w or a.tobytes() != b:
                    self.bad("argument-modified-transient", f"{where}: an array passed to the operation task {i} is running is "
                             + ("read-only" if w and not a.flags.writeable else "writable" if a.flags.writeable != w else "altered") + " while it runs")
                    del self.live[i]
                    break

    def observe(self, sim, t):
        if self.live:
            self.check_live(f"task {t.idx} at {sim.loc[0]}")
        if self.scn["opt"].get("globals"):
            st = self.watcher.ask()     # what another thread sees at this instant
            for k, v in st.items():
                if self.g_fast[k] != v:
                    self.bad("global-state-transient", f"{k} differs while task {t.idx} runs (seen in {sim.loc[0]})")
                    self.g_fast[k] = v

    def run(self):
        scn = self.scn
        gc.disable()
        self.objspecs = scn.get("objs", [])
        self.fresh_objs()
        q = quiet()
        with q:
            g0 = global_state() if self.opt.get("globals") else None
            if g0:
                self.watcher = Watcher(global_state_fast)
                self.g_fast = self.watcher.ask()
                g0 = global_state()
            for i, o in enumerate(scn.get("warm", [])):
                self.outside(o, f"warm[{i}]")
            obj_fp = [fingerprint(x) for x in self.objs]
            left = hot.residue() if scn.get("probes") else None
            sim = engine.Sim(scn["plan"], actions={"scribble": self.scribble_now, "gc": self.act_gc, "evict": self.act_evict, "call": self.act_call, "fork": self.act_fork},
                             step_hook=self.observe)
            for i, tops in enumerate(scn["tasks"]):
                sim.spawn(self.task_body(i, tops))
            sim.run()
            for v in sim.violations:
                self.bad(v["class"], v["detail"])
            if not sim.violations:
                for i, x in enumerate(self.objs if self.opt.get("args") else []):
                    if not fp_same(obj_fp[i], fingerprint(x)):
                        self.bad("argument-modified", f"shared object {i} {self.objspecs[i]} was modified")
                if self.opt.get("scribble"):
                    self.check_retained("end of simulation")
                for i, o in enumerate(scn.get("post", [])):
                    self.outside(o, f"post[{i}]")
                if left is not None and hot.residue() != left:
                    for i, o in enumerate(scn["probes"]):
                        self.outside(o, f"probe[{i}]")
                if self.opt.get("scribble"):
                    self.check_retained("end")
                    self.scribble_inputs()
            if g0:
                g1 = global_state()
                for k in g0:
                    if g0[k] != g1[k]:
                        self.bad("global-state", f"{k} changed: {str(g0[k])[:80]} -> {str(g1[k])[:80]}")
        if self.opt.get("output"):
            allow = any(o["op"] in ("triplet", "badtrip") for o in self.all_ops())
            if (q.bo.getvalue() or q.be.getvalue()) and not allow:
                self.bad("output", f"wrote to standard streams: {(q.bo.getvalue() + q.be.getvalue())[:80]!r}")
        return {
            "violations": self.viol,
            "hash": sim.hash, "steps": sim.step, "segments": sim.segments, "switches": sim.switches, "sig": sim.switch_sig,
            "fired": sim.fired, "fired_list": sim.fired_list, "completed": self.completed, "interrupted": self.interrupted,
            "compared": self.compared, "scribbles": self.scribbles, "nested": self.nested_i, "forks": self.forks, "evictions": self.evictions,
        }

    def all_ops(self):
        return [o for t in self.scn["tasks"] for o in t] + self.scn.get("warm", []) + self.scn.get("post", []) + self.scn.get("probes", [])

    def fresh_objs(self):
        self.objs = [buildable(a) for a in self.objspecs]

    def outside(self, o, where):
        """An operation outside the concurrent phase: a one-task simulation, so that locks left held show up."""
        sim = engine.Sim({"grain": "line", "cap": 3_000_000})
        sim.spawn(lambda sim, t: self.do_op(o, where, sim, t, 0))
        sim.run()
        for v in sim.violations:
            self.bad(v["class"], f"{where}: {show(o)}: {v['detail']}", op=o["op"])

    def task_body(self, i, tops):
        def body(sim, t):
            for j, o in enumerate(tops):
                if o["op"] == "!mutate":
                    sh(t, 1)
                    x = self.objs[o["a"][0]]
                    specs.mutate(x, o["a"][1])
                    self.objspecs = list(self.objspecs)
                    self.objspecs[o["a"][0]] = {"r": ["mut", self.objspecs[o["a"][0]]["r"], o["a"][1]]}
                    self.mutations += 1
                    sh(t, -1)
                    continue
                if o["op"] == "!drop":
                    sh(t, 1)
                    self.fresh_objs()
                    gc.collect()
                    sh(t, -1)
                    continue
                if o["op"] == "!define":
                    sh(t, 1)
                    specs.custom_class(o["a"][0])
                    sh(t, -1)
                    continue
                if o["op"] == "!scribble":
                    sh(t, 1)
                    self.scribble_now(sim, t, {"seed": o["a"][0], "n": 3})
                    sh(t, -1)
                    continue
                if o["op"] == "!evict":
                    sh(t, 1)
                    self.act_evict(sim, t, {"seed": o["a"][0], "all": o["a"][1]})
                    sh(t, -1)
                    continue
                out = self.do_op(o, f"task {i} op {j}", sim, t, j)
                if self.opt.get("stop_on_interrupt") and out[0] == "exc" and self.history and self.history[-1][3]:
                    pass
        return body


FORK_WAIT = 60     # seconds of real time
TOL = 1e-10        # the same code on the same arguments: only summation order (memory alignment) may differ
ENTROPY = {"default_rng", "RandomState", "urandom"}
EXC = {"KeyboardInterrupt", "MemoryError", "LinAlgError", "FloatingPointError", "ValueError", "RecursionError", "SystemExit",
       "InjectedError", "InjectedBase", "TimeoutError", "OSError"}
MUST = {"KeyboardInterrupt", "SystemExit", "InjectedBase"}      # must reach the caller as they are


class Watcher:
    """A thread of its own that answers what it sees."""

    def __init__(self, fn):
        import threading
        self.req, self.ans, self.fn = threading.Semaphore(0), threading.Semaphore(0), fn
        threading.Thread(target=self.loop, daemon=True).start()

    def loop(self):
        while True:
            self.req.acquire()
            self.val = self.fn()
            self.ans.release()

    def ask(self):
        self.req.release()
        self.ans.acquire()
        return self.val


def thread_state():
    return {"errstate": repr(np.geterr()), "errcall": repr(np.geterrcall()), "printoptions": repr(np.get_printoptions()), "decimal": _decimal()}


def global_state_fast():
    st = np.random.get_state()
    import random as pyrandom
    import warnings
    return {
        "np.random": hash((st[1][:4].tobytes(), st[2])),
        "printoptions": repr(np.get_printoptions()),
        "errstate": repr(np.geterr()),
        "warnings": (len(warnings.filters), id(warnings.showwarning)),
        "recursionlimit": sys.getrecursionlimit(),
        "stdout": (id(sys.stdout), id(sys.stderr)),
        "gc": (gc.isenabled(), gc.get_threshold()),
        "switchinterval": sys.getswitchinterval(),
    }


# operations that hand out (part of) the stored state of a representation the user built from arrays
STORED = {"X", "H", "A", "trivial", "fromgen", "makereal", "udsum", "kron", "gprod3", "icb_view"}


def buildable(a):
    try:
        return ops.decode(a, ())
    except Exception:
        return ops.Unbuilt(a)


def sh(t, d):
    if t is not None:
        t.shield += d


def base_of(a):
    while isinstance(a.base, np.ndarray):
        a = a.base
    return a


def arrays_all(x, out=None, depth=0):
    if out is None:
        out = []
    if isinstance(x, np.ndarray):
        out.append(x)
    elif isinstance(x, (list, tuple)):
        for y in x:
            arrays_all(y, out, depth + 1)
    elif isinstance(x, dict):
        for y in x.values():
            arrays_all(y, out, depth + 1)
    elif hasattr(x, "__dict__") and depth < 6 and not callable(x):
        for y in vars(x).values():
            arrays_all(y, out, depth + 1)
    return out


def show(o):
    return f"{o['op']}({', '.join(json.dumps(a, separators=(',', ':')) for a in o['a'])})"[:240]


def diff(out, expected):
    if expected[0] == "abort":
        return None
    if out[0] != expected[0]:
        return f"got {out[0]} {out[1:] if out[0] == 'exc' else ''}, alone in a fresh process: {expected[0]} {expected[1:] if expected[0] == 'exc' else ''}"
    if out[0] == "exc":
        return None if out[1] == expected[1] else f"raised {out[1]} ({out[2]}) instead of {expected[1]}"
    r = ops.same(out[1], expected[1], TOL)
    return None if r is None else "differs from the same call alone in a fresh process: " + r


def plain_op(o, objs):
    sim = engine.Sim.cur_sim
    t = sim.cur if sim else None
    rngseam.set_stream(None if t is None else t.idx, rngseam.Stream(o.get("s", 0)))
    try:
        raw, _ = ops.run_op(o, objs)
        return ("ok", ops.norm(raw))
    except engine.SimAbort:
        raise
    except BaseException as e:
        return describe_exc(e)


def needed_refs(scn):
    """Every op (with object references resolved) whose reference the run will look up."""
    specs_ = list(scn.get("objs", []))
    out = []

    def add(o, sp):
        out.append({**o, "a": ops.subst(o["a"], sp)})
    for o in scn.get("warm", []):
        add(o, specs_)
    if len(scn["tasks"]) == 1 or not any(o["op"] == "!mutate" for t in scn["tasks"] for o in t):
        for t in scn["tasks"]:
            for o in t:
                if o["op"] == "!mutate":
                    specs_[o["a"][0]] = {"r": ["mut", specs_[o["a"][0]]["r"], o["a"][1]]}
                elif not o["op"].startswith("!"):
                    add(o, specs_)
    acts = [o for f in scn["plan"].get("faults", []) for o in f.get("ops", []) + ([f["o"]] if "o" in f else [])]
    for o in acts + scn.get("post", []) + scn.get("nested", []) + scn.get("probes", []):
        add(o, specs_)
    return out
