"""The simulator: cooperative real threads, one baton, every switch and fault decided by the plan.

A *task* is a Python thread running a harness function that calls lie_nn. sys.monitoring delivers an
event for every line (and call / return / yield; or every bytecode instruction) executed in lie_nn's
own files. Each event is one simulated step. Only the thread that holds the baton runs; at an event
the scheduler may hand the baton to another task, raise an injected exception at that very point,
or run a harness action (scribble over a buffer, snapshot global state, collect garbage, jump the
clock). Everything is derived from the plan, so one plan is one exactly repeatable execution.

Plan fields (all JSON):
  grain     "line" | "call" | "instr"
  sched     {"policy": "serial"|"random"|"pct"|"explicit", "seed": int, ...}
  faults    [{"task": i, "step": k, "kind": "exc", "exc": "KeyboardInterrupt"},
             {"task": i, "step": k, "kind": "act", "act": name, ...}]
  cap       maximum number of steps of one task
"""
import random
import sys
import threading
import types
import zlib

from . import boot, hot

M = sys.monitoring
E = M.events
TOOL = 3
BIG = 1 << 60


_numeric = set()


def is_numeric(fn):
    """Is this callable a numerical / allocating routine of the backend (numpy, scipy)?"""
    own = getattr(fn, "__self__", None)
    try:
        if fn in _numeric:
            return True
    except TypeError:
        pass
    if isinstance(fn, type):
        r = (fn.__module__ or "").split(".")[0] in ("numpy", "scipy") and not issubclass(fn, BaseException)
    else:
        mod = getattr(fn, "__module__", None)
        r = isinstance(mod, str) and mod.split(".")[0] in ("numpy", "scipy")
        if not r:
            r = type(own).__module__ == "numpy" if own is not None else type(fn).__module__ == "numpy"
    if r and (own is None or isinstance(own, types.ModuleType)):   # only what lives as long as the process anyway
        _numeric.add(fn)
    return r


class SimAbort(BaseException):
    """Base of the exceptions the simulator itself raises inside tasks."""


class SimDeadlock(SimAbort):
    pass


class SimCap(SimAbort):
    pass


class InjectedError(Exception):
    """An exception type lie_nn knows nothing about."""


class InjectedBase(BaseException):
    """A BaseException lie_nn knows nothing about (like trio.Cancelled or SystemExit)."""


def make_exc(name):
    import numpy as np
    tag = "simulated fault"
    return {
        "KeyboardInterrupt": lambda: KeyboardInterrupt(tag),
        "MemoryError": lambda: MemoryError(tag),
        "LinAlgError": lambda: np.linalg.LinAlgError(tag),
        "FloatingPointError": lambda: FloatingPointError(tag),
        "ValueError": lambda: ValueError(tag),
        "RecursionError": lambda: RecursionError(tag),
        "SystemExit": lambda: SystemExit(tag),
        "InjectedError": lambda: InjectedError(tag),
        "InjectedBase": lambda: InjectedBase(tag),
        "TimeoutError": lambda: TimeoutError(tag),
        "OSError": lambda: OSError(tag),
        "RuntimeError": lambda: RuntimeError(tag),
        "StopAsyncIteration": lambda: StopAsyncIteration(tag),
        "IndexError": lambda: IndexError(tag),
        "KeyError": lambda: KeyError(tag),
        "LookupError": lambda: LookupError(tag),
        "TypeError": lambda: TypeError(tag),
        "AttributeError": lambda: AttributeError(tag),
        "AssertionError": lambda: AssertionError(tag),
        "NotImplementedError": lambda: NotImplementedError(tag),
        "GeneratorExit": lambda: GeneratorExit(tag),
        "ZeroDivisionError": lambda: ZeroDivisionError(tag),
        "UserWarning": lambda: UserWarning(tag),
        "EOFError": lambda: EOFError(tag),
        "CouldNot": lambda: ValueError("Could not compute null space of dimension 1. Not enough constraints."),
    }[name]()


class Task:
    def __init__(self, idx, fn):
        self.idx = idx
        self.fn = fn
        self.steps = 0
        self.next = BIG        # next step at which the slow path runs
        self.done = False
        self.waiting = None    # (try_fn, what)
        self.sem = threading.Semaphore(0)
        self.result = None
        self.error = None
        self.faults = []       # pending, sorted by step
        self.thread = None
        self.quantum_end = BIG
        self.numcalls = 0
        self.shield = 0        # >0: harness-internal calls, no events counted
        self.parked = False
        self.numfaults = []
        self.numrest = {}
        self.at = []           # faults placed at source locations
        self.hot = 0
        self.op = -1
        self.op_start = 0


class Sim:
    cur_sim = None

    def __init__(self, plan, actions=None, step_hook=None):
        self.plan = plan
        self.grain = plan.get("grain", "line")
        self.cap = plan.get("cap", 400_000)
        self.actions = actions or {}
        self.tasks = []
        self.step = 0
        self.hash = 0
        self.cur = None
        self.main_sem = threading.Semaphore(0)
        self.segments = []      # recorded schedule [[task, until_step], ...]
        self.fired = {}         # fault kind -> count
        self.fired_list = []
        self.switches = 0
        self.switch_sig = 0
        self.aborting = None
        self.step_hook = step_hook
        self.clock_jump = 0.0
        self.loc = None
        self.violations = []
        self.every = plan.get("observe_every", 0)
        self.numlog = []        # numeric calls that go to the linear-algebra backend (locating runs only)
        self.locs = {} if plan.get("locate") else None
        self.numsites = {}
        self.hotset = None

    # -------------------------------------------------------------- construction
    def spawn(self, fn):
        t = Task(len(self.tasks), fn)
        self.tasks.append(t)
        return t

    # -------------------------------------------------------------- events
    def _events(self):
        ev = E.LINE | E.PY_START | E.PY_RESUME | E.PY_RETURN | E.PY_YIELD
        if self.grain in ("call", "instr") or self.plan.get("locate") or self.plan.get("num"):
            ev |= E.CALL
        if self.grain == "instr":
            ev |= E.INSTRUCTION
        return ev

    def _on_line(self, code, line):
        if not code.co_filename.startswith(boot.PREFIX):
            return M.DISABLE
        t = self.cur
        if t is None or t.shield:
            return
        t.steps += 1
        self.step += 1
        self.hash = (self.hash * 31 + line) & 0xFFFFFFFFFFFF
        if self.locs is not None:
            k = (code, line)
            v = self.locs.get(k)
            if v is None:
                self.locs[k] = [t.steps, t.steps]
            else:
                v[1] = t.steps
        if t.at:
            self._at(t, code, line)
        if self.hotset is not None:
            h = self.hotset.get(code)
            if h is None:
                h = self.hotset[code] = hot.lines(code)[0]
            if line in h:
                t.hot = 2 if self.grain == "line" else 8
            elif t.hot:
                t.hot -= 1
            if t.hot and self.hrng.random() < .5:
                t.quantum_end = t.next = t.steps
        if t.steps >= t.next:
            self._slow(t, code, line)

    def _at(self, t, code, line):
        """Faults placed at the n-th execution of a source line (or at the event after it)."""
        key = None
        for f in list(t.at):
            if f.get("armed"):
                t.at.remove(f)
                t.faults.insert(0, {**f, "step": t.steps})
                t.next = t.steps
                continue
            if f["at"][1] != line:
                continue
            key = key or hot.rel(code.co_filename)
            if f["at"][0] != key:
                continue
            f["left"] -= 1
            if f["left"] > 0:
                continue
            if f.get("after"):
                f["armed"] = True
            else:
                t.at.remove(f)
                t.faults.insert(0, {**f, "step": t.steps})
                t.next = t.steps

    def _on_call(self, code, off, fn, arg0):
        if not code.co_filename.startswith(boot.PREFIX):
            return M.DISABLE
        t = self.cur
        if t is None or t.shield:
            return
        if is_numeric(fn):
            t.numcalls += 1
            if self.locs is not None:
                seam = hasattr(fn, "_sim_seam")
                if seam and len(self.numlog) < 2000:
                    self.numlog.append(t.numcalls)
                t.shield += 1
                who, prot = hot.protector(sys._getframe(1))
                t.shield -= 1
                v = self.numsites.get((code, off, who))
                if v is None:
                    self.numsites[(code, off, who)] = [t.numcalls, t.numcalls, seam, prot, who or code.co_qualname]
                else:
                    v[1] = t.numcalls
            if t.numrest and (code, off) in t.numrest:
                e = t.numrest[code, off]
                self._count("backend:" + e)
                self.fired_list.append([t.idx, t.steps, e, getattr(fn, "__name__", str(fn))])
                raise self._mark(make_exc(e), self.fired_list[-1])
            while t.numfaults and t.numfaults[0]["n"] <= t.numcalls:
                t.shield += 1
                ok = hot.can_raise(sys._getframe(1))
                t.shield -= 1
                if not ok:
                    break
                f = t.numfaults.pop(0)
                if f.get("rest"):           # this call site keeps failing
                    t.numrest[code, off] = f["exc"]
                self._count("backend:" + f["exc"])
                name = getattr(fn, "__name__", str(fn))
                self.fired_list.append([t.idx, t.steps, f["exc"], name])
                raise self._mark(make_exc(f["exc"]), self.fired_list[-1])
        if self.grain != "line":
            self._on_other(code, off)

    def _on_other(self, code, off, *a):
        if not code.co_filename.startswith(boot.PREFIX):
            return M.DISABLE
        t = self.cur
        if t is None or t.shield:
            return
        t.steps += 1
        self.step += 1
        if t.steps >= t.next:
            self._slow(t, code, -off)

    def point(self, label=0):
        """An explicit scheduling point in harness code (callbacks, sources)."""
        t = self.cur
        if t is None or t.shield:
            return
        t.steps += 1
        self.step += 1
        if t.steps >= t.next:
            self._slow(t, None, label)

    def _slow(self, t, code, where):
        if self.aborting is not None:
            raise self.aborting
        self.loc = (code.co_name if code is not None else "harness", where)
        if t.steps > self.cap:
            self.violations.append({"class": "no-progress", "detail": f"task {t.idx} still running after {self.cap} steps in {self.loc[0]}"})
            self.aborting = SimCap()
            raise self.aborting
        pending = None
        defer = []
        while t.faults and t.faults[0]["step"] <= t.steps:
            f = t.faults.pop(0)
            if f["kind"] == "exc":
                t.shield += 1
                ok = hot.can_raise(sys._getframe(2))
                t.shield -= 1
                if not ok:
                    defer.append({**f, "step": t.steps + 1})
                elif pending is None:
                    pending = f
                    self._count("exc:" + f["exc"])
                    entry = [t.idx, t.steps, f["exc"], self.loc[0]]
                    self.fired_list.append(entry)
            elif f["kind"] == "park":
                self._count("park")
                t.parked = True
                t.quantum_end = t.steps
            elif f["kind"] == "clock":
                self._count("clock-jump")
                self.clock_jump += f["by"]
            else:
                self._count("act:" + f["act"])
                self.fired_list.append([t.idx, t.steps, f["act"], self.loc[0]])
                t.shield += 1
                try:
                    self.actions[f["act"]](self, t, f)
                finally:
                    t.shield -= 1
        if defer:
            t.faults[:0] = defer
        if t.steps >= t.quantum_end:
            self._resched(t)
        if self.step_hook is not None and self.every:
            t.shield += 1
            try:
                self.step_hook(self, t)
            finally:
                t.shield -= 1
        self._arm(t)
        if pending is not None:
            t.shield += 1
            try:
                e = self._mark(make_exc(pending["exc"]), entry)
            finally:
                t.shield -= 1
            raise e

    @staticmethod
    def _mark(e, entry):
        e.sim_entry = entry
        return e

    def _count(self, k):
        self.fired[k] = self.fired.get(k, 0) + 1

    def _arm(self, t):
        n = min(t.quantum_end, self.cap + 1)
        if t.faults:
            n = min(n, t.faults[0]["step"])
        if self.every:
            n = min(n, t.steps + self.every)
        t.next = n

    # -------------------------------------------------------------- scheduling
    def _init_sched(self):
        s = self.plan.get("sched", {"policy": "serial"})
        self.policy = s.get("policy", "serial")
        self.rng = random.Random(s.get("seed", 0))
        self.sched = s
        n = len(self.tasks)
        if self.policy == "pct":
            pr = list(range(n))
            self.rng.shuffle(pr)
            self.prio = pr
            est = s.get("est", 2000)
            self.changes = sorted(self.rng.randrange(1, max(2, est)) for _ in range(s.get("depth", 2)))
        elif self.policy == "hot":
            self.hotset = {}
            self.hrng = random.Random(s.get("seed", 0) + 1)
        elif self.policy == "explicit":
            self.queue = [list(x) for x in s["segments"]]

    def _quantum(self, t):
        """Number of steps until the next scheduling decision for t (None: run on)."""
        if self.policy in ("random", "hot"):
            p = self.sched.get("p", 0.05)
            u = self.rng.random()
            import math
            return 1 + int(math.log(max(u, 1e-12)) / math.log(1.0 - p))
        if self.policy == "pct":
            while self.changes and self.changes[0] <= self.step:
                self.changes.pop(0)
                self.prio[t.idx] = -self.step - 1
            return (self.changes[0] - self.step) if self.changes else None
        return None

    def _pick(self, last):
        """Choose the next task to run among the runnable ones."""
        run = [t for t in self.tasks if not t.done]
        if not run:
            return None
        ready = [t for t in run if t.waiting is None or t.waiting[0]()]
        for t in ready:
            if t.waiting is not None:
                t.waiting = None
        if not ready:
            return "deadlock"
        if self.policy != "explicit":
            free = [t for t in ready if not t.parked]
            if not free:
                ready[0].parked = False
                free = [ready[0]]
            ready = free
        if self.policy == "explicit":
            while self.queue:
                i, until = self.queue[0]
                if i >= len(self.tasks) or self.tasks[i] not in ready or (until >= 0 and self.tasks[i].steps >= until):
                    self.queue.pop(0)
                    continue
                t = self.tasks[i]
                t.quantum_end = until if until >= 0 else BIG
                self.queue.pop(0)
                return t
            t = ready[0]
            t.quantum_end = BIG
            return t
        if self.policy == "serial":
            t = last if last in ready else ready[0]
        elif self.policy in ("random", "hot"):
            t = ready[self.rng.randrange(len(ready))]
        elif self.policy == "pct":
            t = max(ready, key=lambda t: self.prio[t.idx])
        else:
            raise ValueError(self.policy)
        q = self._quantum(t)
        t.quantum_end = BIG if q is None else t.steps + max(1, q)
        return t

    def _close_segment(self, t, until):
        self.segments.append([t.idx, until])

    def _resched(self, t):
        nxt = self._pick(t)
        if nxt is t:
            self._arm(t)
            return
        if nxt == "deadlock":       # cannot happen for a task that is ready itself
            raise RuntimeError("scheduler: running task not ready")
        self._switch(t, nxt)

    def _switch(self, t, nxt):
        self._close_segment(t, t.steps)
        self.switches += 1
        self.switch_sig = zlib.crc32(f"{t.idx}:{self.loc}:{nxt.idx}".encode(), self.switch_sig)
        self._arm(nxt)
        self.cur = nxt
        nxt.sem.release()
        t.sem.acquire()
        # resumed
        if self.aborting is not None:
            raise self.aborting

    def block(self, try_fn, what, once=False):
        t = self.cur
        if t is None:
            raise RuntimeError("lock contention outside the simulation")
        if once:
            others = [x for x in self.tasks if not x.done and x is not t and x.waiting is None]
            if others:
                self._switch(t, others[0])
            try_fn()
            return
        t.waiting = (try_fn, what, False)
        nxt = self._pick(t)
        if nxt == "deadlock":
            t.waiting = None
            self.violations.append({"class": "deadlock", "detail": f"task {t.idx} waits for a {what} for ever"})
            self.aborting = SimDeadlock()
            raise self.aborting
        if nxt is t:
            return
        self._switch(t, nxt)

    def begin_op(self, t, j):
        """Called by a task at the start of its j-th operation: arms the faults placed in it."""
        t.op = j
        t.op_start = t.steps
        t.numrest = {}
        mine = [f for f in self.plan.get("faults", []) if f["task"] == t.idx and f["op"] == j]
        t.at = [{**f, "left": f.get("nth", 1)} for f in mine if "at" in f]
        new = [{**f, "step": t.steps + f["step"]} for f in mine if "at" not in f]
        t.numfaults = sorted(({**f, "n": t.numcalls + f["step"] - t.steps} for f in new if f["kind"] == "num"), key=lambda f: f["n"])
        t.faults = sorted((f for f in new if f["kind"] != "num"), key=lambda f: f["step"])
        self._arm(t)

    # -------------------------------------------------------------- running
    def _body(self, t):
        t.sem.acquire()
        try:
            if self.aborting is None:
                t.result = t.fn(self, t)
        except SimAbort as e:
            t.error = e
        except BaseException as e:  # a bug in the harness: fn catches everything lie_nn raises
            t.error = e
        t.done = True
        self._close_segment(t, -1)
        nxt = None
        if self.aborting is not None:
            rest = [x for x in self.tasks if not x.done]
            nxt = rest[0] if rest else None
        else:
            nxt = self._pick(t)
            if nxt == "deadlock":
                self.violations.append({"class": "deadlock", "detail": "every remaining task waits for a lock"})
                self.aborting = SimDeadlock()
                nxt = [x for x in self.tasks if not x.done][0]
        if nxt is None:
            self.cur = None
            self.main_sem.release()
        else:
            if self.aborting is not None:
                nxt.next = 0
            else:
                self._arm(nxt)
            self.cur = nxt
            nxt.sem.release()

    def run(self):
        self._init_sched()
        for t in self.tasks:
            t.thread = threading.Thread(target=self._body, args=(t,), daemon=True)
            t.thread.start()
        Sim.cur_sim = self
        boot.SEAM.block = self.block
        self._clock0 = 1_000_000.0
        boot.SEAM.clock = self._clock
        boot.SEAM.rng = self._rng
        if M.get_tool(TOOL) is None:
            M.use_tool_id(TOOL, "lie_nn-sim")
        ev = self._events()
        M.register_callback(TOOL, E.LINE, self._on_line)
        M.register_callback(TOOL, E.CALL, self._on_call)
        for e in (E.PY_START, E.PY_RESUME, E.PY_RETURN, E.PY_YIELD, E.INSTRUCTION):
            M.register_callback(TOOL, e, self._on_other)
        first = self._pick(self.tasks[0])
        self._arm(first)
        old_hook, sys.unraisablehook = sys.unraisablehook, self._unraisable
        M.set_events(TOOL, ev)
        try:
            self.cur = first
            first.sem.release()
            self.main_sem.acquire()
        finally:
            M.set_events(TOOL, 0)
            sys.unraisablehook = old_hook
            boot.SEAM.block = None
            boot.SEAM.clock = None
            boot.SEAM.rng = None
            Sim.cur_sim = None
        for t in self.tasks:
            t.thread.join()
        for t in self.tasks:
            if t.error is not None and not isinstance(t.error, SimAbort):
                raise t.error
        return self

    def _unraisable(self, info):
        """The interpreter swallowed an exception (it does so while it discards a generator): an injected one that ends
        here was never the caller's to see, so the fault counts as not delivered."""
        entry = getattr(info.exc_value, "sim_entry", None)
        if entry is not None:
            self._count("undelivered")
            entry[2] = "lost:" + entry[2]

    # -------------------------------------------------------------- clock and randomness seams
    def now(self):
        return self._clock0 + self.step * 1e-6 + self.clock_jump

    def _clock(self, name, args):
        self._count("clock-read")
        if name == "sleep":
            self.clock_jump += args[0]
            return None
        t = self.now()
        return int(t * 1e9) if name.endswith("_ns") else t

    def _rng(self, full, orig, args, kwargs):
        """Random numbers drawn by lie_nn: one private stream per operation of a task."""
        import numpy as np
        from . import rngseam
        t = self.cur
        return rngseam.draw(self, t, full, args, kwargs)
