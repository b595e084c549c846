"""Development helper: does the process that makes up scenarios ever run library code?

It must not: every run and every reference is forked from it, and they have to start with an unused library.
    purity.py [property ...]
"""
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import boot, props, runner  # noqa: E402

M = sys.monitoring
SEEN = set()


def start(code, off):
    if not code.co_filename.startswith(boot.PREFIX):
        return M.DISABLE
    k = code.co_qualname
    if k not in SEEN:
        SEEN.add(k)
        print("  runs", k, "from", [f"{os.path.basename(f.filename)}:{f.lineno}" for f in traceback.extract_stack()[-7:-2]], flush=True)


for pid in sys.argv[1:] or [f"S{i:02d}" for i in range(1, 18)]:
    prop = props.load(pid)
    boot.boot(set_seam=prop.set_seam)
    ME = os.getpid()
    M.use_tool_id(4, "purity")
    M.register_callback(4, M.events.PY_START, start)
    M.set_events(4, M.events.PY_START)
    SEEN.clear()
    print(pid, flush=True)
    real = runner.pool.fork_call

    def fc(fn, timeout=120.0):
        M.set_events(4, 0)
        try:
            return real(fn, timeout)
        finally:
            M.set_events(4, M.events.PY_START)
    runner.pool.fork_call = fc
    if hasattr(prop, "survey"):
        pass
    for s in range(int(os.environ.get("N", 150))):
        scn = prop.scenario(s + 17, runner.REFS, "quick")
        if scn and hasattr(prop, "refs_needed"):
            prop.refs_needed(scn)
        if scn and hasattr(prop, "signature"):
            pass
    runner.pool.fork_call = real
    M.set_events(4, 0)
    M.free_tool_id(4)
