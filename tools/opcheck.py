"""Development helper: how often does each operation of the catalogue succeed on the unchanged tree, and how does it fail?"""
import collections
import os
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import boot, pool, runner  # noqa: E402

boot.boot()
from sim import ops  # noqa: E402


def look(name):
    rng = random.Random(name)
    c = collections.Counter()
    for i in range(int(sys.argv[1]) if len(sys.argv) > 1 else 25):
        o = {"op": name, "a": ops.OPS[name].gen(ops.Ctx(rng)), "s": i}
        out = runner.REFS(o)["out"]
        c[out[0] if out[0] == "ok" else f"{out[1]}: {out[2][:70]}"] += 1
    return dict(c)


for n in ops.OPS:
    r = look(n)
    if set(r) != {"ok"}:
        print(n, r, flush=True)
