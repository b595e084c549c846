"""Random numbers lie_nn draws are served from a stream owned by the (task, operation)."""
import random as _random

import numpy as np


class Stream:
    def __init__(self, seed, mode="plain"):
        self.np = np.random.RandomState(seed)
        self.py = _random.Random(seed)
        self.mode = mode
        self.lit = None
        self.draws = 0
        self.log = []


CUR = {}        # task idx (or None) -> Stream


def set_stream(key, stream):
    CUR[key] = stream


def adversarial(a, mode, st):
    """Reshape a batch of uniform draws into an unusual but possible one."""
    a = np.array(a, dtype=float)
    if a.ndim != 1 or a.size == 0 or mode == "plain":
        return a
    if mode == "lit":
        return np.array(st.lit, dtype=float) if st.lit is not None and len(st.lit) == a.size else a
    r = st.py
    if mode == "close":          # draws close to each other
        base = r.random()
        a = np.clip(base + (a - 0.5) * 1e-3, 0, 1 - 2**-53)
    elif mode == "tiny":         # all draws near zero
        a = a * 1e-3
    elif mode == "onehot":       # one large, the others small
        k = r.randrange(a.size)
        a = a * 1e-3
        a[k] = 0.5 + r.random() / 2
    elif mode == "sorted":
        a = np.sort(a)
    elif mode == "high":
        a = 1 - 2**-53 - a * 1e-3
    return a


def draw(sim, t, full, args, kwargs):
    key = None if t is None else t.idx
    st = CUR.get(key)
    if st is None:
        st = CUR[key] = Stream(12345)
    st.draws += 1
    st.log.append(full)
    mod, name = full.rsplit(".", 1)
    if mod == "os":
        return bytes(st.py.getrandbits(8) for _ in range(args[0]))
    if mod == "random":
        return getattr(st.py, name)(*args, **kwargs)
    if name == "default_rng":
        if args or kwargs:
            st.log[-1] = full + ":seeded"
        s = args[0] if args else st.py.getrandbits(32)
        return np.random.Generator(np.random.PCG64(s)) if not isinstance(s, np.random.Generator) else s
    if name == "RandomState":
        if args or kwargs:
            st.log[-1] = full + ":seeded"
        cls = type(st.np)
        return cls(*args, **kwargs) if args else cls(st.py.getrandbits(32))
    if name == "seed":
        st.np = type(st.np)(*args, **kwargs) if args else st.np
        return None
    if mod == "numpy.random" and not hasattr(st.np, name):
        raise AttributeError(name)
    out = getattr(st.np, name)(*args, **kwargs)
    if name in ("rand", "random", "random_sample", "uniform") and isinstance(out, np.ndarray):
        out = adversarial(out, st.mode, st)
    return out
