"""The simulated linear-algebra backend: any result a backward-stable LAPACK could have returned.

Every call from lie_nn into numpy.linalg / scipy.linalg goes through SEAM.numeric. In a perturbed
configuration the real routine is run on an input moved by a few units in the last place (normwise
backward error 4 eps), which rotates the vectors inside degenerate eigenspaces at random, and the
freedom of the result is then exercised: phases of eigenvectors and singular vectors, the order of
unordered spectra, the basis of null spaces.
"""
import numpy as np

from . import boot

EPS = 4 * 2.220446049250313e-16


class Backend:
    def __init__(self, seed, amount=1.0, kinds=("round", "phase", "order")):
        self.r = np.random.RandomState(seed)
        self.amount = amount
        self.kinds = kinds
        self.calls = 0
        self.count = {}

    def hit(self, k):
        self.count[k] = self.count.get(k, 0) + 1

    def noise(self, A, herm=False):
        A = np.asarray(A)
        if "round" not in self.kinds or A.dtype.kind not in "fc" or A.size == 0 or not np.isfinite(A).all():
            return A
        E = self.r.standard_normal(A.shape)
        if A.dtype.kind == "c":
            E = E + 1j * self.r.standard_normal(A.shape)
        if herm:
            E = (E + np.conj(np.swapaxes(E, -1, -2))) / 2
        n = np.sqrt((np.abs(E) ** 2).sum()) or 1.0
        self.hit("rounding")
        return A + E * (EPS * self.amount * np.sqrt((np.abs(A) ** 2).sum()) / n)

    def phase(self, n, kind):
        if "phase" not in self.kinds:
            return np.ones(n)
        self.hit("phase")
        return np.exp(2j * np.pi * self.r.random_sample(n)) if kind == "c" else self.r.choice([-1.0, 1.0], n)

    def call(self, name, orig, args, kwargs):
        self.calls += 1
        short = name.rsplit(".", 1)[1]
        if not args:
            return orig(*args, **kwargs)
        A, rest = args[0], args[1:]
        try:
            A = np.asarray(A)
        except Exception:
            return orig(*args, **kwargs)
        sp = name.startswith("scipy")
        if short == "eigh":
            if sp and (rest or kwargs):
                return orig(*args, **kwargs)
            out = orig(self.noise(A, True), *rest, **kwargs)
            v = out[1]
            v = v * self.phase(v.shape[-1], v.dtype.kind)
            return type(out)(out[0], v) if hasattr(out, "_fields") else (out[0], v)
        if short == "eig":
            if sp and (rest or kwargs):
                return orig(*args, **kwargs)
            out = orig(self.noise(A), *rest, **kwargs)
            w, v = out[0], out[1]
            if v.dtype.kind == "c" and A.dtype.kind == "f":
                return out                      # conjugate pairs of a real matrix: leave LAPACK's convention
            v = v * self.phase(v.shape[-1], v.dtype.kind)
            if v.ndim == 2 and "order" in self.kinds:
                self.hit("order")
                p = self.r.permutation(len(w))
                w, v = w[p], v[:, p]
            return type(out)(w, v) if hasattr(out, "_fields") else (w, v)
        if short == "eigvals":
            w = orig(self.noise(A), *rest, **kwargs)
            if w.ndim == 1 and "order" in self.kinds:
                self.hit("order")
                w = w[self.r.permutation(len(w))]
            return w
        if short == "eigvalsh":
            return orig(self.noise(A, True), *rest, **kwargs)
        if short == "svd":
            out = orig(self.noise(A), *rest, **kwargs)
            if not isinstance(out, tuple):
                return out
            U, s, V = out[0], out[1], out[2]
            k = s.shape[-1]
            if U.ndim == 2:
                ph = self.phase(k, U.dtype.kind)
                U, V = U.copy(), V.copy()
                U[:, :k] = U[:, :k] * ph
                V[:k] = np.conj(ph)[:, None] * V[:k]
            return type(out)(U, s, V) if hasattr(out, "_fields") else (U, s, V)
        if short == "qr":
            out = orig(self.noise(A), *rest, **kwargs)
            if isinstance(out, tuple) and len(out) == 2 and out[0].ndim == 2:
                Q, R = out
                k = R.shape[0]
                ph = self.phase(Q.shape[1], Q.dtype.kind)
                if k == Q.shape[1]:
                    Q2, R2 = Q * ph, np.conj(ph)[:, None] * R
                    return type(out)(Q2, R2) if hasattr(out, "_fields") else (Q2, R2)
            return out
        if short in ("null_space", "orth"):
            out = orig(self.noise(A), *rest, **kwargs)
            k = out.shape[1]
            if k and "phase" in self.kinds:
                Z = self.r.standard_normal((k, k))
                if out.dtype.kind == "c":
                    Z = Z + 1j * self.r.standard_normal((k, k))
                self.hit("rotation")
                out = out @ np.linalg.qr(Z)[0]
            return out
        if short in ("inv", "pinv", "solve", "lstsq", "sqrtm", "expm", "logm", "det", "slogdet", "svdvals", "cond", "norm"):
            herm = False
            return orig(self.noise(A, herm), *rest, **kwargs)
        return orig(*args, **kwargs)


class install:
    def __init__(self, backend):
        self.b = backend

    def __enter__(self):
        boot.SEAM.numeric = self.b.call if self.b is not None else None
        return self.b

    def __exit__(self, *a):
        boot.SEAM.numeric = None
