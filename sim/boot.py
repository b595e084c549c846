"""Process boot: fixes the environment, installs the seams, imports lie_nn from /repo's working tree.

Every source of nondeterminism lie_nn can touch is routed through the module-level
object ``SEAM`` before lie_nn is imported:

* linear-algebra routines (numpy.linalg.*, scipy.linalg.*)        -> SEAM.numeric
* random numbers (numpy.random.*, random.*, os.urandom, secrets)  -> SEAM.rng / SEAM.urandom
* clocks (time.*)                                                 -> SEAM.clock
* locks (threading.Lock/RLock/...)                                -> SimLock family
* iteration order of sets (only with set_seam=True)               -> AST import hook, SimSet

The seams are inert unless a simulated task is running and the caller is lie_nn code.
"""
import os
import sys

for _v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_v] = "1"
os.environ["JAX_PLATFORMS"] = "cpu"
sys.dont_write_bytecode = True

REPO = os.environ.get("LIE_NN_REPO", "/repo")
PREFIX = os.path.join(REPO, "lie_nn") + os.sep
HERE = os.path.dirname(os.path.abspath(__file__))


class Seam:
    """Installed hooks; None means pass through."""
    numeric = None      # fn(name, orig, args, kwargs) -> result
    rng = None          # fn(name, orig, args, kwargs) -> result
    clock = None        # fn(name, args) -> result
    block = None        # fn(try_acquire, what) -> None


SEAM = Seam()


def _from_repo(depth=2):
    f = sys._getframe(depth)
    # skip at most a few frames of numpy/scipy glue
    return f.f_code.co_filename.startswith(PREFIX)


NUMERIC = {}


def _wrap_numeric(mod, modname, name):
    orig = getattr(mod, name, None)
    if orig is None:
        return
    full = modname + "." + name

    def wrapper(*args, **kwargs):
        hook = SEAM.numeric
        if hook is not None and _from_repo():
            return hook(full, orig, args, kwargs)
        return orig(*args, **kwargs)

    wrapper.__name__ = name
    wrapper.__qualname__ = name
    wrapper.__module__ = getattr(orig, "__module__", modname)
    wrapper.__doc__ = getattr(orig, "__doc__", None)
    wrapper.__wrapped__ = orig
    wrapper._sim_seam = full
    NUMERIC[full] = orig
    setattr(mod, name, wrapper)


NP_LINALG = ("eigh eig eigvals eigvalsh svd svdvals qr pinv inv solve lstsq cholesky matrix_rank cond "
             "det slogdet norm matrix_power").split()
SP_LINALG = ("expm sqrtm logm eigh eig svd qr schur null_space orth inv pinv solve lstsq block_diag "
             "cholesky").split()
NP_RANDOM = ("rand randn random random_sample uniform normal standard_normal randint choice permutation "
             "shuffle exponential beta").split()
PY_RANDOM = "random randint randrange uniform gauss choice choices shuffle sample getrandbits".split()
CLOCKS = "time time_ns monotonic monotonic_ns perf_counter perf_counter_ns process_time sleep".split()


def _wrap_rng(mod, modname, name):
    orig = getattr(mod, name, None)
    if orig is None:
        return
    full = modname + "." + name

    def wrapper(*args, **kwargs):
        hook = SEAM.rng
        if hook is not None and _from_repo():
            return hook(full, orig, args, kwargs)
        return orig(*args, **kwargs)

    wrapper.__name__ = name
    wrapper.__wrapped__ = orig
    wrapper._sim_seam = full
    setattr(mod, name, wrapper)


def _wrap_clock(mod, name):
    orig = getattr(mod, name, None)
    if orig is None:
        return

    def wrapper(*args):
        hook = SEAM.clock
        if hook is not None and _from_repo():
            return hook(name, args)
        return orig(*args)

    wrapper.__name__ = name
    wrapper._sim_seam = "time." + name
    setattr(mod, name, wrapper)


class SimLock:
    """A lock whose waiting is decided by the simulator (plain non-blocking test outside it)."""
    reentrant = False

    def __init__(self):
        self._owner = None
        self._count = 0

    def _me(self):
        import threading
        return threading.get_ident()

    def _try(self):
        if self._owner is None or (self.reentrant and self._owner == self._me()):
            self._owner = self._me()
            self._count += 1
            return True
        return False

    def acquire(self, blocking=True, timeout=-1):
        if self._try():
            return True
        if not blocking:
            return False
        if SEAM.block is None:
            raise RuntimeError("deadlock: lock held outside the simulation")
        if timeout is not None and timeout >= 0:
            # a timed wait: let the others run once, then time out (simulated time has no cost)
            SEAM.block(self._try, "lock", once=True)
            return self._owner == self._me()
        SEAM.block(self._try, "lock")
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        self._count -= 1
        if self._count <= 0:
            self._count = 0
            self._owner = None

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def __deepcopy__(self, memo):
        raise TypeError("cannot copy lock")

    def __reduce__(self):
        raise TypeError("cannot pickle 'lock' object")

    # threading.Condition protocol
    def _is_owned(self):
        return self._owner == self._me()


class SimRLock(SimLock):
    reentrant = True

    def _release_save(self):
        c = self._count
        self._count = 0
        self._owner = None
        return c

    def _acquire_restore(self, c):
        self.acquire()
        self._count = c


def _install_locks():
    import threading
    o_lock, o_rlock = threading.Lock, threading.RLock

    def Lock():
        return SimLock() if _from_repo() else o_lock()

    def RLock(*a, **k):
        return SimRLock() if _from_repo() else o_rlock(*a, **k)

    def _sem(orig):
        def Semaphore(value=1):
            if not _from_repo():
                return orig(value)
            return SimSemaphore(value)
        return Semaphore

    threading.Lock = Lock
    threading.RLock = RLock
    threading.Semaphore = _sem(threading.Semaphore)
    threading.BoundedSemaphore = _sem(threading.BoundedSemaphore)


class SimSemaphore:
    def __init__(self, value=1):
        self._v = value

    def _try(self):
        if self._v > 0:
            self._v -= 1
            return True
        return False

    def acquire(self, blocking=True, timeout=None):
        if self._try():
            return True
        if not blocking:
            return False
        if SEAM.block is None:
            raise RuntimeError("deadlock: semaphore held outside the simulation")
        SEAM.block(self._try, "semaphore")
        return True

    def release(self, n=1):
        self._v += n

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


# ---------------------------------------------------------------- set-order seam
class _Order:
    seed = None     # None: natural order


ORDER = _Order()


def _mix(seed, h):
    x = (h ^ (seed * 0x9E3779B97F4A7C15)) & 0xFFFFFFFFFFFFFFFF
    x = ((x ^ (x >> 30)) * 0xBF58476D1CE4E5B9) & 0xFFFFFFFFFFFFFFFF
    x = ((x ^ (x >> 27)) * 0x94D049BB133111EB) & 0xFFFFFFFFFFFFFFFF
    return x ^ (x >> 31)


def _ordered(base_iter):
    items = list(base_iter)
    if ORDER.seed is None:
        return iter(items)
    s = ORDER.seed
    return iter([x for _, _, x in sorted((_mix(s, hash(x)), i, x) for i, x in enumerate(items))]
                if _unique(items, s) else items)


def _unique(items, s):
    return len({(_mix(s, hash(x)), i) for i, x in enumerate(items)}) == len(items)


def _make_sets():
    bset, bfro = set, frozenset

    def binop(name, base, wrap):
        op = getattr(base, name)

        def f(self, *o):
            r = op(self, *o)
            return r if r is NotImplemented else wrap()(r)
        f.__name__ = name
        return f

    class MetaSet(type):
        def __instancecheck__(cls, x):
            return isinstance(x, bset)

    class MetaFro(type):
        def __instancecheck__(cls, x):
            return isinstance(x, bfro)

    class SimSet(bset, metaclass=MetaSet):
        def __iter__(self):
            return _ordered(bset.__iter__(self))

        def pop(self):
            if ORDER.seed is None:
                return bset.pop(self)
            for x in self:
                self.discard(x)
                return x
            raise KeyError("pop from an empty set")

        def __reduce__(self):
            return (bset, (list(self),))

    class SimFrozenSet(bfro, metaclass=MetaFro):
        def __iter__(self):
            return _ordered(bfro.__iter__(self))

        def __reduce__(self):
            return (bfro, (list(self),))

    names = "union intersection difference symmetric_difference copy __or__ __and__ __sub__ __xor__ __ror__ __rand__ __rsub__ __rxor__".split()
    for n in names:
        if hasattr(bset, n):
            setattr(SimSet, n, binop(n, bset, lambda: SimSet))
        if hasattr(bfro, n):
            setattr(SimFrozenSet, n, binop(n, bfro, lambda: SimFrozenSet))
    return SimSet, SimFrozenSet


SimSet, SimFrozenSet = _make_sets()


def _install_set_hook():
    """Import lie_nn from source with every set construction replaced by an order-seeded set."""
    import ast
    import importlib.abc
    import importlib.machinery

    class T(ast.NodeTransformer):
        def visit_Set(self, node):
            self.generic_visit(node)
            return ast.copy_location(ast.Call(ast.Name("_sim_set_", ast.Load()),
                                              [ast.List(node.elts, ast.Load())], []), node)

        def visit_SetComp(self, node):
            self.generic_visit(node)
            return ast.copy_location(ast.Call(ast.Name("_sim_set_", ast.Load()),
                                              [ast.ListComp(node.elt, node.generators)], []), node)

        def visit_Name(self, node):
            if isinstance(node.ctx, ast.Load) and node.id in ("set", "frozenset"):
                return ast.copy_location(
                    ast.Name("_sim_set_" if node.id == "set" else "_sim_frozenset_", ast.Load()), node)
            return node

    class Loader(importlib.machinery.SourceFileLoader):
        def get_code(self, fullname):
            path = self.get_filename(fullname)
            tree = ast.parse(self.get_data(path), path)
            tree = ast.fix_missing_locations(T().visit(tree))
            return compile(tree, path, "exec", dont_inherit=True)

        def exec_module(self, module):
            module.__dict__["_sim_set_"] = SimSet
            module.__dict__["_sim_frozenset_"] = SimFrozenSet
            super().exec_module(module)

    class Finder(importlib.abc.MetaPathFinder):
        def find_spec(self, name, path, target=None):
            if name != "lie_nn" and not name.startswith("lie_nn."):
                return None
            spec = importlib.machinery.PathFinder.find_spec(name, path)
            if spec is not None and spec.origin and spec.origin.endswith(".py"):
                spec.loader = Loader(name, spec.origin)
            return spec

    sys.meta_path.insert(0, Finder())


_booted = False


def boot(set_seam=False):
    global _booted
    if _booted:
        return
    _booted = True
    import warnings
    import numpy as np
    import scipy.linalg
    import sympy  # noqa: F401  (so that lie_nn's import is the only thing left to load)
    import multipledispatch  # noqa: F401
    import random
    import time

    for n in NP_LINALG:
        _wrap_numeric(np.linalg, "numpy.linalg", n)
    for n in SP_LINALG:
        _wrap_numeric(scipy.linalg, "scipy.linalg", n)
    for n in NP_RANDOM:
        _wrap_rng(np.random, "numpy.random", n)
    _wrap_rng(np.random, "numpy.random", "seed")
    _wrap_rng(np.random, "numpy.random", "get_state")
    _wrap_rng(np.random, "numpy.random", "set_state")
    _wrap_rng(np.random, "numpy.random", "default_rng")
    _wrap_rng(np.random, "numpy.random", "RandomState")
    for n in PY_RANDOM + ["seed"]:
        _wrap_rng(random, "random", n)
    _wrap_rng(os, "os", "urandom")
    for n in CLOCKS:
        _wrap_clock(time, n)
    _install_locks()
    if set_seam:
        _install_set_hook()
    sys.path.insert(0, REPO)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        import lie_nn
        import importlib
        import pkgutil
        for m in pkgutil.walk_packages(lie_nn.__path__, "lie_nn."):
            if "test" not in m.name.rsplit(".", 1)[-1]:
                try:
                    importlib.import_module(m.name)
                except ImportError:
                    pass
    warnings.simplefilter("ignore")     # Python warnings are not output of the library
    assert os.path.realpath(lie_nn.__file__).startswith(os.path.realpath(PREFIX)), lie_nn.__file__
    return lie_nn
