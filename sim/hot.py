"""Where does the code under test touch state that outlives a call, or catch exceptions?

Used only to *guide* the search (which operations to combine, where to switch threads, where to inject faults);
every verdict is made on observable behaviour. In the shipped code nearly nothing is hot.
"""
import ast
import collections
import dis
import functools
import os
import sys
import types

import numpy as np

from . import boot

# memoised in the library as shipped, with values nobody changes: no reason to look there more than elsewhere
KNOWN_WARM = {"full_base_fn", "reduce_permutation_matrix", "reduce_permutation_base", "germinate_perm_repr"}
KNOWN_GUARD = {"limit_denominator", "mul_rep", "check_representation_triplet"}
CTOR = {"__init__", "__post_init__", "__new__", "__setstate__", "<module>"}
_INFO = None
_LINES = {}


def _mutable(v):
    if type(v).__name__ in ("_tuplegetter", "member_descriptor", "getset_descriptor"):
        return False
    if isinstance(v, (dict, list, set, bytearray, np.ndarray, collections.deque, types.GeneratorType)):
        return True
    if isinstance(v, (types.ModuleType, types.FunctionType, types.BuiltinFunctionType, type, str, bytes, int, float, complex, tuple, frozenset, type(None))):
        return False
    m = (type(v).__module__ or "").split(".")[0]
    return m in ("lie_nn", "threading", "_thread", "itertools", "collections", "weakref", "contextvars", "_contextvars", "random", "numpy", "sim", "types", "queue")


class _Info:
    def __init__(self):
        self.globals = {}       # module file -> hot global names
        self.attrs = set()
        self.warm = set()       # code objects behind memoising wrappers
        self.warm_names = set()
        self.defaults = {}      # code -> argument names with mutable defaults
        self.cells = {}         # code -> free variables with mutable content
        codes = []
        seen = set()

        def walk_code(c):
            if c in seen:
                return
            seen.add(c)
            codes.append(c)
            for k in c.co_consts:
                if isinstance(k, types.CodeType):
                    walk_code(k)

        def func(f):
            walk_code(f.__code__)
            d = set()
            names = f.__code__.co_varnames[:f.__code__.co_argcount]
            for n, v in zip(names[len(names) - len(f.__defaults__ or ()):], f.__defaults__ or ()):
                if _mutable(v):
                    d.add(n)
            for n, v in (f.__kwdefaults__ or {}).items():
                if _mutable(v):
                    d.add(n)
            if d:
                self.defaults[f.__code__] = d
            fv = set()
            for n, c in zip(f.__code__.co_freevars, f.__closure__ or ()):
                try:
                    v = c.cell_contents
                except ValueError:
                    continue
                if _mutable(v):
                    fv.add(n)
                if isinstance(v, types.FunctionType) and v.__code__.co_filename.startswith(boot.PREFIX) and v.__code__ not in seen:
                    func(v)
            if fv:
                self.cells[f.__code__] = fv

        def obj(v, depth=0):
            if depth > 4:
                return
            if isinstance(v, (staticmethod, classmethod)):
                return obj(v.__func__, depth + 1)
            if isinstance(v, property):
                for f in (v.fget, v.fset):
                    if f is not None:
                        obj(f, depth + 1)
                return
            if isinstance(v, functools.cached_property):
                self.warm.add(v.func.__code__)
                return obj(v.func, depth + 1)
            if hasattr(v, "cache_clear") and hasattr(v, "__wrapped__"):
                w = v.__wrapped__
                if isinstance(w, types.FunctionType):
                    self.warm.add(w.__code__)
                    self.warm_names.add(w.__name__)
                return obj(w, depth + 1)
            if isinstance(v, types.FunctionType):
                if v.__code__.co_filename.startswith(boot.PREFIX):
                    func(v)
                w = getattr(v, "__wrapped__", None)
                if w is not None:
                    obj(w, depth + 1)
                return
            if isinstance(v, functools.partial):
                return obj(v.func, depth + 1)
            if type(v).__name__ == "Dispatcher":
                for f in list(v.funcs.values()):
                    obj(f, depth + 1)
                return
            if isinstance(v, type) and (v.__module__ or "").startswith("lie_nn") and v not in seen:
                seen.add(v)
                for n, x in list(vars(v).items()):
                    if isinstance(x, (types.FunctionType, staticmethod, classmethod, property, functools.cached_property)) or hasattr(x, "cache_clear") or hasattr(x, "__wrapped__"):
                        obj(x, depth + 1)
                    elif not (n.startswith("__") and n.endswith("__")) and n not in ("_field_defaults", "_fields", "_field_types") and _mutable(x):
                        self.attrs.add(n)

        mods = [m for k, m in sorted(sys.modules.items()) if k.startswith("lie_nn") and getattr(m, "__file__", None) and m.__file__.startswith(boot.PREFIX)]
        for m in mods:
            for v in list(vars(m).values()):
                obj(v)
        stored = {}
        for c in codes:
            for i in dis.get_instructions(c):
                if i.opname in ("STORE_GLOBAL", "DELETE_GLOBAL"):
                    stored.setdefault(c.co_filename, set()).add(i.argval)
                elif i.opname in ("STORE_ATTR", "DELETE_ATTR") and c.co_name not in CTOR:
                    self.attrs.add(i.argval)
        for m in mods:
            names = {n for n, v in vars(m).items() if not n.startswith("__") and _mutable(v)}
            self.globals.setdefault(m.__file__, set()).update(names | stored.get(m.__file__, set()))
        self.codes = codes


def info():
    global _INFO
    if _INFO is None:
        _INFO = _Info()
    return _INFO


SPECIAL = {"__setattr__", "setattr", "__dict__", "globals", "vars", "__setstate__", "seterr", "seterrcall", "set_printoptions", "seed", "setrecursionlimit",
           "simplefilter", "filterwarnings", "catch_warnings", "environ", "chdir", "set_state", "setbufsize", "acquire", "release", "setflags", "putenv", "setswitchinterval"}


def lines(code):
    """(hot lines, is this the body of a memoised function?)"""
    r = _LINES.get(code)
    if r is not None:
        return r
    inf = info()
    hot = set()
    g = inf.globals.get(code.co_filename, ())
    d = inf.defaults.get(code, ())
    cells = inf.cells.get(code, ())
    ctor = code.co_name in CTOR
    line = None
    for i in dis.get_instructions(code):
        if i.positions is not None and i.positions.lineno is not None:
            line = i.positions.lineno
        op, a = i.opname, i.argval
        h = False
        if op in ("STORE_GLOBAL", "DELETE_GLOBAL"):
            h = True
        elif op in ("LOAD_GLOBAL", "LOAD_NAME"):
            h = a in g or a in SPECIAL
        elif op in ("STORE_ATTR", "DELETE_ATTR"):
            h = not ctor
        elif op in ("LOAD_ATTR", "LOAD_METHOD", "LOAD_SUPER_ATTR"):
            h = a in inf.attrs or a in SPECIAL
        elif op.startswith("LOAD_FAST"):
            h = a in d if isinstance(a, str) else any(x in d for x in a)
        elif op == "LOAD_DEREF":
            h = a in cells
        elif op == "STORE_DEREF":
            h = a in code.co_freevars
        if h and line is not None:
            hot.add(line)
    r = (frozenset(hot), code in inf.warm and code.co_name not in KNOWN_WARM)
    _LINES[code] = r
    return r


# ------------------------------------------------------------------ lines at which no asynchronous exception can arrive
_UNSAFE = {}
_GUARDED = {}


def _parse(filename):
    if filename in _UNSAFE:
        return
    bad, body = set(), set()
    try:
        tree = ast.parse(open(filename).read())
    except (OSError, SyntaxError):
        tree = ast.parse("")
    for n in ast.walk(tree):
        if isinstance(n, (ast.With, ast.AsyncWith)):
            bad.update(range(n.lineno, n.body[0].lineno))
            body.update(range(n.body[0].lineno, n.body[-1].end_lineno + 1))
        elif isinstance(n, (ast.Try, ast.TryStar)):
            bad.update(range(n.lineno, n.body[0].lineno))
            body.update(range(n.body[0].lineno, n.body[-1].end_lineno + 1))
            for h in n.handlers:
                bad.update(range(h.lineno, h.end_lineno + 1))
            if n.finalbody:
                bad.update(range(n.finalbody[0].lineno - 1, n.finalbody[-1].end_lineno + 1))
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.name in ("__exit__", "__enter__", "__aexit__", "__del__"):
            bad.update(range(n.lineno, n.end_lineno + 1))
        for f in ("body", "orelse", "finalbody"):
            L = getattr(n, f, None)
            if isinstance(L, list):
                for x, y in zip(L, L[1:]):      # `old = acquire()` right before `try:`
                    if isinstance(y, ast.Try) and y.finalbody:
                        bad.update(range(x.lineno, x.end_lineno + 1))
    _UNSAFE[filename], _GUARDED[filename] = bad, body - bad


def unsafe(filename):
    """Lines of `with` and `try` statements themselves and of clean-up code: CPython delivers no asynchronous
    exception between the end of the body and __exit__, and a fault inside clean-up code is nobody's fault."""
    _parse(filename)
    return _UNSAFE[filename]


def guarded(filename):
    """Lines inside `with` and `try` bodies."""
    _parse(filename)
    return _GUARDED[filename]


_CLOSE = {}


def closing(code, off):
    """Is this instruction part of the hidden handler with which a generator that is being discarded dies?
    CPython swallows what is raised there."""
    if not code.co_flags & 0x20:
        return False
    r = _CLOSE.get(code)
    if r is None:
        L = list(dis.get_instructions(code))
        r = _CLOSE[code] = {j.offset for i, n in zip(L, L[1:]) if i.opname == "CALL_INTRINSIC_1" and i.arg == 3 and n.opname == "RERAISE" for j in (i, n)}
    return off in r


def can_raise(frame):
    """May a simulated asynchronous exception be raised here? Not while any lie_nn frame is in clean-up code."""
    while frame is not None:
        c = frame.f_code
        if c.co_filename.startswith(boot.PREFIX) and (frame.f_lineno in unsafe(c.co_filename) or closing(c, frame.f_lasti)):
            return False
        frame = frame.f_back
    return True


_OFF = {}


def line_of(code, off):
    m = _OFF.get(code)
    if m is None:
        m = _OFF[code] = list(code.co_lines())
    for a, b, l in m:
        if a <= off < b:
            return l
    return None


# ------------------------------------------------------------------ calls inside a try body with an except clause
_PROT = {}


def protected(code, off):
    """None, or the names of the exception classes some enclosing `except` around this instruction mentions ([] = anything)."""
    t = _PROT.get(code)
    if t is None:
        t = []
        try:
            table = dis._parse_exception_table(code)
            L = list(dis.get_instructions(code))
            ins = {i.offset: k for k, i in enumerate(L)}
            for e in table:
                k = ins.get(e.target)
                if k is None or L[k].opname != "PUSH_EXC_INFO":
                    continue
                names, kind = [], None
                for i in L[k:k + 12]:
                    if i.opname == "WITH_EXCEPT_START" or (i.opname == "CALL_INTRINSIC_1"):
                        kind = "with"
                        break
                    if i.opname in ("LOAD_GLOBAL", "LOAD_ATTR"):
                        names.append(i.argval)
                    if i.opname == "CHECK_EXC_MATCH":
                        kind = "except"
                        break
                    if i.opname in ("RERAISE", "COPY") and kind is None:
                        kind = "finally"
                        break
                    if i.opname == "POP_TOP":
                        kind, names = "except", []
                        break
                if kind == "except":
                    t.append((e.start, e.end, names))
        except Exception:
            t = []
        _PROT[code] = t
    out = None
    for a, b, names in t:
        if a <= off < b:
            out = (out or []) + names
    return out


def protector(frame):
    """(name of the nearest function of the library on the stack with an `except` around the running call, the classes it mentions)."""
    while frame is not None and frame.f_code.co_filename.startswith(boot.PREFIX):
        p = protected(frame.f_code, frame.f_lasti)
        if p is not None:
            return frame.f_code.co_qualname, p
        frame = frame.f_back
    return None, None


def residue():
    """A digest of what the library keeps in module globals and class attributes (guidance: has this run left something behind?)."""
    def d(v, depth=0):
        if v is None or isinstance(v, (bool, int, float, complex, str, bytes)):
            return v
        if isinstance(v, np.ndarray):
            return ("a", v.shape, v.tobytes()[:256])
        if isinstance(v, (list, tuple, collections.deque)) and depth < 2:
            return (type(v).__name__, len(v), tuple(d(x, depth + 1) for x in list(v)[-4:]))
        if isinstance(v, (dict, set, frozenset)):
            return (type(v).__name__, len(v))
        if type(v).__module__ in ("_contextvars", "contextvars"):
            try:
                return ("cv", d(v.get(None), depth + 1))
            except Exception:
                return "cv"
        if isinstance(v, (types.ModuleType, types.FunctionType, types.BuiltinFunctionType, type)) or callable(v):
            return 0
        if depth < 2 and hasattr(v, "__dict__"):
            return (type(v).__name__, tuple((k, d(x, depth + 1)) for k, x in sorted(vars(v).items())))
        return type(v).__name__
    out = []
    seen = set()
    for k, m in sorted(sys.modules.items()):
        if not (k.startswith("lie_nn") and (getattr(m, "__file__", None) or "").startswith(boot.PREFIX)):
            continue
        for n, v in sorted(vars(m).items()):
            if n.startswith("__"):
                continue
            if isinstance(v, type):
                if (v.__module__ or "").startswith("lie_nn") and v not in seen:
                    seen.add(v)
                    for a, x in sorted(vars(v).items()):
                        if not a.startswith("__") and not a.startswith("_abc") and not callable(x) and not isinstance(x, (property, staticmethod, classmethod)):
                            out.append((v.__name__, a, d(x)))
            else:
                out.append((k, n, d(v)))
                for a, x in sorted(getattr(v, "__dict__", {}).items()) if isinstance(v, types.FunctionType) else ():
                    if not a.startswith("__"):
                        out.append((k, n, a, d(x)))
    return out


def worth_a_survey():
    """(is any line hot, are there with / try statements beyond those of the library as shipped)"""
    h = g = False
    for c in info().codes:
        x, w = lines(c)
        h = h or bool(x) or w
        if c.co_qualname.split(".")[-1] not in KNOWN_GUARD:
            ls = {l for _, _, l in c.co_lines() if l is not None}
            g = g or bool(ls & guarded(c.co_filename)) or any(protected(c, i.offset) is not None for i in dis.get_instructions(c))
    return h, g


def rel(filename):
    return os.path.relpath(filename, boot.PREFIX)
