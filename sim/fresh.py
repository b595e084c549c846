"""Fresh processes with another hash seed.

A zygote is an interpreter started with its own PYTHONHASHSEED that has booted the library (pristine)
and then forks one child per request: every request is answered by a process in which lie_nn has not
been used, whose string hashes differ from those of the caller.
"""
import ctypes
import json
import os
import pickle
import select
import signal
import socket
import struct
import subprocess
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = (1, 77, 4242)
_sock = {}


def prepare(prop, seeds=SEEDS):
    """Start the zygotes. Called in the main process before the workers are forked."""
    d = tempfile.mkdtemp(prefix="lie-sim-")
    procs = []
    for s in seeds:
        path = os.path.join(d, str(s))
        env = dict(os.environ, PYTHONHASHSEED=str(s), PYTHONDONTWRITEBYTECODE="1",
                   OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1")
        p = subprocess.Popen([sys.executable, "-B", os.path.abspath(__file__), prop.id, path, str(os.getpid())], env=env,
                             stdin=subprocess.DEVNULL, stdout=subprocess.PIPE)
        procs.append((s, path, p))
    for s, path, p in procs:
        line = p.stdout.readline()
        if line.strip() != b"ready":
            raise RuntimeError("zygote did not start")
        _sock[s] = path
    import atexit
    import shutil
    me = os.getpid()

    def stop():
        if os.getpid() == me:
            for _, _, p in procs:
                p.kill()
                p.wait()
            shutil.rmtree(d, ignore_errors=True)
    atexit.register(stop)


def call(kind, payload, hashseed, timeout=150):
    """Answer of prop.fresh(payload) / run_config in a fresh process whose hash seed is SEEDS[hashseed % n]."""
    from . import pool
    path = _sock[SEEDS[hashseed % len(SEEDS)]]
    c = socket.socket(socket.AF_UNIX)
    c.connect(path)
    data = pickle.dumps((kind, payload), protocol=5)
    c.sendall(struct.pack(">Q", len(data)) + data)
    c.shutdown(socket.SHUT_WR)
    end = time.monotonic() + timeout
    buf = []
    while True:
        left = end - time.monotonic()
        if left <= 0:
            c.close()
            raise pool.ChildTimeout(f"no result within {timeout} s")
        if select.select([c], [], [], min(left, 1.0))[0]:
            b = c.recv(1 << 20)
            if not b:
                break
            buf.append(b)
    c.close()
    data = b"".join(buf)
    if not data:
        raise pool.ChildError("fresh process died without a result")
    ok, val = pickle.loads(data)
    if not ok:
        raise pool.ChildError(val)
    return val


def serve(pid, path, parent):
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)      # die with the process that started us
    if os.getppid() != parent:
        return
    sys.path.insert(0, ROOT)
    from sim import boot, props
    prop = props.load(pid)
    boot.boot(set_seam=prop.set_seam)
    from sim import cases, history, ops, specs  # noqa: F401
    s = socket.socket(socket.AF_UNIX)
    s.bind(path)
    s.listen(64)
    os.write(1, b"ready\n")
    os.close(1)
    os.open("/dev/null", os.O_WRONLY)
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    while True:
        c, _ = s.accept()
        if os.fork():
            c.close()
            continue
        try:
            s.close()
            signal.signal(signal.SIGCHLD, signal.SIG_DFL)
            fh = c.makefile("rb")
            n = struct.unpack(">Q", fh.read(8))[0]
            kind, payload = pickle.loads(fh.read(n))
            signal.alarm(200)
            try:
                if kind == "config":
                    res = (True, cases.run_config(prop, payload["scn"], payload["conf"]))
                else:
                    res = (True, prop.fresh(payload))
            except BaseException as e:
                res = (False, "".join(traceback.format_exception(e))[-4000:])
            c.sendall(pickle.dumps(res, protocol=5))
            c.shutdown(socket.SHUT_WR)
        finally:
            os._exit(0)


if __name__ == "__main__":
    serve(sys.argv[1], sys.argv[2], int(sys.argv[3]))
