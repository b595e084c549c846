"""Forking: every run and every reference executes in a child forked from a pristine process."""
import os
import pickle
import select
import signal
import sys
import time
import traceback


class ChildError(Exception):
    pass


class ChildTimeout(Exception):
    pass


def fork_call(fn, timeout=120.0):
    """Run fn() in a forked child and return its (pickled) result."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                res = (True, fn())
            except BaseException as e:
                res = (False, "".join(traceback.format_exception(e))[-4000:])
            data = pickle.dumps(res, protocol=5)
            with os.fdopen(w, "wb") as fh:
                fh.write(data)
            code = 0
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    end = time.monotonic() + timeout
    try:
        while True:
            left = end - time.monotonic()
            if left <= 0:
                os.kill(pid, signal.SIGKILL)
                raise ChildTimeout(f"no result within {timeout} s")
            ready, _, _ = select.select([r], [], [], min(left, 1.0))
            if ready:
                b = os.read(r, 1 << 20)
                if not b:
                    break
                chunks.append(b)
    finally:
        os.close(r)
        os.waitpid(pid, 0)
    data = b"".join(chunks)
    if not data:
        raise ChildError("child died without a result")
    ok, val = pickle.loads(data)
    if not ok:
        raise ChildError(val)
    return val


def parallel(fn, items, workers, on_result, stop=lambda: False, deadline=None):
    """fn(item) in worker processes (forked once; each item is dispatched dynamically but handled independently).

    on_result(item, result) is called in the parent, in completion order. Returns the number not run
    because of stop()/deadline.
    """
    items = list(items)
    pos = 0
    procs = {}
    for k in range(min(workers, max(1, len(items)))):
        cr, pw = os.pipe()      # parent writes -> child reads
        pr, cw = os.pipe()      # child writes -> parent reads
        pid = os.fork()
        if pid == 0:
            try:
                os.close(pw)
                os.close(pr)
                for q in procs.values():
                    os.close(q["w"])
                    os.close(q["r"])
                _worker(fn, cr, cw)
            finally:
                os._exit(0)
        os.close(cr)
        os.close(cw)
        procs[pr] = {"pid": pid, "w": pw, "r": pr, "buf": b"", "item": None}

    def send(p):
        nonlocal pos
        if pos < len(items) and not stop() and (deadline is None or time.monotonic() < deadline):
            p["item"] = items[pos]
            pos += 1
            msg = pickle.dumps(p["item"])
            os.write(p["w"], len(msg).to_bytes(8, "big") + msg)
            return True
        p["item"] = None
        os.close(p["w"])
        return False

    live = dict(procs)
    for r in list(live):
        if not send(live[r]):
            os.close(r)
            os.waitpid(live[r]["pid"], 0)
            del live[r]
    try:
        while live:
            ready, _, _ = select.select(list(live), [], [], 5.0)
            for r in ready:
                p = live[r]
                b = os.read(r, 1 << 20)
                if not b:
                    os.waitpid(p["pid"], 0)
                    del live[r]
                    os.close(r)
                    raise ChildError(f"worker died on item {p['item']}")
                p["buf"] += b
                while len(p["buf"]) >= 8:
                    n = int.from_bytes(p["buf"][:8], "big")
                    if len(p["buf"]) < 8 + n:
                        break
                    res = pickle.loads(p["buf"][8:8 + n])
                    p["buf"] = p["buf"][8 + n:]
                    on_result(p["item"], res)
                    if not send(p):
                        os.close(r)
                        os.waitpid(p["pid"], 0)
                        del live[r]
                        break
    finally:
        for r, p in live.items():
            try:
                os.kill(p["pid"], signal.SIGKILL)
                os.waitpid(p["pid"], 0)
            except OSError:
                pass
    return len(items) - pos


def _worker(fn, cr, cw):
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    buf = b""

    def read(n):
        nonlocal buf
        while len(buf) < n:
            b = os.read(cr, 1 << 16)
            if not b:
                return None
            buf += b
        out, buf = buf[:n], buf[n:]
        return out

    while True:
        h = read(8)
        if h is None:
            return
        item = pickle.loads(read(int.from_bytes(h, "big")))
        try:
            res = ("ok", fn(item))
        except BaseException as e:
            res = ("error", "".join(traceback.format_exception(e))[-4000:])
        data = pickle.dumps(res, protocol=5)
        data = len(data).to_bytes(8, "big") + data
        while data:
            k = os.write(cw, data)
            data = data[k:]
