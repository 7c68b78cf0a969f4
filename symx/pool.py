"""A small pool of forked workers.

The parent stays single-threaded (so that fork is safe), every worker talks over its own pair of pipes, and a
worker that exceeds its hard limit is killed and replaced.
"""
import os
import pickle
import selectors
import signal
import struct
import time


def _read(fd, n):
    out = b""
    while len(out) < n:
        b = os.read(fd, n - len(out))
        if not b:
            return None
        out += b
    return out


def _recv(fd):
    h = _read(fd, 8)
    if h is None:
        return None
    b = _read(fd, struct.unpack("<Q", h)[0])
    return None if b is None else pickle.loads(b)


def _send(fd, o):
    b = pickle.dumps(o)
    b = struct.pack("<Q", len(b)) + b
    while b:
        n = os.write(fd, b)
        b = b[n:]


class Worker:
    def __init__(self, fn, others):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            code = 0
            try:
                os.close(w1)
                os.close(r2)
                for o in others:
                    os.close(o.wfd)
                    os.close(o.rfd)
                while True:
                    t = _recv(r1)
                    if t is None:
                        break
                    _send(w2, fn(t[0]))
            except BaseException:
                import traceback
                traceback.print_exc()
                code = 1
            finally:
                os._exit(code)
        os.close(r1)
        os.close(w2)
        self.wfd, self.rfd = w1, r2
        self.task = None
        self.since = 0
        self.done = 0

    def close(self, kill=True):
        if kill:
            try:
                os.kill(self.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        os.close(self.wfd)
        os.close(self.rfd)
        try:
            os.waitpid(self.pid, 0)
        except ChildProcessError:
            pass


def run(fn, tasks, jobs, limit, lost, deadline, max_tasks=20):
    """yields fn(task) for every task, in order of completion; lost(task, why) stands for a worker that died or hung.
    limit(task) is the hard limit in seconds, deadline the time at which everything left is given up."""
    todo = list(tasks)[::-1]
    workers = []
    sel = selectors.DefaultSelector()
    try:
        while todo or any(w.task is not None for w in workers):
            if time.time() > deadline:
                for t in todo + [w.task for w in workers if w.task is not None]:
                    yield lost(t, "time limit of the check")
                return
            while todo and (len(workers) < jobs or any(w.task is None for w in workers)):
                w = next((w for w in workers if w.task is None), None)
                if w is None:
                    w = Worker(fn, workers)
                    workers.append(w)
                    sel.register(w.rfd, selectors.EVENT_READ, w)
                w.task = todo.pop()
                w.since = time.time()
                _send(w.wfd, (w.task,))
            ready = [k.data for k, _ in sel.select(timeout=1.0)]
            now = time.time()
            for w in list(workers):
                if w.task is None:
                    continue
                r, gone = None, None
                if w in ready:
                    r = _recv(w.rfd)
                    if r is None:
                        gone = "worker died"
                elif now - w.since > limit(w.task):
                    gone = "hard time limit"
                else:
                    continue
                t, w.task = w.task, None
                w.done += 1
                if gone or w.done >= max_tasks:
                    sel.unregister(w.rfd)
                    workers.remove(w)
                    w.close()
                yield r if gone is None else lost(t, gone)
    finally:
        for w in workers:
            w.close()
        sel.close()
