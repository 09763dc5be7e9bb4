"""Runs a function in fresh processes, forked off one that has not run any of
the code under test yet."""
import os
import pickle
import select
import signal
import traceback


def _child(fn, item, fd):
    from mc import core
    core._limit()
    try:
        out = (True, fn(item))
    except BaseException:
        out = (False, traceback.format_exc())
    with os.fdopen(fd, "wb") as f:
        pickle.dump(out, f)


def run(fn, items, nproc=8, timeout=60):
    """{item: fn(item)}, each computed in a process of its own; a failure is
    an Exception in its place."""
    items = list(items)
    out, live, todo = {}, {}, list(reversed(items))
    while todo or live:
        while todo and len(live) < nproc:
            item = todo.pop()
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                signal.setitimer(signal.ITIMER_REAL, 0)
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                signal.setitimer(signal.ITIMER_REAL, timeout)
                os.close(r)
                try:
                    _child(fn, item, w)
                finally:
                    os._exit(0)
            os.close(w)
            live[r] = (pid, item, [])
        for r in select.select(list(live), [], [])[0]:
            data = os.read(r, 1 << 16)
            pid, item, buf = live[r]
            if data:
                buf.append(data)
                continue
            os.close(r)
            os.waitpid(pid, 0)
            del live[r]
            try:
                ok, value = pickle.loads(b"".join(buf))
            except Exception as e:
                ok, value = False, "no answer: %r" % e
            out[item] = value if ok else RuntimeError(value)
    return out
