"""The exhaustive explorer shared by every check.

A check is a module mc.checks.<id> with

    TECHNIQUE, LEVEL_NOTE, ASSUMPTIONS   (strings / list, for MANIFEST and evidence)
    def spaces(tier): -> list of Space

A Space enumerates a finite set of cases completely (a case is a JSON-able
value: a configuration, an operation sequence, a schedule seed, ...) and runs
every one of them on the real code against a reference model:

    Space(name, cases, run)      run(case, rec)

`rec` counts what was covered and takes the verdict:

    rec.state(x)     a distinct observed state / outcome (hashed and counted)
    rec.step(n)      transitions executed on the implementation
    rec.trace(n)     model traces replayed on the implementation and compared
    rec.check(key, got, want, **info)   the comparison with the oracle
    rec.fail(key, text)

Nothing is sampled: `cases` is consumed to its end, or the run says it was
capped.
"""
from __future__ import print_function

import hashlib
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = os.environ.get("VMC_SCRATCH") or "/tmp"
CASE_TIMEOUT = 30.0       # one case takes milliseconds; this only catches hangs
RUN_DEADLINE = 840.0
MAX_KEYS = 40             # distinct failures kept per run


class Hang(BaseException):
    """One case did not come to an end."""


def _alarm(signum, frame):
    raise Hang()


def h64(obj):
    if not isinstance(obj, (str, bytes)):
        obj = repr(obj)
    if isinstance(obj, str):
        obj = obj.encode("utf-8", "surrogatepass")
    return int.from_bytes(hashlib.blake2b(obj, digest_size=8).digest(), "big")


class Space(object):
    def __init__(self, name, cases, run, note="", chunk=None, serial=False,
                 timeout=CASE_TIMEOUT):
        self.name = name
        self.cases = cases
        self.run = run
        self.note = note
        self.chunk = chunk
        self.serial = serial
        self.timeout = timeout


class Recorder(object):
    def __init__(self):
        self.states = set()
        self.steps = 0
        self.traces = 0
        self.ncases = 0
        self.fails = {}
        self.nfails = 0
        self.samples = []
        self.counts = {}
        self._case = None
        self._space = None
        self._alarm = None

    def state(self, obj):
        self.states.add(h64(obj))

    def step(self, n=1):
        """Count transitions; a case that goes on is not a hanging one."""
        self.steps += n
        if self._alarm:
            signal.setitimer(signal.ITIMER_REAL, self._alarm)

    def trace(self, n=1):
        self.traces += n

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, text):
        if len(self.samples) < 4:
            self.samples.append(text)

    def fail(self, key, text="", **info):
        self.nfails += 1
        if key not in self.fails and len(self.fails) < MAX_KEYS:
            self.fails[key] = {"space": self._space, "case": self._case,
                               "text": str(text)[:4000],
                               "info": {k: repr(v)[:2000]
                                        for k, v in info.items()}}

    def check(self, key, got, want, **info):
        """Compare one observation with the oracle."""
        if got == want:
            return True
        self.fail(key, "got %r, want %r" % (got, want), **info)
        return False


def _run_case(space, case, rec):
    rec._case, rec._space = case, space.name
    rec.ncases += 1
    hang = False
    rec._alarm = space.timeout
    signal.setitimer(signal.ITIMER_REAL, space.timeout)
    try:
        space.run(case, rec)
    except Hang:
        hang = True
        rec.fail("%s/hang" % space.name, "case did not terminate: %r" % (case,))
    except Exception as e:
        rec.fail("%s/exception:%s" % (space.name, type(e).__name__),
                 traceback.format_exc())
    except SystemExit as e:
        rec.fail("%s/exit" % space.name, traceback.format_exc())
    finally:
        rec._alarm = None
        signal.setitimer(signal.ITIMER_REAL, 0)
    return hang


_SPACES = None


def _limit():
    """Code that never stops to allocate must not take the machine down."""
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def _worker(conn, wid):
    signal.signal(signal.SIGALRM, _alarm)
    _limit()
    hung = {}
    while True:
        job = conn.recv()
        if job is None:
            break
        si, chunk = job
        rec = Recorder()
        for case in chunk:
            if hung.get(si, 0) >= 2:
                # The verdict is clear, don't wait for all the others.
                rec.count("skipped_after_hang")
                rec.count("capped")
                continue
            if _run_case(_SPACES[si], case, rec):
                hung[si] = hung.get(si, 0) + 1
        conn.send((rec.states, rec.steps, rec.traces, rec.ncases, rec.fails,
                   rec.nfails, rec.samples, rec.counts))
    conn.close()
    os._exit(0)


def _merge(total, part):
    states, steps, traces, ncases, fails, nfails, samples, counts = part
    total.states |= states
    total.steps += steps
    total.traces += traces
    total.ncases += ncases
    total.nfails += nfails
    for k, v in fails.items():
        if k not in total.fails:
            total.fails[k] = v
    total.samples.extend(samples)
    for k, v in counts.items():
        total.counts[k] = total.counts.get(k, 0) + v


def _chunks(it, n):
    buf = []
    for x in it:
        buf.append(x)
        if len(buf) >= n:
            yield buf
            buf = []
    if buf:
        yield buf


def explore(spaces, nproc=None, log=sys.stderr):
    """Run every case of every space.  Returns {space name: Recorder}."""
    global _SPACES
    _SPACES = spaces
    nproc = nproc or max(1, min(8, os.cpu_count() or 1))
    results = {}
    start = time.time()
    signal.signal(signal.SIGALRM, _alarm)

    for sp in spaces:
        results[sp.name] = Recorder()

    # Cases that need the whole process (forks, signals) run here, one by one.
    for sp in spaces:
        if sp.serial:
            rec = results[sp.name]
            hung = 0
            for case in sp.cases:
                hung += _run_case(sp, case, rec)
                if hung >= 2:
                    rec.count("capped")
                    break

    par = [(i, sp) for i, sp in enumerate(spaces) if not sp.serial]
    if not par:
        return results, False

    def jobs():
        for i, sp in par:
            n = sp.chunk
            cases = sp.cases
            if n is None:
                if not isinstance(cases, (list, tuple)):
                    cases = list(cases)
                n = max(1, min(64, len(cases) // (nproc * 4) or 1))
            for chunk in _chunks(cases, n):
                yield i, chunk

    from multiprocessing.connection import wait
    ctx = multiprocessing.get_context("fork")
    workers = {}
    for wid in range(nproc):
        parent, child = ctx.Pipe()
        p = ctx.Process(target=_worker, args=(child, wid))
        p.daemon = True
        p.start()
        child.close()
        workers[parent] = [p, None, 0]
    it = jobs()
    timed_out = False

    def feed(conn):
        try:
            job = next(it)
        except StopIteration:
            try:
                conn.send(None)
            except (BrokenPipeError, OSError):
                pass
            return False
        workers[conn][1] = job
        workers[conn][2] = time.time()
        conn.send(job)
        return True

    live = set()
    for conn in list(workers):
        if feed(conn):
            live.add(conn)
    while live:
        left = RUN_DEADLINE - (time.time() - start)
        if left <= 0:
            timed_out = True
            for conn in live:
                si, chunk = workers[conn][1]
                rec = results[spaces[si].name]
                rec._case, rec._space = chunk[0], spaces[si].name
                rec.fail("%s/no-end" % spaces[si].name,
                         "a chunk of cases did not come to an end")
            break
        for conn in wait(list(live), timeout=min(left, 5)):
            p, job, _t = workers[conn]
            si, chunk = job
            try:
                part = conn.recv()
            except (EOFError, ConnectionResetError):
                live.discard(conn)
                rec = results[spaces[si].name]
                rec._case, rec._space = chunk[0], spaces[si].name
                p.join(5)
                if os.environ.get("VMC_DEBUG"):
                    print("worker died", p.exitcode, file=log)
                rec.fail("%s/worker-died" % spaces[si].name,
                         "the process running these cases died (%r)"
                         % p.exitcode)
                continue
            _merge(results[spaces[si].name], part)
            if not feed(conn):
                live.discard(conn)
    for conn, (p, _j, _t) in workers.items():
        if timed_out and p.is_alive():
            p.kill()
        p.join(5)
        if p.is_alive():
            p.kill()
    return results, timed_out


# ---------------------------------------------------------------- schedules
def explore_choices(run, bound, on_result, max_runs=None, start=()):
    """Stateless search over choice sequences with at most `bound` deviations.

    run(prefix) -> (points, result): `points` lists, for every choice point
    met, the number of alternatives and the cost of each of them (0 for the
    default).  Replays `prefix`, then takes choice 0.  Only schedules that
    begin with `start` are explored.
    Returns (runs, capped).
    """
    runs = 0
    stack = [tuple(start)]
    while stack:
        prefix = stack.pop()
        points, choices, result = run(prefix)
        if tuple(choices[:len(prefix)]) != tuple(prefix):
            raise RuntimeError("schedule diverged while replaying %r: %r"
                               % (prefix, choices[:len(prefix)]))
        runs += 1
        on_result(tuple(choices), points, result)
        if max_runs and runs >= max_runs:
            return runs, bool(stack)
        cost = 0
        for i, (n, costs) in enumerate(points):
            if i >= len(prefix):
                for alt in range(n - 1, 0, -1):
                    if cost + costs[alt] <= bound:
                        stack.append(tuple(choices[:i]) + (alt,))
            cost += costs[choices[i]]
    return runs, False
