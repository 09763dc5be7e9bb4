"""C12: requests during a reload see one whole configuration."""
import os
import threading

from mc import env, probe, sched, site, core

TECHNIQUE = "stateless exploration of all thread interleavings of request and reload threads on the real server under a controlled scheduler, up to a preemption bound, and of a fault at every point of a reload"
LEVEL_NOTE = "Preemption bound 2 (thorough 3) at line granularity in server, protocol and configuration code, call granularity in parser and engine; 2-3 threads; a fault at every one of these points of a reload."
ASSUMPTIONS = ["configuration files are replaced atomically",
               "the GIL's own switches inside one line of the traced code are not explored"]

PREFS = "body UR /x/\nscore UR 0.25\nreport user part\nadd_header all User yes\n"
USER = "u1"


def config(g, users=1):
    if g == "bad":
        return "allow_user_rules 1\nloadplugin mc.probe.Probe\nreport gen BAD\nbody RBAD /x/\nbody BROKEN /(/\n"
    return ("allow_user_rules %d\nloadplugin mc.probe.Probe\nreport gen %d _TESTS_\nrequired_score %d\n"
            "body R%d /x/\nscore R%d %d\nadd_header all Gen %d\nprobe_append g%d\nheader P eval:probe('g%d')\n"
            % (users, g, g, g, g, g, g, g, g))


MSG = "Subject: s\n\nx\n"


def ask(server, user, cmd="PROCESS"):
    head = {"User": user} if user else {}
    data, err = env.request(env.wire(cmd, MSG, **head), server)
    if err is not None:
        raise err
    return env.canon(data)


_expect = {}


def expected(g, user, cmd="PROCESS", users=1):
    key = (g, user, cmd, users)
    if key not in _expect:
        texts = [config(g, users)] + ([PREFS] if user and users else [])
        _expect[key] = ask(env.FakeServer(env.build(*texts)), None, cmd)
    return _expect[key]


SKIP = ("_handle_line", "_paranoid", "_ignore", "_is_current_language")
# module -> {function: "line" or "call"}, "*" for the others
NARROW = {
    "oa.server": {"load_config": "line", "get_user_ruleset": "line", "__init__": None, "*": "call"},
    "oa.protocol.base": {"get_and_handle": "line", "__init__": "line", "get_message": None, "get_options": None, "*": "call"},
    "oa.protocol.check": {"handle": "call"},
    "oa.protocol.process": {"handle": "call"},
    "oa.rules.parser": {n: "call" for n in ("get_state", "set_state", "get_ruleset", "parse_file", "parse_pad_rules")},
    "oa.rules.ruleset": {n: "call" for n in ("post_parsing", "match", "get_adjusted_message")},
}
# what is left of these when it comes to more preemptions
CORE = {
    "oa.server": {"load_config": "line", "get_user_ruleset": "line"},
    "oa.protocol.base": {"__init__": "call", "get_and_handle": "call", "handle": "call"},
    "oa.protocol.check": {"handle": "call"},
    "oa.protocol.process": {"handle": "call"},
    "oa.rules.parser": {n: "call" for n in ("get_state", "set_state", "get_ruleset")},
    "oa.rules.ruleset": {"match": "call"},
}
WIDE = dict(NARROW)
for _f in ("oa.server", "oa.protocol.base", "oa.protocol.check", "oa.protocol.process", "oa.config"):
    WIDE[_f] = {"*": "line"}
WIDE["oa.rules.parser"] = {"get_state": "line", "set_state": "line", "get_ruleset": "line", "parse_pad_rules": "line", "*": "call"}
WIDE["oa.rules.ruleset"] = {"*": "call"}
WIDE["oa.context"] = {n: "call" for n in ("load_plugin", "hook_parsing_start", "hook_parsing_end")}
WIDE["oa.message"] = {"__init__": "call"}


def tracer(table):
    def traced(module, name, line, kind):
        if name in SKIP:
            return False
        names = table.get(module, {})
        want = names.get(name, names.get("*"))
        return (want == "line") or (want == "call" and kind == "call")
    return traced


GRAIN = {"core": tracer(CORE), "narrow": tracer(NARROW), "wide": tracer(WIDE)}
narrow, wide = GRAIN["narrow"], GRAIN["wide"]


class World(object):
    """The server, the configuration on disk, and what was current when."""

    def __init__(self, paranoid=False, toggles=False):
        site.put_prefs("/home/u1/.spamassassin/user_prefs", PREFS)
        self.toggles = toggles
        self.written = 1
        self.reloaded = 1       # the last generation a finished reload guarantees
        self.log = []
        with sched.cooperative():
            self.server = site.make_server(config(1), paranoid=paranoid)
        self.bad = []

    def users(self, g):
        return g % 2 if self.toggles else 1

    def put(self, g):
        path = os.path.join(env.scratch("site"), "site.cf")
        env.write(path + ".new", config(g, self.users(g) if g != "bad" else 1))
        os.rename(path + ".new", path)

    def reload(self, bad=False):
        def run():
            # (no scheduling point up to the start of the reload)
            g = "bad" if bad else self.written + 1
            self.put(g)
            if not bad:
                self.written = g
            start = self.written
            try:
                self.server.load_config()
            except Exception:
                if not bad:
                    raise
                return
            if bad:
                self.bad.append("the bad configuration was accepted")
            self.reloaded = max(self.reloaded, start)
        return run

    def requests(self, who):
        def run():
            for user, cmd in who:
                self.request(user, cmd)
        return run

    def request(self, user, cmd="PROCESS"):
        low = self.reloaded
        got = ask(self.server, user, cmd)
        high = self.written
        allowed = [g for g in range(low, high + 1)]
        seen = [g for g in allowed if got == expected(g, user, cmd, self.users(g))]
        if not seen:
            self.bad.append("request for %s (%s) with generations %r possible got %r" % (user, cmd, allowed, got))
        self.log.append((user, seen[:1]))


P, S = "PROCESS", "SYMBOLS"
SCENARIOS = {
    "user-user": (dict(), lambda w: [("Q", w.requests([(USER, P), (USER, S)])), ("R", w.reload())]),
    "site-user": (dict(), lambda w: [("Q", w.requests([(None, P), (USER, P)])), ("R", w.reload())]),
    "cached": (dict(warm=True), lambda w: [("Q", w.requests([(USER, P), (USER, P)])), ("R", w.reload())]),
    "two-clients": (dict(), lambda w: [("Q", w.requests([(USER, P)])), ("Q2", w.requests([(USER, S)])), ("R", w.reload())]),
    "two-reloads": (dict(), lambda w: [("Q", w.requests([(USER, P)])), ("R", w.reload()), ("R2", w.reload())]),
    "toggle": (dict(toggles=True), lambda w: [("Q", w.requests([(USER, P), (USER, P)])), ("R", w.reload())]),
    "bad-good": (dict(paranoid=True), lambda w: [("Q", w.requests([(USER, P), (None, P)])),
                                                  ("R", lambda: (w.reload(True)(), w.reload()()))]),
}
MAXPOINTS = 700
DEEP_QUICK = ("user-user", "cached", "toggle", "bad-good")
WIDE_QUICK = ("user-user", "toggle")


_warm = set()
_base = {}


def one(scenario, prefix, traced=narrow):
    if scenario not in _warm:
        # what is done only once per process is done now
        _warm.add(scenario)
        for g in (1, 2, 3):
            for user in (USER, None):
                for cmd in (P, S):
                    for users in (0, 1):
                        expected(g, user, cmd, users)
        one(scenario, ())
        for grain in GRAIN.values():
            one(scenario, (), grain)
    opts, threads = SCENARIOS[scenario]
    w = World(paranoid=opts.get("paranoid", False), toggles=opts.get("toggles", False))
    with site.Homes().installed():
        if opts.get("warm"):
            w.request(USER)
        s = sched.Scheduler(threads(w), prefix, traced).run()
        if s.deadlock:
            w.bad.append("deadlock: %s" % [(t.name, t.where, bool(t.waiting)) for t in s.order if not t.done])
        for t in s.order:
            if t.error is not None:
                w.bad.append("%s raised %r at %r" % (t.name, t.error, t.where))
        w.reloaded = w.written
        if not s.deadlock:
            w.request(USER)
            w.request(None)
    return s, w


def run_schedules(case, rec):
    scenario, k, bound, grain = case
    traced = GRAIN[grain]
    # k: place of the first deviation, -1: none
    if k < 0:
        starts = [()]
    else:
        if (scenario, grain) not in _base:
            s, _w = one(scenario, (), traced)
            _base[scenario, grain] = s.points, s.choices
        points, choices = _base[scenario, grain]
        if k >= len(points):
            return
        n, costs = points[k]
        starts = [tuple(choices[:k]) + (alt,) for alt in range(1, n)]

    def go(prefix):
        s, w = one(scenario, prefix, traced)
        return s.points, s.choices, (s, w)

    def seen(choices, points, result):
        s, w = result
        rec.step(len(choices))
        rec.trace()
        rec.count("schedules")
        rec.count("%s/%s" % (scenario, grain))
        rec.state((scenario, tuple(w.log)))
        for b in w.bad:
            rec.fail("schedule/" + scenario, b, choices=choices)

    for start in starts:
        core.explore_choices(go, bound if k >= 0 else 0, seen, start=start)


def run_fault(case, rec):
    """The reload fails at its k-th point; then requests, then a good reload."""
    k, warm = case
    n = [0]

    def fault(t, where):
        if where[3] == "plain":
            return False
        n[0] += 1
        if n[0] == k + 1:
            fault.at = where
            return True
        return False
    fault.at = None
    w = World()
    with site.Homes().installed():
        if warm:
            w.request(USER)
        w.put(2)
        w.written = 2
        s = sched.Scheduler([("R", lambda: w.server.load_config())], (), wide, fault).run()
        if fault.at is None:
            return
        rec.step(k)
        rec.trace()
        rec.count("faults")
        now = None
        if s.deadlock:
            rec.fail("fault/deadlock", fault.at)
            return
        for user in (USER, None, USER):
            got = ask(w.server, user)
            gens = [g for g in (1, 2) if got == expected(g, user)]
            rec.check("fault/one-generation", len(gens), 1, at=fault.at, reply=got)
            now = now or gens
            rec.check("fault/same-generation", gens, now, at=fault.at)
        w.put(3)
        try:
            w.server.load_config()
        except BaseException as e:
            rec.fail("fault/next-reload", "%r after a fault at %r" % (e, fault.at))
            return
        for user in (USER, None):
            rec.check("fault/next-generation", ask(w.server, user), expected(3, user), at=fault.at)
        rec.state((fault.at, tuple(now)))
        rec.sample("fault at %r: generation %r goes on" % (fault.at, now))


def run_prefork(case, rec):
    """The parent tells each worker once per reload; the workers tell nobody."""
    import oa.server
    import signal
    history, nworkers = case
    workers = {}
    killed = []

    def kill(pid, sig):
        killed.append((pid, sig))
        workers[pid].load_config()
    with sched.cooperative():
        parent = site.make_server(config(1), oa.server.PreForkServer)
        for i in range(nworkers):
            # what fork() leaves the worker with
            wk = site.make_server(config(1), oa.server.PreForkServer)
            wk.pids = None
            workers[4000000 + i] = wk
    site.put_prefs("/home/u1/.spamassassin/user_prefs", PREFS)
    parent.pids = None
    parent.load_config()
    parent.pids = list(workers)
    real = os.kill
    g = 1
    with site.Homes().installed():
        os.kill = kill
        try:
            for i, op in enumerate(history):
                if op == "write":
                    g += 1
                    path = os.path.join(env.scratch("site"), "site.cf")
                    env.write(path, config(g))
                elif op == "reload":
                    del killed[:]
                    parent.load_config()
                    rec.check("prefork/told", sorted(killed), sorted((p, signal.SIGUSR1) for p in workers), history=history[:i + 1])
                    for wk in workers.values():
                        for user in (USER, None):
                            rec.check("prefork/worker", ask(wk, user), expected(g, user), history=history[:i + 1])
                else:
                    for wk in workers.values():
                        ask(wk, USER)
                rec.step()
        finally:
            os.kill = real
    rec.trace()
    rec.state(case)


def spaces(tier):
    import itertools
    from mc.core import Space
    thorough = tier == "thorough"
    cases = []
    for sc in SCENARIOS:
        three = len(SCENARIOS[sc][1](_Fake())) > 2
        if thorough or sc in DEEP_QUICK:
            cases += [(sc, k, 2, "core") for k in range(-1, 150)]
        cases += [(sc, k, 1, "narrow") for k in range(-1, 300)]
        if thorough or sc in WIDE_QUICK:
            cases += [(sc, k, 1, "wide") for k in range(-1, MAXPOINTS)]
        if thorough:
            cases += [(sc, k, 2, "narrow") for k in range(-1, 300)]
            if not three:
                cases += [(sc, k, 3, "core") for k in range(-1, 150)]
    faults = [(k, warm) for k in range(MAXPOINTS) for warm in (0, 1)]
    pre = [(h, n) for d in (1, 2, 3, 4) for h in itertools.product(("write", "reload", "request"), repeat=d)
           if h[-1] == "reload" for n in (0, 1, 3)]
    return [Space("schedules", cases, run_schedules, "all interleavings, one case per place of the first preemption", chunk=1, timeout=600),
            Space("faults", faults, run_fault, "a fault at every point of a reload", chunk=4),
            Space("prefork", pre, run_prefork, "reload histories of a preforking parent and its workers")]


class _Fake(object):
    def requests(self, who):
        pass

    def reload(self, bad=False):
        pass
