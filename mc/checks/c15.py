"""C15: TELL does exactly what was asked and says so."""
import itertools
import os
import sys

from mc import env, probe, site, core

TECHNIQUE = "exhaustive exploration of all TELL requests over classes, target lists, header orders and spellings, and of request histories, against a reference of the plugin calls and the reply"
LEVEL_NOTE = "All combinations of 5 class, 6 Set and 6 Remove values in every header order and 3 spellings; all histories of 3 (thorough 4) requests over 14; failing plugins; both daemons with and without --allow-tell."
ASSUMPTIONS = ["Message-class is spam or ham"]

CONFIG = """loadplugin mc.probe.Probe
loadplugin mc.probe.Other
loadplugin mc.probe.Witness
report none
body ONE /one/
"""
TEXTS = [u"Subject: s\n\none \u20ac\n", u"\n", u"Subject: x\n\ntwo"]
CLASSES = [None, "spam", "ham", "SPAM", "Ham"]
TARGETS = [None, "local", "remote", "local,remote", "remote, local", "local , remote"]
SPELL = [str, str.lower, str.upper]
TAGS = ("probe", "other", "witness")
_state = {}


def server():
    if "s" not in _state:
        _state["s"] = env.FakeServer(env.build(CONFIG))
    return _state["s"]


def reply(sets, removes):
    import oa
    out = "SPAMD/%s 0 EX_OK\r\n" % oa.__version__
    if sets is not None:
        out += "DidSet: %s\r\n" % sets
    if removes is not None:
        out += "DidRemove: %s\r\n" % removes
    return out.encode()


def effects(klass, sets, removes, text):
    spam = (klass or "spam").lower() == "spam"
    out = []
    if sets is not None:
        out += [(tag, "report" if spam else "revoke", text) for tag in TAGS]
    if removes is not None:
        out += [(tag, "revoke", text) for tag in TAGS]
    return out


def request(klass, sets, removes, text, order, spell, eol="\r\n", length=True):
    body = text.encode("utf8")
    values = {"Message-class": klass, "Set": sets, "Remove": removes,
              "Content-length": str(len(body)) if length else None, "User": "u1"}
    lines = ["TELL SPAMC/1.3"]
    for h in order:
        if values[h] is not None:
            lines.append("%s: %s" % (SPELL[spell](h), values[h]))
    return (eol.join(lines) + eol + eol).encode("utf8") + body


def did():
    return [e for e in probe.EVENTS if e[1] in ("report", "revoke", "checked", "check_end", "auto_learn") or e[0] in ("eval", "text")]


HEADERS = ("Message-class", "Set", "Remove", "Content-length", "User")


def run_one(case, rec):
    klass, sets, removes, order, spell, length = case
    text = TEXTS[0]
    data = request(klass, sets, removes, text, order, spell, length=length)
    probe.reset()
    got, err = env.request(data, server())
    if err is not None:
        rec.fail("one/exception", "%r for %r" % (err, data))
        return
    rec.check("one/calls", did(), effects(klass, sets, removes, text), request=data)
    rec.check("one/reply", got, reply(sets, removes), request=data)
    rec.step()
    rec.trace()
    rec.state(case)


OPS = [("TELL", k, s, r) for k in ("spam", "ham") for s in (None, "local", "local,remote") for r in (None, "remote") if s or r] + \
    [("CHECK",), ("bad",), ("PING",), ("fail",)]


def run_history(case, rec):
    s = server()
    for i, op in enumerate(case):
        op = OPS[op]
        text = TEXTS[i % len(TEXTS)]
        probe.reset()
        if op[0] == "TELL":
            got, err = env.request(request(op[1], op[2], op[3], text, HEADERS, 0), s)
            rec.check("history/calls", did(), effects(op[1], op[2], op[3], text), history=case[:i + 1])
            rec.check("history/reply", (got, err), (reply(op[2], op[3]), None), history=case[:i + 1])
        elif op[0] == "CHECK":
            got, err = env.request(env.wire("CHECK", text), s)
            rec.check("history/check", [e for e in did() if e[1] in ("report", "revoke")], [], history=case[:i + 1])
        elif op[0] == "bad":
            got, err = env.request(b"TELL SPAMC/1.3\r\nSet: local\r\nContent-length: x\r\n\r\nx", s)
            rec.check("history/bad", did(), [], history=case[:i + 1])
            rec.check("history/bad-reply", b"DidSet" in got, False, history=case[:i + 1])
        elif op[0] == "fail":
            probe.reset(**{"other-report": ValueError("x")})
            got, err = env.request(request("spam", "local", None, text, HEADERS, 0), s)
            rec.check("history/fail-reply", b"DidSet" in got, False, history=case[:i + 1])
        else:
            got, err = env.request(b"PING SPAMC/1.2\r\n\r\n", s)
        rec.step()
    rec.trace()
    rec.state(case)


def run_fail(case, rec):
    """An action that fails is not said to be done."""
    who, what, klass, sets, removes, kind = case
    text = TEXTS[2]
    exc = {"value": ValueError("x"), "os": OSError(5, "x"), "key": KeyError("k")}[kind]
    probe.reset(**{"%s-%s" % (who, what): exc})
    got, err = env.request(request(klass, sets, removes, text, HEADERS, 0), server())
    spam = klass == "spam"
    set_fails = sets is not None and what == ("report" if spam else "revoke")
    rem_fails = removes is not None and what == "revoke"
    if set_fails:
        rec.check("fail/set", b"DidSet" in got, False, case=case)
    if rem_fails:
        rec.check("fail/remove", b"DidRemove" in got, False, case=case)
    if not set_fails and not rem_fails:
        rec.check("fail/other", (got, err, did()), (reply(sets, removes), None, effects(klass, sets, removes, text)), case=case)
    # nothing of this is left for the next
    probe.reset()
    got, err = env.request(request("spam", "local", "remote", text, HEADERS, 0), server())
    rec.check("fail/after", (got, err, did()), (reply("local", "remote"), None, effects("spam", "local", "remote", text)), case=case)
    rec.step(2)
    rec.trace()
    rec.state(case)


def run_allow(case, rec):
    """The daemon as its command line starts it."""
    flag, prefork, klass, sets, removes = case
    import oa
    import oa.server
    import scripts.oad
    import signal
    sitedir = env.scratch("tellsite")
    env.write(os.path.join(sitedir, "site.cf"), CONFIG)
    started = []
    saved = (oa.server.Server.serve_forever, oa.server.PreForkServer.serve_forever, sys.argv)
    import spoon.server
    setup = spoon.server._SpoonMixIn._setup_socket
    import logging
    logger = logging.getLogger("oa-logger")
    handlers = list(logger.handlers)
    old = signal.getsignal(signal.SIGUSR1), signal.getsignal(signal.SIGTERM)
    import oa.config
    lazy = oa.config.LAZY_MODE
    try:
        oa.server.Server.serve_forever = lambda self, *a, **k: started.append(self)
        oa.server.PreForkServer.serve_forever = lambda self, *a, **k: started.append(self)
        spoon.server._SpoonMixIn._setup_socket = lambda self: None
        sys.argv = ["oad", "-i", "127.0.0.1", "-p", "0", "-C", sitedir, "-S", sitedir, "-r", env.scratch("pid"), "--log-file", env.scratch("log")]
        if flag:
            sys.argv.append(flag)
        if prefork:
            sys.argv += ["--prefork", "2"]
        scripts.oad.main()
    finally:
        oa.server.Server.serve_forever = saved[0]
        if "serve_forever" in oa.server.PreForkServer.__dict__:
            del oa.server.PreForkServer.serve_forever
        spoon.server._SpoonMixIn._setup_socket = setup
        sys.argv = saved[2]
        logger.handlers[:] = handlers
        oa.config.LAZY_MODE = lazy
        signal.signal(signal.SIGUSR1, old[0])
        signal.signal(signal.SIGTERM, old[1])
    rec.check("allow/started", len(started), 1)
    text = TEXTS[0]
    probe.reset()
    data = request(klass, sets, removes, text, ("Message-class", "Set", "Remove", "Content-length"), 0)
    got, err = env.request(data, started[0])
    rec.check("allow/exception", err, None, case=case)
    if flag:
        rec.check("allow/calls", did(), effects(klass, sets, removes, text), case=case)
        rec.check("allow/reply", got, reply(sets, removes), case=case)
    else:
        rec.check("allow/nothing", did(), [], case=case)
        head = ("SPAMD/%s 69 " % oa.__version__).encode()
        rec.check("allow/refused", (got[:len(head)], got.count(b"\r\n"), b"Did" in got), (head, 1, False), case=case)
    # the rest is as always
    got, err = env.request(env.wire("CHECK", text), started[0])
    rec.check("allow/check", (got.split(b"\r\n")[0], err), (("SPAMD/%s 0 EX_OK" % oa.__version__).encode(), None), case=case)
    rec.step(2)
    rec.trace()
    rec.state(case)


def spaces(tier):
    from mc.core import Space
    thorough = tier == "thorough"
    one = []
    for k in CLASSES:
        for s in TARGETS:
            for r in TARGETS:
                for order in itertools.permutations(HEADERS[:4] + HEADERS[4:] if thorough else HEADERS[:4]):
                    for sp in range(3):
                        one.append((k, s, r, order, sp, True))
                one.append((k, s, r, HEADERS, 0, False))
    n = 4 if thorough else 3
    hist = [h for d in range(1, n + 1) for h in itertools.product(range(len(OPS)), repeat=d)]
    fail = [(w, a, k, s, r, e) for w in ("probe", "other") for a in ("report", "revoke") for k in ("spam", "ham")
            for s in (None, "local", "local,remote") for r in (None, "remote") for e in ("value", "os", "key")]
    allow = [(f, p, k, s, r) for f in (None, "-l", "--allow-tell") for p in (0, 1) for k in ("spam", "ham") for s in (None, "local") for r in (None, "remote")]
    return [Space("one", one, run_one, "all single requests"),
            Space("history", hist, run_history, "histories of requests on one server"),
            Space("fail", fail, run_fail, "plugins that fail"),
            Space("allow", allow, run_allow, "the daemons with and without --allow-tell")]
