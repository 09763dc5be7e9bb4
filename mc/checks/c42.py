"""C42: the match script and the daemon give the same results."""
import io
import itertools
import logging
import os
import re
import shutil
import subprocess
import sys

from mc import env, probe, site, universe

TECHNIQUE = "exhaustive enumeration of configurations, messages, ways to pass them and histories of several messages, run through the match script and through the daemon's request handler, compared byte by byte"
LEVEL_NOTE = "60 messages x 4 configurations x 3 outputs x 4 ways to pass them; all sequences of up to 3 messages; all placements of 3 configuration fragments in 9 files of 3 places; all sequences of 3 reports with failures; some runs as a real process."
ASSUMPTIONS = ["the outside world (DNS, SPF, Pyzor, Razor) is simulated", "the order of the messages of a directory is not judged"]

RAW = {
    "latin": b"Subject: x\n\none \xe9t\xe9 two\n", "utf": u"Subject: \u00e9\n\none \u20ac\u4e00\n".encode("utf8"), "crlf": b"Subject: x\r\nFrom: a@x.example\r\n\r\none\r\ntwo\r\n",
    "bom": b"\xef\xbb\xbfSubject: x\n\none\n", "nul": b"Subject: x\n\none\x00two\n", "empty": b"", "open": b"Subject: x\n\none", "cr": b"Subject: x\r\rone\r", "mixed": b"Subject: x\r\n\none\r\ntwo\rthree\n",
    "mbox": b"From a@x.example Mon Jan  1 00:00:00 2018\nSubject: x\n\none\n", "body": b"\none two\n", "cut": b"Subject: x\n\none \xe2\x82", "dot": b"Subject: x\n\n.\none\n", "eof": b"Subject: x\n\none\x1atwo\n",
    "vt": b"Subject: x\n\none\x0btwo\x0cthree\xc2\x85four\xe2\x80\xa8five\n", "sub": u"Subject: =?utf-8?q?=ED=A0=80?=\n\n\ud7ff one\n".encode("utf8"),
}
SIMPLE = "body ONE /one/\nscore ONE 3\nbody TWO /two/\nscore TWO 3\ndescribe ONE has one\nreport _YESNO_ _SCORE_ _TESTS_ \u00e9\nreport _SUMMARY_\nreport [_PREVIEW_]\nheader SUB Subject =~ /x/\nscore SUB 0.1\n"
CONFIGS = {
    "simple": SIMPLE,
    "rewrite": SIMPLE + "rewrite_header Subject ***_SCORE_***\nadd_header all Foo _TESTSSCORES(,)_\nadd_header spam Flag YES\nreport_safe 1\n",
    "inline": SIMPLE + "report_safe 0\nrequired_score 1\nremove_header all Level\n",
}


def config(name):
    return universe.config() if name == "universe" else CONFIGS[name]


class Out(io.TextIOWrapper):
    def __init__(self):
        io.TextIOWrapper.__init__(self, io.BytesIO(), encoding="utf-8", write_through=True)


class In(io.TextIOWrapper):
    def __init__(self, data):
        io.TextIOWrapper.__init__(self, io.BytesIO(data), encoding="utf-8")


def script(args, stdin=b""):
    """One run of the match script: what it prints, and how it ends."""
    import oa.config
    from scripts import match
    saved = sys.argv, sys.stdin, sys.stdout, oa.config.LAZY_MODE
    log = logging.getLogger("oa-logger")
    out = sys.stdout = Out()
    sys.stdin = In(stdin)
    sys.argv = ["match.py"] + list(args)
    code = 0
    try:
        match.main()
    except SystemExit as e:
        code = e.code or 0
    finally:
        sys.argv, sys.stdin, sys.stdout, oa.config.LAZY_MODE = saved
        for handler in list(log.handlers):
            log.removeHandler(handler)
    out.flush()
    return out.buffer.getvalue(), code


def clean(name):
    path = env.scratch(name)
    shutil.rmtree(path, True)
    os.makedirs(path)
    return path


def put(path, data):
    with open(path, "wb") as f:
        f.write(data)
    return path


def places(text):
    """Directories with one configuration file; the arguments for them."""
    rules, local = clean("rules"), clean("local")
    # The code reads these as latin-1.
    put(os.path.join(local, "site.cf"), text.encode("latin-1"))
    return local, rules, ["-S", local, "-C", rules, "-p", os.path.join(rules, "none")]


def daemon(server, command, data, **headers):
    reply, err = env.request(env.wire(command, data, **headers), server)
    if err is not None:
        raise err
    return env.Reply(reply).body


def expected(server, mode, data):
    report = daemon(server, "REPORT", data) + b"\n"
    if mode == "-R":
        return report
    adjusted = daemon(server, "PROCESS", data) + b"\n"
    return adjusted + report if mode == "-t" else adjusted


def same(rec, key, got, want, **info):
    """Compares bytes; of long texts shows where they begin to differ."""
    got, want = (re.sub(rb"localhost by \S+ with", b"localhost by HOST with", env.canon(t)) for t in (got, want))
    if got != want:
        i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
        rec.fail(key, "the script prints ...%r, the daemon ...%r" % (got[max(0, i - 60):i + 100], want[max(0, i - 60):i + 100]), **info)


def texts():
    out = dict((n, t.encode("utf8")) for n, t in universe.messages().items())
    out.update(RAW)
    return out


def run_messages(case, rec):
    conf, names = case
    universe.world()
    local, rules, args = places(config(conf))
    server = site.make_server("", paths=(local, rules))
    for name in names:
        data = texts()[name]
        for mode in ("-R", None, "-t"):
            want = expected(server, mode, data)
            opts = args + ([mode] if mode else [])
            path = put(os.path.join(rules, "message"), data)
            folder = clean("folder")
            put(os.path.join(folder, "1"), data)
            for way, more in (("stdin", []), ("dash", ["-"]), ("path", [path]), ("directory", [folder])):
                if way in ("dash", "directory") and mode == "-t":
                    continue
                rec.state((conf, name, mode, way))
                rec.step()
                got, code = script(opts + more, data)
                same(rec, "messages/" + way, got, want, config=conf, name=name, mode=mode)
                rec.check("messages/exit", code, 0, config=conf, name=name, mode=mode, way=way)
    rec.trace()


SEVERAL = ("utf", "latin", "crlf", "empty", "open")


def run_several(case, rec):
    conf, names, mode = case
    universe.world()
    local, rules, args = places(config(conf))
    server = site.make_server("", paths=(local, rules))
    rec.state(case)
    rec.step()
    paths = [put(os.path.join(rules, "m%d" % i), texts()[n]) for i, n in enumerate(names)]
    singles = [expected(server, mode, texts()[n]) for n in names]
    opts = args + ([mode] if mode else [])
    got, code = script(opts + paths)
    same(rec, "several/paths", got, b"".join(singles), config=conf, names=names, mode=mode)
    rec.check("several/exit", code, 0, config=conf, names=names)
    rec.step()
    folder = clean("folder")
    for i, n in enumerate(names[1:]):
        put(os.path.join(folder, "f%d" % i), texts()[n])
    got, code = script(opts + [paths[0], folder])
    orders = [env.canon(b"".join([singles[0]] + list(o))) for o in itertools.permutations(singles[1:])]
    if env.canon(got) not in orders:
        rec.fail("several/directory", "the script prints %r for a directory with %s" % (got[-300:], names[1:]), config=conf, names=names, mode=mode)
    rec.trace()


FRAGMENTS = ["score ONE 1\n", "score ONE 2\nbody NEW /one/\n", "score ONE 4\nrequired_score 4.5\nreport_safe 0\n", "loadplugin mc.probe.Probe\nbody NEW eval:probe('a')\n", "clear_report_template\nreport other _TESTS_\n"]
FILES = ["site/a.cf", "site/b.cf", "site/z.pre", "rules/a.cf", "rules/m.cf", "rules/a.pre", "prefs", "site/ignored.txt", "rules/a.cf.bak"]
BASE = "body ONE /one/\nreport _TESTS_ _SCORE_ _REQD_\n"


def run_places(case, rec):
    """The same files of configuration, wherever they are."""
    where, base, user = case
    home = "/home/joe/.spamassassin/user_prefs"
    text = b"From: a@x.example\nSubject: x\n\none\n"
    for what in itertools.permutations(range(len(FRAGMENTS)), len(where)):
        rec.state((case, what))
        rec.step()
        probe.reset(a=True)
        local, rules = clean("local"), clean("rules")
        files = {base: BASE + ("allow_user_rules 1\n" if user else "")}
        for w, f in zip(where, what):
            files[w] = files.get(w, "") + FRAGMENTS[f]
        prefs = files.pop("prefs", None)
        for path, content in files.items():
            d, name = path.split("/")
            put(os.path.join({"site": local, "rules": rules}[d], name), content.encode("utf8"))
        homes = site.Homes()
        with homes.installed():
            site.put_prefs(home, prefs)
            server = site.make_server("", paths=(local, rules))
            headers = {"User": "joe"} if user else {}
            want = [daemon(server, c, text, **headers) + b"\n" for c in ("REPORT", "PROCESS")]
        path = put(os.path.join(env.scratch("message")), text)
        opts = ["-S", local, "-C", rules, "-p", put(env.scratch("prefs"), prefs.encode("utf8")) if prefs else "/nonexistent/prefs"]
        for mode, w in zip(("-R", None), want):
            got, code = script(opts + ([mode] if mode else []) + [path])
            same(rec, "places", got, w, files=files, prefs=prefs, mode=mode)
            rec.check("places/exit", code, 0, files=files, prefs=prefs)
    rec.trace()


# In the order in which they are read; the last one wins.
ORDER = ["site/10.pre", "site/9.pre", "rules/b.pre", "rules/c.pre", "rules/B.cf", "rules/a.cf", "rules/m.cf", "site/0.cf", "site/n.cf", "prefs"]


def run_order(case, rec):
    """Which file has the last word."""
    text = b"Subject: x\n\none\n"
    rec.state(case)
    for numbers in itertools.permutations((1, 2, 4)[:len(case)]):
        rec.step()
        local, rules = clean("local"), clean("rules")
        prefs = None
        for name, n in zip(case, numbers):
            content = ("score ONE %d\nrequired_score 1%d\n" % (n, n)).encode("utf8")
            if name == "prefs":
                prefs = content
            else:
                d, name = name.split("/")
                put(os.path.join({"site": local, "rules": rules}[d], name), content)
        # Read before any of the others of these.
        put(os.path.join(local, "1.pre"), b"body ONE /one/\nclear_report_template\nreport _SCORE_ of _REQD_\nallow_user_rules 1\n")
        n = numbers[[ORDER.index(c) for c in case].index(max(ORDER.index(c) for c in case))]
        want = b"%d.0 of 1%d.0" % (n, n)
        opts = ["-S", local, "-C", rules, "-p", put(env.scratch("prefs"), prefs) if prefs else "/nonexistent/prefs"]
        got, code = script(opts + ["-R", put(env.scratch("message"), text)])
        rec.check("order/script", got.split(b"\n")[0], want, case=case, numbers=numbers)
        homes = site.Homes()
        with homes.installed():
            site.put_prefs("/home/joe/.spamassassin/user_prefs", prefs.decode() if prefs else None)
            server = site.make_server("", paths=(local, rules))
            got = daemon(server, "REPORT", text, **({"User": "joe"} if prefs else {}))
        rec.check("order/daemon", got.split(b"\n")[0], want, case=case, numbers=numbers)
    rec.trace()


PLUGINS = "loadplugin mc.probe.Probe\nloadplugin mc.probe.Other\nbody ONE /one/\n"


def run_reports(case, rec):
    """-r and -k tell every plugin about every message, as TELL does."""
    option, shape, failing = case
    n = len(failing)
    rec.state(case)
    rec.step()
    local, rules, args = places(PLUGINS)
    event = {"-r": "report", "-k": "revoke"}[option]
    data = [b"Subject: m%d\n\none\n" % i for i in range(n)]
    want = []
    for i, bad in enumerate(failing):
        for tag in ("probe", "other"):
            want.append((event, data[i].decode()))
    probe.reset()
    for i, bad in enumerate(failing):
        if bad:
            probe.FAILING[data[i].decode()] = bad
    try:
        folder = clean("folder")
        if shape == "folder":
            for i in range(n):
                put(os.path.join(folder, "f%d" % i), data[i])
            paths = [folder]
        else:
            paths = [put(os.path.join(rules, "m%d" % i), d) for i, d in enumerate(data)]
        got, code = script(args + [option] + paths)
        calls = [(e[1], e[2]) for e in probe.EVENTS if e[1] in ("report", "revoke")]
        rec.check("reports/calls", sorted(calls), sorted(want), case=case)
        if shape == "paths":
            rec.check("reports/order", calls, want, case=case)
        rec.check("reports/count", got, b"%d message(s) examined\n" % n, case=case)
        # The daemon.
        del probe.EVENTS[:]
        server = site.make_server("", paths=(local, rules))
        server.allow_tell = True
        header = {"-r": {"Message_class": "spam", "Set": "remote"}, "-k": {"Remove": "remote"}}[option]
        for d in data:
            env.request(env.wire("TELL", d, **header), server)
        calls = [(e[1], e[2]) for e in probe.EVENTS if e[1] in ("report", "revoke")]
        rec.check("reports/daemon", calls, want, case=case)
    finally:
        probe.FAILING.clear()
    rec.trace()


def run_process(case, rec):
    """The script as a process of its own."""
    conf, name, way, lang, mode = case
    local, rules, args = places(config(conf))
    rec.state(case)
    rec.step()
    data = texts()[name]
    path = put(os.path.join(rules, "message"), data)
    import oa
    repo = os.path.dirname(os.path.dirname(os.path.abspath(oa.__file__)))
    environ = dict(os.environ, LC_ALL=lang, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=repo, HOME=rules)
    environ.pop("PYTHONIOENCODING", None)
    with open(path, "rb") as f:
        got = subprocess.run([sys.executable, os.path.join(repo, "scripts", "match.py")] + args + ([mode] if mode else []) + ([path] if way == "path" else []), stdin=f, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             env=environ, cwd=rules, timeout=60)
    server = site.make_server("", paths=(local, rules))
    rec.check("process/exit", got.returncode, 0, case=case, stderr=got.stderr[-300:])
    same(rec, "process", got.stdout, expected(server, mode, data), case=case)
    rec.trace()


def spaces(tier):
    from mc.core import Space
    deep = tier == "thorough"
    names = list(texts())
    messages = [(c, tuple(names[i:i + 2])) for c in list(CONFIGS) + ["universe"] for i in range(0, len(names), 2) if deep or c == "universe" or i >= len(names) - len(RAW) or c == "rewrite"]
    some = [n for n in universe.messages()][::9 if not deep else 4]
    several = [(c, ns, m) for c, pool in (("rewrite", SEVERAL), ("universe", some)) for r in (2, 3) for ns in itertools.product(pool, repeat=r) for m in ("-R", None) if deep or r == 2 or c == "rewrite" and m is None]
    spots = [w for r in (1, 2, 3 if deep else 2) for w in itertools.combinations_with_replacement(FILES, r)]
    placed = [(w, b, u) for w in dict.fromkeys(spots) for b in ("site/a.cf", "rules/m.cf") for u in (False, True) if u == ("prefs" in w)]
    reports = [(o, s, f) for o in ("-r", "-k") for s in ("paths", "folder") for n in (1, 2, 3) for f in itertools.product((None, "probe", "other"), repeat=n)]
    process = [("rewrite", n, w, l, m) for n in ("latin", "utf", "crlf", "empty") for w in ("stdin", "path") for l, m in (("C", None), ("en_US.UTF-8", "-R"))]
    return [
        Space("messages", messages, run_messages, "every message in every way", timeout=120),
        Space("several", several, run_several, "several messages in one run"),
        Space("places", placed, run_places, "configuration in several places"),
        Space("order", [c for r in (1, 2, 3) for c in itertools.combinations(ORDER, r)], run_order, "which file has the last word"),
        Space("reports", reports, run_reports, "reporting and revoking"),
        Space("process", process, run_process, "the real script", timeout=120),
    ]
