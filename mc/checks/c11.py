"""C11: user preferences apply to exactly their user."""
import itertools
import os

from mc import env, probe, site

TECHNIQUE = "explicit-state exploration of request, reload and preference histories on the real server, each reply compared with the one of a fresh server built from site and user file; exhaustive path catalogue"
LEVEL_NOTE = "All histories up to 4 operations (thorough 5) over 9 operations; 60 user strings with preference files waiting at every place they could reach; files redirected to a scratch root."
ASSUMPTIONS = ["preferences change only together with a reload, as the rulesets of users are cached until then"]

SITE = {
    "on": """loadplugin mc.probe.Probe
loadplugin oa.plugins.wlbl_eval.WLBLEvalPlugin
allow_user_rules 1
report site report _SUMMARY_
required_score 4
add_header all Gen site-_YESNO_-_TESTS_
trusted_networks 10.0.0.0/8
whitelist_from *@site.example
probe_append site
probe_str site
body ONE /one/
score ONE 2.5
describe ONE site text
body TWO /two/
score TWO 1
header WL eval:check_from_in_whitelist()
meta MM ONE && TWO
score MM 0.5
""",
}
SITE["off"] = SITE["on"].replace("allow_user_rules 1", "allow_user_rules 0")
SITE["on2"] = SITE["on"].replace("site report", "second report").replace("required_score 4", "required_score 2") + "body THREE /three/\n"

PREFS = {
    "u1": ["""score ONE 0.75
body UONE /one|two/
describe UONE of the user
required_score 1.5
whitelist_from *@u1.example
report user one _TESTS_
add_header spam User u1
probe_append u1
probe_str u1
""", """body UNEW /three/
clear_report_template
report new one
score TWO 0
"""],
    "u2": ["""required_score 99
body ONE /nothing/
clear_headers
trusted_networks !10.1.0.0/16
bogus line
body BAD /(/
loadplugin oa.plugins.body_eval.BodyEval
probe_clear
probe_append u2
""", """meta MM ONE || TWO
score MM 7
tflags ONE nice
"""],
    "u3": [None, "score ONE 9\n"],
    "UNION": [None, None],
}
MSG = """From: a@%s
To: b@c.example
Subject: s
Received: from a (a [10.1.2.3]) by b.c (Postfix) with SMTP id X; Mon, 1 Jan 2018 00:00:00 +0000

one two three
"""
TEXTS = [MSG % "u1.example", MSG % "site.example", "Subject: x\n\nnothing three\n"]

PROBE_SEEN = []


def fingerprint(server, user):
    out = []
    for text in TEXTS:
        for cmd in ("PROCESS", "SYMBOLS", "REPORT"):
            head = {"User": user} if user is not None else {}
            data, err = env.request(env.wire(cmd, text, **head), server)
            if err is not None:
                raise err
            out.append(env.canon(data))
    rs = server.get_user_ruleset(user)
    p = rs.ctxt.plugins["Probe"]
    out.append((list(p["probe_append"]), p["probe_str"]))
    return out


_expect = {}


def expected(conf, prefs):
    """The replies of a server that has only this."""
    key = (conf, prefs)
    if key not in _expect:
        texts = [SITE[conf]] + ([prefs] if prefs is not None and conf != "off" else [])
        rs = env.build(*texts)
        _expect[key] = fingerprint(env.FakeServer(rs), None)
    return _expect[key]


OPS = ("req u1", "req u2", "req u3", "req None", "conf on", "conf off", "conf on2", "prefs", "reload")
USERS = ("u1", "u2", "u3")


def run_history(case, rec):
    conf, gen = "on", 0
    for u in USERS:
        site.put_prefs("/home/%s/.spamassassin/user_prefs" % u, PREFS[u][0])
    server = site.make_server(SITE[conf])
    with site.Homes().installed() as homes:
        for i, op in enumerate(case):
            what, _, arg = OPS[op].partition(" ")
            if what == "req":
                user = None if arg == "None" else arg
                got = fingerprint(server, user)
                want = expected(conf, PREFS[user][gen] if user else None)
                rec.check("reply", got, want, history=[OPS[o] for o in case[:i + 1]], user=user)
                rec.trace()
            elif what == "conf":
                conf = arg
                site.put_site(SITE[conf])
                server.load_config()
            elif what == "prefs":
                gen = 1 - gen
                for u in USERS:
                    site.put_prefs("/home/%s/.spamassassin/user_prefs" % u, PREFS[u][gen])
                server.load_config()
            else:
                server.load_config()
            rec.step()
            rec.state((conf, gen, case[:i + 1]))
        for path in homes.opened:
            rec.check("opened", path in ["/home/%s/.spamassassin/user_prefs" % u for u in USERS], True, path=path)
    rec.sample(" ; ".join(OPS[o] for o in case))


STRINGS = ["", ".", "..", "...", "u1", " u1 ", "u1/", "/u1", "u1/.", "./u1", "u1//", "u1/..", "../u1", "../home/u1", "../../home/u1",
           "u2/../u1", "..//u1", "/", "//", "/etc", "/home/u1", "/tmp/x", "../etc", "../root", "../tmp", "../../../../tmp/x",
           "a/b", "a/b/../../u1", "u1/.spamassassin/..", "u1\\..", "..\\u1", "~", "~root", "~u1", "$HOME", "${HOME}", "%2e%2e", "%2e%2e/u1",
           "..%2fu1", "u1\x00", "u1\x00/x", "\x00", "*", "u?", "u1;id", "`id`", "U1", "\xfc1", "u1 u2", "u1,u2", "u" * 300, "-", "--", "u1.bak", ".u1", "u1.",
           "home", "root/../u1", "u1/../../etc", ".spamassassin", "user_prefs", "u1/.spamassassin/user_prefs", "../home/./u1", "....//u1", "..;/u1"]
EVIL = "body EVIL /one/\nscore EVIL 50\n"


def run_path(case, rec):
    i, variant = case
    user = STRINGS[i]
    raw = user.strip()
    good = raw not in ("", ".", "..") and "/" not in raw and "\x00" not in raw and len(raw) < 250
    plain = "/home/%s/.spamassassin/user_prefs" % raw
    for u in USERS:
        site.put_prefs("/home/%s/.spamassassin/user_prefs" % u, PREFS[u][0])
    # preferences wait wherever the string could lead
    if "\x00" not in raw and len(raw) < 250:
        for p in {plain, "/" + raw + "/.spamassassin/user_prefs", "/home/" + raw.replace("%2e", ".").replace("%2f", "/").replace("\\", "/") + "/.spamassassin/user_prefs",
                  "/home/.spamassassin/user_prefs", "/.spamassassin/user_prefs", "/root/.spamassassin/user_prefs"}:
            p = "/" + os.path.normpath(p).lstrip("/")
            if any(p.startswith("/home/%s/.spamassassin/user_prefs/" % u) for u in USERS):
                continue
            if p not in ["/home/%s/.spamassassin/user_prefs" % u for u in USERS]:
                site.put_prefs(p, EVIL)
    want_prefs = None
    if good and variant != "off":
        want_prefs = PREFS[raw][0] if raw in USERS else EVIL
    if variant == "nofile" and good:
        site.put_prefs(plain, None)
        want_prefs = None
    server = site.make_server(SITE["off" if variant == "off" else "on"])
    with site.Homes().installed() as homes:
        texts = []
        for cmd in ("PROCESS", "SYMBOLS"):
            for _twice in (1, 2):
                data, err = env.request(env.wire(cmd, TEXTS[0], User=user), server)
                if err is not None:
                    raise err
                texts.append(env.canon(data))
        for path in homes.opened:
            rec.check("path-opened", good and path == plain, True, path=path, user=user)
    e = expected("off" if variant == "off" else "on", want_prefs)
    rec.check("path-reply", texts, [e[0], e[0], e[1], e[1]], user=user, variant=variant)
    # and nothing is left behind for the other users
    with site.Homes().installed():
        rec.check("path-after", fingerprint(server, "u1" if variant != "off" else None),
                  expected("off" if variant == "off" else "on", PREFS["u1"][0] if variant != "off" and not (variant == "nofile" and raw == "u1") else None), user=user)
    import shutil
    shutil.rmtree(site.root())
    rec.step(3)
    rec.trace()
    rec.state(case)


def spaces(tier):
    from mc.core import Space
    n = 5 if tier == "thorough" else 4
    hist = []
    for h in itertools.product(range(len(OPS)), repeat=n):
        if OPS[h[-1]].startswith("req"):
            hist.append(h)
    return [Space("histories", hist, run_history, "all histories of requests and reloads"),
            Space("users", [(i, v) for i in range(len(STRINGS)) for v in ("on", "off", "nofile")], run_path,
                  "user strings and the files they lead to")]
