"""C38: failures of external services never break a check."""
import itertools
import os

from mc import env, universe

TECHNIQUE = "exhaustive fault injection on the real engine: every failure of every call to an external service, alone, in pairs and as whole outages, against the run without failures"
LEVEL_NOTE = "Every call of 50 messages in two worlds with every one of 7 to 12 failures; all pairs of failures for 4 messages; all subsets of 6 services down; all failures, alone and in pairs, while reporting and revoking 1 or 2 messages."
ASSUMPTIONS = ["the services are simulated at the interface of their client libraries", "the ADSP rule is not judged when DNS fails", "an SPF failure may affect the rules of both kinds of SPF results"]

OPTIONS = universe.OPTIONS.replace("pyzor_servers a.example:24441\n", "") + "pyzor_servers a.example:24441,b.example:24441\nspamcop_to_address sc@sc.example\nspamcop_from_address me@x.example\nreport all END\nadd_header all End END\n"
RULES = universe.RULES + ["header RBL_DOM eval:check_rbl_from_domain('zd', 'dom.example.')", "header DK_DWL eval:check_for_def_dkim_whitelist_from()"]
PLUGINS = universe.PLUGINS + "loadplugin oa.plugins.spam_cop.SpamCopPlugin\nloadplugin mc.probe.Witness\n"
ZONES = {"bl.example": "RBL_A RBL_SUB", "txt.example": "RBL_TXT", "env.example": "RBL_ENV", "host.example": "RBL_HOST", "dom.example": "RBL_DOM"}
SERVICES = {"spf": "SPF", "spfh": "SPF", "pyzor": "PYZOR", "razor": "RAZOR"}
_sets = {}


class World(object):
    """Every call to an external service goes through here."""

    def __init__(self):
        self.listed = True
        self.begin()

    def begin(self, faults=None, down=()):
        self.calls, self.faults, self.down = [], faults or {}, dict(down)

    def call(self, service, what, normal):
        i = len(self.calls)
        self.calls.append((service,) + what)
        fault = self.faults.get(i) or self.down.get(service)
        # A failure found for another service does not apply to this one.
        if fault and fault[0] == service:
            bad = FAULTS[service][fault[1]]()
            if isinstance(bad, BaseException):
                raise bad
            return bad
        return normal()


WORLD = World()


def faults():
    import binascii
    import smtplib
    import socket

    import dns.exception
    import dns.name
    import dns.resolver
    import pyzor

    def answer(*texts):
        return lambda: list(texts)
    out = {
        "dns": {
            "nxdomain": dns.resolver.NXDOMAIN, "noanswer": lambda: dns.resolver.NoAnswer() if not hasattr(dns.resolver.NoAnswer, "supp_kwargs") or not dns.resolver.NoAnswer.supp_kwargs else dns.resolver.NoAnswer(query="x"),
            "timeout": dns.exception.Timeout, "noservers": dns.resolver.NoNameservers, "toolong": dns.resolver.YXDOMAIN, "label": dns.name.LabelTooLong, "empty": dns.name.EmptyLabel, "form": dns.exception.FormError,
            "socket": lambda: OSError(101, "Network is unreachable"), "slow": lambda: socket.timeout("timed out"), "value": lambda: ValueError("bad"),
        },
        "key": {"garbage": answer("v=DKIM1; p=!!!!"), "nothing": answer(""), "revoked": answer("k=rsa; p="), "noise": answer(u"\u00e9\x00;;=;p"), "short": answer("v=DKIM1; k=rsa; p=MFww"), "other": answer("v=spf1 -all"), "none": lambda: []},
        "spf": {"temporary": lambda: IOError(110, "timed out"), "error": lambda: dns.exception.Timeout(), "assertion": AssertionError, "index": IndexError, "unicode": lambda: UnicodeError("label empty or too long"), "runtime": RuntimeError},
        "pyzor": {"comm": lambda: pyzor.CommError("x"), "timeout": lambda: pyzor.TimeoutError("x"), "protocol": lambda: pyzor.ProtocolError("x"), "unauthorized": lambda: pyzor.AuthorizationError("x"), "name": lambda: socket.gaierror(-2, "unknown"),
                  "socket": lambda: OSError(111, "refused"), "nothing": lambda: {}, "error": lambda: {"Code": "500", "Diag": "no"}, "text": lambda: {"Count": "many", "WL-Count": "x"}, "none": lambda: None, "key": lambda: KeyError("Count")},
        "razor": {"missing": lambda: OSError(2, "No such file"), "denied": lambda: OSError(13, "Permission denied"), "memory": lambda: OSError(12, "Cannot allocate memory"), "two": lambda: 2, "crash": lambda: 255, "killed": lambda: -9, "hung": lambda: -15},
        "pipe": {"broken": lambda: BrokenPipeError(32, "Broken pipe"), "io": lambda: IOError(5, "Input/output error")},
        "smtp": {"refused": lambda: OSError(111, "refused"), "gone": lambda: smtplib.SMTPServerDisconnected("x"), "rejected": lambda: smtplib.SMTPRecipientsRefused({}), "auth": lambda: smtplib.SMTPHeloError(500, "x"), "timeout": lambda: socket.timeout("timed out"), "unicode": lambda: UnicodeEncodeError("ascii", u"\u00e9", 0, 1, "x"), "type": lambda: TypeError("x")},
    }
    return out


FAULTS = {}


def wanted(qname, qtype):
    """What the name servers say."""
    name = str(qname).rstrip(".").lower()
    if "_domainkey" in name or "_adsp" in name:
        return env.DNS.answers.get((name, str(qtype)))
    for zone in ZONES:
        if name.endswith("." + zone) and WORLD.listed:
            return ["Listed here"] if zone == "txt.example" else ["127.0.0.3"]
    if name == "sc.example":
        return ["10 mx.sc.example."]
    if WORLD.listed and str(qtype) in ("A", "MX"):
        return ["45.9.2.200"] if str(qtype) == "A" else ["10 mx.%s." % name]
    return env.DNS.answers.get((name, str(qtype)))


def install():
    import dns.name
    import dns.resolver
    import pyzor.client
    import smtplib
    import spf
    FAULTS.update(faults())

    def query(self, qname, rdtype="A", *args, **kwargs):
        def normal():
            if not isinstance(qname, dns.name.Name):
                dns.name.from_text(qname)
            res = wanted(qname, rdtype)
            if res is None:
                raise dns.resolver.NXDOMAIN()
            return env.FakeAnswer(res, rdtype)
        name = str(qname).rstrip(".").lower()
        key = "key" if "_domainkey" in name else "dns"
        i = len(WORLD.calls)
        fault = WORLD.faults.get(i)
        if fault and fault[0] == "key":
            WORLD.calls.append(("dns", name, str(rdtype)))
            res = FAULTS["key"][fault[1]]() if key == "key" else None
            return env.FakeAnswer(res, rdtype) if res is not None else normal()
        return WORLD.call("dns", (name, str(rdtype)), normal)
    dns.resolver.Resolver.query = query
    if hasattr(dns.resolver.Resolver, "resolve"):
        dns.resolver.Resolver.resolve = query
    spf.check2 = lambda i, s, h, **kw: WORLD.call("spf", (str(i), s, h), lambda: ("pass", "explained"))

    class Client(object):
        def __init__(self, *a, **kw):
            pass

        def check(self, digest, address=None):
            return WORLD.call("pyzor", ("check", digest, str(address)), lambda: {"Code": "200", "Diag": "OK", "Count": "20" if WORLD.listed and "b.example" in str(address) else "0", "WL-Count": "0"})

        def report(self, digest, address=None):
            return WORLD.call("pyzor", ("report", digest, str(address)), lambda: {"Code": "200", "Diag": "OK"})

        def whitelist(self, digest, address=None):
            return WORLD.call("pyzor", ("whitelist", digest, str(address)), lambda: {"Code": "200", "Diag": "OK"})
    pyzor.client.BatchClient = Client

    class Mail(object):
        def __init__(self, *a, **kw):
            WORLD.call("smtp", ("init",), lambda: None)

        def connect(self, *a):
            WORLD.call("smtp", ("connect",), lambda: None)

        def helo(self, *a):
            WORLD.call("smtp", ("helo",), lambda: None)

        def sendmail(self, sender, receiver, message):
            WORLD.call("smtp", ("sendmail", sender, receiver), lambda: None)

        def quit(self):
            WORLD.call("smtp", ("quit",), lambda: None)
    smtplib.SMTP = Mail

    class Process(object):
        def __init__(self, name, code):
            self.name, self.code, self.returncode = name, code, None

        def communicate(self, input=None, timeout=None):
            WORLD.call("pipe", (self.name,), lambda: None)
            self.returncode = self.code
            return b"", b""

        def kill(self):
            pass

    def popen(args, **kwargs):
        return Process(args[0], WORLD.call("razor", (args[0],), lambda: 0 if WORLD.listed else 1))
    env.PROGRAMS.popen = popen


def ruleset(pid=None):
    if os.getpid() not in _sets:
        _sets.clear()
        WORLD.begin()
        universe.world()
        install()
        rs = env.build(universe.config(PLUGINS, OPTIONS, RULES))
        _sets[os.getpid()] = rs
    return _sets[os.getpid()]


def catalogue():
    out = universe.messages()
    chain = universe.rcvd(universe.IN, ("m.free.example", "m.free.example", "45.9.2.11", "in.local.example", "x1@freemail.example"), ("o.free.example", "o.free.example", "45.9.2.12", "m.free.example", None))
    out["chain"] = chain + "From: a@dk.example, b@y.example\nTo: u@to.example\nSubject: SPAM\n\none two four http://good-uri.example\n"
    out["names"] = chain.replace("x1@freemail.example", "a@b..c") + "From: a@%s.example, b@y..example, c@\u00e9.example\nSubject: SPAM\n\none two\n" % ("x" * 70)
    return out


def rules_of(call):
    """The rules that depend on a call; and those that may."""
    service = call[0]
    everything = ruleset().checked
    if service in ("spf",):
        rules = [n for n in everything if n.startswith("SPF")]
        return [], rules
    if service == "pyzor":
        return [], ["PYZOR"]
    if service in ("razor", "pipe"):
        return ["RAZOR"], ["RAZOR"]
    if service == "dns":
        name = call[1]
        if "_domainkey" in name:
            # Without the key no signature is valid.
            rules = [n for n in everything if n.startswith("DK_") and n not in ("DK_SIGNED", "DK_DEP", "DK_ADSP", "DK_AUTHOR")]
            return rules, rules + ["DK_ADSP", "DK_DEP", "DK_AUTHOR"]
        if "_adsp" in name:
            return [], ["DK_ADSP"]
        for zone in ZONES:
            if name.endswith("." + zone):
                return [], ZONES[zone].split()
        # The rule for senders without any address.
        return [], ["DNS_SENDER"]
    return [], []


def judge(rec, key, name, text, failed, usual, usual_calls, **info):
    """Checks a message under the failures; failed: the calls that fail."""
    rs = ruleset()
    rec.step()
    msg = env.check(rs, text)
    hits = env.matched(msg)
    report = rs.get_report(msg)
    adjusted = rs.get_adjusted_message(msg)
    info["message"] = name
    if not report.endswith("END\n") or "X-Spam-End: END" not in adjusted:
        rec.fail(key + "/incomplete", "report %r" % report[-100:], **info)
    if "SCRULE" in usual or "SCRULE" in hits:
        rec.check(key + "/shortcircuit", "SCRULE" in hits, "SCRULE" in usual, **info)
        return
    never, maybe = set(), set()
    for call in failed:
        a, b = rules_of(call)
        never.update(a)
        maybe.update(b)
    rec.check(key + "/others", [n for n in hits if n not in maybe], [n for n in usual if n not in maybe], **info)
    rec.check(key + "/failed", [n for n in hits if n in never], [], **info)
    extra = [n for n in hits if n in maybe and n not in usual and n not in ("DK_ADSP", "DNS_SENDER")]
    rec.check(key + "/extra", extra, [], **info)
    # Rules with several calls match by those that still answer.
    for zone in ZONES:
        asked = set(c[1] for c in usual_calls if c[0] == "dns" and c[1].endswith("." + zone))
        bad = set(c[1] for c in failed if c[0] == "dns" and c[1].endswith("." + zone))
        if not bad or not WORLD.listed:
            continue
        for rule in ZONES[zone].split():
            if rule not in usual:
                continue
            if len(WORLD.down) == 0 and not could(asked, bad, zone):
                continue
            rec.check(key + "/" + rule, rule in hits, could(asked, bad, zone) and not WORLD.down.get("dns"), **info)
    pyzor = [c for c in failed if c[0] == "pyzor"]
    if pyzor and "PYZOR" in usual:
        rec.check(key + "/PYZOR", "PYZOR" in hits, not any("b.example" in c[3] for c in pyzor), **info)
    return hits


def could(asked, bad, zone):
    return bool(asked - bad)


def baseline(text, listed):
    WORLD.listed = listed
    WORLD.begin()
    rs = ruleset()
    WORLD.begin()
    hits = env.matched(env.check(rs, text))
    return hits, list(WORLD.calls)


def kinds(service, call):
    out = [(service, f) for f in sorted(FAULTS[service])]
    if service == "dns" and "_domainkey" in call[1]:
        out += [("key", f) for f in sorted(FAULTS["key"])]
    return out


def run_single(case, rec):
    name, listed = case
    text = catalogue()[name]
    ruleset()
    usual, calls = baseline(text, listed)
    for i, call in enumerate(calls):
        for fault in kinds(call[0], call):
            rec.state((case, i, fault))
            WORLD.begin({i: fault})
            absence(rec, judge(rec, "single", name, text, [call], usual, calls, call=call, fault=fault, listed=listed), usual, [call], [fault], name)
    WORLD.begin()
    again = env.matched(env.check(ruleset(), text))
    rec.check("single/after", again, usual, name=name)
    rec.trace()


def absence(rec, hits, usual, failed, kinds_, name):
    """The rule for senders without addresses needs an answer that says so."""
    if hits is None or "DNS_SENDER" not in hits or "DNS_SENDER" in usual:
        return
    if any(k not in ("nxdomain", "noanswer", "toolong", "label", "empty", "value") for _, k in kinds_):
        rec.fail("dns-sender/unanswered", "DNS_SENDER matches though the servers did not answer: %s %s" % (failed, kinds_), name=name)


def run_pairs(case, rec):
    name, i, first = case
    text = catalogue()[name]
    ruleset()
    usual, calls = baseline(text, True)
    if i >= len(calls) or first >= len(kinds(calls[i][0], calls[i])):
        return
    fault = kinds(calls[i][0], calls[i])[first]
    # What is asked after the first failure.
    WORLD.begin({i: fault})
    env.check(ruleset(), text)
    after = list(WORLD.calls)
    for j in range(i + 1, len(after)):
        for other in kinds(after[j][0], after[j])[::2]:
            rec.state((case, j, other))
            WORLD.begin({i: fault, j: other})
            failed = [calls[i], after[j]]
            judge(rec, "pairs", name, text, failed, usual, calls + after, first=(calls[i], fault), second=(after[j], other))
    rec.trace()


DOWN = ("dns", "spf", "pyzor", "razor", "pipe")


def run_outages(case, rec):
    name, down = case
    text = catalogue()[name]
    ruleset()
    usual, calls = baseline(text, True)
    options = [[(s, f) for f in sorted(FAULTS[s])] for s in down]
    n = max(len(o) for o in options) if options else 0
    for k in range(n):
        chosen = {s: o[k % len(o)] for s, o in zip(down, options)}
        rec.state((case, k))
        WORLD.begin(None, chosen)
        failed = [c for c in calls if c[0] in down]
        hits = judge(rec, "outages", name, text, failed, usual, calls, down=chosen)
        if hits is not None and "dns" in down:
            absence(rec, hits, usual, "all", [chosen["dns"]], name)
    rec.trace()


def reported(way, texts):
    """The calls that reporting makes."""
    from mc import probe
    rs = ruleset()
    del probe.EVENTS[:]
    for text in texts:
        try:
            if way == "report":
                rs.ctxt.hook_report(env.message(rs, text))
            elif way == "revoke":
                rs.ctxt.hook_revoke(env.message(rs, text))
            elif way == "check+report":
                rs.ctxt.hook_report(env.check(rs, text))
        except Exception as e:
            # Says that something has failed.
            if isinstance(e, (AttributeError, NameError)):
                raise
    return list(WORLD.calls), [(e[0], e[1]) for e in probe.EVENTS if e[1] in ("report", "revoke")]


def recent(subject):
    import email.utils
    return ("Received: from a.example (a.example [45.9.2.11]) by in.local.example (Postfix) with SMTP id X1; %s\n" % email.utils.formatdate() +
            "From: a@x.example\nSubject: %s\n\none %s\n" % (subject, subject))


ODD = {"usual": recent("first"), "unreceived": "From: a@x.example\nSubject: x\n\none two\n", "undated": "Received: from a.example by b.example\nSubject: x\n\none\n", "misdated": "Received: from a.example by b.example; yesterday\nSubject: x\n\none\n",
       "past": "Received: from a.example by b.example; Mon, 1 Jan 0001 00:00:00 +0000\nSubject: x\n\none\n", "empty": ""}


def run_reports(case, rec):
    way, names, depth = case
    texts = [ODD[n] for n in names]
    ruleset()
    WORLD.listed = True
    WORLD.begin()
    calls, events = reported(way, texts)
    rec.check("reports/witness", len(events), len(texts), case=case)
    # Each message goes to Razor and both Pyzor servers, the recent ones to SpamCop.
    what = "whitelist" if way == "revoke" else "report"
    rec.check("reports/pyzor", len([c for c in calls if c[:2] == ("pyzor", what)]), 2 * len(texts), case=case)
    rec.check("reports/razor", len([c for c in calls if c == ("razor", "razor-" + ("revoke" if way == "revoke" else "report"))]), len(texts), case=case)
    rec.check("reports/spamcop", len([c for c in calls if c[:2] == ("smtp", "sendmail")]), 0 if way == "revoke" else names.count("usual"), case=case)

    def others(calls, failed):
        # A failed service needs not be asked further for this message; with
        # SMTP and the pipe that is the rest of the conversation.
        gone = set(c[0] for c in failed)
        if gone & {"smtp"} or any(c[0] == "dns" for c in failed):
            gone |= {"smtp", "dns"}
        if gone & {"razor", "pipe"}:
            gone |= {"razor", "pipe"}
        if "pyzor" in gone:
            gone.discard("pyzor")
        return sorted(c for c in calls if c[0] not in gone and c[0] != "spf")

    def explore(faults, seen, start, left):
        for i in range(start, len(seen)):
            if seen[i][0] == "spf":
                continue
            for fault in kinds(seen[i][0], seen[i])[::1 if left == depth else 3]:
                new = dict(faults)
                new[i] = fault
                rec.state((case, tuple(sorted(new.items()))))
                rec.step()
                WORLD.begin(new)
                got, events = reported(way, texts)
                failed = [got[k] for k in new if k < len(got)]
                rec.check("reports/others", others(got, failed), others(calls, failed), case=case, faults=new, failed=failed)
                rec.check("reports/witness", len(events), len(texts), case=case, faults=new)
                if left > 1:
                    explore(new, got, i + 1, left - 1)
    explore({}, calls, 0, depth)
    rec.trace()


def spaces(tier):
    from mc.core import Space
    deep = tier == "thorough"
    names = list(catalogue())
    single = [(n, l) for n in names for l in (True, False)]
    rich = ["chain", "names", "dkim", "pyzor"] if not deep else names
    rich = [n for n in rich if n in names]
    pairs = [(n, i, f) for n in rich for i in range(40) for f in range(0, 18, 1 if deep else 3)]
    outages = [(n, d) for n in (names if deep else ["chain", "names"] + names[::5]) for r in range(1, len(DOWN) + 1) for d in itertools.combinations(DOWN, r)]
    reports = [(w, (n,), 1) for w in ("report", "revoke", "check+report") for n in ODD] + [(w, ("usual",), 2) for w in ("report", "revoke", "check+report")]
    reports += [(w, p, 1) for w in ("report", "revoke") for p in itertools.permutations(ODD, 2)]
    return [
        Space("single", single, run_single, "every failure of every call"),
        Space("pairs", pairs, run_pairs, "pairs of failures"),
        Space("outages", outages, run_outages, "services that are down"),
        Space("reports", reports, run_reports, "failures while reporting"),
    ]
