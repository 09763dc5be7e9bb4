"""C27: DNS queries are made only when they are allowed."""
import itertools
import os
import time

from mc import env

TECHNIQUE = "exhaustive enumeration of restriction lists and of histories of checks, clock steps and network states on the real engine, with the queries recorded at the resolver, against a model of the restrictions and of the availability test"
LEVEL_NOTE = "All lists of up to 3 restrictions over 7 spellings of names, judged by 12 kinds of queries; the switches in all combinations; all histories of up to 5 (6 in thorough) clock steps and network changes under 10 settings of the test."
ASSUMPTIONS = ["the SPF library makes its own queries and is not judged", "an entry with several names is not judged"]

PLUGINS = "loadplugin oa.plugins.dns_eval.DNSEval\nloadplugin oa.plugins.dkim.DKIMPlugin\nloadplugin oa.plugins.spam_cop.SpamCopPlugin\n"
RULES = """header SENDER eval:check_dns_sender()
header RBL eval:check_rbl('z1', 'bl.example')
header RBLDOT eval:check_rbl('z2', 'bl2.example.')
header RBLTXT eval:check_rbl_txt('z3', 'TXT.example.')
header RBLSUB eval:check_rbl_sub('z1', '2')
header RBLENV eval:check_rbl_envfrom('z4', 'env.example.')
header RBLDOM eval:check_rbl_from_domain('z5', 'dom.bl.example.')
header RBLHOST eval:check_rbl_from_host('z6', 'host.example')
header RBLACC eval:check_rbl_accreditor('z7', 'acc.example', '127', 'tag')
full DKIM eval:check_dkim_valid()
report END
spamcop_to_address x@sc.b.example
spamcop_from_address x@x
"""
LISTS = ("RBL", "RBLDOT", "RBLTXT", "RBLSUB", "RBLENV", "RBLDOM", "RBLHOST", "RBLACC")


class Answers(object):
    """Every name exists, unless the network is down."""
    up = True

    def get(self, key):
        if not Answers.up:
            import dns.exception
            return dns.exception.Timeout()
        name, qtype = key
        if qtype == "MX":
            return ["10 mx.%s." % name]
        return ["k=rsa; p=MFww"] if qtype in ("TXT", "16") else ["127.0.0.2"]


def mail(sender="b.a.example", n=0):
    import email.utils
    return ("Received: from r.example (r.example [45.9.2.7]) by x.example (Postfix) with SMTP id X%d (envelope-from <a@%s>); %s\n" % (n, sender, email.utils.formatdate(time.time())) +
            "From: u@From.Example\nAccreditor: tag\nSubject: x\nDKIM-Signature: v=1; a=rsa-sha256; c=simple/simple; d=dk.a.example; s=Sel; h=from; bh=47DEQpj8HBSa+/TImW+5JCeuQeRkm5NMpJWZG3hSuFU=; b=AAAA\n\n")


def ask(rs, text):
    """The names queried for a check and a report of a message."""
    env.DNS.reset()
    env.DNS.answers = Answers()
    env.MailWorld.fail = {}
    msg = env.check(rs, text)
    rs.ctxt.hook_report(msg)
    return msg, set(n for n, _ in env.DNS.queries), list(env.DNS.queries)


NAMES = ("example", "a.example", "b.a.example", "A.Example", "bl.example", "_domainkey.dk.a.example", "7.2.9.45.bl2.example", "sc.b.example", "nomatch.example")
SENDERS = ("example", "a.example", "b.a.example", "x.b.a.example", "ba.example", "B.A.EXAMPLE", "other")
_all = {}


def denied(name, restrictions):
    labels = name.split(".")
    for i in range(len(labels)):
        found = [kind for kind, n in restrictions if n.lower() == ".".join(labels[i:])]
        if found:
            return found[-1] == "deny"
    return False


def everything(sender):
    """What is asked when everything is allowed."""
    key = (os.getpid(), sender)
    if key not in _all:
        Answers.up = True
        _all[key] = ask(env.build(PLUGINS + RULES), mail(sender))
    return _all[key]


def run_restrictions(case, rec):
    restrictions, style = case
    # Restrictions that do not leave the tree of names are as any other.
    sep = {"plain": " ", "tabs": "\t", "spaces": "   "}[style]
    lines = "".join("dns_query_restriction %s%s%s\n" % (kind, sep, name) for kind, name in restrictions)
    Answers.up = True
    rs = env.build(PLUGINS + RULES + lines)
    for sender in SENDERS if len(restrictions) < 3 else SENDERS[2:4]:
        full, want, _ = everything(sender)
        rec.state((case, sender))
        rec.step()
        msg, got, _ = ask(rs, mail(sender))
        rec.check("restrictions/queries", got, set(n for n in want if not denied(n, restrictions)), restrictions=restrictions, sender=sender)
        # Rules that may not ask don't match, all others do.
        named = {"SENDER": [], "RBL": ["7.2.9.45.bl.example"], "RBLSUB": ["7.2.9.45.bl.example"], "RBLDOT": ["7.2.9.45.bl2.example"], "RBLENV": [sender.lower() + ".env.example"], "RBLDOM": ["from.example.dom.bl.example"]}
        for rule, names in named.items():
            expect = rule != "SENDER" and not any(denied(n, restrictions) for n in names)
            rec.check("restrictions/rules", rule in env.matched(msg), expect, rule=rule, restrictions=restrictions, sender=sender)
    rec.trace()


def run_switches(case, rec):
    options = dict(case)
    lines = "".join("%s %s\n" % (k, v) for k, v in case if v)
    Answers.up = True
    rs = env.build(PLUGINS + RULES + lines)
    full, want, _ = everything("b.a.example")
    rec.state(case)
    rec.step()
    msg, got, _ = ask(rs, mail())
    if options["dns_available"] == "no":
        want = set()
    elif options["skip_rbl_checks"] == "1":
        want = set(n for n in want if not any(n.endswith("." + z) for z in ("bl.example", "bl2.example", "txt.example", "env.example", "host.example", "acc.example")))
    if options["dns_query_restriction"] == "deny a.example":
        want = set(n for n in want if not denied(n, [("deny", "a.example")]))
    rec.check("switches/queries", got, want, options=options)
    hits = env.matched(msg)
    rec.check("switches/lists", [r for r in LISTS if r in hits], [r for r in LISTS if want and options["skip_rbl_checks"] != "1"], options=options)
    rec.check("switches/sender", "SENDER" in hits, False, options=options)
    rec.trace()


class Clock(object):
    """Everything that tells the time tells this one."""

    def __init__(self):
        self.now = 1500000000.0

    def __enter__(self):
        self.saved = time.time, time.monotonic
        time.time = time.monotonic = lambda: self.now
        return self

    def __exit__(self, *exc):
        time.time, time.monotonic = self.saved


DEFAULT = None
TESTS = {
    "one": ("test:t1.example", ["t1.example"]), "spaced": ("test: t1.example t2.example", ["t1.example", "t2.example"]), "three": ("test: t1.example t2.example t3.example", ["t1.example", "t2.example", "t3.example"]),
    "five": ("test:t1.example t2.example t3.example t4.example t5.example", ["t%d.example" % i for i in range(1, 6)]), "default": ("test", DEFAULT),
}
INTERVALS = {"": 600, "600": 600, "90s": 90, "2m": 120, "1h": 3600, "1d": 86400, "1w": 604800}
# how much of the interval passes, and who answers from then on
STEPS = [(0, "all"), (0, "none"), (-1, "all"), (-1, "none"), (1, "all"), (1, "none"), (1, "some")]


class Network(Answers):
    """Only some of the names of the test answer."""
    alive = "all"

    def get(self, key):
        import dns.exception
        import dns.resolver
        if self.alive == "none":
            return dns.exception.Timeout()
        if self.alive == "some" and key[0] in ("t1.example", "t3.example"):
            return dns.resolver.NoNameservers() if key[0] == "t3.example" else None
        return Answers.get(self, key)


def run_tests(case, rec):
    test, interval, history = case
    setting, names = TESTS[test]
    seconds = INTERVALS[interval]
    with Clock() as clock:
        Answers.up = True
        rs = env.build(PLUGINS + "header SENDER eval:check_dns_sender()\nheader RBL eval:check_rbl('z1', 'bl.example')\ndns_available %s\n%s" % (setting, "dns_test_interval %s\n" % interval if interval else ""))
        network = Network()
        tested, available = None, None
        for i, (step, network.alive) in enumerate(history):
            rec.step()
            rec.state((case[:2], history[:i + 1]))
            # Just before, or after, the interval from the last test.
            if tested is not None and step:
                clock.now = max(clock.now, tested + seconds + step * 0.5)
            else:
                clock.now += step * 0
            env.DNS.reset()
            env.DNS.answers = network
            msg = env.check(rs, mail(n=i))
            asked = [n for n, _ in env.DNS.queries]
            real = [n for n in asked if n.endswith((".bl.example", "b.a.example"))]
            probes = [n for n in asked if n not in real]
            due = tested is None or clock.now >= tested + seconds
            info = dict(setting=setting, interval=interval, history=history[:i + 1])
            if not due:
                rec.check("test/early", probes, [], **info)
            else:
                if not probes:
                    rec.fail("test/missing", "no test is made though the interval has passed", **info)
                if names is not None and not set(probes) <= set(names):
                    rec.fail("test/names", "asks for %s in the test" % probes, **info)
                if len(probes) > 3 or len(set(probes)) != len(probes):
                    rec.fail("test/number", "asks for %s in the test" % probes, **info)
                alive = [n for n in probes if network.alive == "all" or network.alive == "some" and n not in ("t1.example", "t3.example")]
                available = bool(alive)
                if not available and len(probes) < min(3, len(names or "123")):
                    rec.fail("test/incomplete", "gives up after %s" % probes, **info)
                tested = clock.now
            rec.check("test/queries", bool(real), bool(available), **info)
            rec.check("test/match", "RBL" in env.matched(msg), bool(available) and network.alive != "none", **info)
    rec.trace()


def spaces(tier):
    from mc.core import Space
    deep = tier == "thorough"
    one = [(k, n) for k in ("deny", "allow") for n in NAMES]
    lists = [(c, "plain") for r in range(4) for c in itertools.permutations(one, r) if r < 3 or deep or all(n in NAMES[:4] for _, n in c)]
    lists += [(c, s) for r in (1, 2) for c in itertools.product(one[:4], repeat=r) for s in ("tabs", "spaces")]
    switches = [tuple(zip(("dns_available", "skip_rbl_checks", "dns_query_restriction"), v)) for v in itertools.product(("", "yes", "no"), ("", "0", "1"), ("", "deny a.example"))]
    depth = 5 if deep else 4
    tests = [(t, i, h) for t, i in [("one", ""), ("spaced", "90s"), ("three", "2m"), ("five", "600"), ("default", "1h")] + ([("one", "1d"), ("three", "1w")] if deep else []) for h in itertools.product(STEPS, repeat=depth if t != "default" else depth - 1)]
    tests += [(t, i, h) for t, i in [("one", "1d"), ("one", "1w"), ("spaced", "1h"), ("default", "90s")] for h in itertools.product(STEPS, repeat=2)]
    return [
        Space("restrictions", lists, run_restrictions, "restriction lists"),
        Space("switches", switches, run_switches, "the switches"),
        Space("tests", tests, run_tests, "histories of the availability test"),
    ]
