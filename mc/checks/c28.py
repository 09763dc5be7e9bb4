"""C28: blocklist rules ask about the right relays and believe the answers."""
import itertools
import os

from mc import env

TECHNIQUE = "exhaustive enumeration of relay chains, network settings, answers and failures for each relay on the real engine with the queries recorded at the resolver, against a model of each kind of rule"
LEVEL_NOTE = "All chains of up to 3 (4 in thorough) of 8 relays under 4 settings of trusted networks; all assignments of 7 answers and failures to up to 3 relays, judged by 22 rules; all senders and authors of a set with all answers."
ASSUMPTIONS = ["private relays that are not listed as trusted, and relays trusted only by their place, may be asked about or not", "a mask of several bits given as a number, or an address that is part of another one, is not judged"]

PLUGINS = "loadplugin oa.plugins.dns_eval.DNSEval\n"
# name: (address, as the lists have it)
RELAYS = {
    "a": ("45.9.2.7", "7.2.9.45"), "b": ("46.10.200.1", "1.200.10.46"), "c": ("200.0.0.255", "255.0.0.200"), "t": ("45.1.3.4", "4.3.1.45"), "u": ("45.1.200.4", "4.200.1.45"),
    "6": ("2a00:12:3:4::abcd", "d.c.b.a.0.0.0.0.0.0.0.0.0.0.0.0.4.0.0.0.3.0.0.0.2.1.0.0.0.0.a.2"), "v": ("2a00:99::1", "1.0.0.0.0.0.0.0.0.0.0.0.0.0.0.0.0.0.0.0.0.0.0.0.9.9.0.0.0.0.a.2"), "p": ("10.7.0.1", "1.0.7.10"),
}
# setting: which of the relays it makes trusted
NETWORKS = [("", ""), ("trusted_networks 45.1.0.0/16\n", "tu"), ("trusted_networks !45.1.200.0/24 45.1.0.0/16 2a00:99::/32\n", "tv"), ("internal_networks 45.1.3.4 10.0.0.0/8\ntrusted_networks 45.1.200.4\n", "tup")]
RULES = {
    "PLAIN": ("check_rbl('z', '@zone.example')", "A", lambda t: True),
    "DOT": ("check_rbl('zd', '@zone.example.')", "A", lambda t: True),
    "LAST": ("check_rbl('z-lastexternal', '@zone.example')", "A", lambda t: True),
    "TWO": ("check_rbl('z', '@zone.example', '^127\\.0\\.0\\.2$')", "A", lambda t: t == "127.0.0.2"),
    "SET": ("check_rbl('z', '@zone.example', '127\\.0\\.0\\.[34]$')", "A", lambda t: t in ("127.0.0.3", "127.0.0.4")),
    "BEGIN": ("check_rbl('z', '@zone.example', '127.0.1.')", "A", lambda t: t.startswith("127.0.1.")),
    "NEVER": ("check_rbl('z', '@zone.example', '^128')", "A", lambda t: False),
    "TXT": ("check_rbl_txt('zt', '@zone.example')", "TXT", lambda t: True),
    "TXTSUB": ("check_rbl_txt('zt', '@zone.example', '.*(?i)(?:BAD|worse)')".replace(".*(?i)", "(?i).*"), "TXT", lambda t: "bad" in t.lower() or "worse" in t.lower()),
    "BIT1": ("check_rbl_sub('z', '1')", "A", lambda t: int(t.split(".")[3]) & 1),
    "BIT2": ("check_rbl_sub('z', '2')", "A", lambda t: int(t.split(".")[3]) & 2),
    "BIT4": ("check_rbl_sub('z', '4')", "A", lambda t: int(t.split(".")[3]) & 4),
    "BIT256": ("check_rbl_sub('z', '256')", "A", lambda t: int(t.split(".")[2]) & 1),
    "SUB2": ("check_rbl_sub('z', '127.0.0.2')", "A", lambda t: {"127.0.0.2": True, "127.0.0.3": None, "127.0.1.2": None}.get(t, False)),
    "SUB4": ("check_rbl_sub('z', '127.0.0.4')", "A", lambda t: t == "127.0.0.4"),
    "SUB3": ("check_rbl_sub('z', '127.0.0.3')", "A", lambda t: t == "127.0.0.3"),
    "OTHER": ("check_rbl_sub('unknown', '127.0.0.3')", "A", None),
    "ACC": ("check_rbl_accreditor('zc', '@zone.example', '127\\.0\\.0\\.2', 'tag')", "A", lambda t: t == "127.0.0.2"),
    "NOACC": ("check_rbl_accreditor('zc', '@zone.example', '127', 'absent')", "A", None),
}
ANSWERS = {"two": ["127.0.0.2"], "three": ["127.0.0.3"], "several": ["127.0.0.4", "127.0.1.2"], "none": None, "bad": ["BAD one"], "empty": [], "mild": ["fine"]}
# for one relay: (A, TXT)
STATES = [("none", "none"), ("two", "mild"), ("three", "bad"), ("several", "none"), ("timeout", "timeout"), ("servfail", "bad"), ("two", "form")]
FAILED = {"timeout": "Timeout", "servfail": "NoNameservers", "form": "FormError"}
_sets = {}


def ruleset(networks, rules):
    key = (os.getpid(), networks, rules)
    if key not in _sets:
        text = PLUGINS + networks
        for name in rules:
            text += "header %s eval:%s\n" % (name, RULES[name][0].replace("@zone", name.lower() if "_sub" not in RULES[name][0] and name != "PLAIN" else "plain"))
        if len(_sets) > 60:
            _sets.clear()
        _sets[key] = env.build(text)
    return _sets[key]


def failure(name):
    import dns.exception
    import dns.resolver
    if name == "noanswer":
        return dns.resolver.NXDOMAIN()
    return getattr(dns.exception, FAILED[name], None) and getattr(dns.exception, FAILED[name])() or getattr(dns.resolver, FAILED[name])()


class Answers(object):
    def __init__(self, states):
        # reversed address -> (A, TXT)
        self.states = states

    def get(self, key):
        name, qtype = key
        for rev, (a, txt) in self.states.items():
            if name.startswith(rev + "."):
                what = a if qtype == "A" else txt
                return failure(what) if what in FAILED else ANSWERS[what]
        return None


def mail(chain, sender="s@plain.example", extra=""):
    out = ""
    for i, r in enumerate(chain):
        out += "Received: from h%d.example (h%d.example [%s]) by in.example (Postfix) with SMTP id X%d%s; Mon, 1 Jan 2018 0%d:00:00 +0000\n" % (
            i, i, RELAYS[r][0] if r in RELAYS else r, i, " (envelope-from <%s>)" % sender if i == 0 and sender else "", 9 - i)
    return out + extra + "Subject: x\n\none\n"


def zone(rule):
    return ("plain" if "_sub" in RULES[rule][0] or rule == "PLAIN" else rule.lower()) + ".example"


def judge(rec, key, rule, rs, text, must, may, states, **info):
    """must: the relays that are asked about; may: that may be."""
    rec.step()
    env.DNS.reset()
    env.DNS.answers = Answers(dict((RELAYS[r][1], s) for r, s in states.items()))
    hit = rule in env.matched(env.check(rs, text))
    dummy, qtype, subtest = RULES[rule]
    info.update(rule=rule, states=states)
    if subtest is None:
        rec.check(key + "/off", (hit, [q for q in env.DNS.queries if not q[0].endswith("." + zone("PLAIN"))]), (False, []), **info)
        return
    verdicts = []
    for r in must:
        what = states.get(r, ("none", "none"))[qtype == "TXT"]
        if what not in FAILED and ANSWERS[what]:
            verdicts += [subtest(t) for t in ANSWERS[what]]
    asked = set(env.DNS.queries)
    want = set((RELAYS[r][1] + "." + zone(rule), qtype) for r in must)
    allowed = want | set((RELAYS[r][1] + "." + zone(rule), qtype) for r in may)
    if None in verdicts and not any(verdicts):
        hit = None
    else:
        rec.check(key + "/match", hit, any(verdicts), **info)
    if not asked <= allowed:
        rec.fail(key + "/asked", "asks for %s, not only %s" % (sorted(asked), sorted(want)), **info)
    if not hit and hit is not None and not want <= asked:
        rec.fail(key + "/missing", "asks only for %s, not %s" % (sorted(asked), sorted(want)), **info)


def run_chains(case, rec):
    """Which relays are asked about."""
    chain, n = case
    networks, trusted = NETWORKS[n]
    rec.state(case)
    must = [r for r in dict.fromkeys(chain) if r not in trusted and r != "p"]
    may = [r for r in chain if r not in trusted]
    for rule in ("PLAIN", "DOT", "LAST", "NEVER", "TXT", "BIT2", "SUB3"):
        rs = ruleset(networks, ("PLAIN", "DOT") if rule in ("PLAIN", "DOT") else (rule, "PLAIN"))
        if len(chain) > 2 and rule not in ("DOT", "BIT2"):
            continue
        # Two rules share a zone, so judge the queries of one rule at a time.
        rs = ruleset(networks, (rule,) if "_sub" not in RULES[rule][0] else ("PLAIN", rule))
        if rule == "LAST":
            continue
        judge(rec, "chains", rule, rs, mail(chain), must, may, {}, chain=chain, networks=networks)
    for r in must[-1:]:
        judge(rec, "chains/listed", "PLAIN", ruleset(networks, ("PLAIN",)), mail(chain), must, may, {r: ("two", "bad")}, chain=chain, networks=networks)
    for r in trusted:
        judge(rec, "chains/trusted", "PLAIN", ruleset(networks, ("PLAIN",)), mail(chain), must, may, {r: ("two", "bad")}, chain=chain, networks=networks)
    rec.trace()


def run_answers(case, rec):
    chain, states = case
    for rule in RULES:
        if rule == "LAST":
            continue
        rec.state((case, rule))
        rs = ruleset("", (rule,) if "_sub" not in RULES[rule][0] else ("PLAIN", rule))
        judge(rec, "answers", rule, rs, mail(chain, extra="Accreditor: other, x; tag, y\n"), list(chain), [], dict(zip(chain, states)), chain=chain)
    rec.trace()


# Rules about domains: (rule, addresses -> names asked)
DOMAINS = {
    "ENV": "check_rbl_envfrom('e', 'dom.example')", "ENVSUB": "check_rbl_envfrom('e', 'dom.example.', '^127\\.0\\.0\\.[23]$')", "FROM": "check_rbl_from_domain('f', 'dom.example.')", "FROMSUB": "check_rbl_from_domain('f', 'dom.example', '127.0.0.4')",
    "HOST": "check_rbl_from_host('h', 'dom.example')", "SENDER": "check_dns_sender()",
}
SENDERS = ["", "a@one.example", "b@two.example", "odd@x@one.example", "C@ONE.example", "plus+tag@sub.one.example"]
FROMS = [[], ["a@one.example"], ["Name <b@two.example>"], ["a@one.example, b@two.example"], ["a@one.example", "b@two.example"], ["\"x@y\" <c@sub.one.example>"], ["undisclosed"], ["<>"]]
DOMSTATES = [{}, {"one.example": ["127.0.0.2"]}, {"two.example": ["127.0.0.4"]}, {"one.example": ["127.0.0.4", "127.0.0.3"], "two.example": "timeout"}, {"one.example": "servfail", "sub.one.example": ["127.0.0.9"]}]


def authors(froms):
    out = []
    for f in froms:
        f = f.split(",")[0]
        f = f.split("<")[-1].rstrip(">")
        if "@" in f:
            out.append(f.split("@")[-1].lower())
    return out


def run_domains(case, rec):
    sender, n, m, rule = case
    froms, listed = FROMS[n], DOMSTATES[m]
    key = (os.getpid(), "domains", rule)
    if key not in _sets:
        _sets[key] = env.build(PLUGINS + "header %s eval:%s\n" % (rule, DOMAINS[rule]))
    rs = _sets[key]
    rec.state(case)
    rec.step()
    env.DNS.reset()

    class Named(object):
        def get(self, key):
            name = key[0]
            if name.endswith(".dom.example"):
                name = name[:-len(".dom.example")]
            res = listed.get(name)
            return failure(res) if isinstance(res, str) else res
    env.DNS.answers = Named()
    text = mail("a", sender, "".join("From: %s\n" % f for f in froms))
    hit = rule in env.matched(env.check(rs, text))
    asked = env.DNS.queries
    info = dict(rule=rule, sender=sender, froms=froms, listed=listed)
    if rule == "SENDER":
        name = sender.split("@")[-1].lower()
        if not sender:
            return
        res = listed.get(name)
        rec.check("domains/sender", hit, res is None, **info)
        if set(q[0] for q in asked) != {name}:
            rec.fail("domains/sender/asked", "asks for %s" % asked, **info)
        rec.trace()
        return
    if rule.startswith("ENV"):
        if not sender:
            return
        names = [sender.split("@")[-1].lower()]
    else:
        names = authors(froms)
        if any("undisclosed" in f for f in froms):
            return
    answers = [t for n in names for t in (listed.get(n) or []) if not isinstance(listed.get(n), str)]
    want = any(rule.endswith("SUB") is False or t in {"ENVSUB": ("127.0.0.2", "127.0.0.3"), "FROMSUB": ("127.0.0.4",)}[rule] for t in answers)
    rec.check("domains/match", hit, want, **info)
    wanted = set((n + ".dom.example", "A") for n in names)
    if not set(asked) <= wanted:
        rec.fail("domains/asked", "asks for %s, not only %s" % (asked, sorted(wanted)), **info)
    if not hit and set(asked) != wanted:
        rec.fail("domains/missing", "asks for %s, not %s" % (asked, sorted(wanted)), **info)
    rec.trace()


def run_accreditors(case, rec):
    sender, headers = case
    rs = ruleset("", ("ACC",))
    tags = [h.split(",")[0].strip() for v in headers for h in v.split(";")]
    local = sender.split("@")[-1] if "@" in sender else ""
    if "a--" in sender:
        tags.append(sender.split("a--")[1].split(".")[0])
    rec.state(case)
    rec.step()
    env.DNS.reset()
    env.DNS.answers = Answers({RELAYS["a"][1]: ("two", "none")})
    hit = "ACC" in env.matched(env.check(rs, mail("a", sender, "".join("Accreditor: %s\n" % h for h in headers))))
    rec.check("accreditors", (hit, bool(env.DNS.queries)), ("tag" in tags, "tag" in tags), sender=sender, headers=headers)
    rec.trace()


def spaces(tier):
    from mc.core import Space
    deep = tier == "thorough"
    chains = [("".join(c), n) for r in range(5 if deep else 4) for c in itertools.product(RELAYS, repeat=r) for n in range(len(NETWORKS))]
    answers = [(c, s) for c in ("", "a", "6", "ab", "b6") + (("abc", "cb6") if deep else ("abc",)) for s in itertools.product(STATES, repeat=len(c))]
    domains = [(s, n, m, r) for s in SENDERS for n in range(len(FROMS)) for m in range(len(DOMSTATES)) for r in DOMAINS]
    tags = ["tag", "other", "tag, 1; other", "other; tag", "tags", "x,tag", " tag "]
    acc = [(s, h) for s in ("s@plain.example", "o@a--tag.x.example", "o@x.a--tag.y.example", "o@a--other.x.example", "a--tag@x.example") for r in range(3) for h in itertools.product(tags, repeat=r) if s != "a--tag@x.example"]
    return [
        Space("chains", chains, run_chains, "relays that are asked about"),
        Space("answers", answers, run_answers, "answers and failures"),
        Space("domains", domains, run_domains, "rules about senders and authors"),
        Space("accreditors", acc, run_accreditors, "accreditor tags"),
    ]
