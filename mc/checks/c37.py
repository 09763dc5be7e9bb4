"""C37: the SPF rules tell the SPF result for the boundary relay."""
import fnmatch
import itertools

from mc import env

TECHNIQUE = "exhaustive enumeration of SPF answers x relay chains x senders x recorded results (values, positions, options) x histories on the real plugin with a simulated SPF library, against an independent model of the choice"
LEVEL_NOTE = "All pairs of results for the two identities over all chains of up to 3 relays; all sequences of up to 2 (3 in thorough) of 19 Received-SPF headers over the positions of a chain with 3 orders of preference; all Authentication-Results of a pool at every position; all lists of up to 2 of 12 entries x senders x results; all histories of 2 (3) messages."
ASSUMPTIONS = ["the SPF library evaluates a record correctly", "which relays are internal is C23, the envelope sender C24", "entries of the lists with a question mark, several Authentication-Results headers and a Received-SPF header beside them are not judged"]

RESULTS = ("pass", "neutral", "none", "fail", "softfail", "permerror", "temperror")
CONF = "loadplugin oa.plugins.spf.SpfPlugin\ntrusted_networks 45.1.0.0/16 45.2.0.0/16\ninternal_networks 45.2.0.0/16\nbody TEXT /one/\n"
for r in RESULTS:
    CONF += "header M_%s eval:check_for_spf_%s()\nheader H_%s eval:check_for_spf_helo_%s()\n" % (r, r, r, r)
CONF += "header WL eval:check_for_spf_whitelist_from()\nheader DEFWL eval:check_for_def_spf_whitelist_from()\n"
ADDR = {"I": "45.2.0.%d", "T": "45.1.0.%d", "X": "8.8.8.%d"}
ORDERS = {"": "oldest", "use_newest_received_spf_header 1\n": "newest", "ignore_received_spf_header 1\n": "ignore"}
# value: (identity, result)
RECORDED = {
    "pass": ("m", "pass"), "fail (x.example: domain of a@x.example does not designate 8.8.8.1)": ("m", "fail"), "softfail (x) identity=mailfrom; client-ip=8.8.8.1;": ("m", "softfail"), "neutral identity=mfrom": ("m", "neutral"),
    "none (x)\n\tidentity=helo; helo=h.example": ("h", "none"), "permerror identity=helo": ("h", "permerror"), "temperror (x) identity=helo; receiver=mx.example": ("h", "temperror"), "pass identity=none": None, "pass identity=rcpt": None,
    "Fail (x) identity=MailFrom": ("m", "fail"), "PASS": ("m", "pass"), "fail": ("m", "fail"), "softfail identity=helo": ("h", "softfail"), "SoftFail identity=HELO": ("h", "softfail"), "passing": None, "foo": None, "": None, "hardfail": None, "temperror": ("m", "temperror"),
}
AUTHRES = {
    "mx.example; spf=pass smtp.mailfrom=a@x.example": ("m", "pass"), "mx.example; spf=fail (why; not) smtp.helo=h.example": None, "mx.example; spf=fail (why) smtp.helo=h.example": ("h", "fail"), "mx.example; spf=hardfail smtp.mfrom=x.example": ("m", "fail"),
    "mx.example;\n\tdkim=pass header.d=x.example;\n\tspf=softfail smtp.mailfrom=x.example;\n\tdmarc=fail": ("m", "softfail"), "mx.example; spf=neutral": ("m", "neutral"), "mx.example; dkim=pass header.d=x.example": None,
    "mx.example; spf=Pass smtp.MailFrom=a@x.example": ("m", "pass"), "mx.example; SPF=NONE smtp.HELO=h.example": ("h", "none"), "mx.example; spf=foo smtp.mailfrom=a": None, "mx.example; none": None, "mx.example; spf = permerror": ("m", "permerror"),
}
del AUTHRES["mx.example; spf=fail (why; not) smtp.helo=h.example"]
HELOS = {"h%d.example": True, "h%d": False, "a.b%d": True}


def mail(chain, sender="s@e.example", helo="h%d.example", headers=(), body="one"):
    """headers: [(position among the relays, name, value)]."""
    text = ""
    for n in range(len(chain) + 1):
        text += "".join("%s: %s\n" % (name, value) for k, name, value in headers if min(k, len(chain)) == n)
        if n < len(chain):
            text += "Received: from %s (r%d.example [%s])\n\tby mx%d.example (Postfix) with ESMTP id X%d (envelope-from <%s>) for <u@c.example>; Mon, 1 Jan 2018 00:00:00 +0000\n" % (
                helo % n if "%d" in helo else helo, n, ADDR[chain[n]] % n, n, n, sender.replace("@", "%d@" % n) if sender else "")
    return text + "Subject: x\n\n%s\n" % body


def internal(chain):
    n = 0
    while n < len(chain) and chain[n] == "I":
        n += 1
    return n


def answers(chain, sender, helo, m, h):
    """What the SPF library says: for what should be asked about, and
    something else for anything else."""
    table = {}
    n = internal(chain)
    other = lambda r: RESULTS[(RESULTS.index(r) + 3) % len(RESULTS)]
    for i in range(len(chain)):
        ip, name = ADDR[chain[i]] % i, helo % i if "%d" in helo else helo
        for j in range(len(chain)):
            s = sender.replace("@", "%d@" % j)
            table[(ip, s, name)] = m if i == j == n else other(m)
        table[(ip, "", name)] = h if i == n else other(h)
    return table


def expected(chain, sender, helo, m, h, headers, order):
    n = internal(chain)
    got = {}
    if order != "ignore":
        seen = [RECORDED[v] for k, name, v in sorted(headers, key=lambda x: x[0]) if name == "Received-SPF" and k <= n]
        if order == "oldest":
            seen.reverse()
        for name, table in (("Authentication-Results", AUTHRES),):
            if not seen:
                seen = [table[v] for k, x, v in headers if x == name and k <= n]
        for s in seen:
            if s:
                got.setdefault(*s)
    if n < len(chain):
        if "." in helo:
            got.setdefault("h", h)
        if sender:
            got.setdefault("m", m)
    return got


_sets = {}


def ruleset(conf):
    if conf not in _sets:
        if len(_sets) > 20:
            _sets.clear()
        _sets[conf] = env.build(CONF + conf)
    return _sets[conf]


def judge(rec, key, conf, order, chain, sender, helo, m, h, headers, lists=None, body="one"):
    rec.step()
    env.SPF.reset(answers(chain, sender, helo, m, h), default="permerror")
    want = expected(chain, sender, helo, m, h, headers, order)
    rules = ["TEXT"] + ["%s_%s" % (k.upper(), v) for k, v in want.items()]
    for name in sorted(lists or {}):
        address = sender.replace("@", "%d@" % internal(chain)) if sender else ""
        if want.get("m") == "pass" and address and any(glob(p, address) for p in lists[name]):
            rules.append({"whitelist_from_spf": "WL", "def_whitelist_from_spf": "DEFWL"}[name])
    text = mail(chain, sender, helo, headers, body)
    got = env.matched(env.check(ruleset(conf), text))
    rec.check(key, sorted(got), sorted(rules), conf=conf, mail=text, answers=(m, h))


def glob(pattern, address):
    if not any(c in pattern for c in "@."):
        return False
    if "@" not in pattern:
        pattern = "*@" + pattern
    return fnmatch.fnmatchcase(address.lower(), pattern.lower())


def run_results(case, rec):
    """Every pair of results for a chain."""
    chain, sender, helo, conf = case
    rec.state(case)
    for m, h in itertools.product(RESULTS, repeat=2):
        judge(rec, "results", conf, ORDERS[conf], chain, sender, helo, m, h, ())
    rec.trace()


def run_headers(case, rec):
    """Recorded results."""
    chain, conf, values = case
    rec.state(case)
    for spots in itertools.product(range(len(chain) + 1), repeat=len(values)):
        if list(spots) == sorted(spots):
            headers = [(k, "Received-SPF", v) for k, v in zip(spots, values)]
            for sender in ("s@e.example", ""):
                judge(rec, "headers/" + ORDERS[conf], conf, ORDERS[conf], chain, sender, "h%d.example", "neutral", "none", headers)
    rec.trace()


def run_authres(case, rec):
    chain, conf, value = case
    rec.state(case)
    for k in range(len(chain) + 1):
        for sender, helo in itertools.product(("s@e.example", ""), ("h%d.example", "h%d")):
            headers = [(k, "Authentication-Results", value)]
            judge(rec, "authres", conf, ORDERS[conf], chain, sender, helo, "softfail", "neutral", headers)
            # One that cannot be trusted changes nothing.
            for j in range(internal(chain) + 1, len(chain) + 1):
                judge(rec, "authres/untrusted", conf, ORDERS[conf], chain, sender, helo, "softfail", "neutral", headers + [(j, "Received-SPF", "pass")])
    rec.trace()


ENTRIES = ["s0@e.example", "*@e.example", "e.example", "S0@E.Example", "*.example", "0@e.example", "s0@e.exam", "s0@e*", "foo", "*", "t0@e.example", "s0@eXexample"]
SENDERS = ["s@e.example", "S@E.example", "s@e.example.evil.example", "s@sub.e.example", "ts@e.example", "s@exexample", ""]


def run_lists(case, rec):
    white, deflist, form = case
    rec.state(case)
    conf = ""
    for name, entries in (("whitelist_from_spf", white), ("def_whitelist_from_spf", deflist)):
        if entries:
            conf += ("%s %s\n" % (name, " ".join(entries))) if form == "line" else "".join("%s %s\n" % (name, e) for e in entries)
    lists = {"whitelist_from_spf": white, "def_whitelist_from_spf": deflist}
    for sender, m in itertools.product(SENDERS, ("pass", "fail", "none")):
        judge(rec, "lists", conf, "oldest", "X", sender, "h%d.example", m, "pass", (), lists)
    for value in ("pass", "fail"):
        judge(rec, "lists/recorded", conf, "oldest", "X", "s@e.example", "h%d.example", "neutral", "pass", [(0, "Received-SPF", value)], lists)
    rec.trace()


MAILS = [
    ("X", "s@e.example", "h%d.example", "pass", "fail", ()), ("IX", "s@e.example", "h%d", "fail", "pass", ()), ("", "", "h", "pass", "pass", ()), ("I", "s@e.example", "h%d.example", "pass", "pass", ()),
    ("X", "", "h%d.example", "pass", "none", ()), ("X", "s@e.example", "h%d.example", "none", "none", ((0, "Received-SPF", "softfail identity=helo"), (0, "Received-SPF", "pass"))), ("TX", "t@e.example", "h%d.example", "softfail", "temperror", ((0, "Received-SPF", "foo"),)),
    ("X", "s@e.example", "h%d.example", "permerror", "none", ((0, "Authentication-Results", "mx.example; spf=pass smtp.mailfrom=a@x.example"),)),
]


def run_histories(case, rec):
    conf, history = case
    rec.state(case)
    lists = {"whitelist_from_spf": ["*@e.example"]}
    for n in history:
        chain, sender, helo, m, h, headers = MAILS[n]
        judge(rec, "histories", conf + "whitelist_from_spf *@e.example\n", ORDERS[conf], chain, sender, helo, m, h, headers, lists)
    rec.trace()


def spaces(tier):
    from mc.core import Space
    deep = tier == "thorough"
    chains = ["".join(c) for n in range(4) for c in itertools.product("ITX", repeat=n)]
    some = ["", "X", "I", "IX", "TX", "IIX", "XI", "IXX"] if deep else ["", "X", "IX", "TX", "XI"]
    values = [v for n in ((1, 2, 3) if deep else (1, 2)) for v in itertools.product(RECORDED, repeat=n)]
    lists = [e for n in (0, 1, 2) for e in itertools.combinations(ENTRIES, n)]
    small = lists[:13] if deep else lists[:4]
    return [
        Space("results", [(c, s, h, o) for c in chains for s in ("s@e.example", "") for h in HELOS for o in ORDERS], run_results, "every pair of results for every chain", chunk=4),
        Space("headers", [(c, o, v) for c in some for o in ORDERS for v in values], run_headers, "recorded results at every position", chunk=20),
        Space("authres", [(c, o, v) for c in some for o in ORDERS for v in AUTHRES], run_authres, "Authentication-Results at every position", chunk=4),
        Space("lists", [(w, d, f) for w, d in dict.fromkeys([(l, s) for l in lists for s in small] + [(s, l) for l in lists for s in small]) for f in ("line", "lines") if f == "line" or len(w) > 1 or len(d) > 1], run_lists, "lists of senders", chunk=10),
        Space("histories", [(o, h) for o in ORDERS for h in itertools.product(range(len(MAILS)), repeat=3 if deep else 2)], run_histories, "messages one after the other", chunk=10),
    ]
