"""C44: the DKIM rules say what the verification of the signature says."""
import itertools
import os

from mc import env, universe

TECHNIQUE = "exhaustive enumeration of signed messages x published keys x lists x evaluation orders on the real code (with the real DKIM library), compared with an independent model of the result"
LEVEL_NOTE = "Every combination of 25 signatures and alterations, 8 authors, 9 key records and 3 key size limits, with each of the rules evaluated first in turn; 9 whitelist configurations."
ASSUMPTIONS = ["the dkim library decides whether a single signature verifies", "only the topmost signature counts, and only one by a domain of an author (pinned by the existing tests)"]

TEXT = "To: u@c.example\nSubject: signed\n\nsigned text\nline two\n"
CONF = """loadplugin oa.plugins.dkim.DKIMPlugin
header SIGNED eval:check_dkim_signed()
header VALID eval:check_dkim_valid()
header AUTHOR eval:check_dkim_valid_author_sig()
header VALID_DK eval:check_dkim_valid('dk.example')
header VALID_SUB eval:check_dkim_valid('k.example')
header VALID_OTHER eval:check_dkim_valid('other.example')
header AUTHOR_DK eval:check_dkim_valid_author_sig('dk.example')
header AUTHOR_LIST eval:check_dkim_valid_author_sig('a.example', 'dk.example')
header WL eval:check_for_dkim_whitelist_from()
header DEFWL eval:check_for_def_dkim_whitelist_from()
body TEXT /signed/
"""
RULES = ("SIGNED", "VALID", "AUTHOR", "VALID_DK", "VALID_SUB", "VALID_OTHER", "AUTHOR_DK", "AUTHOR_LIST", "WL", "DEFWL")

FROM = {  # header, author addresses
    "plain": ("a@dk.example", ["a@dk.example"]),
    "named": ('"A, B" <a@dk.example>', ["a@dk.example"]),
    "case": ("a@DK.Example", ["a@DK.Example"]),
    "other": ("a@other.example", ["a@other.example"]),
    "two": ("b@other.example, a@dk.example", ["b@other.example"]),
    "first": ("a@dk.example, b@other.example", ["a@dk.example"]),
    "headers": ("b@other.example\nFrom: a@dk.example", ["b@other.example", "a@dk.example"]),
    "under": ("a@dk.example.evil.example", ["a@dk.example.evil.example"]),
}


def sub(old, new):
    def alter(text):
        assert old in text, text
        return text.replace(old, new, 1)
    return alter


def tag(name, value):
    """Replace the value of a tag of the signature."""
    def alter(text):
        head, body = text.split("\n\n", 1)
        sig, rest = head.split("\nFrom:", 1)
        key, tags = sig.split(":", 1)
        parts = [t for t in tags.replace("\n", "").split(";") if t.strip()]
        new = []
        for t in parts:
            k, v = t.split("=", 1)
            if k.strip() == name:
                if value is None:
                    continue
                v = value(v.strip()) if callable(value) else value
            new.append(" %s=%s" % (k.strip(), v))
        if name not in [t.split("=")[0].strip() for t in parts]:
            new.append(" %s=%s" % (name, value))
        return key + ":" + ";".join(new) + "\nFrom:" + rest + "\n\n" + body
    return alter


def garbage(value):
    return lambda text: "DKIM-Signature: %s\nFrom:" % value + text.split("\nFrom:", 1)[1]


def flip(v):
    return v[:10] + ("A" if v[10] != "A" else "B") + v[11:]


# (alteration, is there a signature with its domain, does it still verify)
ALTER = {
    "none": (lambda t: t, True),
    "added-header": (lambda t: "X-New: yes\n" + t, True),
    "added-top": (lambda t: "Received: from a by b; Mon, 1 Jan 2018 00:00:00 +0000\n" + t, True),
    "trailing-blank": (lambda t: t + "\n\n", True),
    "body": (sub("signed text", "other text"), False),
    "body-append": (lambda t: t + "more\n", False),
    "body-case": (sub("line two", "Line two"), False),
    "subject": (sub("Subject: signed", "Subject: other"), False),
    "to": (sub("To: u@", "To: v@"), False),
    "removed": (sub("Subject: signed\n", ""), False),
    "second-from": (sub("To: u@", "From: z@dk.example\nTo: u@"), False),
    "b": (tag("b", flip), False),
    "bh": (tag("bh", flip), False),
    "v": (tag("v", "2"), False),
    "no-v": (tag("v", None), False),
    "no-h": (tag("h", None), False),
    "a": (tag("a", "rsa-sha1"), False),
    "unknown-a": (tag("a", "ed25519-sha256"), False),
    "c": (tag("c", "foo/bar"), False),
    "selector": (tag("s", "none"), False),
    "expired": (tag("x", "1000000000"), False),
    "i": (tag("i", "x@else.example"), False),
    "duplicate": (lambda t: t.replace("; v=1", "", 1).replace("DKIM-Signature:", "DKIM-Signature: d=dk.example;", 1), False),
    "bad-l": (tag("l", "x"), False),
    "bad-b": (tag("b", "%%%"), False),
}
NODOMAIN = {"unsigned": None, "garbage": "foo", "blank": " ", "novalue": "v=1; foo", "nodomain": "v=1; a=rsa-sha256; b=abcd; bh=abcd; h=from; s=sel", "nonascii": u"v=1; d=\u00e9.example; s=\u00e9"}
OTHERKEY = ("v=DKIM1; k=rsa; p=MIGfMA0GCSqGSIb3DQEBAQUAA4GNADCBiQKBgQC5N3lnvvrYgPCRSoqn+awTpE+iGYcKBPpo8HHbcFfCIIV10Hwo4PhCoGZSaKVHOjDm4yefKXhQjM7iKzEPuBatE7O47hAx1CJpNuIdLxhSEFjX"
            "+zhcKyEdJfeu9wCJSM2mzSSo3KzhvHS4+6KrIIBvSdsYfDwBuKO/ub5T1JYsjQIDAQAB")
RECORDS = {"good": universe.PUBKEY, "spaced": universe.PUBKEY.replace("; ", ";  "), "missing": None, "other": OTHERKEY, "garbage": "foo", "empty": "v=DKIM1; k=rsa; p=",
           "notkey": "v=DKIM1; p=AAAA", "nop": "v=DKIM1; k=rsa", "blank": ""}
KEYOK = ("good", "spaced")
BITS = {"": True, "dkim_minimum_key_bits 1024\n": True, "dkim_minimum_key_bits 2048\n": False}
LISTS = {  # (whitelist lines, listed patterns)
    "none": ("", []), "exact": ("whitelist_from_dkim a@dk.example\n", ["a@dk.example"]), "star": ("whitelist_from_dkim *@dk.example\n", ["*@dk.example"]),
    "domain": ("whitelist_from_dkim *@dk.example dk.example\n", ["*@dk.example"]), "elsewhere": ("whitelist_from_dkim *@dk.example else.example\n", []),
    "other": ("whitelist_from_dkim *@other.example\n", ["*@other.example"]), "dot": ("whitelist_from_dkim *@dk?example\nwhitelist_from_dkim a@d..example\n", []),
    "prefix": ("whitelist_from_dkim a@dk.exam\nwhitelist_from_dkim a@d\n", []), "unlisted": ("whitelist_from_dkim *@dk.example\nunwhitelist_from_dkim *@dk.example\n", []),
    "two": ("whitelist_from_dkim *@dk.example\nwhitelist_from_dkim *@else.example\n", ["*@dk.example"]),
    "two-domains": ("whitelist_from_dkim *@dk.example else.example\nwhitelist_from_dkim *@dk.example DK.example\n", ["*@dk.example"]),
    "any-domain": ("whitelist_from_dkim *@dk.example\nwhitelist_from_dkim *@dk.example else.example\n", ["*@dk.example"]),
    "un-other": ("whitelist_from_dkim *@dk.example\nunwhitelist_from_dkim a@dk.example\n", ["*@dk.example"]),
    "un-same": ("whitelist_from_dkim *@dk.example dk.example\nunwhitelist_from_dkim *@else.example\nunwhitelist_from_dkim *@DK.example dk.example\nunwhitelist_from_dkim q@else.example\n", []),
    "un-domain": ("whitelist_from_dkim *@dk.example dk.example\nunwhitelist_from_dkim *@dk.example else.example\n", ["*@dk.example"]),
}


def config(first, bits="", lists="star"):
    lines = CONF.split("\n")
    rules = [l for l in lines if l.startswith("header")]
    i = [l.split()[1] for l in rules].index(first)
    rules = rules[i:] + rules[:i]
    opts = LISTS[lists][0]
    opts += "".join("def_" + l for l in opts.splitlines(True) if l.startswith("whitelist"))
    return "\n".join([lines[0]] + rules + [lines[-2]]) + "\ndns_available yes\n" + bits + opts


def build(sig, frm):
    text = "From: %s\n" % FROM[frm][0] + TEXT
    if sig in NODOMAIN:
        return text if NODOMAIN[sig] is None else "DKIM-Signature: %s\n" % NODOMAIN[sig] + text
    key = (frm,)
    if key not in _signed:
        _signed[key] = universe.signed(text)
    return ALTER[sig][0](_signed[key])


_signed = {}
_sets = {}


def ruleset(*args):
    if args not in _sets:
        _sets[args] = env.build(config(*args))
    return _sets[args]


def glob(pattern, address):
    import fnmatch
    return fnmatch.fnmatchcase(address.lower(), pattern.lower().replace("[", "[[]").replace("?", "[?]"))


def expected(sig, frm, record, bits, lists):
    authors = FROM[frm][1] + (["z@dk.example"] if sig == "second-from" else [])
    domains = [a.split("@")[1].lower() for a in authors]
    out = set(["TEXT"])
    if sig in NODOMAIN or sig == "duplicate":
        return out, (sig != "unsigned" and "either")
    if "dk.example" not in domains:
        return out, False
    out.add("SIGNED")
    if ALTER[sig][1] and record in KEYOK and BITS[bits]:
        out |= {"VALID", "AUTHOR", "VALID_DK", "AUTHOR_DK", "AUTHOR_LIST"}
        mine = [a for a in authors if a.lower().endswith("@dk.example")]
        hit = any(glob(p, a) for p in LISTS[lists][1] for a in mine)
        if hit:
            out |= {"WL", "DEFWL"}
    return out, False


def judge(rec, key, case, msgtext, rs, want, loose, why):
    msg = env.check(rs, msgtext)
    got = set(env.matched(msg))
    rec.step()
    if loose:
        got.discard("SIGNED")
    if "VALID" not in want and got - want == set(["AUTHOR"]) and not want - got:
        # One defect for each reason not to verify, whoever the author is.
        sig, record, bits = why
        reason = sig if not ALTER[sig][1] else "key-" + record if record not in KEYOK else "key-size"
        rec.fail("author-sig/" + reason, "check_dkim_valid_author_sig matches a message whose signature does not verify: %s" % reason, case=case, mail=msgtext[:600])
        return
    rec.check(key, sorted(got), sorted(want), case=case, mail=msgtext[:600])


def run_first(case, rec):
    """One evaluation order, every message and key record."""
    first, bits = case
    rs = ruleset(first, bits, "star")
    for sig, frm, record in itertools.product(list(ALTER) + list(NODOMAIN), FROM, RECORDS):
        universe.world()
        env.DNS.answers.clear()
        if RECORDS[record] is not None:
            for t in ("TXT", "16"):
                env.DNS.answers[("sel._domainkey.dk.example", t)] = [RECORDS[record]]
        want, loose = expected(sig, frm, record, bits, "star")
        rec.state((case, sig, frm, record))
        judge(rec, "%s/%s/%s" % (sig, frm, record), (first, bits, sig, frm, record), build(sig, frm), rs, want, loose, (sig, record, bits))
    rec.trace()


def run_lists(case, rec):
    lists, first = case
    rs = ruleset(first, "", lists)
    universe.world()
    for sig, frm in itertools.product(list(ALTER) + list(NODOMAIN), FROM):
        want, loose = expected(sig, frm, "good", "", lists)
        rec.state((case, sig, frm))
        judge(rec, "list/%s/%s/%s" % (lists, sig, frm), (lists, first, sig, frm), build(sig, frm), rs, want, loose, (sig, "good", ""))
    rec.trace()


def run_failure(case, rec):
    """The DNS fails with an exception or an odd answer."""
    first, fault = case
    rs = ruleset(first, "", "star")
    import dns.resolver
    import dns.exception
    faults = {"nxdomain": dns.resolver.NXDOMAIN(), "timeout": dns.exception.Timeout(), "noanswer": dns.resolver.NoAnswer(), "oserror": OSError(5, "io"), "value": ValueError("x")}
    real = rs.ctxt.dns.query

    def query(*args, **kwargs):
        raise faults[fault]
    try:
        if fault != "off":
            rs.ctxt.dns.query = query
        else:
            env.DNS.reset()
        for sig, frm in itertools.product(("none", "body", "unsigned"), FROM):
            want, loose = expected(sig, frm, "missing", "", "star")
            rec.state((case, sig, frm))
            judge(rec, "fault/%s/%s/%s" % (fault, sig, frm), (first, fault, sig, frm), build(sig, frm), rs, want, loose, (sig, "missing", ""))
    finally:
        rs.ctxt.dns.query = real
        _sets.clear()
    rec.trace()


DOMAINS = ["dk.example", "DK.Example", "example", "k.example", "other.example", "sub.dk.example", "dk.example.evil"]
SIGNERS = ("dk.example", "DK.Example", "example")


def run_domains(case, rec):
    """Rules about signatures by one of several domains."""
    sig, frm, n = case
    what = [("check_dkim_" + e, a) for e in ("signed", "valid", "valid_author_sig") for a in itertools.product(DOMAINS, repeat=n)]
    if n not in _sets:
        _sets[n] = env.build("".join(["loadplugin oa.plugins.dkim.DKIMPlugin\n"] + ["header D%d eval:%s(%s)\n" % (i, e, ", ".join("'%s'" % d for d in a)) for i, (e, a) in enumerate(what)]) + "dns_available yes\n")
    universe.world()
    rec.state(case)
    base, loose = expected(sig, frm, "good", "", "none")
    got = set(env.matched(env.check(_sets[n], build(sig, frm))))
    for i, (e, a) in enumerate(what):
        rec.step()
        want = {"check_dkim_signed": "SIGNED", "check_dkim_valid": "VALID", "check_dkim_valid_author_sig": "AUTHOR"}[e] in base and any(d in SIGNERS for d in a)
        rec.check("domains/" + e, "D%d" % i in got, want, args=a, case=case)
    rec.trace()


def spaces(tier):
    from mc.core import Space
    firsts = RULES if tier == "thorough" else ("SIGNED", "VALID", "AUTHOR", "WL", "DEFWL")
    return [
        Space("orders", list(itertools.product(firsts, BITS)), run_first, "every signature x author x key record, for each rule evaluated first and each key size limit", chunk=1, timeout=240),
        Space("lists", list(itertools.product(LISTS, RULES if tier == "thorough" else ("VALID", "WL"))), run_lists, "every whitelist x signature x author", chunk=1, timeout=120),
        Space("domains", [(s, f, n) for n in ((1, 2, 3) if tier == "thorough" else (1, 2)) for s in ("none", "body", "key", "expired", "unsigned") if s in ALTER or s in NODOMAIN for f in FROM], run_domains, "rules that name up to 2 (3) domains", timeout=120),
        Space("faults", list(itertools.product(RULES, ("nxdomain", "timeout", "noanswer", "oserror", "value", "off"))), run_failure, "every rule first x DNS failure", chunk=4),
    ]
