"""C47: the relay rules judge the relays beyond the trust boundary."""
import itertools

from mc import env

TECHNIQUE = "exhaustive enumeration of relay chains (address x reverse name x HELO x name of the receiver) x senders x histories on the real plugin, against an independent model of each rule"
LEVEL_NOTE = "All relays of a product of 4 addresses, 6 reverse names, 15 HELO names and 4 receivers alone and behind a trusted one, all pairs of a pool of them, all chains of 3 (4 in thorough) of a smaller pool, all From headers x chains, all histories of 2 messages (3 in thorough)."
ASSUMPTIONS = ["parsing of the Received headers is C26, which relays are trusted C23", "addresses are IPv4 ones", "a relay at a private address that says HELO with a public address is not judged"]

CONF = """loadplugin oa.plugins.relay_eval.RelayEval
trusted_networks 45.1.0.0/16
header NUMERIC eval:check_for_numeric_helo()
header TRUSTED eval:check_all_trusted()
header NONE eval:check_no_relays()
header NOREV eval:check_for_sender_no_reverse()
header FROMIN eval:check_for_from_domain_in_received_headers("example.org", "true")
header FROMOUT eval:check_for_from_domain_in_received_headers("example.org", "false")
header TRAIL eval:check_for_forged_received_trail()
header IPHELO eval:check_for_forged_received_ip_helo()
header MISMATCH eval:helo_ip_mismatch()
header DOTCOM eval:check_for_no_rdns_dotcom_helo()
body TEXT /one/
"""
BIG = ("lycos.com", "lycos.co.uk", "hotmail.com", "localhost.com", "excite.com", "caramail.com", "cs.com", "aol.com", "msn.com", "yahoo.com", "drizzle.com")
IPS = ("45.1.0.9", "8.8.8.8", "10.0.0.1", "100.64.1.1")
RDNS = ("", "mail.example.org", "relay.other.net", "localhost", "a.b.c.co.uk", "1st.mail.other.net")
HELOS = ("mail.example.org", "8.8.8.8", "8.8.8.9", "8.8.9.9", "8.9.9.9", "9.8.8.8", "10.1.1.1", "172.16.5.5", "172.32.5.5", "mx.aol.com", "aol.com", "xaol.com", "aol.com.evil.net", "lycos.co.uk", "localhost")
BYS = ("mx.example.org", "in.other.net", "localhost", "2nd.gate.example.org")
assert len(IPS) == 4 and len(RDNS) == 6 and len(HELOS) == 15 and len(BYS) == 4


def mail(chain, sender="a@example.org"):
    text = ""
    for n, (ip, rdns, helo, by) in enumerate(chain):
        text += "Received: from %s (%s [%s])\n\tby %s (Postfix) with ESMTP id X%d for <u@c.example>; Mon, 1 Jan 2018 00:00:00 +0000\n" % (helo, rdns or "unknown", ip, by, n)
    return text + "From: %s\nSubject: x\n\none\n" % sender


def numbers(name):
    parts = name.split(".")
    return [int(p) for p in parts] if len(parts) == 4 and all(p.isdigit() for p in parts) else None


def private(ip):
    a = numbers(ip)
    return a[0] in (10, 127) or a[:2] in ([192, 168], [169, 254]) or a[0] == 172 and 16 <= a[1] < 32 or a[0] == 100 and 64 <= a[1] < 128


def domain(name):
    """example.org for mail.example.org, b.co.uk for a.b.co.uk."""
    if numbers(name):
        return name
    parts = name.lower().split(".")
    return ".".join(parts[-2:] if len(parts[-1]) > 2 or parts[-1] in ("ie", "fr", "de") else parts[-3:])


def expected(chain, sender):
    n = 0
    while n < len(chain) and chain[n][0].startswith("45.1."):
        n += 1
    out = chain[n:]
    rules = ["TEXT"]
    public = [r for r in out if numbers(r[2]) and not private(r[2])]
    if public:
        rules.append("NUMERIC")
    if chain and not out:
        rules.append("TRUSTED")
    if not chain:
        rules.append("NONE")
    if out and "." in out[-1][1] and not private(out[-1][0]):
        rules.append("NOREV")
    if sender.rsplit("@", 1)[-1].rstrip(">") == "example.org":
        rules.append("FROMIN" if any("example.org" in r[1] and "example.org" in r[3] for r in chain) else "FROMOUT")
    named = [r for r in out if "." in r[3]]
    if sum(1 for a, b in zip(out, out[1:]) if "." in b[3] and "." in a[1] and a[1] != domain(b[3]) and (domain(b[3]), a[1]) != ("msn.com", "hotmail.com")) > 1:
        rules.append("TRAIL")
    if any(r in public and numbers(r[2])[:2] != numbers(r[0])[:2] for r in named):
        rules.append("IPHELO")
    if any(numbers(r[2])[:3] != numbers(r[0])[:3] for r in public):
        rules.append("MISMATCH")
    last = [r for r in out if not private(r[0])][-1:]
    if last and not last[0][1] and any(last[0][2] == b or last[0][2].endswith("." + b) for b in BIG):
        rules.append("DOTCOM")
    return rules


_set = []


def judge(rec, key, chain, sender="a@example.org"):
    if any(private(r[0]) and numbers(r[2]) and not private(r[2]) for r in chain):
        return   # which address is the relay's is C26
    rec.step()
    if not _set:
        _set.append(env.build(CONF))
    text = mail(chain, sender)
    got = env.matched(env.check(_set[0], text))
    rec.check(key, sorted(got), sorted(expected(chain, sender)), mail=text)


def run_single(case, rec):
    ip, rdns = case
    rec.state(case)
    for helo, by in itertools.product(HELOS, BYS):
        relay = (ip, rdns, helo, by)
        judge(rec, "single", [relay])
        judge(rec, "single/behind", [("45.1.0.1", "in.example.org", "9.9.9.9", "mx.example.org"), relay])
        judge(rec, "single/before", [relay, ("8.8.4.4", "r.other.net", "r.other.net", "mx.example.org")])
    rec.trace()


def run_chain(case, rec):
    chain, lasts = case
    rec.state(tuple(chain))
    for last in lasts:
        judge(rec, "chain", list(chain) + [last])
    rec.trace()


SENDERS = ["a@example.org", "A <a@example.org>", "a@other.net", "a@sub.example.org", "a@notexample.org", "a@example.org.evil.net", "example.org", "\"x@example.org\" <a@other.net>", "a@other.net (x@example.org)"]


def run_senders(case, rec):
    rec.state(tuple(case))
    for sender in SENDERS:
        judge(rec, "senders", case, sender)
    rec.trace()


def run_big(case, rec):
    rec.state(case)
    for name in BIG:
        for helo in (name, "mx." + name, "x" + name, name + ".net", name[:-1], name.replace(".", "x", 1)):
            judge(rec, "big", [case + (helo, "mx.example.org")])
    rec.trace()


MAILS = [
    [], [("45.1.0.1", "in.example.org", "in.example.org", "mx.example.org")], [("8.8.8.8", "", "9.9.9.9", "mx.example.org")],
    [("8.8.8.8", "a.other.net", "a", "mx.example.org"), ("8.8.4.4", "b.third.net", "b", "mx.example.org"), ("8.8.4.5", "c.third.net", "c", "mx.fourth.net")],
    [("8.8.8.8", "mail.example.org", "a", "mx.example.org")], [("8.8.8.8", "", "aol.com", "localhost")],
]


def run_histories(case, rec):
    rec.state(case)
    for n in case:
        judge(rec, "histories", MAILS[n], "a@other.net" if n == 4 else "a@example.org")
    rec.trace()


def spaces(tier):
    from mc.core import Space
    deep = tier == "thorough"
    pool = [(ip, rdns, helo, by) for ip in ("45.1.0.9", "8.8.8.8", "10.0.0.1") for rdns in ("", "mail.example.org", "relay.other.net") for helo in ("mail.example.org", "9.9.9.9", "mx.aol.com") for by in ("mx.example.org", "localhost")]
    names = [(ip, rdns, helo, by) for ip, helo in (("8.8.8.8", "x"), ("45.1.0.2", "7.7.7.7")) for rdns in ("", "example.org", "1st.example.org", "c.b.co.uk", "bb.co", "hotmail.com") for by in ("mx.example.org", "in.msn.com", "d.c.b.co.uk", "1st.mx.hotmail.com")]
    few = names[:6] + names[6::4]
    return [
        Space("single", [(i, r) for i in IPS for r in RDNS], run_single, "one relay", chunk=1),
        Space("pairs", [((a,), pool) for a in pool], run_chain, "two relays", chunk=4),
        Space("chains", [((a, b), names if deep else names[:24]) for a in names[:24] for b in names[:24]] + [((a, b, c), few) for a in few for b in few for c in few if deep], run_chain, "three relays and more, by their names", chunk=8),
        Space("mixed", [((a, b), few) for a in few for b in few], run_chain, "three relays, trusted and not", chunk=8),
        Space("senders", [[a] for a in pool] + [[a, b] for a in pool[::3] for b in pool[::3]], run_senders, "sender domains", chunk=10),
        Space("big", [("8.8.8.8", ""), ("8.8.8.8", "r.other.net"), ("10.0.0.1", "")], run_big, "large providers", chunk=1),
        Space("histories", list(itertools.product(range(len(MAILS)), repeat=3 if deep else 2)), run_histories, "messages one after the other", chunk=6),
    ]
