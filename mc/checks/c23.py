"""C23: relays are classified by the trust boundary."""
import itertools
import re

from mc import env

TECHNIQUE = "exhaustive enumeration of relay chains up to a length over address classes and authentication, under every network configuration of a set, on the real code, against an independent classifier"
LEVEL_NOTE = "All chains of up to 3 relays over 11 address classes, authenticated or not, and of 4 (thorough 5) over fewer, with headers without relay and X-Originating-IP lines between, under 12 network configurations."
ASSUMPTIONS = ["the address classes stand for all addresses: membership itself is C25, parsing of the headers C26"]

ADDR = {
    "T": "45.1.0.%d", "I": "45.2.0.%d", "M": "45.3.0.%d", "m": "45.5.0.%d", "n": "45.1.9.%d", "X": "8.8.8.%d", "P": "10.1.0.%d", "L": "127.0.0.%d", "6": "2a00:a::%d", "i": "2a00:b::%d", "x": "2a00:1:1::%d",
}
# networks are ((first octets / prefix), accepted)
CONFIGS = [
    ("", [], [], []),
    ("trusted_networks !45.1.9.0/24 45.1.0.0/16 45.3.0.0/16 2a00:a::/48\n", ["!45.1.9.", "45.1.", "45.3.", "2a00:a::"], None, []),
    ("internal_networks 45.2.0.0/16 2a00:b::/48\n", ["45.2.", "2a00:b::"], ["45.2.", "2a00:b::"], []),
    ("trusted_networks !45.1.9.0/24 45.1.0.0/16 45.3.0.0/16 2a00:a::/48\ninternal_networks 45.2.0.0/16 2a00:b::/48\n",
     ["!45.1.9.", "45.1.", "45.3.", "2a00:a::", "45.2.", "2a00:b::"], ["45.2.", "2a00:b::"], []),
    ("trusted_networks 45.1.0.0/16 45.3.0.0/16\ninternal_networks 45.2.0.0/16\nmsa_networks 45.3.0.0/16\n", ["45.1.", "45.3.", "45.2."], ["45.2."], ["45.3."]),
    ("trusted_networks 45.1.0.0/16\ninternal_networks 45.2.0.0/16 45.3.0.0/16\nmsa_networks 45.3.0.0/16 45.5.0.0/16\n", ["45.1.", "45.2.", "45.3."], ["45.2.", "45.3."], ["45.3.", "45.5."]),
    ("msa_networks 45.3.0.0/16\n", [], [], ["45.3."]),
    ("trusted_networks 45.1.0.0/16 45.3.0.0/16\nmsa_networks !45.3.0.0/30 45.3.0.0/16 45.1.0.1\n", ["45.1.", "45.3."], None, ["!45.3.0.1$", "!45.3.0.2$", "!45.3.0.3$", "45.3.", "45.1.0.1$"]),
    ("trusted_networks 10.0.0.0/8 45.1.0.0/16\ninternal_networks 10.1.0.0/16\n", ["10.", "45.1."], ["10.1."], []),
    ("trusted_networks 45.1.0.0/16\nclear_trusted_networks\n", [], [], []),
    ("trusted_networks !0.0.0.0/0\n", ["!"], None, []),
    ("trusted_networks 0.0.0.0/0 ::/0\ninternal_networks 45.2.0.0/16\n", [""], ["45.2."], []),
]
CLASSES = [c + a for c in "TIMmnXPL6ix" for a in ("", "a")]
FEW = ["T", "I", "M", "X", "P", "L", "n", "Xa", "Ta", "Ma", "-"]
TAGS = ("TRUSTED", "UNTRUSTED", "INTERNAL", "EXTERNAL")
REPORT = "clear_report_template\nreport t_RELAYSTRUSTED_\nreport u_RELAYSUNTRUSTED_\nreport i_RELAYSINTERNAL_\nreport e_RELAYSEXTERNAL_\nreport l _LASTEXTERNALIP_ _LASTEXTERNALRDNS_ _LASTEXTERNALHELO_\n"


def member(ip, nets):
    for n in nets:
        neg, n = n.startswith("!"), n.lstrip("!")
        if n.endswith("$") and ip == n[:-1] or not n.endswith("$") and ip.startswith(n):
            return not neg
    return False


def classify(relays, conf):
    """[(trusted, internal, msa)] of these (ip, authenticated) relays."""
    dummy, trusted, internal, msa = conf
    internal = trusted if internal is None else internal
    loop = lambda ip: ip.startswith("127.") or ip == "::1"
    configured = bool(trusted or internal or msa)
    t = i = True
    found = False
    out = []
    for ip, auth in relays:
        here = 0
        if not found and t:
            if configured:
                t = bool(auth or loop(ip) or member(ip, trusted))
                i = t and i and bool(auth or loop(ip) or member(ip, internal))
                if t and member(ip, msa):
                    found = here = 1
            else:
                t = i = bool(auth or loop(ip) or ip.startswith("10."))
        out.append((t, i, here))
    return out


def make(chain):
    """Headers and [(ip, auth, helo, rdns, by)] of a chain."""
    text, relays = "", []
    for n, c in enumerate(chain, 1):
        if c == "-":
            text += "Received: from hx%d by mx with SMTP id Y%d; Mon, 1 Jan 2018 00:00:00 +0000\n" % (n, n)
            continue
        if c == "o":
            continue
        ip = ADDR[c[0]] % n
        shown = "IPv6:" + ip if ":" in ip else ip
        auth = "ESMTPA" if c.endswith("a") else ""
        text += "Received: from h%d.example (r%d.example [%s])\n\tby mx%d.example (Postfix) with %s id X%d; Mon, 1 Jan 2018 00:00:00 +0000\n" % (n, n, shown, n, auth or "ESMTP", n)
        relays.append((ip, auth, "h%d.example" % n, "r%d.example" % n, "mx%d.example" % n, "X%d" % n))
    if "o" in chain:
        text += "X-Originating-IP: 8.8.4.4\n"
        relays.append(("8.8.4.4", "", "", "", "", ""))
    return text + "Subject: x\n\nbody\n", relays


def one(rs, conf, chain, rec):
    text, relays = make(chain)
    msg = env.message(rs, text)
    rec.step()
    rec.state((conf[0], chain))
    got = rs.get_report(msg).split("\n")
    cls = classify([r[:2] for r in relays], conf)
    lists = dict((k, []) for k in TAGS)
    for r, (t, i, m) in zip(relays, cls):
        ip, auth, helo, rdns, by, rid = r
        tag = "[ ip=%s rdns=%s helo=%s by=%s ident= envfrom= intl=%d id=%s auth=%s msa=%d ]" % (ip, rdns, helo, by, i, rid, auth, m)
        lists["TRUSTED" if t else "UNTRUSTED"].append((r, tag))
        lists["INTERNAL" if i else "EXTERNAL"].append((r, tag))
    want = ["%s%s" % (k[0].lower(), " ".join(x[1] for x in lists[k])) for k in TAGS]
    if got[:4] != want:
        rec.fail("%s|%s" % (CONFIGS.index(conf), ",".join(chain)), "chain %s under %r: %r, expected %r" % (chain, conf[0], got[:4], want), message=text, config=conf[0])
        return
    if lists["EXTERNAL"]:
        r = lists["EXTERNAL"][0][0]
        rec.check("last|%s|%s" % (CONFIGS.index(conf), ",".join(chain)), got[4], "l %s %s %s" % (r[0], r[3], r[2]), message=text)
    for name, k in (("trusted_relays", "TRUSTED"), ("untrusted_relays", "UNTRUSTED"), ("internal_relays", "INTERNAL"), ("external_relays", "EXTERNAL")):
        rec.check("%s|%s|%s" % (name, CONFIGS.index(conf), ",".join(chain)), [r["ip"] for r in getattr(msg, name)], [x[0][0] for x in lists[k]], message=text)


def run(case, rec):
    n, start, classes, more = case
    conf = CONFIGS[n]
    rs = env.build("originating_ip_headers X-Originating-IP\n" + conf[0] + REPORT)
    for rest in itertools.product(classes, repeat=more):
        one(rs, conf, start + rest, rec)
    rec.trace()


def spaces(tier):
    from mc.core import Space
    deep = tier == "thorough"
    full = range(len(CONFIGS))
    cases = [(n, (), CLASSES, k) for n in full for k in (0, 1)] + [(n, (a,), CLASSES, 1) for n in full for a in CLASSES]
    cases += [(n, (a, b), CLASSES, 1) for n in full for a in CLASSES for b in CLASSES]
    few = FEW + ["o"]
    k = 3 if deep else 2
    deepc = [(n, (a, b), few, k) for n in (full if deep else (0, 1, 3, 4, 5, 7)) for a in few for b in few]
    out = [Space("chains", cases, run, "every chain of up to 3 relays", chunk=4), Space("longer", deepc, run, "every chain of %d relays of fewer classes, headers without relay and originating addresses among them" % (k + 2), chunk=2, timeout=300)]
    if deep:
        out.append(Space("full-4", [(n, (a, b), CLASSES, 2) for n in full for a in CLASSES for b in CLASSES], run, "every chain of 4 relays of all classes", chunk=1, timeout=300))
    return out
